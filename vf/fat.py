"""Writes FAT file system images with long file names."""

import struct

CLUSTER = 1024
RESERVED = 1
ROOT_ENTRIES = 512


def checksum(short_name):
    value = 0
    for byte in short_name:
        value = (((value & 1) << 7) + (value >> 1) + byte) & 0xFF
    return value


class Image:
    """A FAT12 or FAT16 image of a dictionary of paths and contents.

    A value of None is an empty directory.
    """

    def __init__(self, files):
        self.clusters = []
        self.fat = [0xFFF8, 0xFFFF]
        self.counter = 0
        self.tree = {}
        for path, data in files.items():
            segments = path.split("/")
            node = self.tree
            for segment in segments[:-1]:
                node = node.setdefault(segment, {})
            node[segments[-1]] = {} if data is None else data

    def store(self, data):
        """Stores data in a chain of clusters and returns the first."""
        if not data:
            return 0
        first = len(self.fat)
        count = (len(data) + CLUSTER - 1) // CLUSTER
        for index in range(count):
            self.clusters.append(
                data[index * CLUSTER : (index + 1) * CLUSTER].ljust(CLUSTER, b"\x00")
            )
            self.fat.append(first + index + 1)
        self.fat[-1] = 0xFFFF
        return first

    def reserve(self, count):
        first = len(self.fat)
        for index in range(count):
            self.clusters.append(b"")
            self.fat.append(first + index + 1)
        self.fat[-1] = 0xFFFF
        return first

    def entry(self, short_name, attributes, cluster, size):
        return struct.pack(
            "<11sBBBHHHHHHHI", short_name, attributes, 0, 0, 0x6000, 0x58A1, 0x58A1, 0,
            0x6000, 0x58A1, cluster, size,
        )

    def long_entries(self, name, short_name):
        data = name.encode("utf-16-le")
        if len(data) % 26:
            data += b"\x00\x00"
            data += b"\xff" * (-len(data) % 26)
        parts = [data[i : i + 26] for i in range(0, len(data), 26)]
        result = []
        for number in range(len(parts), 0, -1):
            part = parts[number - 1]
            order = number | (0x40 if number == len(parts) else 0)
            result.append(
                struct.pack(
                    "<B10sBBB12sH4s", order, part[:10], 0x0F, 0, checksum(short_name),
                    part[10:22], 0, part[22:26],
                )
            )
        return b"".join(result)

    def directory(self, node, own, parent):
        """Returns the entries of a directory; own is None for the root."""
        result = b""
        if own is not None:
            result += self.entry(b".          ", 0x10, own, 0)
            result += self.entry(b"..         ", 0x10, parent, 0)
        for name, value in node.items():
            self.counter += 1
            short_name = b"F%07dDAT" % self.counter
            result += self.long_entries(name, short_name)
            if isinstance(value, dict):
                entries = 2 + sum(
                    1 + (len(n.encode("utf-16-le")) + 25) // 26 for n in value
                )
                count = (entries * 32 + CLUSTER - 1) // CLUSTER
                first = self.reserve(count)
                data = self.directory(value, first, own or 0).ljust(count * CLUSTER, b"\x00")
                for index in range(count):
                    self.clusters[first - 2 + index] = data[
                        index * CLUSTER : (index + 1) * CLUSTER
                    ]
                result += self.entry(short_name, 0x10, first, 0)
            else:
                first = self.store(value)
                result += self.entry(short_name, 0x20, first, len(value))
        return result

    def write(self):
        root = self.directory(self.tree, None, 0)
        assert len(root) <= ROOT_ENTRIES * 32
        root = root.ljust(ROOT_ENTRIES * 32, b"\x00")
        used = len(self.clusters)
        wide = used > 3500
        count = max(used + 16, 4200) if wide else max(used + 16, 64)
        total = count + 2
        fat = self.fat + [0] * (total - len(self.fat))
        if wide:
            fat_data = struct.pack(f"<{total:d}H", *fat)
        else:
            values = [value & 0xFFF for value in fat] + [0]
            fat_data = bytearray()
            for index in range(0, total, 2):
                first, second = values[index], values[index + 1]
                fat_data += bytes(
                    [first & 0xFF, first >> 8 | (second & 15) << 4, second >> 4]
                )
        fat_sectors = (len(fat_data) + 511) // 512
        fat_data = bytes(fat_data).ljust(fat_sectors * 512, b"\x00")
        sectors = RESERVED + 2 * fat_sectors + ROOT_ENTRIES // 16 + count * (CLUSTER // 512)
        boot = struct.pack(
            "<3s8sHBHBHHBHHHIIBBBI11s8s", b"\xeb\x3c\x90", b"MSDOS5.0", 512, CLUSTER // 512,
            RESERVED, 2, ROOT_ENTRIES, sectors if sectors < 65536 else 0, 0xF8, fat_sectors,
            63, 255, 0, sectors if sectors >= 65536 else 0, 0x80, 0, 0x29, 0x12345678,
            b"NO NAME    ", b"FAT16   " if wide else b"FAT12   ",
        ).ljust(510, b"\x00") + b"\x55\xaa"
        data = boot + fat_data * 2 + root + b"".join(self.clusters)
        return data.ljust(sectors * 512, b"\x00")
