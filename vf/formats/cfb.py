"""Writer of compound files ([MS-CFB]) with streams in the root storage."""

import struct

FREE, END, FATSECT = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD


def _entry(name, kind, left, right, child, start, size):
    raw = name.encode("utf-16-le")
    return (
        raw.ljust(64, b"\0")
        + struct.pack("<HBB", len(raw) + 2, kind, 1)
        + struct.pack("<III", left, right, child)
        + bytes(16 + 4 + 8 + 8)
        + struct.pack("<IQ", start, size)
    )


def write(streams):
    """Returns the data of a compound file with {name: data}."""
    names = sorted(streams, key=lambda name: (len(name), name.upper()))
    mini = b""
    mini_fat = []
    sectors = []
    fat = []
    places = {}

    def add(data):
        if not data:
            return END
        first = len(sectors)
        count = (len(data) + 511) // 512
        for index in range(count):
            sectors.append(data[index * 512 : index * 512 + 512].ljust(512, b"\0"))
            fat.append(len(sectors) if index < count - 1 else END)
        return first

    for name in names:
        data = streams[name]
        if not data:
            places[name] = END
        elif len(data) < 4096:
            places[name] = len(mini) // 64
            count = (len(data) + 63) // 64
            for index in range(count):
                number = len(mini_fat)
                mini_fat.append(number + 1 if index < count - 1 else END)
            mini += data.ljust(count * 64, b"\0")
        else:
            places[name] = add(data)
    mini_start = add(mini)
    mini_fat_raw = b"".join(struct.pack("<I", value) for value in mini_fat)
    mini_fat_raw = mini_fat_raw.ljust((len(mini_fat_raw) + 511) // 512 * 512, b"\xff")
    mini_fat_start = add(mini_fat_raw)

    tree = {}

    def build(low, high):
        if low >= high:
            return FREE
        middle = (low + high) // 2
        tree[middle] = (build(low, middle), build(middle + 1, high))
        return middle + 1

    child = build(0, len(names))
    directory = _entry("Root Entry", 5, FREE, FREE, child, mini_start, len(mini))
    for number, name in enumerate(names):
        left, right = tree[number]
        directory += _entry(
            name, 2, left, right, FREE, places[name], len(streams[name])
        )
    while len(directory) % 512:
        directory += bytes(64) + bytes(4) + struct.pack("<III", FREE, FREE, FREE) + bytes(48)
    directory_start = add(directory)

    count = 1
    while len(sectors) + count > count * 128:
        count += 1
    fat_sectors = list(range(len(sectors), len(sectors) + count))
    fat += [FATSECT] * count
    raw = b"".join(struct.pack("<I", value) for value in fat)
    raw = raw.ljust(count * 512, b"\xff")
    for index in range(count):
        sectors.append(raw[index * 512 : index * 512 + 512])

    header = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1" + bytes(16)
    header += struct.pack("<HHHHH", 0x3E, 3, 0xFFFE, 9, 6) + bytes(6)
    header += struct.pack("<IIIII", 0, count, directory_start, 0, 4096)
    header += struct.pack(
        "<IIII", mini_fat_start, len(mini_fat_raw) // 512, END, 0
    )
    header += b"".join(struct.pack("<I", number) for number in fat_sectors)
    header = header.ljust(512, b"\xff")
    return header + b"".join(sectors)
