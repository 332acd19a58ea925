"""CPIO archives."""

import struct

from dtformats import cpio

from vf import mon, spec
from vf.fmt import Case

FORMATS = ("bin-big-endian", "bin-little-endian", "odc", "newc", "crc")


def value(rng, bits):
    return spec.random_int(rng, 8, False) & ((1 << rng.choice([bits, bits, 8])) - 1)


def entry(rng, form, offset, path, content, pad_byte=0):
    """One entry: (bytes, lines, metadata)."""
    raw_path = path.encode("utf8") + b"\0" * rng.choice([1, 1, 1, 2, 5])
    if rng.random() < 0.1:
        # What follows the end of the string is not part of the path.
        raw_path += rng.choice([b"x", b"rest", b"/\0", rng.randbytes(3)])
    path_size = len(raw_path)
    v = {}
    if form.startswith("bin"):
        for key in "device inode mode user group links special".split():
            v[key] = value(rng, 16)
        v["time"] = value(rng, 32)
        order = ">" if form == "bin-big-endian" else "<"
        head = struct.pack(
            order + "13H",
            0o070707,
            v["device"],
            v["inode"],
            v["mode"],
            v["user"],
            v["group"],
            v["links"],
            v["special"],
            v["time"] >> 16,
            v["time"] & 0xFFFF,
            path_size,
            len(content) >> 16,
            len(content) & 0xFFFF,
        )
        signature = "0x71c7"
        alignment = 2
    elif form == "odc":
        for key in "device inode mode user group links special".split():
            v[key] = value(rng, 18)
        v["time"] = value(rng, 33)
        head = b"070707" + b"".join(
            b"%06o" % v[key]
            for key in "device inode mode user group links special".split()
        )
        head += b"%011o%06o%011o" % (v["time"], path_size, len(content))
        signature = "b'070707'"
        alignment = 1
    else:
        for key in (
            "inode mode user group links time major minor smajor sminor checksum".split()
        ):
            v[key] = value(rng, 32)
        head = b"070701" if form == "newc" else b"070702"
        signature = str(head)
        form_string = rng.choice([b"%08x", b"%08X"])
        for number in (
            v["inode"],
            v["mode"],
            v["user"],
            v["group"],
            v["links"],
            v["time"],
            len(content),
            v["major"],
            v["minor"],
            v["smajor"],
            v["sminor"],
            path_size,
            v["checksum"],
        ):
            head += form_string % number
        alignment = 4
    lines = [mon.kv("Signature", signature)]
    if alignment != 4:
        lines.append(mon.kv("Device number", v["device"]))
    lines += [
        mon.kv("Inode number", v["inode"]),
        mon.kv("Mode", "%o" % v["mode"]),
        mon.kv("User identifier (UID)", v["user"]),
        mon.kv("Group identifier (GID)", v["group"]),
        mon.kv("Number of links", v["links"]),
    ]
    if alignment != 4:
        lines.append(mon.kv("Special device number", v["special"]))
    lines.append(mon.kv("Modification time", v["time"]))
    if alignment != 4:
        lines.append(mon.kv("Path size", path_size))
    lines.append(mon.kv("File size", len(content)))
    if alignment == 4:
        lines += [
            mon.kv("Device major number", v["major"]),
            mon.kv("Device minor number", v["minor"]),
            mon.kv("Special device major number", v["smajor"]),
            mon.kv("Special device minor number", v["sminor"]),
            mon.kv("Path size", path_size),
            mon.kv("Checksum", "0x%08x" % v["checksum"]),
        ]
    lines += mon.dump("Path data", raw_path)
    lines.append(mon.kv("Path", path))
    data = head + raw_path
    padding = bytes([pad_byte]) * (-(offset + len(data)) % alignment)
    lines += mon.dump("Path alignment padding", padding)
    data += padding
    data_offset = offset + len(data)
    data += content
    padding = bytes([pad_byte]) * (-(offset + len(data)) % alignment)
    if padding:
        lines += mon.dump("File data alignment padding", padding)
    data += padding
    metadata = {
        "path": path,
        "group_identifier": v["group"],
        "inode_number": v["inode"],
        "mode": v["mode"],
        "modification_time": v["time"],
        "user_identifier": v["user"],
        "data_offset": data_offset,
        "data_size": len(content),
    }
    return data, lines, metadata


def make(rng, form=None, content_size=300, first=None):
    """An archive; first: content of the first entries (for tools)."""
    form = form or rng.choice(FORMATS)
    data, lines, entries = b"", [], []
    features = {f"format:{form}"}
    pad_byte = rng.choice([0, 0, 0xFF])
    number = spec.many(rng, [0, 1, 2, 3, rng.randint(1, 12)], 400)
    paths = set()
    prefixes = ["", "a/", "ab/", "usr/lib/", "ü/"]
    for index in range(number):
        if paths and rng.random() < 0.05:
            path = rng.choice(sorted(paths))
            features.add("duplicate_paths")
        else:
            path = rng.choice(prefixes) + spec.random_text(
                rng, 1, spec.extent(rng, 30, 4000, 0.02)
            ).strip()
            path = path or "x"
        if path == "TRAILER!!!":
            path = "x"
        content = spec.random_bytes(
            rng, rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, content_size)])
        )
        if form.startswith("bin") and rng.random() < 0.01:
            content = spec.random_bytes(rng, 70001)
        if getattr(rng, "large", False) and rng.random() < 0.008:
            content = rng.randbytes(rng.randint(100000, 1500000))
        if rng.random() < 0.15:
            # Content that looks like an entry.
            inner, _, _ = entry(rng, form, 0, "TRAILER!!!", b"")
            content = inner + content
        part, text, metadata = entry(rng, form, len(data), path, content, pad_byte)
        data += part
        lines += text
        if path not in paths:
            entries.append((metadata, content))
            paths.add(path)
        features.add("entries")
        if not content:
            features.add("empty_entries")
        if not path.isascii():
            features.add("non_ascii_paths")
    trailer = rng.random() < 0.9 or not number
    if trailer:
        part, text, _ = entry(rng, form, len(data), "TRAILER!!!", b"", pad_byte)
        data += part
        lines += text
        features.add("trailers")
    size = len(data)
    if trailer and rng.random() < 0.5:
        data += bytes(-len(data) % 512)
    return Case(
        cpio.CPIOArchiveFile, data, lines, features, form=form, entries=entries, size=size
    )
