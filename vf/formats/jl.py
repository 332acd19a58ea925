"""Windows jump list files."""

import struct

from dtformats import jump_list

from vf import mon, ref, spec
from vf.fmt import Case
from vf.formats import cfb
from vf.formats.recycle import undated

S = spec.Struct("jump_list")
GUID = b"\x01\x14\x02\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x46"
FOOTER = b"\xab\xfb\xbf\xba"
CATEGORIES = {0: "Custom category", 1: "Known category", 2: "User tasks"}
CUSTOM = {
    "filetime": ref.filetime,
    "path_size": lambda v: "%d characters (%d bytes)" % (v, 2 * v),
    "category_type": lambda v: "%d (%s)" % (v, CATEGORIES[v]),
}


def make_lnk(rng):
    """Returns (data, what pylnk reports of it)."""
    texts = {
        "description": spec.random_text(rng, 1, 60, 3),
        "command_line_arguments": spec.random_text(rng, 1, spec.extent(rng, 200, 65535), 3),
    }
    times = [rng.getrandbits(62) for _ in range(3)]
    size = rng.getrandbits(32)
    data = struct.pack(
        "<I16sIIQQQIiIHHII",
        0x4C,
        GUID,
        0x80 | 0x04 | 0x20,
        rng.getrandbits(15),
        *times,
        size,
        rng.getrandbits(16),
        1,
        0,
        0,
        0,
        0,
    )
    for text in texts.values():
        data += struct.pack("<H", len(text)) + text.encode("utf-16-le")
    if rng.random() < 0.4:
        data += struct.pack("<II", 0x60, 0xA0000003)
        data += struct.pack("<II", 0x58, 0) + b"host".ljust(16, b"\0") + rng.randbytes(64)
    if rng.random() < 0.3:
        block = rng.randbytes(rng.choice([4, 100, 2000]))
        data += struct.pack("<II", 8 + len(block), 0xA00000FF) + block
    data += bytes(4)
    return data, {
        **texts,
        "creation": times[0],
        "access": times[1],
        "modification": times[2],
        "size": size,
    }


def describe(entry):
    """What an entry yielded by the library tells about its shortcut."""
    lnk = entry.lnk_file
    return {
        "description": lnk.description,
        "command_line_arguments": lnk.command_line_arguments,
        "creation": lnk.get_file_creation_time_as_integer(),
        "access": lnk.get_file_access_time_as_integer(),
        "modification": lnk.get_file_modification_time_as_integer(),
        "size": lnk.file_size,
    }


def make_dest_list(rng, version=None, entries=None):
    version = version or rng.choice([1, 2, 3, 4])
    if entries is None:
        entries = spec.many(rng, [0, 1, 2, 6], 300)
    header = S.random(rng, "dest_list_header", format_version=version)
    header["number_of_entries"] = rng.choice([entries, entries, rng.getrandbits(32)])
    data = S.pack("dest_list_header", header)
    lines = S.show("dest_list_header", header, CUSTOM)
    reads = [("dest list header", 0, data)]
    name = "dest_list_entry_v1" if version == 1 else "dest_list_entry_v2"
    for _ in range(entries):
        values = S.random(rng, name)
        values["hostname"] = spec.random_text(rng, 0, 16, 0)
        path = spec.random_text(rng, 1, spec.extent(rng, 100, 16000))
        values["path"] = path
        values["path_size"] = len(path.encode("utf-16-le")) // 2
        values["last_modification_time"] = undated(rng)
        raw = S.pack(name, values)
        lines += S.show("dest_list_entry", values, CUSTOM)
        label = f"dest list entry v{1 if version == 1 else 2}"
        reads.append((label, len(data), raw))
        data += raw
    return data, lines, reads, version


def make_automatic(rng):
    features = set()
    streams, shortcuts = {}, {}
    if rng.random() < 0.1:
        streams["DestList"], lines, reads = b"", [], []
        features.add("empty_dest_list")
    else:
        streams["DestList"], lines, reads, version = make_dest_list(rng)
        features.add(f"dest_list_v{version}")
    for number in range(spec.many(rng, [0, 1, 3, 12, 40], 400)):
        name = f"{number * rng.choice([1, 7]) + 1:x}"
        if name in streams:
            continue
        streams[name], shortcuts[name] = make_lnk(rng)
        features.add("shortcuts")
    return Case(
        jump_list.AutomaticDestinationsFile,
        cfb.write(streams),
        lines,
        features,
        reads=reads,
        content=streams["DestList"],
        streams=streams,
        shortcuts=shortcuts,
    )


def make_custom(rng):
    features = set()
    categories = spec.many(rng, [0, 1, 1, 2, 3], 40)
    header = S.random(rng, "custom_file_header", number_of_categories=categories)
    data = S.pack("custom_file_header", header)
    lines = S.show("custom_file_header", header, CUSTOM)
    reads = [("file header", 0, data)]
    shortcuts = []
    for _ in range(categories):
        kind = rng.choice([0, 0, 1, 2])
        entries = spec.many(rng, [0, 1, 2, 5], 300, 0.2)
        values = {"category_type": kind}
        raw = S.pack("custom_category_header", values)
        reads.append(("category header", len(data), raw))
        data += raw
        if kind == 0:
            name = spec.random_text(rng, 1, spec.extent(rng, 40, 16000))
            values["category_name"] = name
            values["number_of_characters"] = len(name.encode("utf-16-le")) // 2
        if kind == 1:
            values["category_identifier"] = spec.random_int(rng, 4, False)
            entries = 0
        else:
            values["number_of_entries"] = entries
        raw = S.pack(f"custom_category_header_type_{kind}", values)
        reads.append(("category header values", len(data), raw))
        data += raw
        lines += S.show("custom_category_header", values, CUSTOM)
        features.add(f"category_{kind}")
        for _ in range(entries):
            lnk, shown = make_lnk(rng)
            reads.append(("entry header", len(data), GUID))
            data += GUID
            lines.append(f"Reading LNK file at offset: 0x{len(data):08x}")
            shortcuts.append(("0x%08x" % len(data), shown))
            data += lnk
            features.add("shortcuts")
        reads.append(("category footer", len(data), FOOTER))
        data += FOOTER
        lines += S.show("custom_category_footer", {"signature": FOOTER}, CUSTOM)
    size = len(data)
    trailing = b""
    if rng.random() < 0.3:
        trailing = spec.random_bytes(rng, rng.choice([4, 30]))
        lines += mon.dump("Trailing data", trailing)
        features.add("trailing_data")
    return Case(
        jump_list.CustomDestinationsFile,
        data + trailing,
        lines,
        features,
        reads=reads,
        shortcuts=shortcuts,
        size=size,
    )
