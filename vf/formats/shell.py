"""Windows Shortcuts with shell items, data blocks and property stores."""

import functools
import json
import os
import struct
import uuid

from vf import ref, spec

GUID = b"\x01\x14\x02\x00\x00\x00\x00\x00\xc0\x00\x00\x00\x00\x00\x00\x46"
# Close to the value of never.
FAR_TIME = 0x7FFFFFFFFFFFFFFE
NAMED = "d5cdd505-2e9c-101b-9397-08002b2cf9ae"
BLOCKS = {
    0xA0000001: "Environment variables location",
    0xA0000002: "Console properties",
    0xA0000003: "Distributed link tracker properties",
    0xA0000004: "Console codepage",
    0xA0000005: "Special folder location",
    0xA0000006: "Darwin properties",
    0xA0000007: "Icon location",
    0xA0000008: "Shim layer properties",
    0xA0000009: "Metadata property store",
    0xA000000B: "Known folder location",
    0xA000000C: "Shell item identifiers list",
}
LINK_FLAGS = {
    0x00000001: "Contains a link target identifier",
    0x00000004: "Contains a description string",
    0x00000008: "Contains a relative path string",
    0x00000010: "Contains a working directory string",
    0x00000020: "Contains a command line arguments string",
    0x00000040: "Contains an icon location string",
    0x00000200: "Contains an environment variables block",
    0x00004000: "Contains an icon location block",
    0x00040000: "Contains no distributed link tracking data block",
}


@functools.lru_cache(None)
def property_keys():
    path = os.path.join(os.path.dirname(__file__), "..", "..", "spec")
    with open(os.path.join(path, "shell_property_keys.json"), encoding="utf8") as stream:
        return json.load(stream)


def identifier(rng):
    value = uuid.UUID(bytes=rng.randbytes(16))
    return value.bytes_le, str(value)


def text(rng, low=1, high=30):
    """Text without layout at its ends."""
    return "".join(rng.choice("abcXYZ019_-.éя✓") for _ in range(rng.randint(low, high)))


def ascii_text(rng, low=1, high=12):
    return "".join(rng.choice("ABCxyz019_-.") for _ in range(rng.randint(low, high)))


def fat_time(rng):
    """A FAT date and time and how it is shown."""
    if rng.random() < 0.1:
        return 0, "Not set (0)"
    year, month, day = rng.randint(1980, 2079), rng.randint(1, 12), rng.randint(1, 28)
    hours, minutes, seconds = rng.randrange(24), rng.randrange(60), rng.randrange(30)
    date = (year - 1980) << 9 | month << 5 | day
    time = hours << 11 | minutes << 5 | seconds
    shown = f"{year:04d}-{month:02d}-{day:02d} {hours:02d}:{minutes:02d}:{2 * seconds:02d}"
    return date | time << 16, shown


def root_folder(rng):
    raw, shown = identifier(rng)
    lines = ["Item type : Root Folder", f"Root shell folder identifier : {shown}"]
    return b"\x1f" + bytes([rng.choice([0x42, 0x50, 0x58, 0x80])]) + raw, lines


def volume(rng):
    name = rng.choice("ACDEZ") + ":\\"
    data = b"\x2f" + name.encode("ascii").ljust(22, b"\0")
    return data, ["Item type : Volume", f"Volume name : {name}"]


def file_entry(rng):
    kind = rng.choice([0x31, 0x32])
    size = rng.choice([0, 5, rng.getrandbits(32)])
    modification, modified = fat_time(rng)
    flags = rng.choice([0x10, 0x20, rng.getrandbits(16)])
    name = ascii_text(rng)
    data = struct.pack("<BBIIH", kind, 0, size, modification, flags)
    data += name.encode("ascii") + b"\0"
    data += bytes(len(data) & 1)
    lines = [
        "Item type : File Entry",
        f"File size : {size:d}",
        f"Modification time : {modified}",
        f"File attribute flags : 0x{flags:08x}",
        f"Name : {name}",
    ]
    if rng.random() < 0.8:
        version = rng.choice([3, 7, 8, 9])
        creation, created = fat_time(rng)
        access, accessed = fat_time(rng)
        long_name = text(rng)
        extension = struct.pack("<HIIIH", version, 0xBEEF0004, creation, access, 0x14)
        reference = 0
        if version >= 7:
            reference = rng.choice([
                5, (1 << 48) - 1, (1 << 48) + 1, 1 << 49, (7 << 48) | 12345,
                (0xFFFF << 48) | rng.getrandbits(48), rng.getrandbits(64) | 1,
            ])
            extension += struct.pack("<HQQ", 0, reference, 0)
        localized = text(rng) if version >= 7 and rng.random() < 0.4 else ""
        # What follows of the long name is the localized name.
        size = 2 + 2 * len(localized) if localized else 0
        extension += struct.pack("<H", size)
        if version >= 9:
            extension += bytes(4)
        if version >= 8:
            extension += bytes(4)
        extension += long_name.encode("utf-16-le") + b"\0\0"
        if localized:
            extension += localized.encode("utf-16-le") + b"\0\0"
        extension += struct.pack("<H", 2 + len(data))
        data += struct.pack("<H", 2 + len(extension)) + extension
        lines += [
            "Extension block: 1",
            "Signature : 0xbeef0004",
            f"Creation time : {created}",
            f"Access time : {accessed}",
            f"Long name : {long_name}",
        ]
        if localized:
            lines.append(f"Localized name : {localized}")
        if version >= 7:
            if reference > 1 << 48:
                shown = f"{reference & ((1 << 48) - 1):d}-{reference >> 48:d}"
            else:
                shown = f"0x{reference:04x}"
            lines.append(f"File reference : {shown}")
    return data, lines


def network_location(rng):
    location, description, comments = (ascii_text(rng) for _ in range(3))
    flags = rng.choice([0, 0x40, 0x80, 0xC0])
    data = bytes([rng.choice([0x41, 0x42, 0x46, 0x47, 0xC3]), 0, flags])
    data += location.encode("ascii") + b"\0"
    lines = ["Item type : Network Location", f"Network location : {location}"]
    if flags & 0x80:
        data += description.encode("ascii") + b"\0"
        lines.append(f"Description : {description}")
    if flags & 0x40:
        data += comments.encode("ascii") + b"\0"
        lines.append(f"Comments : {comments}")
    return data + bytes(2), lines


def control_panel_category(rng):
    value = rng.choice([0, 5, 11])
    data = struct.pack("<BBII", 1, 0, 0x39DE2184, value)
    return data, [
        "Item type : Control Panel Category",
        f"Control panel category identifier : {value:d}",
    ]


def control_panel_item(rng):
    raw, shown = identifier(rng)
    data = b"\x71\x80" + bytes(10) + raw
    return data, [
        "Item type : Control Panel Item",
        f"Control panel item identifier : {shown}",
    ]


def property_value(rng):
    """The type of a property value, its data and how it is shown."""
    kind = rng.choice([1, 3, 0x13, 0x14, 0x15, 8, 0x1F, 0xB, 0x40, 0x48, 0x42, 0x101F, 0x1011])
    if kind == 1:
        return kind, bytes(4), "<VT_NULL>"
    if kind == 0x42:
        return kind, b"\4\0\0\0a\0\0\0" + bytes(8), "<VT_STREAM>"
    if kind >= 0x1000:
        raw = b"\1\0\0\0\3\0\0\0a\0b\0\0\0\0\0" if kind == 0x101F else b"\4\0\0\0abcd"
        return kind, raw, "<VT_VECTOR>"
    if kind in (3, 0x13):
        value = spec.random_int(rng, 4, kind == 3)
        return kind, (value & 0xFFFFFFFF).to_bytes(4, "little"), str(value)
    if kind in (0x14, 0x15):
        value = spec.random_int(rng, 8, kind == 0x14)
        return kind, (value & (1 << 64) - 1).to_bytes(8, "little"), str(value)
    if kind in (8, 0x1F):
        value = text(rng)
        raw = value.encode("utf-16-le") + b"\0\0"
        count = len(raw) if kind == 8 else len(raw) // 2
        return kind, struct.pack("<I", count) + raw + bytes(-len(raw) % 4), value
    if kind == 0xB:
        value = rng.random() < 0.5
        return kind, (b"\xff\xff" if value else bytes(2)) + bytes(2), str(value)
    if kind == 0x40:
        value = rng.choice([0, 0x7FFFFFFFFFFFFFFF, FAR_TIME, rng.getrandbits(60)])
        return kind, value.to_bytes(8, "little"), ref.filetime(value)
    raw, shown = identifier(rng)
    return kind, raw, shown


def property_store(rng):
    keys = sorted(key for key in property_keys() if NAMED not in key)
    data, lines = b"", []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.2:
            # Properties with a name.
            values = b""
            for _ in range(rng.randint(1, 2)):
                entry = text(rng, 1, 20)
                kind, raw, shown = property_value(rng)
                value = entry.encode("utf-16-le") + b"\0\0"
                value = struct.pack("<IB", len(value), 0) + value
                value += struct.pack("<HH", kind, 0) + raw
                values += struct.pack("<I", 4 + len(value)) + value
                lines.append(f"Property: {{{NAMED}}}/{entry} (Unknown)")
                lines.append(f"Value (0x{kind:04x}) : {shown}")
            storage = b"1SPS" + uuid.UUID(NAMED).bytes_le + values + bytes(4)
            data += struct.pack("<I", 4 + len(storage)) + storage
            continue
        if rng.random() < 0.8:
            key = rng.choice(keys)
        else:
            key = f"{{{uuid.UUID(bytes=rng.randbytes(16))}}}/{rng.randrange(100):d}"
        name, _, number = key.partition("/")
        values = b""
        for index in range(rng.randint(1, 3)):
            if index:
                number = str(rng.randrange(1, 50))
            kind, raw, shown = property_value(rng)
            if number.isdecimal():
                value = struct.pack("<IBHH", int(number), 0, kind, 0) + raw
            else:
                continue
            values += struct.pack("<I", 4 + len(value)) + value
            key = f"{name}/{number}"
            lines.append(f"Property: {key} ({property_keys().get(key, 'Unknown')})")
            lines.append(f"Value (0x{kind:04x}) : {shown}")
        storage = b"1SPS" + uuid.UUID(name).bytes_le + values + bytes(4)
        data += struct.pack("<I", 4 + len(storage)) + storage
    return data + bytes(4), lines


def data_block(rng, kind):
    lines = [f"Signature : 0x{kind:08x}"]
    if kind in BLOCKS:
        lines[0] += f" ({BLOCKS[kind]})"
    if kind in (0xA0000001, 0xA0000006, 0xA0000007):
        value = ascii_text(rng, 1, 40)
        raw = value.encode("ascii").ljust(260, b"\0")
        raw += value.encode("utf-16-le").ljust(520, b"\0")
        lines.append(f"String : {value}")
    elif kind == 0xA0000009:
        raw, shown = property_store(rng)
        lines += shown
    elif kind == 0xA0000003:
        raw = struct.pack("<II", 0x58, 0) + b"host".ljust(16, b"\0") + rng.randbytes(64)
    else:
        sizes = {0xA0000002: 0xC4, 0xA0000004: 4, 0xA0000005: 8, 0xA000000B: 20}
        raw = bytes(sizes.get(kind, 40))
    return struct.pack("<II", 8 + len(raw), kind) + raw, lines


def users_property_view(rng):
    store, lines = property_store(rng)
    kind = rng.choice([0x10141981, 0x23FEBBEE, 0xBEEBEE00, 0x3B93AFBB])
    name = rng.randbytes(16) if kind in (0x10141981, 0x23FEBBEE) else b""
    body = struct.pack("<IHH", kind, len(store), len(name)) + name + store
    data = struct.pack("<BBH", 0, 0, len(body)) + body + bytes(2)
    return data, ["Item type : Users Property View", *lines]


ITEMS = {
    "users_property_view": users_property_view,
    "root_folder": root_folder,
    "volume": volume,
    "file_entry": file_entry,
    "network_location": network_location,
    "control_panel_category": control_panel_category,
    "control_panel_item": control_panel_item,
}


def make(rng, features):
    """A shortcut: (data, lines that a tool shows of it)."""
    flags = 0x80
    items, target = [], b""
    if rng.random() < 0.8:
        flags |= 1
        for number in range(rng.randint(1, 5)):
            name = rng.choice(["file_entry", *ITEMS])
            if name == "file_entry" and not number:
                name = "root_folder"
            raw, lines = ITEMS[name](rng)
            features.add(name)
            target += struct.pack("<H", 2 + len(raw)) + raw
            items.append(lines)
        target += bytes(2)
        target = struct.pack("<H", len(target)) + target
    texts = {}
    strings = b""
    for flag, name in (
        (4, "Description"), (8, "Relative path"), (16, "Working directory"),
        (32, "Arguments"), (64, "Icon location"),
    ):
        if rng.random() < 0.5:
            flags |= flag
            texts[name] = text(rng)
            strings += struct.pack("<H", len(texts[name])) + texts[name].encode("utf-16-le")
    blocks, shown = b"", []
    kinds = rng.sample([*BLOCKS, 0xA00000FF], rng.choice([0, 1, 2, 4, 8]))
    for kind in kinds:
        raw, lines = data_block(rng, kind)
        blocks += raw
        shown.append(lines)
        features.add("block_" + lines[0].split()[2])
    flags |= rng.choice([0, 0x200]) | rng.choice([0, 0x4000]) | rng.choice([0, 0x40000])
    times = [rng.choice([0, FAR_TIME, rng.getrandbits(60)]) for _ in range(3)]
    size, attributes = rng.getrandbits(32), rng.getrandbits(15)
    icon, show, key = rng.getrandbits(16), rng.choice([1, 3, 7]), rng.getrandbits(16)
    data = struct.pack(
        "<I16sIIQQQIiIHHII", 0x4C, GUID, flags, attributes, *times, size, icon, show, key, 0, 0, 0
    )
    lines = ["Windows Shortcut information:"]
    lines += [description for flag, description in LINK_FLAGS.items() if flags & flag]
    lines += [
        f"Number of data blocks : {len(shown):d}",
        "Link information:",
        f"Creation time : {ref.filetime(times[0])}",
        f"Modification time : {ref.filetime(times[2])}",
        f"Access time : {ref.filetime(times[1])}",
        f"File size : {size:d}",
        f"Icon index : {icon:d}",
        f"Show Window value : 0x{show:08x}",
        f"Hot Key value : {key:d}",
        f"File attribute flags : 0x{attributes:08x}",
    ]
    for name in ("Description", "Relative path", "Working directory", "Icon location"):
        lines.append(f"{name} : {texts.get(name, '')}".strip())
    if items:
        lines += [
            "Link target identifier:", "Shell item list:", f"Number of items : {len(items):d}",
        ]
        for number, item in enumerate(items):
            lines += [f"Shell item: {number + 1:d}", *item]
    for number, block in enumerate(shown):
        lines += [f"Data block: {number + 1:d}", *block]
    return data + target + strings + blocks + bytes(4), lines


def make_custom(rng):
    """A custom destinations file: (data, lines, features)."""
    features = set()
    count = rng.randint(1, 4)
    lines = ["Windows Jump List information:", f"Number of entries : {count:d}"]
    data = struct.pack("<III", 2, 1, 0) + struct.pack("<II", 2, count)
    for number in range(count):
        raw, shown = make(rng, features)
        data += GUID + raw
        lines += [f"Entry: {number + 1:d}", *shown]
    return data + b"\xab\xfb\xbf\xba", lines, features
