"""Mac OS alias and bookmark data."""

import struct

from dtformats import alias_data, bookmark_data

from vf import mon, ref, spec
from vf.fmt import Case

A = spec.Struct("alias_data")
B = spec.Struct("bookmark_data")


def hfs64(value):
    if value == 0:
        return "Not set (0)"
    seconds, fraction = divmod(value, 65536)
    text = ref.hfs_time(seconds)
    if text == "Not set (0)":
        text = "1904-01-01 00:00:00 UTC"
    if text.startswith("0x"):
        return "0x%08x" % value
    return "%s.%03d UTC" % (text[:-4], fraction * 1000 // 65536)


ALIAS_CUSTOM = {
    "array_of_decimals": lambda v: ", ".join("%d" % i for i in v),
    "hfs_time": ref.hfs_time,
    "hfs_time_64bit": hfs64,
}
STRING_TAGS = (0, 2, 6, 18, 19)
WIDE_TAGS = (14, 15)


def random_hfs64(rng):
    return rng.choice(
        [
            0,
            rng.getrandbits(16),
            rng.getrandbits(32) << 16 | rng.getrandbits(16),
            rng.getrandbits(32) << 16 | rng.getrandbits(16),
            rng.getrandbits(64),
        ]
    )


def make_tagged(rng, features):
    tag = rng.choice([*STRING_TAGS, *WIDE_TAGS, 1, 1, 3, 4, 5, 9, 16, 17, 20, 0xFFFF,
                      rng.randrange(21, 0x10000)])
    values = {"value_tag": tag}
    if tag == 1:
        features.add("integers")
        values["integers"] = [
            spec.random_int(rng, 4, False)
            for _ in range(spec.many(rng, range(6), 3000, 0.02))
        ]
        body = struct.pack(">%dI" % len(values["integers"]), *values["integers"])
    elif tag in STRING_TAGS:
        features.add("utf8_string")
        text = spec.random_text(rng, 0, spec.extent(rng, 30, 9000, 0.01))
        values["string"] = text
        body = text.encode("utf8")
    elif tag in WIDE_TAGS:
        features.add("utf16_string")
        text = spec.random_text(rng, 0, spec.extent(rng, 30, 9000, 0.01))
        raw = text.encode("utf-16-be")
        values["string"] = text
        values["number_of_characters"] = len(raw) // 2
        body = struct.pack(">H", len(raw) // 2) + raw
    else:
        features.add("binary_data")
        size = spec.many(rng, [0, rng.randint(1, 40)], 30000, 0.01)
        body = spec.random_bytes(rng, size)
        values["value_data"] = body
    values["value_data_size"] = len(body)
    data = struct.pack(">HH", tag, len(body)) + body
    padding = spec.random_bytes(rng, len(data) % 2)
    if padding:
        features.add("padded_value")
    values["alignment_padding"] = padding
    return data + padding, values


def make_alias(rng, version=None):
    version = version or rng.choice([2, 3])
    features = {f"alias_v{version}"}
    name = f"alias_data_record_v{version}"
    record = A.random(rng, name)
    for key in ("volume_creation_time", "target_creation_time"):
        if version == 3:
            record[key] = random_hfs64(rng)
    tagged = [
        make_tagged(rng, features) for _ in range(spec.many(rng, [0, 1, 3, 8], 600))
    ]
    while sum(len(data) for data, _ in tagged) > 64000:
        tagged.pop(rng.randrange(len(tagged)))
    body = A.pack(name, record)
    # The type, creator, levels, volume attributes and reserved values are not decoded.
    rest = spec.random_bytes(rng, 28) if version == 2 else b""
    size = 8 + len(body) + len(rest) + sum(len(data) for data, _ in tagged)
    header = {
        "application_information": bytes(4),
        "record_size": size,
        "format_version": version,
    }
    data = A.pack("alias_data_record_header", header)
    reads = [("record header", 0, data), ("record data", 8, body)]
    lines = A.show("alias_data_record_header", header) + A.show(name, record, ALIAS_CUSTOM)
    data += body + rest
    for raw, values in tagged:
        reads.append(("tagged value", len(data), raw))
        data += raw
        lines += A.show("alias_data_tagged_value", values, ALIAS_CUSTOM)
    return Case(alias_data.MacOSLoginItemAliasData, data, lines, features, reads=reads)


# Bookmark data

INTEGERS = {0x301: "b", 0x302: "h", 0x303: "i", 0x304: "q"}
BOOKMARK_CUSTOM = {
    "array_of_decimals": lambda v: ", ".join("%d" % i for i in v),
    "array_of_tagged_values": lambda v: [
        "\ttag: 0x%04x, data record offset: 0x%08x, unknown1: 0x%08x" % entry for entry in v
    ],
    "signature": lambda v: v.decode("latin1"),
}


def make_record(rng, kind):
    """Returns the bytes of a data record and its values."""
    values = {"data_type": kind}
    if kind in INTEGERS:
        code = INTEGERS[kind]
        values["integer"] = spec.random_int(rng, struct.calcsize(code), True)
        body = struct.pack("<" + code, values["integer"])
    elif kind == 0x305:
        values["floating_point"] = spec.random_float(rng, 4)
        body = struct.pack("<f", values["floating_point"])
    elif kind == 0x306:
        values["floating_point"] = spec.random_float(rng, 8)
        body = struct.pack("<d", values["floating_point"])
    elif kind == 0x601:
        values["integers"] = [
            spec.random_int(rng, 4, False)
            for _ in range(spec.many(rng, range(6), 3000, 0.02))
        ]
        body = struct.pack("<%dI" % len(values["integers"]), *values["integers"])
    elif kind == 0x101:
        values["string"] = spec.random_text(rng, 0, spec.extent(rng, 30, 70000, 0.01))
        body = values["string"].encode("utf8")
    elif kind == 0x400:
        values["date"] = rng.choice([0.0, -1.5, rng.uniform(0, 1e9), rng.uniform(-1e9, 1e9)])
        body = struct.pack(">d", values["date"])
        values["data"] = body
    elif kind == 0x201:
        size = spec.many(rng, [0, rng.randint(1, 40)], 200000, 0.01)
        body = spec.random_bytes(rng, size)
        values["data"] = body
    else:
        body = spec.random_bytes(rng, rng.randint(1, 20))
        values["data"] = body
    values["data_size"] = len(body)
    return struct.pack("<II", len(body), kind) + body, values


KINDS = (0x101, 0x201, 0x301, 0x302, 0x303, 0x304, 0x305, 0x306, 0x400, 0x601, 0x500, 0x501, 0x901)


def make_bookmark(rng, tags=None):
    features = {"bookmarks"}
    area = bytearray(4)  # data area size, set below

    def add(raw):
        area.extend(spec.random_bytes(rng, -len(area) % 4))
        if rng.random() < 0.2:
            area.extend(bytes(4 * rng.randint(1, 3)))
        area.extend(raw)
        return len(area) - len(raw)

    entries = []  # (tag, offset, unknown1)
    steps = []  # per tagged value: reads and lines
    number = spec.many(rng, [0, 1, 2, 5, 9], 500)
    for _ in range(number):
        tag = rng.choice(
            tags or [0x1003, 0x1004, 0x1005, 0x1010, 0x2020, 0x1040, 0x2002, 0xF017,
                     0x11004, 0x81005, 0x10001010, 0x80002020,
                     rng.getrandbits(32)]
        )
        reads, lines = [], [mon.kv("Value tag", "0x%04x" % tag)]
        inner = []
        if tag in (0x1004, 0x1005):
            features.add("path" if tag == 0x1004 else "integers_array")
            offsets = []
            values = []
            for _ in range(spec.many(rng, range(6), 300, 0.05)):
                kind = 0x101 if tag == 0x1004 else rng.choice(list(INTEGERS))
                raw, shown = make_record(rng, kind)
                offset = add(raw)
                offsets.append(offset)
                inner.append((("data record", 48 + offset, raw), shown))
                values.append(shown["string"] if tag == 0x1004 else shown["integer"])
            body = struct.pack("<%dI" % len(offsets), *offsets)
            raw = struct.pack("<II", len(body), 0x601) + body
            record = {"data_size": len(body), "data_type": 0x601, "integers": offsets}
            if tag == 0x1004:
                after = [mon.kv("Path", "/".join(values))]
            else:
                after = [mon.kv("Integers array", ", ".join("%d" % v for v in values))]
        elif tag in (0x1010, 0x2020):
            features.add("property_flags")
            flags = B.random(rng, "bookmark_data_property_flags")
            body = B.pack("bookmark_data_property_flags", flags)
            raw = struct.pack("<II", len(body), 0x201) + body
            record = {"data_size": len(body), "data_type": 0x201, "data": body}
            after = B.show("bookmark_data_property_flags", flags)
        else:
            kind = rng.choice(KINDS)
            features.add("type_%x" % kind)
            raw, record = make_record(rng, kind)
            after = []
            if kind == 0x400:
                after = [mon.kv("Cocoa timestamp", "%f" % record["date"])]
        offset = add(raw)
        if entries and rng.random() < 0.1:
            features.add("shared_record")
        entries.append((tag, offset, rng.choice([0, rng.getrandbits(32)])))
        reads.append(("data record", 48 + offset, raw))
        lines += B.show("bookmark_data_record", record, BOOKMARK_CUSTOM)
        for read, shown in inner:
            reads.append(read)
            lines += B.show("bookmark_data_record", shown, BOOKMARK_CUSTOM)
        steps.append((reads, lines + after))
    if rng.random() < 0.5:
        area.extend(bytes(-len(area) % 4))
    size = len(area)
    struct.pack_into("<I", area, 0, size)
    toc = {
        "entries_data_size": rng.choice([12 + 12 * number, rng.getrandbits(32)]),
        "unknown1": 0xFFFFFFFE,
        "identifier": rng.getrandbits(32),
        "next_toc_offset": 0,
        "number_of_tagged_values": number,
    }
    table = struct.pack("<5I", *toc.values()) + b"".join(
        struct.pack("<3I", *entry) for entry in entries
    )
    header = B.random(
        rng,
        "bookmark_data_header",
        size=48 + len(area) + len(table),
        data_area_offset=48,
    )
    head = B.pack("bookmark_data_header", header)
    reads = [
        ("header", 0, head),
        ("data area size", 48, bytes(area[:4])),
        ("table of contents (TOC)", 48 + size, table),
    ]
    lines = B.show("bookmark_data_header", header, BOOKMARK_CUSTOM)
    lines.append(mon.kv("Data area size", "%d" % size))
    lines += B.show("bookmark_data_toc", {**toc, "tagged_values": entries}, BOOKMARK_CUSTOM)
    for more_reads, more_lines in steps:
        reads += more_reads
        lines += more_lines
    return Case(
        bookmark_data.MacOSBackgroundItemBookmarkData,
        head + area + table,
        lines,
        features,
        reads=reads,
        toc=48 + size,
        entries=entries,
    )
