"""Safari cookies files."""

import struct

from dtformats import safari_cookies

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("safari_cookies")
EPOCH = 978307200


def timestamp(rng):
    return rng.choice(
        [
            0.0,
            float(rng.randrange(0, 1 << 31)),
            rng.uniform(0, 1e9),
            rng.uniform(0, 1e9),
            -float(rng.randrange(0, 1 << 30)),
            float(ref.MAXIMUM_SECOND - EPOCH),
        ]
    )


def show_time(value):
    return "%s (%f)" % (ref.date_time(int(value) + EPOCH), value)


STRINGS = ("url", "name", "path", "value")


def make_record(rng):
    values = S.random(rng, "binarycookies_record_header")
    values["expiration_time"] = timestamp(rng)
    values["creation_time"] = timestamp(rng)
    strings = {}
    order = list(STRINGS)
    rng.shuffle(order)
    data = b""
    for name in order:
        values[f"{name}_offset"] = 0
        strings[name] = ""
        if rng.random() < 0.85:
            gap = rng.choice([0, 0, 1, 7])
            if getattr(rng, "large", False) and rng.random() < 0.01:
                gap = 70000
            data += spec.random_bytes(rng, gap)
            values[f"{name}_offset"] = 56 + len(data)
            strings[name] = spec.random_text(rng, 0, spec.extent(rng, 40, 9000, 0.01), 1)
            data += strings[name].encode("ascii") + b"\0"
    values["size"] = 56 + len(data)
    data = S.pack("binarycookies_record_header", values) + data
    lines = mon.dump("Record data", data)
    for label, key, form in (
        ("Size", "size", "%d"),
        ("Unknown1", "unknown1", "0x%08x"),
        ("Flags", "flags", "0x%08x"),
        ("Unknown2", "unknown2", "0x%08x"),
        ("URL offset", "url_offset", "%d"),
        ("Name offset", "name_offset", "%d"),
        ("Path offset", "path_offset", "%d"),
        ("Value offset", "value_offset", "%d"),
        ("Unknown3", "unknown3", "0x%08x"),
    ):
        lines.append(mon.kv(label, form % values[key]))
    lines.append(mon.kv("Expiration time", show_time(values["expiration_time"])))
    lines.append(mon.kv("Creation time", show_time(values["creation_time"])))
    for label, key in (
        ("URL", "url"),
        ("Name", "name"),
        ("Path", "path"),
        ("Value", "value"),
    ):
        lines.append(mon.kv(label, strings[key]))
    return data, lines


def make_page(rng):
    records = [
        make_record(rng) for _ in range(spec.many(rng, [0, 1, 1, 2, 5], 500, 0.01))
    ]
    signature = rng.choice([0x100, 0x100, rng.getrandbits(32)])
    places = list(range(len(records)))
    if rng.random() < 0.3:
        rng.shuffle(places)
    offsets = [0] * len(records)
    body = spec.random_bytes(rng, rng.choice([0, 4]))
    start = 8 + 4 * len(records)
    for index in places:
        offsets[index] = start + len(body)
        body += records[index][0] + spec.random_bytes(rng, rng.choice([0, 0, 3]))
    header = struct.pack(f"<II{len(records)}I", signature, len(records), *offsets)
    lines = mon.dump("Page header data", header)
    lines.append(mon.kv("Signature", "0x%08x" % signature))
    lines.append(mon.kv("Number of records", len(records)))
    lines += [
        mon.kv(f"Record: {index} offset", offset) for index, offset in enumerate(offsets)
    ]
    for record in records:
        lines += record[1]
    return header + body, lines, len(records)


def make(rng):
    pages = [make_page(rng) for _ in range(spec.many(rng, [0, 1, 1, 2, 3], 200))]
    header = b"cook" + struct.pack(">I", len(pages))
    sizes = b"".join(struct.pack(">I", len(page[0])) for page in pages)
    footer = spec.random_bytes(rng, 8)
    data = header + sizes + b"".join(page[0] for page in pages)
    lines = [
        mon.kv("Signature", "b'cook'"),
        mon.kv("Number of pages", len(pages)),
    ]
    if pages:
        lines += mon.dump("Page sizes data", sizes)
        lines += [
            mon.kv(f"Page: {index} size", len(page[0])) for index, page in enumerate(pages)
        ]
    for page in pages:
        lines += page[1]
    reads = [("file header", 0, header), ("file footer", len(data), footer)]
    features = {"files"}
    if not pages:
        features.add("no_pages")
    if len(pages) > 1:
        features.add("several_pages")
    if any(page[2] > 1 for page in pages):
        features.add("several_records")
    if any(page[2] == 0 for page in pages):
        features.add("no_records")
    trailing = spec.random_bytes(rng, rng.choice([0, 0, 30]))
    return Case(
        safari_cookies.BinaryCookiesFile,
        data + footer + trailing,
        lines,
        features,
        reads=reads,
    )
