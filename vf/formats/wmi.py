"""WMI Common Information Model (CIM) repositories."""

import hashlib
import os
import struct

from dtformats import wmi_repository

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("wmi_repository")
PAGE = 8192

NAMES = {1: "key", 3: "read", 4: "write", 6: "provider", 7: "dynamic", 10: "type"}

# CIM data type: (type qualifier, size, struct code)
SCALARS = {
    0x02: ("sint16", 2, "h"),
    0x03: ("sint32", 4, "i"),
    0x04: ("real32", 4, "f"),
    0x05: ("real64", 8, "d"),
    0x0B: ("boolean", 2, "H"),
    0x10: ("sint8", 1, "b"),
    0x11: ("uint8", 1, "B"),
    0x12: ("uint16", 2, "H"),
    0x13: ("uint32", 4, "I"),
    0x14: ("sint64", 8, "q"),
    0x15: ("uint64", 8, "Q"),
}
STRINGS = {0x08: "string", 0x65: "datetime", 0x66: "ref"}
CIM_TYPES = {
    0x02: "CIM-TYPE-SINT16", 0x03: "CIM-TYPE-SINT32", 0x04: "CIM-TYPE-REAL32",
    0x05: "CIM-TYPE-REAL64", 0x08: "CIM-TYPE-STRING", 0x0B: "CIM-TYPE-BOOLEAN",
}
ALPHABET = (
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+ .:\"'{}\\/"
    "\u20ac\u201e\u2026\u0160\u017d\u2122\xa0\xe9\xff\xc4"
)


def text(rng, minimum=0, maximum=24):
    maximum = spec.extent(rng, maximum, 3000, 0.01)
    return "".join(rng.choice(ALPHABET) for _ in range(rng.randint(minimum, maximum)))


def ascii_identifier(rng):
    while True:
        name = identifier(rng)
        if name.isascii():
            return name


def identifier(rng, prefix=""):
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
    name = prefix + rng.choice(letters[:52]) + "".join(
        rng.choice(letters) for _ in range(rng.randint(2, 14))
    )
    # The hash of a name is that of its upper case, also of other letters.
    return name + rng.choice("éÉüñšŠ") if rng.random() < 0.1 else name


def name_hash(version, name):
    data = name.upper().encode("utf-16-le")
    function = hashlib.sha256 if version == "2.2" else hashlib.md5
    return function(data).hexdigest()


def scalar(rng, kind):
    """Returns (stored bytes, value)."""
    name, size, code = SCALARS[kind]
    if name == "boolean":
        value = rng.random() < 0.5
        return struct.pack("<H", 0xFFFF if value else 0), value
    if code in "fd":
        value = rng.choice([0.0, -1.5, 1e10, rng.uniform(-1e6, 1e6)])
        data = struct.pack("<" + code, value)
        return data, struct.unpack("<" + code, data)[0]
    data = rng.choice(
        [bytes(size), b"\xff" * size, b"\xff" * (size - 1) + b"\x7f",
         bytes(size - 1) + b"\x80", rng.randbytes(size), rng.randbytes(size)]
    )
    return data, struct.unpack("<" + code, data)[0]


class Values:
    """Values data: strings and other data referenced by offset."""

    def __init__(self, rng, base=0):
        self.rng = rng
        self.data = bytearray()
        if base:
            self.data += rng.randbytes(base)

    def gap(self):
        if self.rng.random() < 0.2:
            self.data += self.rng.randbytes(self.rng.randint(1, 6))

    def add(self, data):
        self.gap()
        offset = len(self.data)
        self.data += data
        return offset

    def string(self, value):
        flags = self.rng.choice([0, 0, 0, 1])
        return self.add(bytes([flags]) + value.encode("cp1252") + b"\0")

    def name(self, value):
        """Offset or predefined index of a name."""
        numbers = [n for n, name in NAMES.items() if name == value]
        if value.startswith("UNKNOWN_"):
            return 0x80000000 | int(value[8:])
        if numbers and self.rng.random() < 0.8:
            return 0x80000000 | numbers[0]
        return self.string(value)


def pack_qualifier(rng, values, name, kind, features):
    """Returns (bytes, value)."""
    offset = values.name(name)
    head = struct.pack("<IBI", offset, rng.randrange(256), kind)
    features.add(f"qualifier_{kind:d}")
    if kind in SCALARS:
        data, value = scalar(rng, kind)
        return head + data, value
    value = None
    if kind == 8:
        value = text(rng)
        stored = values.string(value)
    else:
        stored = values.add(rng.randbytes(4))
    return head + struct.pack("<I", stored), value


def pack_string_qualifier(rng, values, name, value):
    offset = values.name(name)
    stored = values.string(value)
    return struct.pack("<IBII", offset, rng.randrange(256), 8, stored)


QUALIFIER_KINDS = list(SCALARS) + [8, 8, 8, 0x2002, 0x2003, 0x2004, 0x2005, 0x2008,
                                   0x200B, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015]


def qualifier_set(rng, values, features, maximum=4):
    """Returns (list of packed qualifiers, {name: value})."""
    packed, expected = [], {}
    for _ in range(rng.choice([0, 0, 1, 2, maximum])):
        name = rng.choice(
            [identifier(rng), identifier(rng), "key", "read", "write", "provider",
             "dynamic", f"UNKNOWN_{rng.choice([2, 5, 8, 9, 11, 300]):d}", "abstract"]
        )
        kind = rng.choice(QUALIFIER_KINDS)
        if name.lower() in expected or name.lower() == "type":
            continue
        data, value = pack_qualifier(rng, values, name, kind, features)
        packed.append(data)
        expected[name.lower()] = value
    return packed, expected


class Property:
    """A property of a class."""

    def __init__(self, name, kind, index, offset, qualifier):
        self.name = name
        self.kind = kind
        self.index = index
        self.offset = offset
        self.qualifier = qualifier
        self.qualifiers = {}

    @property
    def size(self):
        return SCALARS[self.kind][1] if self.kind in SCALARS else 4


class Class:
    """A class definition: stored data and expected values."""

    def __init__(self, rng, parent=None, properties=None, name=None, features=None):
        self.features = features if features is not None else set()
        self.parent = parent
        self.name = name or identifier(rng)
        self.properties = []
        self.all = dict(parent.all) if parent else {}
        self.size = parent.size if parent else 0
        self.qualifiers = {}
        self.define(rng, properties)
        self.data = self.pack(rng)

    def define(self, rng, wanted):
        index = len(self.all)
        if wanted is None:
            wanted = []
            for _ in range(spec.many(rng, [0, 1, 2, 3, 4, 5, 8, 9], 60, 0.1)):
                kind = rng.choice(
                    list(SCALARS) + [8, 8, 8, 0x65, 0x66, 0x2008, 0x2008, 0x0D,
                                     0x2003, 0x2011, 0x200B, 0x2012]
                )
                wanted.append((identifier(rng), kind))
            if rng.random() < 0.15:
                wanted.insert(rng.randrange(len(wanted) + 1), ("Name", rng.choice([8, 8, 0x13])))
            if self.all and rng.random() < 0.4:
                wanted.insert(rng.randrange(len(wanted) + 1), (rng.choice(list(self.all)), None))
        for name, kind in wanted:
            lower = name.lower()
            if lower in [p.name.lower() for p in self.properties]:
                continue
            if kind is None or lower in self.all:
                # Overrides a property of a super class.
                if lower not in self.all:
                    continue
                base = self.all[lower]
                name = rng.choice([base.name, base.name.upper(), base.name.lower()])
                override = Property(name, base.kind, base.index, base.offset, None)
                if rng.random() < 0.5:
                    override.qualifier = base.qualifier
                    self.all[lower] = override
                    self.features.add("override_typed")
                else:
                    self.features.add("override_untyped")
                self.properties.append(override)
                continue
            base_kind = kind & 0xFF
            if base_kind in SCALARS:
                qualifier = SCALARS[base_kind][0]
            elif base_kind == 0x66:
                qualifier = "ref:" + identifier(rng)
            elif base_kind == 0x0D:
                qualifier = "object:" + identifier(rng)
            else:
                qualifier = STRINGS[base_kind]
            qualifier = rng.choice([qualifier, qualifier, qualifier.upper(), qualifier.capitalize()])
            item = Property(name, kind, index, self.size, qualifier)
            index += 1
            self.size += item.size
            self.properties.append(item)
            self.all[lower] = item
            self.features.add(f"property_{kind:d}")
        rng.shuffle(self.properties)

    def pack(self, rng):
        values = Values(rng)
        name_offset = values.string(self.name)
        packed, self.qualifiers = qualifier_set(rng, values, self.features)
        if rng.random() < 0.2 and "abstract" not in self.qualifiers:
            packed.append(
                struct.pack("<IBIH", values.string("Abstract"), 0, 0x0B, 0xFFFF)
            )
            self.qualifiers["abstract"] = True
        descriptors = b""
        for item in self.properties:
            some, item.qualifiers = qualifier_set(rng, values, self.features, 3)
            if item.qualifier:
                place = rng.randrange(len(some) + 1)
                some.insert(
                    place,
                    pack_string_qualifier(
                        rng, values, rng.choice(["type", "type", "Type"]), item.qualifier
                    ),
                )
                pairs = list(item.qualifiers.items())
                pairs.insert(place, ("type", item.qualifier))
                item.qualifiers = dict(pairs)
            name = values.string(item.name)
            raw = b"".join(some)
            definition = struct.pack(
                "<IHIII", item.kind, item.index, item.offset, rng.randrange(4), len(raw) + 4
            ) + raw
            descriptors += struct.pack("<II", name, values.add(definition))
        raw = b"".join(packed)
        parent = b""
        if self.parent:
            parent = bytes([rng.choice([0, 1])]) + self.parent.name.encode("cp1252") + b"\0"
            parent += rng.choice([b"", b"\x05\0\0\0"])
        defaults = rng.randbytes(rng.choice([0, 0, 1, 9, 30]))
        data = bytes(values.data)
        return (
            struct.pack("<BII", rng.randrange(256), name_offset, len(defaults))
            + struct.pack("<I", len(parent) + 4) + parent
            + struct.pack("<I", len(raw) + 4) + raw
            + struct.pack("<I", len(self.properties)) + descriptors + defaults
            + struct.pack("<I", len(data) | rng.choice([0, 0x80000000])) + data
        )

    def retype(self, rng, name):
        """Stores another type of a property: the values of instances remain as they are."""
        for item in self.properties:
            if item.name == name:
                item.kind = rng.choice([kind for kind in SCALARS if SCALARS[kind][1] == 4] + [0x2008])
                item.qualifier = (SCALARS.get(item.kind) or (STRINGS[8],))[0]
        self.data = self.pack(rng)

    @property
    def ancestors(self):
        return ([self.parent.name] + self.parent.ancestors) if self.parent else []

    def show(self):
        """Expected lines of the summary."""
        lines = ["Class definition:", mon.kv("    Name", self.name)]
        if self.parent:
            lines.append(mon.kv("    Super class name", self.parent.name))
        for name, value in self.qualifiers.items():
            lines.append(mon.kv(f"    Qualifier: {name:s}", value))
        for item in self.properties:
            lines.append(f"    Property: {item.name:s}")
            lines.append(mon.kv("        Index", item.index))
            lines.append(mon.kv("        Value data offset", ref.offset(item.offset)))
            for name, value in item.qualifiers.items():
                lines.append(mon.kv(f"        Qualifier: {name:s}", value))
        return lines


class Instance:
    """An instance of a class: stored data and expected property values."""

    def __init__(self, rng, definition, overrides=None):
        self.definition = definition
        self.properties = {}
        self.lines = []
        values = Values(rng)
        class_name_offset = values.string(definition.name)
        fixed = bytearray(rng.randbytes(definition.size))
        for item in definition.all.values():
            if item.kind in SCALARS:
                stored, value = scalar(rng, item.kind)
            else:
                offset, value = 0, None
                if item.kind in STRINGS:
                    if item.name in (overrides or {}):
                        value = overrides[item.name]
                        offset = values.string(value)
                    elif rng.random() < 0.8:
                        value = "" if rng.random() < 0.1 else text(rng)
                        offset = values.string(value)
                elif item.kind == 0x2008:
                    if rng.random() < 0.8:
                        value = [
                            text(rng) for _ in range(spec.many(rng, [0, 1, 2, 3, 5], 300, 0.03))
                        ]
                        offsets = [values.string(v) for v in value]
                        offset = values.add(
                            struct.pack(f"<{len(offsets) + 1:d}I", len(offsets), *offsets)
                        )
                else:
                    offset = rng.choice([0, values.add(rng.randbytes(8))])
                stored = struct.pack("<I", offset)
            fixed[item.offset : item.offset + len(stored)] = stored
            self.properties[item.name] = value
        number = len(definition.all)
        data = struct.pack("<IB", class_name_offset, rng.randrange(256))
        data += rng.randbytes((number + 3) // 4)
        data += bytes(fixed)
        raw = rng.randbytes(rng.choice([0, 0, 9, 20]))
        data += struct.pack("<I", len(raw) + 4) + raw
        dynamic = rng.choice([1, 1, 2])
        data += bytes([dynamic])
        self.features = {f"dynamic_{dynamic:d}"}
        if dynamic == 2:
            entries = [rng.randbytes(rng.choice([0, 1, 20])) for _ in range(rng.randint(0, 3))]
            data += struct.pack("<I", len(entries))
            for entry in entries:
                data += struct.pack("<I", len(entry) + 4) + entry
        data += struct.pack("<I", rng.randrange(1 << 32)) + bytes(values.data)
        self.data = data

    def show(self, namespace=None, class_name_hash=None):
        lines = ["Instance:"]
        if namespace:
            lines.append(mon.kv("    Namespace", namespace))
        lines.append(mon.kv("    Class name", self.definition.name))
        for name, value in self.properties.items():
            lines.append(mon.kv(f"    Property: {name:s}", value))
        return lines


def class_record(rng, definition):
    """Object record of a class definition."""
    parent = definition.parent.name if definition.parent else ""
    data = struct.pack("<I", len(parent)) + parent.encode("utf-16-le")
    data += struct.pack("<QI", undated(rng), len(definition.data) + 4) + definition.data
    if rng.random() < 0.3:
        raw = rng.randbytes(rng.randint(0, 20))
        data += struct.pack("<I", len(raw) + 4) + raw
    return data


def undated(rng):
    return rng.randrange(116444736000000000, 150000000000000000)


def instance_record(rng, version, instance):
    digest = name_hash(version, instance.definition.name)
    digest = rng.choice([digest.upper(), digest.upper(), digest])
    return (
        digest.encode("utf-16-le")
        + struct.pack("<QQI", undated(rng), undated(rng), len(instance.data) + 4)
        + instance.data
    )


# Index binary tree


def page_data(rng, mapped_number, page_type=0xACCC, root=0, keys=(), sub_pages=()):
    """Returns a page or None when the keys do not fit."""
    data = struct.pack("<IIII", page_type, mapped_number, 0, root)
    if page_type != 0xACCC:
        return data + rng.randbytes(PAGE - 16)
    segments, places = [], []
    for key in keys:
        numbers = []
        for segment in key:
            if segment in segments and rng.random() < 0.9:
                numbers.append(segments.index(segment))
            else:
                segments.append(segment)
                numbers.append(len(segments) - 1)
        places.append(numbers)
    order = list(range(len(segments)))
    rng.shuffle(order)
    position = {number: index for index, number in enumerate(order)}
    value_data = bytearray()
    offsets = [0] * len(segments)
    stored = list(order)
    rng.shuffle(stored)
    for number in stored:
        if rng.random() < 0.1:
            value_data += rng.randbytes(3)
        offsets[position[number]] = len(value_data)
        value_data += segments[number].encode("ascii") + b"\0"
    key_data = b""
    key_offsets = [0] * len(places)
    for index in rng.sample(range(len(places)), len(places)):
        if rng.random() < 0.1:
            key_data += rng.randbytes(2)
        key_offsets[index] = len(key_data) // 2
        numbers = [position[number] for number in places[index]]
        key_data += struct.pack(f"<{len(numbers) + 1:d}H", len(numbers), *numbers)
    data += struct.pack("<I", len(keys))
    data += struct.pack(f"<{len(keys):d}I", *(rng.choice([0, 0, 7]) for _ in keys))
    data += struct.pack(f"<{len(keys) + 1:d}I", *sub_pages)
    data += struct.pack(f"<{len(keys):d}H", *key_offsets)
    data += struct.pack("<H", len(key_data) // 2) + key_data
    data += struct.pack("<H", len(offsets)) + struct.pack(f"<{len(offsets):d}H", *offsets)
    data += struct.pack("<H", len(value_data)) + value_data
    if len(data) > PAGE:
        return None
    padding = PAGE - len(data)
    return data + rng.choice([bytes(padding), rng.randbytes(padding)])


def make_index(rng, version, keys, features):
    """Returns (pages by mapped number, root)."""
    numbers = iter(rng.sample(range(2, 2000), 1500))
    pages = {}
    root = 1
    if version == "2.1":
        root = rng.choice([1, next(numbers)])
        pages[0] = page_data(rng, 0, 0xADDD, root)

    def build(keys, number):
        if len(keys) <= 3 or rng.random() < 0.2:
            size = len(keys)
        else:
            size = rng.randint(1, min(len(keys), 12))
        while True:
            chosen = sorted(rng.sample(range(len(keys)), size))
            parts, last = [], 0
            for place in chosen:
                parts.append(keys[last:place])
                last = place + 1
            parts.append(keys[last:])
            subs = []
            for part in parts:
                subs.append(next(numbers) if part else rng.choice([0, 0xFFFFFFFF]))
            data = page_data(
                rng, number, keys=[keys[place] for place in chosen], sub_pages=subs
            )
            if data:
                break
            size = size // 2
        pages[number] = data
        for part, sub in zip(parts, subs):
            if part:
                features.add("sub_page")
                build(part, sub)

    build(sorted(keys), root)
    return pages, root


def map_pages(rng, pages, more=3):
    """Returns (file data, mapping table entries) for pages by mapped number."""
    number = len(pages) + rng.randint(0, more)
    spots = rng.sample(range(number), len(pages))
    data = [None] * number
    top = max(pages) + 1 + rng.randint(0, 3)
    entries = [rng.choice([0, 0xFFFFFFFF, number + 5]) for _ in range(top)]
    for spot, mapped in zip(spots, sorted(pages)):
        data[spot] = pages[mapped]
        entries[mapped] = spot
    for index, page in enumerate(data):
        if page is None:
            head = struct.pack("<IIII", rng.choice([0, 0xBADD, 0xADDD]), 3, 0, 1)
            data[index] = head + rng.randbytes(PAGE - 16)
    return b"".join(data), entries


def mapping_part(rng, version, sequence, entries):
    data = b""
    lines = []
    if version == "2.2":
        identifier_value = rng.randrange(2, 1 << 32)
        header = {
            "signature": 0xABCD,
            "sequence_number": sequence,
            "unknown1": identifier_value,
            "unknown2": identifier_value - 1,
            "number_of_pages": rng.randrange(1 << 16),
        }
        data += S.pack("cim_map_header_v2", header)
    else:
        pages = len(entries)
        header = {
            "signature": 0xABCD,
            "sequence_number": sequence,
            "number_of_pages": rng.choice([pages, pages + 5, 0 if pages else 3]),
        }
        data += S.pack("cim_map_header_v1", header)
    lines += S.show("cim_map_header", header)
    data += struct.pack("<I", len(entries))
    lines += ["Mapping table:", mon.kv("  Number of entries", len(entries))]
    custom = {
        "page_number": lambda n: f"0x{n:08x} (unavailable)" if n == 0xFFFFFFFF else f"{n:d}"
    }
    for index, entry in enumerate(entries):
        values = {"page_number": entry}
        if version == "2.2":
            values = S.random(rng, "cim_map_mapping_table_entry_v2")
            values["page_number"] = entry
            data += S.pack("cim_map_mapping_table_entry_v2", values)
        else:
            data += struct.pack("<I", entry)
        lines.append(f"  Entry: {index:d}:")
        lines += S.show("cim_map_table_entry", values, custom)
    unknown = [rng.choice([0, 5, 0xFFFFFFFF]) for _ in range(spec.many(rng, range(5), 1000))]
    data += struct.pack(f"<{len(unknown) + 1:d}I", len(unknown), *unknown)
    lines += ["Unknown table:", mon.kv("  Number of entries", len(unknown))]
    for index, entry in enumerate(unknown):
        lines.append(mon.kv(f"  Entry: {index:d} page number", custom["page_number"](entry)))
    data += struct.pack("<I", 0xDCBA)
    lines += S.show("cim_map_footer", {"signature": 0xDCBA})
    return data, lines, header


def make_mapping(rng, version=None, parts=None):
    """A mapping file on its own."""
    version = version or rng.choice(["2.1", "2.2"])
    number = 2 if version == "2.2" else rng.choice([1, 2])
    sequence = rng.randrange(1 << 32)
    data, lines = b"", []
    headers = []
    tables = []
    for index in range(number):
        entries = [
            rng.choice([0, 0xFFFFFFFF, rng.randrange(1 << 32)]) for _ in range(spec.many(rng, range(21), 3000))
        ]
        tables.append(entries)
        some, more, header = mapping_part(rng, version, sequence if not index else rng.randrange(1 << 32), entries)
        if index == 0:
            # Format detection reads the header as that of version 2.2.
            values = struct.unpack("<IIIII", (some + bytes(20))[:20])
            lines += S.show(
                "cim_map_header",
                dict(zip(("signature", "sequence_number", "unknown1", "unknown2", "number_of_pages"), values)),
            )
        data += some
        lines += more
    features = {f"mapping_{version:s}_{number:d}"}
    if number == 2 and rng.random() < 0.3:
        data += rng.randbytes(rng.randint(1, 40))
        features.add("mapping_trailing")
    return Case(
        wmi_repository.MappingFile, data, lines, features,
        sequence=sequence, tables=tables, version=1 if version == "2.1" else 2,
    )


def make_index_file(rng):
    """An index file on its own: pages and expected debug output."""
    data, lines = b"", []
    types = {0xACCC: "Is active", 0xADDD: "Is administrative", 0xBADD: "Is deleted"}
    expected = []
    for number in range(spec.many(rng, range(1, 5), 40)):
        page_type = rng.choice([0xACCC, 0xACCC, 0xADDD, 0xBADD, 0, 5])
        keys = [
            tuple(ascii_identifier(rng) for _ in range(rng.randint(1, 4)))
            for _ in range(rng.randint(0, 8))
        ]
        keys = list(dict.fromkeys(keys))
        subs = [rng.choice([0, 0xFFFFFFFF, rng.randrange(1 << 32)]) for _ in range(len(keys) + 1)]
        root = rng.randrange(1 << 16)
        page = page_data(rng, number + 7, page_type, root, keys, subs)
        lines.append(f"Reading page: {number:d} at offset: {len(data):d} (0x{len(data):08x}).")
        lines += mon.dump("Page header data", page[:16])
        lines += S.show(
            "cim_page_header",
            {"page_type": page_type, "mapped_page_number": number + 7,
             "unknown1": 0, "root_page_number": root},
            {"page_type": lambda t: f"0x{t:04x} ({types.get(t, 'Unknown'):s})"},
        )
        if page_type == 0xACCC:
            lines += show_body(page, keys)
        else:
            lines += mon.dump("Trailing data", page[16:])
        data += page
        expected.append((page_type, root, keys, [s for s in subs if s not in (0, 0xFFFFFFFF)]))
    return Case(wmi_repository.IndexBinaryTreeFile, data, lines, {"index_file"}, pages=expected)


def show_body(page, keys):
    """Expected debug output of the body of an index page."""
    body = page[16:]
    place = 0

    def take(code, number):
        nonlocal place
        size = struct.calcsize(code)
        result = struct.unpack(f"<{number:d}{code:s}", body[place : place + size * number])
        place += size * number
        return result

    number = take("I", 1)[0]
    unknown = take("I", number)
    subs = take("I", number + 1)
    key_offsets = take("H", number)
    key_size = take("H", 1)[0]
    key_data = body[place : place + key_size * 2]
    place += key_size * 2
    number_of_values = take("H", 1)[0]
    offsets = take("H", number_of_values)
    value_size = take("H", 1)[0]
    value_data = body[place : place + value_size]
    place += value_size
    lines = mon.dump("Page body data", body[:place])
    lines.append(mon.kv("Number of keys", number))
    lines += [mon.kv(f"Unknown2: {i:d}", v) for i, v in enumerate(unknown)]
    lines += [
        mon.kv(
            f"Sub page: {i:d} mapped page number",
            f"0x{v:08x} (unavailable)" if v in (0, 0xFFFFFFFF) else v,
        )
        for i, v in enumerate(subs)
    ]
    lines += [mon.kv(f"Key: {i:d} offset", ref.offset(v)) for i, v in enumerate(key_offsets)]
    lines.append(mon.kv("Key data size", f"{key_size:d} ({key_size * 2:d} bytes)"))
    lines += mon.dump("Key data", key_data)
    lines.append(mon.kv("Number of values", number_of_values))
    lines += [mon.kv(f"Value: {i:d} offset", ref.offset(v)) for i, v in enumerate(offsets)]
    lines.append(mon.kv("Value data size", f"{value_size:d} bytes"))
    lines += mon.dump("Value data", value_data)
    if place + 16 < PAGE:
        lines += mon.dump("Trailing data", body[place:])
    texts = [value_data[o:].split(b"\0")[0].decode("ascii") for o in offsets]
    for index, offset in enumerate(key_offsets):
        raw = key_data[offset * 2 :]
        count = raw[0] | raw[1] << 8
        segments = struct.unpack(f"<{count:d}H", raw[2 : 2 + 2 * count])
        assert tuple(texts[s] for s in segments) == keys[index]
        lines.append(mon.kv(f"Page key: {index:d} offset", ref.offset(offset * 2)))
        lines += mon.dump(f"Page key: {index:d} data", raw[: 2 + 2 * count])
        lines.append(mon.kv(f"Page key: {index:d} number of segments", count))
        lines.append(mon.kv(f"Page key: {index:d} segments", ", ".join(map(str, segments))))
    lines += [mon.kv(f"Page value: {i:d} data", v) for i, v in enumerate(texts)]
    return lines


def make_objects(rng, records, features):
    """Places object records in pages.

    records: list of data; returns (pages by mapped number, [(page, identifier)]).
    """
    pages = {}
    result = [None] * len(records)
    queue = list(range(len(records)))
    rng.shuffle(queue)
    mapped = rng.randint(0, 3)
    while queue:
        wanted = rng.randint(1, 6)
        chosen, used = [], 0
        while queue and len(chosen) < wanted:
            size = len(records[queue[-1]])
            chosen.append(queue.pop())
            used += size
            if used > PAGE - 16 * 8:
                break
        page = bytearray(rng.choice([bytes(PAGE), rng.randbytes(PAGE)]))
        table = 16 * (len(chosen) + 1)
        place = table
        descriptors = []
        identifiers = rng.sample(range(1, 1 << 16), len(chosen))
        if rng.random() < 0.5:
            identifiers = [i + rng.randrange(1 << 31) for i in identifiers]
            identifiers = list(dict.fromkeys(identifiers))
            while len(identifiers) < len(chosen):
                identifiers.append(max(identifiers) + 1)
        elif rng.random() < 0.3:
            identifiers = [i << 16 for i in identifiers]
        number = mapped
        slack = PAGE - 1 - table - sum(len(records[i]) for i in chosen[:-1])
        for index, key in zip(chosen, identifiers):
            data = records[index]
            # The last record starts within the page and may continue on the next ones.
            gap = rng.randint(0, min(40, slack))
            slack -= gap
            place += gap
            descriptors.append((key, place, len(data), rng.randrange(1 << 32)))
            head = data[: PAGE - place]
            page[place : place + len(head)] = head
            rest = data[len(head) :]
            place += len(head)
            result[index] = (mapped, key)
            while rest:
                number += 1
                features.add("data_pages")
                part = rest[:PAGE]
                pages[number] = bytes(part) + rng.randbytes(PAGE - len(part))
                rest = rest[PAGE:]
        rng.shuffle(descriptors)
        raw = b"".join(struct.pack("<IIII", *d) for d in descriptors) + bytes(16)
        page[: len(raw)] = raw
        pages[mapped] = bytes(page)
        mapped = number + rng.randint(1, 3)
    if not pages:
        pages[0] = bytes(PAGE)
    return pages, result


def any_case(rng, name):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in name)


class Repository:
    """A repository of format version 2.1 or 2.2 in a directory."""

    def __init__(self, rng, version, records):
        """records: list of (key segments, prefix of the last segment, data)."""
        self.version = version
        self.features = set()
        pages, places = make_objects(rng, [r[2] for r in records], self.features)
        keys = {}
        for (segments, prefix, data), (page, number) in zip(records, places):
            last = f"{prefix:s}.{page:d}.{number:d}.{len(data):d}"
            keys[tuple(segments) + (last,)] = data
        for _ in range(rng.randint(0, 5)):
            # Keys that do not refer to an object record.
            keys[(f"NS_{name_hash(version, identifier(rng)).upper():s}",
                  f"CR_{name_hash(version, identifier(rng)).upper():s}",
                  f"C_{name_hash(version, identifier(rng)).upper():s}")] = None
        for _ in range(rng.randint(0, 2)):
            # Keys with another number of values.
            kind = rng.choice(["CD", "I", "IL", "R"])
            values = ".".join(str(rng.randrange(4)) for _ in range(rng.choice([1, 2, 4, 5])))
            keys[(f"NS_{name_hash(version, identifier(rng)).upper():s}",
                  f"{kind:s}_{name_hash(version, identifier(rng)).upper():s}.{values:s}")] = None
        self.keys = {"\\" + "\\".join(key): data for key, data in keys.items()}
        index_pages, self.root = make_index(rng, version, list(keys), self.features)
        self.index_data, index_entries = map_pages(rng, index_pages)
        self.objects_data, objects_entries = map_pages(rng, pages)
        self.objects_pages = objects_entries
        self.index_pages = index_pages
        self.files = {
            any_case(rng, "index.btr"): self.index_data,
            any_case(rng, "objects.data"): self.objects_data,
        }
        tables = (objects_entries, index_entries)
        separate = version == "2.1" and rng.random() < 0.5
        sequence = rng.randrange(10, 1 << 31)
        if separate:
            self.features.add("separate_maps")
            self.files[any_case(rng, "index.map")] = mapping_part(rng, version, sequence, index_entries)[0]
            trailing = rng.choice([b"", rng.randbytes(30)])
            self.files[any_case(rng, "objects.map")] = mapping_part(rng, version, sequence, objects_entries)[0] + trailing
        maximum = 2 if version == "2.1" else 3
        numbers = sorted(rng.sample(range(1, maximum + 1), rng.randint(1, maximum)))
        active = rng.choice(numbers)
        if separate and rng.random() < 0.5:
            numbers = []
        elif separate and rng.random() < 0.5:
            # The other one is in the active mapping file.
            alone = rng.choice(["index.map", "objects.map"])
            self.files = {n: d for n, d in self.files.items() if n.lower() != alone}
            self.features.add(f"without_{alone:s}")
        for number in numbers:
            if number == active:
                entries = tables
                some = sequence
            else:
                entries = tuple(
                    [rng.choice([0, rng.randrange(len(table) + 2)]) for _ in table] for table in tables
                )
                some = sequence - rng.randint(1, 9)
                self.features.add("stale_map")
            data = mapping_part(rng, version, some, entries[0])[0]
            data += mapping_part(rng, version, rng.randrange(1 << 31), entries[1])[0]
            if rng.random() < 0.3:
                data += rng.randbytes(50)
            self.files[any_case(rng, f"mapping{number:d}.map")] = data
        self.active = active if numbers else None
        # The number in the mapping version file, which is read along with the others.
        self.version_number = None
        if numbers and version == "2.1" and rng.random() < 0.7:
            self.version_number = active
            if rng.random() < 0.2:
                self.version_number = rng.choice([0, active + 1, 0xFFFFFFFF])
            self.files[any_case(rng, "mapping.ver")] = struct.pack("<I", self.version_number)

    def path_of(self, directory, name):
        """Returns the path of a file or None."""
        for stored in self.files:
            if stored.lower() == name:
                return os.path.join(directory, stored)
        return None

    def opened(self, directory):
        """Returns what is reported on opening: the files, in order, and the active file."""
        active = []
        if self.version_number is not None:
            active.append(f"Mapping.ver file number: {self.version_number:d}")
        for number in range(1, 4):
            path = self.path_of(directory, f"mapping{number:d}.map")
            if path:
                active.append(f"Reading: {path:s}")
        active.append(f"Active mapping file: mapping{self.active or 0:d}.map")
        lines = []
        path = self.path_of(directory, "index.map")
        lines += [f"Reading: {path:s}"] if path else active
        shown = not path
        lines.append("Reading: " + self.path_of(directory, "index.btr"))
        path = self.path_of(directory, "objects.map")
        if path:
            lines.append(f"Reading: {path:s}")
        elif not shown:
            lines += active
        lines.append("Reading: " + self.path_of(directory, "objects.data"))
        return lines

    def warned(self):
        """Whether the mapping version file differs from the active file."""
        if self.version_number is None:
            return False
        if self.path_of("", "index.map") and self.path_of("", "objects.map"):
            return False
        return self.version_number != self.active

    def write(self, directory):
        os.makedirs(directory)
        for name, data in self.files.items():
            with open(os.path.join(directory, name), "wb") as file_object:
                file_object.write(data)
        return directory


def make_records(rng, version, features, fake=True, retype=False):
    """Returns (records, classes, instances, namespaces).

    instances: [(key, Instance)]; namespaces: {namespace: Instance}.
    """
    root = name_hash(version, "ROOT").upper()
    classes, records, instances = [], [], []
    namespace_class = Class(
        rng, properties=[("Name", 8)] + [(identifier(rng), rng.choice(list(SCALARS)))] * rng.randint(0, 1),
        name="__NAMESPACE", features=features,
    )
    classes.append(namespace_class)
    for _ in range(spec.many(rng, range(9), 40)):
        parent = rng.choice([None] + classes[1:] * 2) if len(classes) > 1 else None
        item = Class(rng, parent, features=features)
        if item.name.lower() in [c.name.lower() for c in classes]:
            continue
        classes.append(item)
    used = set()

    def add(segments, prefix, data):
        while True:
            key = (*segments, f"{prefix:s}_{name_hash(version, identifier(rng)).upper():s}")
            if key not in used:
                break
        used.add(key)
        records.append((segments, key[-1], data))

    for item in classes:
        digest = name_hash(version, item.name).upper()
        records.append(((f"NS_{root:s}",), f"CD_{digest:s}", class_record(rng, item)))
    for _ in range(spec.many(rng, range(11), 150)):
        if len(classes) < 2:
            break
        item = Instance(rng, rng.choice(classes[1:]))
        features |= item.features
        digest = name_hash(version, item.definition.name).upper()
        instances.append(item)
        add(
            (f"NS_{root:s}", f"{rng.choice(['CI', 'KI']):s}_{digest:s}"),
            rng.choice(["I", "IL"]), instance_record(rng, version, item),
        )
    namespaces = {}
    known = ["ROOT", "ROOT\\CIMV2", "__SystemClass"]
    digest = name_hash(version, "__NAMESPACE").upper()
    for _ in range(spec.many(rng, range(9), 40)):
        parent = rng.choice([known[-1], rng.choice(known)])
        name = identifier(rng)
        full = f"{parent:s}\\{name:s}"
        if full.upper() in [n.upper() for n in namespaces]:
            continue
        item = Instance(rng, namespace_class, {"Name": name})
        namespaces[full] = item
        known.append(full)
        instances.append(item)
        add(
            (f"NS_{name_hash(version, parent).upper():s}", f"{rng.choice(['CI', 'KI']):s}_{digest:s}"),
            rng.choice(["I", "IL"]), instance_record(rng, version, item),
        )
    if retype:
        namespace_class.retype(rng, "Name")
        records[0] = (*records[0][:2], class_record(rng, namespace_class))
    if any(n.count("\\") > 4 for n in namespaces):
        features.add("deep_namespace")
    if fake:
        for _ in range(spec.many(rng, range(7), 80)):
            size = rng.choice([0, 1, rng.randrange(500), rng.randrange(9000), rng.randrange(30000)])
            size = spec.many(rng, [size], 300000, 0.03)
            data = rng.randbytes(size)
            other = name_hash(version, identifier(rng)).upper()
            add((f"NS_{root:s}", f"CR_{other:s}"), rng.choice(["R", "R", "IR"]), data)
    return records, classes, instances, namespaces


# Repository file (version 2.0)


class Cells:
    """Node cells that refer to each other by offset."""

    def __init__(self, rng):
        self.rng = rng
        self.cells = []

    def add(self, build):
        """build: function of {cell index: data offset} returning data."""
        self.cells.append(build)
        return len(self.cells) - 1

    def layout(self, order, features):
        """Returns (data, {cell index: data offset}, {cell index: number})."""
        rng = self.rng
        zero = {index: 0x1000000 for index in range(len(self.cells))}
        sizes = {index: len(self.cells[index](zero)) + 4 for index in order}
        plan = []
        for index in order:
            if rng.random() < 0.2:
                plan.append(None)
            plan.append(index)
        bins, current = [], []
        for item in plan:
            current.append(item)
            if rng.random() < 0.1:
                bins.append(current)
                current = []
        if current:
            bins.append(current)
        if len(bins) > 1:
            features.add("node_bins")
        place, number = 0, 0
        offsets, numbers, chunks, bin_sizes = {}, {}, [], []
        for bin_index, items in enumerate(bins):
            start = place
            place += 40 if not bin_index else 4
            for item in items:
                if item is None:
                    size = 4 + rng.choice([8, 20, 60])
                    chunks.append((place, None, size, rng.choice([0, 0x80000000])))
                else:
                    size = sizes[item]
                    offsets[item] = place + 4
                    numbers[item] = number
                    chunks.append((place, item, size, rng.choice([0x80000000, 0])))
                place += size
                number += 1
            bin_sizes.append((start, place - start))
        data = bytearray(place)
        for start, item, size, flag in chunks:
            content = rng.randbytes(size - 4) if item is None else self.cells[item](offsets)
            data[start : start + size] = struct.pack("<I", size | flag) + content
        for start, size in bin_sizes[1:]:
            data[start : start + 4] = struct.pack("<I", size)
        return data, offsets, numbers, bin_sizes[0][1]


FOOTER = b"\xfe" * 12


def make_repository_file(rng, features):
    """Returns a RepositoryFile."""
    return RepositoryFile(rng, features)


class RepositoryFile:
    """A cim.rep file.

    instances: the instances in the order of the hierarchy of the namespaces;
    class_instances: those of the hierarchy of the classes; namespaces: their
    names if all nodes are namespaces.
    """

    def __init__(self, rng, features):
        self.rng = rng
        self.features = features
        self.cells = Cells(rng)
        self.namespaces_only = rng.random() < 0.5
        self.instances, self.namespaces, self.class_instances = [], [], []
        self.namespace_class = Class(
            rng, properties=[("Name", 8), (identifier(rng), 0x13)][: rng.randint(1, 2)],
            name="__NAMESPACE", features=features,
        )
        self.classes = [self.namespace_class]
        for _ in range(rng.randint(0, 5)):
            self.classes.append(Class(rng, features=features))
        self.class_cells = {}
        self._class_nodes()
        self.root = self._node(0, None)
        self._finish()

    def _none(self):
        """An offset that refers to no node."""
        return self.rng.choice([0, 0, 0, 40, self.rng.randint(1, 40)])

    def _any(self):
        """A value nothing depends on."""
        rng = self.rng
        return rng.choice([0, 0, 1, rng.randrange(1 << 16), rng.randrange(1 << 32)])

    def _footer(self):
        return self.rng.choice([FOOTER, FOOTER, self.rng.randbytes(12)])

    def _add(self, *values, head=b"", tail=None):
        """Adds a node; a value is an integer or a list with the index of a cell."""
        footer = self._footer() if tail is None else tail
        padding = self.rng.choice([b"", b"", b"", self.rng.randbytes(self.rng.choice([1, 4, 12]))])

        def build(at):
            numbers = [at[v[0]] if isinstance(v, list) else v for v in values]
            return head + struct.pack(f"<{len(numbers):d}I", *numbers) + footer + padding
        return self.cells.add(build)

    def _name(self, text_value=None):
        data = (text_value or identifier(self.rng)).encode("utf-16-le") + b"\0\0"
        data += self.rng.choice([bytes(4), self.rng.randbytes(4)])[:-len(data) % 4]
        return self._add(head=data)

    def _maybe_name(self, chance=0.7):
        return [self._name()] if self.rng.random() < chance else self._none()

    # Classes

    def _class_nodes(self):
        """Adds the nodes of the class definitions, a hierarchy."""
        rng = self.rng
        placed = list(self.classes)
        rng.shuffle(placed)
        self.system = placed[0]
        children = {item: [] for item in placed}
        for index, item in enumerate(placed[1:], 1):
            children[rng.choice(placed[:index])].append(item)
        base = {}
        for item in reversed(placed):
            base[item] = self._class_branch(item)
        order = {}

        def number(item):
            """The instances of the hierarchy in the order they are read."""
            order[item] = []
            if rng.random() < 0.3 and len(self.instances) < 10:
                for _ in range(rng.randint(0, 3)):
                    order[item].append(Instance(rng, rng.choice(self.classes)))
            self.class_instances.extend(order[item])
            for child in children[item]:
                number(child)
        if rng.random() < 0.5:
            number(self.system)
            hierarchy = True
        else:
            hierarchy = False
            order = {item: [] for item in placed}
        # The root nodes refer to each other.
        self.class_cells = {item: self.cells.add(None) for item in placed}
        parents = {child: item for item in placed for child in children[item]}
        for item in placed:
            listing = self._none()
            if hierarchy and order[item]:
                self.features.add("class_instances")
                values = [[self._instance_branch(i)] for i in order[item]]
                if rng.random() < 0.3:
                    values.insert(rng.randint(0, len(values)), self._none())
                listing = [self._list(values)]
            kind = rng.choice([0, 8, 11, 0x109, rng.randrange(11, 1 << 32)])
            sub = rng.choice([self._none(), rng.randrange(1 << 32)])
            if hierarchy and children[item]:
                self.features.add("class_hierarchy")
                kind = rng.choice([9, 10])
                tree = self._tree([self.class_cells[c] for c in children[item]])
                sub = [tree] if tree is not None else 0
            elif rng.random() < 0.2:
                kind, sub = rng.choice([9, 10]), self._none()
            names = self._none()
            if hierarchy and rng.random() < 0.3:
                self.features.add("class_names")
                tree = self._tree([self._name() for _ in range(rng.choice([1, 2, 5, 10]))])
                names = [tree]
            values = (
                self._any(), [base[item]],
                [self.class_cells[parents[item]]] if item in parents else self._none(),
                kind, listing, sub, self._any(), names,
            )
            built = self._add(*values)
            self.cells.cells[self.class_cells[item]] = self.cells.cells.pop(built)

    def _class_branch(self, item):
        rng = self.rng
        extra = rng.randbytes(rng.choice([0, 3, 8]))
        data = struct.pack("<I", len(item.data) + 4) + item.data
        data += struct.pack("<I", len(extra) + 4) + extra
        data += rng.choice([bytes(4), rng.randbytes(4)])[:-len(data) % 4]
        leaf = self._add(head=data)
        return self._add(self._any(), self._any(), self._any(), [leaf], self._any())

    def _list(self, values):
        """Adds a list of values: integers or a list with the index of a cell."""
        rng = self.rng
        elements = [self.cells.add(None) for _ in values]
        for index, value in enumerate(values):
            built = self._add(
                self._any(), self._maybe_name(0.5), value, self._any(), self._any(),
                [elements[index - 1]] if index else self._none(),
                [elements[index + 1]] if index + 1 < len(elements) else self._none(),
            )
            self.cells.cells[elements[index]] = self.cells.cells.pop(built)
        return self._add(
            self._any(), [elements[0]] if elements else self._none(),
            [elements[-1]] if elements else self._none(), self._any(),
            rng.choice([len(elements), len(elements), self._any()]),
        )

    def _tree(self, kids):
        """Adds a tree of up to 10 values; returns its root node or None."""
        rng = self.rng
        if not kids:
            if rng.random() < 0.5:
                return None
            self.features.add("tree_depth_0")
            return self._add(0, self._any(), self._any())
        if len(kids) == 1 and rng.random() < 0.5:
            self.features.add("tree_depth_1")
            return self._add(1, rng.choice([1, self._any()]), [kids[0]])
        self.features.add("tree_depth_2")
        spots = sorted(rng.sample(range(10), len(kids)))
        values = [self._none() for _ in range(10)]
        for spot, kid in zip(spots, kids):
            values[spot] = [kid]
        leaf = self._add(*values)
        branch = self._add(len(kids), rng.choice([10, self._any()]), self._any(), [leaf])
        return self._add(2, len(kids), [branch])

    # Instances

    def _instance_branch(self, item):
        leaf = self._add(head=struct.pack("<I", len(item.data) + 4) + item.data)
        return self._add(self._any(), [self.class_cells[item.definition]], 2, [leaf], self._any())

    def _no_instance_branch(self):
        """An instance branch node without an instance."""
        rng = self.rng
        item = Instance(rng, rng.choice(self.classes))
        leaf = self._add(head=struct.pack("<I", len(item.data) + 4) + item.data)
        values = [self._any(), [self.class_cells[item.definition]], 2, [leaf], self._any()]
        kind = rng.choice(["class", "leaf", "kind"])
        if kind == "class":
            values[1] = self._none()
        elif kind == "leaf":
            values[3] = self._none()
        else:
            values[2] = rng.choice([0, 1, 3, 0x80000002, 0x10002])
        self.features.add("no_instance")
        return self._add(*values)

    def _node(self, depth, parent):
        """Returns the cell of an instance root node."""
        rng = self.rng
        branch = self._none()
        full = parent
        if parent is None or self.namespaces_only or rng.random() < 0.6:
            if parent is None or self.namespaces_only or rng.random() < 0.5:
                name = "ROOT" if parent is None else identifier(rng)
                item = Instance(rng, self.namespace_class, {"Name": name})
                full = name if parent is None else f"{parent:s}\\{name:s}"
                self.namespaces.append(full)
            else:
                item = Instance(rng, rng.choice(self.classes))
            self.instances.append(item)
            branch = [self._instance_branch(item)]
        elif rng.random() < 0.4:
            branch = [self._no_instance_branch()]
        name_cell = self._maybe_name()
        kids = []
        number = rng.choice([0, 0, 1, 2, 3, 10]) if depth < 3 and len(self.instances) < 25 else 0
        if depth == 0 and not number:
            number = rng.randint(0, 4)
        for _ in range(number):
            child = [self._node(depth + 1, full)]
            kids.append(self._add(self._maybe_name(0.9), child))
        if 1 < len(kids) < 10 and rng.random() < 0.2:
            kids.append(self._add(self._maybe_name(0.9), self._none()))
        tree = self._tree(kids)
        tree = [tree] if tree is not None else rng.choice([self._none(), 0xFFFFFFFF])
        listing = self._none()
        if rng.random() < 0.3:
            self.features.add("class_list")
            chosen = rng.sample(self.classes, rng.randint(0, len(self.classes)))
            values = [[self.class_cells[c]] for c in chosen]
            if rng.random() < 0.3:
                values.insert(rng.randint(0, len(values)), self._none())
            listing = [self._list(values)]
        unknown2, node5 = 0, self._none()
        if rng.random() < 0.2:
            data = rng.randbytes(rng.choice([0, 1, 12, 40]))
            node5 = [self._add(head=struct.pack("<I", len(data) + 4) + data)]
            self.features.add("unknown_node5")
        elif rng.random() < 0.2:
            unknown2, node5 = rng.randrange(1, 1 << 32), rng.randrange(1 << 32)
        return self._add(tree, name_cell, branch, self._any(), listing, unknown2, node5)

    def _finish(self):
        rng = self.rng
        order = list(range(len(self.cells.cells)))
        rng.shuffle(order)
        data, offsets, numbers, first_bin = self.cells.layout(order, self.features)
        system = numbers[self.class_cells[self.system]]
        del offsets
        size = len(data)
        tail = rng.choice([b"", bytes(rng.choice([40, 100]))])
        data[:40] = struct.pack(
            "<10I", system, numbers[self.root], rng.choice([size, self._any()]), self._any(),
            self._any(), rng.choice([size, self._any()]), self._any(), self._any(),
            rng.choice([44, self._any()]), first_bin,
        )
        self.data = bytes(data) + tail
