"""Apple Spotlight store databases."""

import math
import struct
import zlib

import lz4.block

from dtformats import spotlight_storedb as sdb

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("spotlight_storedb")
CUSTOM = {"signature": lambda value: ref.stream(value)}
BLOCK = 0x1000


def varint(value, extra=None):
    """Variable-size integer; extra is the number of additional bytes."""
    sizes = [7, 14, 21, 28, 35, 40, 48, 56, 64]
    if extra is None:
        extra = next(number for number, bits in enumerate(sizes) if value < 1 << bits)
    data = bytearray(value.to_bytes(extra + 1, "big") if extra < 5 else b"\0" + value.to_bytes(extra, "big"))
    data[0] |= 0xFF00 >> extra & 0xFF
    return bytes(data)


def random_varint(rng, value):
    """A variable-size integer that is not always of minimal size."""
    sizes = [7, 14, 21, 28, 35, 40, 48, 56, 64]
    choices = [number for number, bits in enumerate(sizes) if value < 1 << bits]
    return varint(value, choices[0] if rng.random() < 0.8 else rng.choice(choices))


def random_value(rng, bits=64):
    return rng.getrandbits(rng.randint(1, bits))


def cocoa_line(label, value):
    if value == 0:
        return mon.kv(label, "Not set (0)")
    if value >= 7500000000.0:
        return mon.kv(label, "%f" % value)
    if not math.isfinite(value):
        return mon.kv(label, "%f" % value)
    seconds = math.floor(value)
    absolute = int(value) + 978307200
    if not ref.MINIMUM_SECOND <= absolute <= ref.MAXIMUM_SECOND:
        return mon.kv(label, "%f" % value)
    fraction = round((value - seconds) * 1000000)
    text = ref.date_time(seconds + 978307200, fraction, 6)
    return mon.kv(label, f"{text:s} UTC")


def update_time(value):
    if value // 10**6 > ref.MAXIMUM_SECOND:
        return "0x%08x" % value
    return ref.posix_micro(value)


def random_cocoa(rng):
    choice = rng.random()
    if choice < 0.1:
        return rng.choice([0.0, 7500000000.0, 1e12, float("inf"), -1e15, float("-inf")])
    seconds = rng.randrange(-1000000000, 4000000000)
    return seconds + rng.choice([0.0, 0.5, 0.015625, 0.984375])


NAMES = [
    "kMDItemContentType",
    "kMDItemContentTypeTree",
    "kMDItemDisplayName",
    "_kMDItemFileName",
    "_kStoreMetadataVersion",
]
# Names that are shown of an item, with the kind of their values.
SHOWN = {
    "_kMDItemDisplayNameWithExtensions": 11, "kMDItemContentCreationDate": 12,
    "kMDItemContentCreationDate_Ranking": 12, "kMDItemContentModificationDate": 12,
    "kMDItemContentModificationDate_Ranking": 12, "kMDItemContentType": 15,
    "kMDItemContentTypeTree": 15, "kMDItemDateAdded": 12, "kMDItemDateAdded_Ranking": 12,
    "kMDItemDisplayName": 11, "kMDItemDocumentIdentifier": 7, "_kMDItemContentChangeDate": 12,
    "_kMDItemCreationDate": 12, "_kMDItemCreatorCode": 6, "_kMDItemFinderFlags": 7,
    "kMDItemFSHasCustomIcon": 0, "kMDItemFSInvisible": 0, "_kMDItemIsExtensionHidden": 0,
    "kMDItemFSIsStationery": 0, "_kMDItemFinderLabel": 7, "_kMDItemFileName": 11,
    "_kMDItemNodeCount": 7, "_kMDItemOwnerGroupID": 7, "_kMDItemOwnerUserID": 7,
    "kMDItemFSSize": 7, "kMDItemFSTypeCode": 6, "kMDItemInterestingDate_Ranking": 12,
    "kMDItemKind": 15, "kMDItemLogicalSize": 7, "kMDItemPhysicalSize": 7,
    "kMDStoreProperties": 14, "_kStoreMetadataVersion": 7,
}


class Store:
    """The content of a store."""

    def __init__(self, rng, features):
        self.rng = rng
        self.features = features
        self.values, self.lists, self.localized = {}, {}, {}
        indexes = list(range(1, spec.extent(rng, 40, 2000, 1))) + [20000, 3000000]
        for index in sorted(rng.sample(indexes, spec.many(rng, [0, 3, 12, 30], 1200))):
            text = spec.random_text(rng, 0, spec.extent(rng, 20, 1000), level=3)
            if rng.random() < 0.2:
                text += "\x16\x02" + rng.choice(["en", "nl", "Base"])
                features.add("language_identifier")
            self.values[index] = text
        for table in (self.lists, self.localized):
            for index in sorted(rng.sample(indexes, spec.many(rng, [0, 2, 10], 300))):
                table[index] = [
                    self.some_value() for _ in range(spec.many(rng, [0, 1, 1, 2, 5, 40], 300, 0.02))
                ]
        self.types = {}
        kinds = [0, 2, 6, 7, 7, 8, 8, 9, 10, 11, 11, 12, 14, 15, 15]
        for index in sorted(
            rng.sample(
                list(range(1, spec.extent(rng, 40, 600, 1))) + [700, 70000],
                spec.many(rng, [1, 8, 25], 400),
            )
        ):
            name = rng.choice(NAMES) if rng.random() < 0.2 else ""
            name += f"{spec.random_text(rng, 1, 12, level=2)}{index:d}"
            kind = rng.choice(kinds)
            flags = rng.choice([0, 1, 2, 3]) | rng.choice([0, 0x0C, 0x80, 0xF0])
            if rng.random() < 0.05 and "kMDStoreAccumulatedSizes" not in (
                item[2] for item in self.types.values()
            ):
                name, kind = "kMDStoreAccumulatedSizes", 8
            known = [n for n in SHOWN if n not in (item[2] for item in self.types.values())]
            if known and rng.random() < 0.4:
                name = rng.choice(known + [n for n in known if "Store" in n] * 4)
                kind = SHOWN[name]
                if "Store" in name:
                    flags &= 0xFD
                elif rng.random() < 0.2:
                    kind = rng.choice(kinds)
                self.features.add("shown_name")
            self.types[index] = (kind, flags, name)

    def some_value(self):
        rng = self.rng
        if self.values and rng.random() < 0.85:
            return rng.choice(list(self.values))
        return rng.choice([0, 77, 0xFFFFFFFF])

    def text_of(self, index):
        return self.values.get(index, "")

    def as_streams(self):
        """Drops what cannot be stored in streams maps (large indexes)."""
        for table in (self.types, self.values, self.lists, self.localized):
            for index in [index for index in table if index > 60]:
                del table[index]
        if not self.types:
            self.types[3] = (0, 0, "boolean")

    def attribute(self, kind, flags, name):
        """Returns (stored data, reported value, lines)."""
        rng = self.rng
        multiple = bool(flags & 2)
        form = "accumulated" if name == "kMDStoreAccumulatedSizes" else f"{kind:d}_{flags & 3:d}"
        self.features.add(f"attribute_{form:s}")
        lines = [
            mon.kv("Key name", name),
            mon.kv("Property type", "0x%02x" % flags),
            mon.kv("Value type", "0x%02x" % kind),
        ]
        if form == "accumulated":
            data = spec.random_bytes(rng, spec.many(rng, [0, 1, 5, 40], 5000, 0.02))
            return data, data, lines + mon.dump("Data", data)
        if kind in (0, 2, 6):
            value = rng.choice([0, 1, random_value(rng)])
            if kind == 0:
                lines += [mon.kv("Integer", value), mon.kv("Boolean", value != 0)]
            else:
                lines.append(mon.kv("Integer", "0x%08x" % value))
            return random_varint(rng, value), value, lines
        if kind == 7:
            if not multiple:
                value = random_value(rng)
                return random_varint(rng, value), value, lines + [mon.kv("Integer", value)]
            value = [random_value(rng) for _ in range(spec.many(rng, [0, 1, 2, 10, 40], 800, 0.02))]
            data = b"".join(random_varint(rng, item) for item in value)
            lines.append(mon.kv("Data size", len(data)))
            lines += [mon.kv(f"Integer: {n:d}", item) for n, item in enumerate(value)]
            return random_varint(rng, len(data)) + data, value, lines
        if kind in (8, 9, 10, 12):
            number = rng.choice([0, 1, 2, 9, 33]) if multiple else 1
            if kind == 8:
                value = [rng.randrange(256) for _ in range(number)]
                data = bytes(value)
            elif kind == 9:
                data = b"".join(
                    struct.pack("<f", rng.choice([0.0, 1.5, rng.uniform(-1e6, 1e6)]))
                    for _ in range(number)
                )
                value = list(struct.unpack(f"<{number:d}f", data))
            else:
                value = [
                    random_cocoa(rng) if kind == 12 else rng.uniform(-1e9, 1e9)
                    for _ in range(number)
                ]
                data = struct.pack(f"<{number:d}d", *value)
            if multiple:
                lines.append(mon.kv("Data size", len(data)))
            for index, item in enumerate(value):
                suffix = f": {index:d}" if multiple else ""
                if kind == 8:
                    lines.append(mon.kv(f"Byte{suffix:s}", item))
                elif kind == 12:
                    label = "Date and time"
                    if item >= 7500000000.0:
                        label = "Floating-point"
                    lines.append(cocoa_line(f"{label:s}{suffix:s}", item))
                else:
                    lines.append(mon.kv(f"Floating-point{suffix:s}", "%f" % item))
            if not multiple:
                return data, value[0], lines
            return random_varint(rng, len(data)) + data, value, lines
        if kind == 11:
            number = rng.choice([0, 1, 2, 6]) if flags & 3 == 2 else rng.choice([1, 1, 3])
            texts = [spec.random_text(rng, 0, 16, level=3) for _ in range(number)]
            if flags & 3 != 2 and rng.random() < 0.4:
                texts[0] += "\x16\x02en"
                self.features.add("language_identifier")
            data = b"".join(text.encode("utf8") + b"\0" for text in texts)
            lines.append(mon.kv("Data size", len(data)))
            lines += mon.dump("Data", data)
            if flags & 3 == 2:
                value = texts
                lines += [mon.kv(f"String: {n:d}", item) for n, item in enumerate(texts)]
            else:
                value = texts[0]
                if flags & 3 == 3:
                    value = value.split("\x16\x02")[0]
                lines.append(mon.kv("String", value))
            return random_varint(rng, len(data)) + data, value, lines
        if kind == 14:
            data = spec.random_bytes(rng, spec.many(rng, [0, 1, 16, 130, 300], 30000, 0.01))
            if name == "kMDStoreProperties":
                text = "".join(c for c in spec.random_text(rng, 1, 40) if c > " ")
                data = f"<plist>{text:s}</plist>".encode("utf8")
            lines.append(mon.kv("Data size", len(data)))
            lines += mon.dump("Binary data", data)
            return random_varint(rng, len(data)) + data, data, lines
        # A reference.
        style = flags & 3
        table = {3: self.localized, 2: self.lists}.get(style, self.values)
        index = rng.choice([1, 99, 0])
        if table and rng.random() < 0.85:
            index = rng.choice(list(table))
        if index not in table:
            self.features.add("missing_reference")
        if style == 3:
            texts = [self.text_of(item) for item in table.get(index, [])]
            value = texts[0].split("\x16\x02")[0] if texts else "(null)"
            lines.append(mon.kv("Localized strings table index", index))
            lines.append(mon.kv("Localized string", value))
        elif style == 2:
            value = [self.text_of(item) for item in table.get(index, [])]
            lines.append(mon.kv("Values list table index", index))
            lines.append(mon.kv("Values list", value))
        else:
            value = table.get(index, "(null)")
            lines.append(mon.kv("Values table index", index))
            lines.append(mon.kv("Value", value))
        return random_varint(rng, index), value, lines


class Record:
    def __init__(self, store, identifier, broken=None):
        """The type with index broken, if any, is added without a value."""
        rng = store.rng
        self.identifier = identifier
        self.flags = rng.randrange(256)
        self.item, self.parent = random_value(rng), rng.choice([0, 1, 2, random_value(rng)])
        self.time = rng.choice(
            [0, 1, rng.randrange(1 << 51), rng.randrange(253402300800000000), random_value(rng)]
        )
        self.attributes = {}
        self.item_lines = []
        header = random_varint(rng, identifier) + bytes([self.flags])
        for value in (self.item, self.parent, self.time):
            header += random_varint(rng, value)
        data, previous = header, 0
        usable = sorted(i for i in store.types if broken is None or i < broken)
        types = sorted(rng.sample(usable, rng.randint(0, min(spec.extent(rng, 8, 200, 0.05), len(usable)))))
        # An attribute without a size of its own is the last one.
        last = [i for i in types if store.types[i][2] == "kMDStoreAccumulatedSizes"]
        if last:
            types = [index for index in types if index <= last[0]]
        for number, index in enumerate(types):
            raw = random_varint(rng, index - previous)
            self.item_lines += mon.dump("Relative metadata attribute type index data", raw)
            self.item_lines.append(
                mon.kv(f"Relative metadata attribute: {number:d} type index", index - previous)
            )
            self.item_lines.append(mon.kv(f"Metadata attribute: {number:d} type index", index))
            kind, flags, name = store.types[index]
            stored, value, lines = store.attribute(kind, flags, name)
            if number == len(types) - 1 and len(raw + stored) <= 4:
                store.features.add("small_last_attribute")
            data += raw + stored
            self.item_lines += lines
            self.attributes[name] = (kind, flags, value)
            previous = index
        if broken is not None:
            data += random_varint(rng, broken - previous)
        self.data = data

    def lines(self, offset):
        first = "Identifier" if self.identifier <= 1 else "File system identifier"
        parent = "Parent identifier" if self.parent <= 1 else "Parent file system identifier"
        return [
            mon.kv("Record data offset", "0x%08x" % offset),
            mon.kv("Record data size", len(self.data)),
            *mon.dump("Record data", self.data),
            mon.kv(first, self.identifier),
            mon.kv("Flags", "0x%02x" % self.flags),
            mon.kv("Item identifier", "0x%02x" % self.item),
            mon.kv(parent, self.parent),
            mon.kv("Last update time", update_time(self.time)),
        ]


def page_header(rng, kind, size, used, uncompressed):
    return {
        "signature": b"2pbd",
        "page_size": size,
        "used_page_size": used,
        "property_table_type": kind,
        "uncompressed_page_size": uncompressed,
    }


def page_lines(values, place):
    return [
        mon.kv("Block number", place // BLOCK),
        mon.kv("Page number", place // values["page_size"]),
        *S.show("spotlight_store_db_property_page_header", values, CUSTOM),
    ]


class Builder:
    def __init__(self, rng):
        self.rng = rng
        self.features = set()
        self.blocks = {}
        self.next = 1

    def allocate(self, size):
        """Reserves blocks; returns their block number."""
        if self.rng.random() < 0.2:
            self.next += 1
        number = self.next
        self.next += size // BLOCK
        return number

    def page_size(self, used):
        return -(-used // BLOCK) * BLOCK * self.rng.choice([1, 1, 1, 2])

    def property_pages(self, kind, values):
        """values: [(data, lines)] of one table. Returns (block number, lines)."""
        rng = self.rng
        parts = [[]]
        for value in values:
            room = sum(len(item[0]) for item in parts[-1]) + len(value[0])
            if parts[-1] and (rng.random() < 0.05 or room > 3000):
                parts.append([])
                self.features.add("page_chain")
            parts[-1].append(value)
        built = []
        for part in parts:
            data = b"".join(item[0] for item in part)
            size = self.page_size(32 + len(data))
            built.append([self.allocate(size), size, data, part])
        order = list(range(len(built)))
        if rng.random() < 0.3:
            # Pages are not stored in the order of the chain.
            numbers = [item[0] for item in built]
            sizes = {item[1] for item in built}
            if len(sizes) == 1:
                rng.shuffle(numbers)
                for item, number in zip(built, numbers):
                    item[0] = number
        lines = []
        for index in order:
            number, size, data, part = built[index]
            following = built[index + 1][0] if index + 1 < len(built) else 0
            header = page_header(rng, kind, size, 32 + len(data), rng.choice([0, 0, size]))
            values_header = {
                "next_block_number": following,
                "unknown1": rng.getrandbits(64),
            }
            raw = S.pack("spotlight_store_db_property_page_header", header)
            raw += S.pack("spotlight_store_db_property_values_header", values_header)
            raw += data
            rest = size - len(raw)
            raw += rng.choice([bytes(rest), rng.randbytes(rest)])
            self.blocks[number] = raw
            lines += page_lines(header, number * BLOCK)
            lines += S.show("spotlight_store_db_property_values_header", values_header, CUSTOM)
            if kind == 0x41:
                lines += mon.dump("Page data", raw[20:])
            for position, (item, item_lines) in enumerate(part):
                lines += mon.dump(f"Page value: {position:d} data", item)
                lines += item_lines
        return built[0][0], lines

    def compress(self, data):
        """Returns (flags of the table type, stored data, lines or None)."""
        rng = self.rng
        kind = rng.choice(["none", "zlib", "zlib", "lz4", "lz4"])
        self.features.add(f"compression_{kind:s}")
        if kind == "none":
            return 0, data, []
        if kind == "zlib":
            # The level determines the second byte.
            return 0, zlib.compress(data, rng.choice([0, 1, 6, 9])), []
        stored, lines, previous, position = b"", [], None, 0
        blocks = rng.choice([1, 2, 4])
        step = max(1, -(-len(data) // blocks))
        while position < len(data):
            part = data[position : position + step]
            if rng.random() < 0.3:
                self.features.add("lz4_stored_block")
                marker, packed = b"bv4-", part
                block = marker + struct.pack("<I", len(part)) + part
            else:
                marker = b"bv41"
                extra = {}
                if previous:
                    extra["dict"] = previous
                    self.features.add("lz4_dictionary")
                packed = lz4.block.compress(part, store_size=False, **extra)
                block = marker + struct.pack("<II", len(part), len(packed)) + packed
            lines += mon.dump("LZ4 block marker", marker)
            following = (block + b"bv4$bv41")[8:12]
            lines += [
                mon.kv("Signature", marker.decode("ascii")),
                mon.kv("Uncompressed data size", len(part)),
                mon.kv("compressed data size", int.from_bytes(following, "little")),
            ]
            stored += block
            previous = part
            position += step
        stored += b"bv4$"
        lines += mon.dump("LZ4 block marker", b"bv4$")
        return 0x1000, stored, lines

    def record_page(self, records):
        """Returns (block number, lines, {identifier: offset})."""
        rng = self.rng
        data, lines, places = b"", [], {}
        for record in records:
            places[record.identifier] = len(data) + 20
            lines += record.lines(len(data) + 20)
            data += len(record.data).to_bytes(4, "little") + record.data
        if data:
            flags, stored, more = self.compress(data)
        else:
            flags, stored, more = 0, b"", []
        compressed = bool(data) and stored is not data
        size = self.page_size(20 + len(stored))
        number = self.allocate(size)
        kind = 9 | flags | rng.choice([0, 0x4000])
        if not compressed and rng.random() < 0.2:
            kind |= 0x1000
        header = page_header(
            rng, kind, size, 20 + len(stored), 20 + len(data) if compressed else 0
        )
        raw = S.pack("spotlight_store_db_property_page_header", header) + stored
        raw += rng.choice([bytes, rng.randbytes])(size - len(raw))
        self.blocks[number] = raw
        return number, page_lines(header, number * BLOCK) + more + lines, places, data


def type_value(index, item):
    kind, flags, name = item
    values = {
        "table_index": index,
        "value_type": kind,
        "property_type": flags,
        "key_name": name,
    }
    return values


def index_part(rng, indexes, features):
    """Returns (size and padding and indexes, number of bytes of indexes, padding)."""
    padding = rng.choice([b"", b"", b"", rng.randbytes(rng.randint(1, 3))])
    if padding:
        features.add("index_padding")
    size = len(indexes) * 4 + len(padding)
    data = b"".join(index.to_bytes(4, "little") for index in indexes)
    return random_varint(rng, size), padding, data


def index_lines(store, index, indexes, padding=None):
    lines = [
        mon.kv("Table index", index),
        mon.kv("Index size", len(indexes) * 4),
    ]
    if padding is not None:
        lines += mon.dump("Padding", padding)
    lines.append(mon.kv("Index values", ", ".join("%d" % item for item in indexes)))
    lines += [mon.kv(f"Value: {item:d}", store.text_of(item)) for item in indexes]
    return lines


def streams_map(rng, values, directory, number):
    """Stores stream values in the files of a streams map."""
    start = rng.choice([1, 8, 64])
    data, offsets = bytearray(rng.randbytes(start)), []
    for value in values:
        offsets.append(len(data))
        data += value
    header = S.random(rng, "spotlight_database_streams_map_header")
    header.update(
        signature=b"\0PataD\0\0",
        unknown4=len(data),
        unknown5=rng.randrange(100),
        unknown6=len(offsets),
    )
    base = f"dbStr-{number:d}.map."
    tail = rng.choice([b"", bytes(16)])
    directory[base + "header"] = S.pack("spotlight_database_streams_map_header", header) + tail
    directory[base + "offsets"] = struct.pack(f"<{len(offsets):d}I", *offsets) + tail
    directory[base + "data"] = bytes(data) + tail
    return header


BROKEN_ATTRIBUTES = (
    "no_text", "bad_text", "long_text", "long_binary", "long_integers", "long_integer",
    "short_float", "no_byte", "unknown_type",
)


def broken_attribute(rng, what):
    """Returns (value type, property type, stored data) of an invalid last attribute."""
    high = rng.choice([0, 0x0C, 0x80, 0xF0])
    rest = rng.randbytes(rng.choice([0, 1, 5, 30]))
    size = varint(len(rest) + rng.choice([1, 2, 100]))
    if what == "no_text":
        return 11, high | rng.choice([0, 1, 3]), varint(0)
    if what == "bad_text":
        text = rng.choice([b"\xff", b"ab\xc3", b"\x80x", b"\xed\xa0\x80"]) + b"\0"
        return 11, high | rng.randrange(4), varint(len(text)) + text
    if what == "long_text":
        return 11, high | rng.randrange(4), size + b"a" * len(rest[1:]) + b"\0" * len(rest[:1])
    if what == "long_binary":
        return 14, high | rng.randrange(4), size + rest
    if what == "long_integers":
        return 7, high | 2, size + bytes(len(rest))
    if what == "long_integer":
        return rng.choice([0, 2, 6, 7, 15]), high, rng.choice([b"", b"\xff\1\2", b"\x80"])
    if what == "short_float":
        kind, length = rng.choice([(9, 4), (10, 8), (12, 8)])
        return kind, high, rng.randbytes(rng.randrange(length))
    if what == "no_byte":
        return 8, high, b""
    return 7, high, None


def make_broken(rng, what=None):
    """Returns (what, a case of which the only record has an invalid attribute)."""
    what = what or rng.choice(BROKEN_ATTRIBUTES)
    while True:
        case = make(rng, what)
        if case.more["records"]:
            return what, case


def make(rng, broken_record=None):
    builder = Builder(rng)
    features = builder.features
    store = Store(rng, features)
    streams = rng.random() < 0.35
    directory = {}
    if streams:
        features.add("streams_maps")
        store.as_streams()
    broken_data = None
    if broken_record:
        # The attribute type is the last one.
        index = max(store.types) + 1
        kind, flags, broken_data = broken_attribute(rng, broken_record)
        if broken_data is not None:
            store.types[index] = (kind, flags, "broken")
        else:
            # A type that is not defined, also between those that are.
            index = rng.choice([i for i in range(1, min(index, 40) + 1) if i not in store.types] or [index])
    numbers = []
    table_lines = []

    def numbered(table):
        return max(table, default=0)

    def strings_table(number, table, kind, name):
        """The metadata attribute types (1) or values (2)."""
        if not streams:
            values = []
            for index in rng.sample(sorted(table), len(table)):
                item = (
                    type_value(index, table[index])
                    if number == 1
                    else {"table_index": index, "value_name": table[index]}
                )
                values.append(
                    (S.pack(f"spotlight_store_db_property_value{kind:02x}", item), S.show(name, item))
                )
            return builder.property_pages(kind, values)
        stored = [rng.randbytes(rng.randrange(5))]
        lines = []
        for index in range(1, numbered(table) + 1):
            if index in table:
                if number == 1:
                    item = type_value(index, table[index])
                else:
                    item = {"table_index": index, "value_name": table[index]}
                raw = S.pack(name, item)
                data = random_varint(rng, len(raw)) + raw
                more = [mon.kv("Data size", len(raw)), *S.show(name, item)]
            else:
                # Remnant data: the size does not match.
                features.add("remnant_data")
                size = rng.choice([0, 5, 9])
                rest = rng.randbytes(size + rng.choice([1, 3]))
                data = varint(size) + rest
                more = [mon.kv("Data size", size)]
            stored.append(data)
            lines += mon.dump(f"Stream value: {index:d} data", data) + more
        lines = mon.dump("Stream value: 0 data", stored[0]) + lines
        streams_map(rng, stored, directory, number)
        return 0, lines

    def index_table(number, table):
        if not streams:
            values = []
            for index in rng.sample(sorted(table), len(table)):
                size, padding, data = index_part(rng, table[index], features)
                raw = index.to_bytes(4, "little") + size + padding + data
                values.append((raw, index_lines(store, index, table[index])))
            return builder.property_pages(0x81, values)
        stored = [rng.randbytes(rng.randrange(5))]
        lines = mon.dump("Stream value: 0 data", stored[0])
        for index in range(1, numbered(table) + 1):
            table.setdefault(index, [])
            unknown = random_value(rng, 30)
            size, padding, data = index_part(rng, table[index], features)
            raw = random_varint(rng, unknown) + size + padding + data
            stored.append(raw)
            lines += mon.dump(f"Stream value: {index:d} data", raw)
            lines.append(mon.kv("Unknown1", unknown))
            lines += index_lines(store, index, table[index], padding)
        streams_map(rng, stored, directory, number)
        return 0, lines

    builder.next += rng.choice([0, 1])
    map_place = None
    results = [
        strings_table(1, store.types, 0x11, "spotlight_metadata_attribute_type"),
        strings_table(2, store.values, 0x21, "spotlight_metadata_attribute_value"),
    ]
    if streams:
        unknown = {index: [store.some_value()] for index in range(1, rng.choice([1, 3]))}
        results.append(index_table(3, unknown))
    else:
        results.append(builder.property_pages(0x41, []))
    results.append(index_table(4, store.lists))
    results.append(index_table(5, store.localized))
    numbers = [item[0] for item in results]
    for item in results:
        table_lines += item[1]
    count = spec.many(rng, [0, 1, 3, 10, 40], 600)
    identifiers = []
    while len(identifiers) < count:
        identifier = rng.choice([len(identifiers), random_value(rng)])
        if identifier not in identifiers:
            identifiers.append(identifier)
    records = [Record(store, identifier) for identifier in identifiers]
    if broken_record and records:
        store.types = {i: t for i, t in store.types.items() if t[2] != "kMDStoreAccumulatedSizes"}
        records = [Record(store, identifier, index) for identifier in identifiers[:1]]
        records[0].data += broken_data or b""
    pages, rest = [], records
    while rest:
        size = rng.choice([1, 3, 20, len(rest)])
        pages.append(rest[:size])
        rest = rest[size:]
    if rng.random() < 0.1:
        pages.append([])
    page_blocks, record_lines, where, page_data = [], [], {}, {}
    for page in pages:
        number, lines, places, data = builder.record_page(page)
        page_blocks.append(number)
        record_lines += lines
        page_data[number] = data
        for identifier, place in places.items():
            where[identifier] = (number, place)
    # The map
    map_pages, rest = [], list(page_blocks)
    while rest or not map_pages:
        size = min(rng.choice([1, 4, max(1, len(rest))]), 200)
        map_pages.append(rest[:size])
        rest = rest[size:]
    if len(map_pages) > 1:
        features.add("map_pages")
    map_size = rng.choice([BLOCK, BLOCK, 0x400]) if len(page_blocks) < 60 else BLOCK
    map_number = builder.allocate(-(-map_size * len(map_pages) // BLOCK) * BLOCK)
    map_place = map_number * BLOCK
    map_raw, map_lines = b"", []
    for page in map_pages:
        header = S.random(rng, "spotlight_store_db_map_page_header")
        header.update(
            signature=rng.choice([b"1mbd", b"2mbd"]),
            page_size=map_size,
            number_of_map_values=len(page),
        )
        raw = S.pack("spotlight_store_db_map_page_header", header)
        map_lines += S.show("spotlight_store_db_map_page_header", header, CUSTOM)
        for number in page:
            value = S.random(rng, "spotlight_store_db_map_page_value")
            value["block_number"] = number
            raw += S.pack("spotlight_store_db_map_page_value", value)
            map_lines += S.show("spotlight_store_db_map_page_value", value, CUSTOM)
        unused = rng.choice([bytes, rng.randbytes])(map_size - len(raw))
        map_lines += mon.dump("Page data", unused)
        map_raw += raw + unused
    builder.blocks[map_number] = map_raw
    header = S.random(rng, "spotlight_store_db_file_header")
    header.update(
        signature=b"8tsd",
        map_offset=map_place,
        map_size=len(map_raw),
        page_size=BLOCK,
        metadata_types_block_number=numbers[0],
        metadata_values_block_number=numbers[1],
        unknown_values41_block_number=numbers[2],
        metadata_lists_block_number=numbers[3],
        metadata_localized_strings_block_number=numbers[4],
        unknown8=rng.randbytes(256),
        path="/" + spec.random_text(rng, 0, 40, level=2),
    )
    raw = bytearray(S.pack("spotlight_store_db_file_header", header))
    size = len(raw)
    data = bytearray(builder.next * BLOCK)
    data[: len(raw)] = raw
    if map_number > 1 or True:
        data[size:720] = rng.randbytes(720 - size)
    for number, block in builder.blocks.items():
        data[number * BLOCK : number * BLOCK + len(block)] = block
    lines = S.show("spotlight_store_db_file_header", header, CUSTOM)
    if map_place > size:
        lines += mon.dump("Trailing data", data[size:map_place])
    lines += map_lines + table_lines + record_lines
    for record in sorted(records, key=lambda item: item.identifier):
        number, place = where[record.identifier]
        lines.append(
            f"Retrieving record: {record.identifier:d} in page: "
            f"0x{number * BLOCK:08x} at offset: 0x{place:04x}"
        )
        lines.append(mon.kv("Record data offset", "0x%08x" % place))
        lines.append(mon.kv("Record data size", len(record.data)))
        lines += record.item_lines
    if records:
        features.add("items")
    return Case(
        sdb.SpotlightStoreDatabaseFile,
        data,
        lines,
        features,
        records=records,
        directory=directory,
        store=store,
        layout={
            "map": map_place,
            "tables": [number * BLOCK for number in numbers],
            "pages": [number * BLOCK for number in page_blocks],
        },
    )


def make_offsets(rng):
    """Returns (parser arguments, data, ranges, lines) of a streams map offsets file."""
    count = rng.choice([1, 2, 3, 20])
    offsets = sorted(rng.randrange(1, 100000) for _ in range(count))
    data_size = offsets[-1] + rng.randrange(1000)
    tail = rng.choice([b"", rng.randbytes(20)])
    ranges = [
        (offset, end - offset) for offset, end in zip(offsets, offsets[1:] + [data_size])
    ]
    return (data_size, count), struct.pack(f"<{count:d}I", *offsets) + tail, ranges, tail


def broken(rng):
    """Returns (what, data of a file that has to be refused)."""
    while True:
        case = make(rng)
        if not case.more["directory"] and case.more["records"]:
            break
    data = bytearray(case.data)
    layout = case.more["layout"]
    kind = rng.choice(
        ["signature", "map_signature", "page_signature", "record_type", "table_type",
         "truncated", "loop", "map_size", "compressed", "used_size"]
    )
    pages = [
        place for place in layout["pages"]
        if int.from_bytes(data[place + 16 : place + 20], "little")
    ]
    page = rng.choice(layout["pages"])
    if kind == "signature":
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == "map_signature":
        data[layout["map"] + 1 + rng.randrange(3)] ^= 1 << rng.randrange(8)
    elif kind == "page_signature":
        place = rng.choice(layout["pages"] + layout["tables"])
        data[place + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == "record_type":
        data[page + 12 : page + 16] = rng.choice([0x11, 0x81, 0x2009, 8, 0x10009]).to_bytes(4, "little")
    elif kind == "table_type":
        place = rng.choice(layout["tables"])
        data[place + 12 : place + 16] = rng.choice([9, 0x12, 0x1011, 0]).to_bytes(4, "little")
    elif kind == "truncated":
        del data[rng.randrange(page + 20) :]
    elif kind == "loop":
        place = rng.choice(layout["tables"])
        data[place + 20 : place + 24] = (place // BLOCK).to_bytes(4, "little")
    elif kind == "map_size":
        place = layout["map"] + 4
        data[place : place + 4] = rng.randrange(20).to_bytes(4, "little")
    elif kind == "used_size":
        size = int.from_bytes(data[page + 4 : page + 8], "little")
        used = rng.choice([0, 19, size + 1, 0xFFFFFFFF])
        data[page + 8 : page + 12] = used.to_bytes(4, "little")
    else:
        if not pages:
            data[0] ^= 1
        else:
            page = rng.choice(pages)
            first = data[page + 20]
            if first == 0x78:
                data[page + 22 : page + 40] = rng.choice([bytes(18), b"\xff" * 18])
            else:
                # The uncompressed data size of the first block.
                size = rng.choice([0xFFFFFFFF, 0x7FFFFFFF, 0x80000000])
                data[page + 24 : page + 28] = size.to_bytes(4, "little")
    return kind, bytes(data)
