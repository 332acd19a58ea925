"""LevelDB tables, logs and descriptors."""

import snappy
import zstd

from dtformats import leveldb

from vf import mon, spec
from vf.fmt import Case

S = spec.Struct("leveldb")
MAGIC = bytes.fromhex("57fb808b247547db")
VALUE_TYPES = {0: "kTypeDeletion", 1: "kTypeValue"}

_TABLE = []
for _index in range(256):
    _crc = _index
    for _ in range(8):
        _crc = _crc >> 1 ^ (0x82F63B78 if _crc & 1 else 0)
    _TABLE.append(_crc)


def masked_crc(data):
    crc = 0xFFFFFFFF
    for byte in data:
        crc = crc >> 8 ^ _TABLE[(crc ^ byte) & 0xFF]
    crc ^= 0xFFFFFFFF
    return ((crc >> 15 | crc << 17) + 0xA282EAD8) & 0xFFFFFFFF


def varint(value, padded=0):
    """LEB128; padded adds continuation bytes without significant bits."""
    result = bytearray()
    while value > 0x7F:
        result.append(value & 0x7F | 0x80)
        value >>= 7
    result.append(value)
    for _ in range(padded):
        result[-1] |= 0x80
        result.append(0)
    return bytes(result)


def random_varint(rng, bits=64):
    return rng.getrandbits(rng.randint(1, bits))


def prefixed(data):
    return varint(len(data)) + data


# Tables


def internal(key, sequence, kind):
    return key + (sequence << 8 | kind).to_bytes(8, "little")


def build_block(rng, entries, features):
    """Returns the block data, its restarts and what is stored for each entry."""
    interval = rng.choice([1, 2, 3, 4, 16, 1000])
    data, restarts, stored = bytearray(), [0], []
    previous = b""
    for index, (key, value) in enumerate(entries):
        shared = 0
        if index % interval == 0:
            if index:
                restarts.append(len(data))
                features.add("restarts")
        else:
            while shared < min(len(key), len(previous)) and key[shared] == previous[shared]:
                shared += 1
            if shared:
                features.add("shared_prefix")
        stored.append((len(data), shared, key, value))
        data += varint(shared) + varint(len(key) - shared) + varint(len(value))
        data += key[shared:] + value
        previous = key
    for restart in restarts:
        data += restart.to_bytes(4, "little")
    data += len(restarts).to_bytes(4, "little")
    return bytes(data), restarts, stored


def compress(rng, data, features):
    kind = rng.choice([0, 1, 2])
    features.add(f"compression_{kind:d}")
    if kind == 1:
        return kind, snappy.compress(data)
    if kind == 2:
        return kind, zstd.compress(data, rng.choice([1, 3, 9]))
    return kind, data


class Table:
    """A table file and its expected output."""

    def __init__(self, rng, entries):
        """entries: sorted [(key, sequence number, value type, value)]."""
        self.rng = rng
        self.features = features = {"tables"}
        self.data = bytearray()
        self.lines, self.reads = [], []
        blocks, rest = [], list(entries)
        while rest:
            size = rng.choice([1, 2, 5, 20, len(rest)])
            blocks.append(rest[:size])
            rest = rest[size:]
        if len(blocks) > 1:
            features.add("data_blocks")
        if not blocks:
            features.add("empty_table")
        index_entries, data_lines, data_reads = [], [], []
        for block in blocks:
            pairs = [(internal(key, seq, kind), value) for key, seq, kind, value in block]
            handle, lines, reads = self.block(pairs, "Data")
            index_entries.append((pairs[-1][0], varint(handle[0]) + varint(handle[1])))
            data_lines += [
                mon.kv("Data block offset", "0x%08x" % handle[0]),
                mon.kv("Data block size", handle[1]),
                *lines,
            ]
            data_reads += reads
        meta, _, _ = self.block([], "Metaindex")
        index, index_lines, index_reads = self.block(index_entries, "Index")
        handles = b"".join(map(varint, (*meta, *index)))
        footer = {"data": handles.ljust(40, b"\0"), "signature": MAGIC}
        raw = S.pack("leveldb_table_footer", footer)
        footer["padding"] = bytes(40 - len(handles))
        self.reads = [("file footer", len(self.data), raw)]
        self.lines = [
            mon.kv("Metaindex block offset", "0x%08x" % meta[0]),
            mon.kv("Metaindex block size", meta[1]),
            mon.kv("Index block offset", "0x%08x" % index[0]),
            mon.kv("Index block size", index[1]),
            *S.show("leveldb_table_footer", footer),
            *mon.dump("Metaindex block data", self.data[meta[0] : sum(meta)]),
        ]
        self.footer = len(self.data)
        self.index = index
        self.data += raw
        self.reads += index_reads + data_reads
        self.lines += index_lines + data_lines
        self.entries = list(entries)

    def block(self, pairs, name):
        table, restarts, stored = build_block(self.rng, pairs, self.features)
        kind, raw = compress(self.rng, table, self.features)
        offset = len(self.data)
        self.data += raw
        trailer = {
            "compression_type": kind,
            "checksum": masked_crc(raw + bytes([kind])),
        }
        raw_trailer = S.pack("leveldb_table_block_trailer", trailer)
        reads = [("block trailer", len(self.data), raw_trailer)]
        self.data += raw_trailer
        lines = [
            *mon.dump(f"{name} block data", raw),
            *S.show("leveldb_table_block_trailer", trailer),
            *mon.dump(f"{name} table data", table),
            mon.kv("Number of restart values", len(restarts)),
            mon.kv("Restart values", ", ".join(map(str, restarts))),
        ]
        for number, (position, shared, key, value) in enumerate(stored):
            entry = f"Entry: {number:d}"
            lines += [
                mon.kv("Offset", position),
                mon.kv(f"{entry} shared key data size", shared),
                mon.kv(f"{entry} non-shared key data size", len(key) - shared),
                mon.kv(f"{entry} value data size", len(value)),
                *mon.dump(f"{entry} key data", key[shared:]),
            ]
            if shared:
                lines += mon.dump(f"{entry} key data", key)
            suffix = int.from_bytes(key[-8:], "little")
            kind = suffix & 0xFF
            lines += [
                mon.kv("Key", key[:-8]),
                mon.kv("Value type", "%d (%s)" % (kind, VALUE_TYPES.get(kind, "UNKNOWN"))),
                mon.kv("Sequence number", suffix >> 8),
                *mon.dump(f"{entry} value data", value),
            ]
        return (offset, len(raw)), lines, reads


def random_value(rng):
    choice = rng.random()
    if choice < 0.2:
        return b""
    if choice < 0.25:
        return spec.random_bytes(rng, spec.many(rng, [127, 128, 300, 5000], 200000, 0.2))
    return spec.random_bytes(rng, rng.randint(1, 40))


def random_key(rng):
    choice = rng.random()
    if choice < 0.05:
        return b""
    if choice < 0.1:
        return rng.randbytes(spec.many(rng, [119, 120, 127, 128, 250], 20000, 0.2))
    prefix = rng.choice([b"", b"key", b"a/long/common/prefix/", b"\0\0\0\0"])
    return prefix + spec.random_bytes(rng, rng.randint(0, 12))


def random_entries(rng, make_key=random_key):
    keys = {make_key(rng) for _ in range(spec.many(rng, [0, 1, 2, 5, 20, 60], 600))}
    entries = []
    for key in sorted(keys):
        for _ in range(rng.choice([1, 1, 1, 2])):
            kind = 2 if rng.random() < 0.02 else rng.choice([0, 1, 1])
            value = b"" if kind == 0 else random_value(rng)
            entries.append((key, random_varint(rng, 56), kind, value))
    # Of the same key the newest entry is first.
    entries.sort(key=lambda entry: (entry[0], -entry[1]))
    return entries


def make_table(rng, make_key=random_key):
    return Table(rng, random_entries(rng, make_key))


# Logs

PAGE = 32768


def fragment(records, features, start=0):
    """Splits records into blocks: [(offset, type, data, index of the record)]."""
    offset, blocks = start, []
    for number, record in enumerate(records):
        rest, first = record, True
        while True:
            room = PAGE - offset % PAGE
            if room < 7:
                features.add("page_trailer")
                offset += room
                room = PAGE
            part = rest[: room - 7]
            rest = rest[room - 7 :]
            kind = 1 if first and not rest else 2 if first else 3 if rest else 4
            if not part and kind == 2:
                features.add("empty_first_block")
            features.add(f"record_type_{kind:d}")
            blocks.append((offset, kind, part, number))
            offset += 7 + len(part)
            first = False
            if not rest:
                break
    return blocks


def write_log(rng, parser, records, shown, features):
    """records: contents; shown: function offset, index -> lines."""
    blocks = fragment(records, features)
    data, reads, lines = bytearray(), [], []
    start = 0
    for offset, kind, part, number in blocks:
        data += bytes(offset - len(data))
        values = {
            "checksum": masked_crc(bytes([kind]) + part),
            "record_data_size": len(part),
            "record_type": kind,
            "record_data": part,
        }
        raw = S.pack("leveldb_log_block", values)
        reads.append(("block", offset, raw))
        lines += S.show("leveldb_log_block", values)
        data += raw
        if kind in (1, 2):
            start = offset
        if kind in (1, 4):
            lines += [mon.kv("Offset", start), *shown(number)]
    if rng.random() < 0.2 and data:
        # A page is filled up with empty blocks when the log is preallocated.
        features.add("preallocated")
        rest = -len(data) % PAGE
        if rest > 200:
            rest = rng.randrange(0, 200, 7)
        while rest >= 7:
            values = {"checksum": 0, "record_data_size": 0, "record_type": 0, "record_data": b""}
            reads.append(("block", len(data), bytes(7)))
            lines += S.show("leveldb_log_block", values)
            data += bytes(7)
            rest -= 7
        data += bytes(rest if len(data) % PAGE + rest == PAGE else 0)
    return Case(parser, data, lines, features, reads=reads)


def large(rng):
    """Content of a size that needs multiple blocks."""
    size = spec.many(rng, [PAGE - 100, PAGE, PAGE + 50, 2 * PAGE + 9], 12 * PAGE, 0.2)
    return bytes([rng.randrange(256)]) * size


def slice_lines(label, data):
    return [mon.kv(f"{label} size", len(data)), *mon.dump(label, data)]


def record_sizes(rng, make, features):
    """Records of which some end close to the end of a page."""
    records, position = [], 0
    for _ in range(spec.many(rng, [0, 1, 2, 5, 10], 60)):
        records.append(make(None))
        position += 7 + len(records[-1][0])
        if rng.random() < 0.15 and position % PAGE < PAGE - 2000:
            # Leave 0 to 12 bytes in the page.
            left = rng.randrange(0, 13)
            features.add("page_end")
            records.append(make(PAGE - position % PAGE - 7 - left))
            position += 7 + len(records[-1][0])
        elif rng.random() < 0.1:
            records.append(make(len(large(rng))))
            position += 7 + len(records[-1][0])
    return records


def make_log(rng):
    features = {"logs"}

    def make(size):
        header = {"sequence_number": random_varint(rng, 56), "number_of_values": 0}
        raw, lines = b"", []
        number = 0
        while size is None or number == 0:
            kind = rng.choice([0, 1, 1]) if size is None else 1
            key = random_key(rng) if size is None else b"key"
            value = random_value(rng)
            if size is not None:
                # header, value type, key, size of the value
                room = size - 12 - 1 - 4 - 3
                value = bytes([rng.randrange(256)]) * max(room, 128)
            part = bytes([kind]) + prefixed(key) + (prefixed(value) if kind else b"")
            raw += part
            lines.append(mon.kv("Value type", "%d (%s)" % (kind, VALUE_TYPES[kind])))
            lines += slice_lines("Key", key) + (slice_lines("Value", value) if kind else [])
            features.add(f"log_value_type_{kind:d}")
            number += 1
            if rng.random() < 0.5:
                break
        header["number_of_values"] = number
        raw = S.pack("leveldb_log_value_header", header) + raw
        return raw, S.show("leveldb_log_value_header", header) + lines

    records = record_sizes(rng, make, features)
    return write_log(
        rng,
        leveldb.LevelDBDatabaseLogFile,
        [raw for raw, _ in records],
        lambda index: records[index][1],
        features,
    )


TAGS = {
    1: "kComparator",
    2: "kLogNumber",
    3: "kNextFileNumber",
    4: "kLastSequence",
    5: "kCompactPointer",
    6: "kDeletedFile",
    7: "kNewFile",
    9: "kPrevLogNumber",
}
TAG_VALUES = {
    1: ("Name*",),
    2: ("Log number",),
    3: ("Next file number",),
    4: ("Last sequence number",),
    5: ("Level", "Key+"),
    6: ("Level", "File number"),
    7: ("Level", "File number", "File size", "Smallest record key+", "Largest record key+"),
    9: ("Previous log number",),
}


def make_descriptor(rng):
    features = {"descriptors"}

    def make(size):
        raw, lines = b"", []
        count = rng.randint(1, 6) if size is None else 1
        for _ in range(count):
            tag = rng.choice(list(TAGS)) if size is None else 5
            features.add(f"tag_{tag:d}")
            raw += varint(tag)
            lines.append(mon.kv("Value tag", "%d (%s)" % (tag, TAGS[tag])))
            for label in TAG_VALUES[tag]:
                if label.endswith("*"):
                    text = rng.choice(
                        ["leveldb.BytewiseComparator", "idb_cmp1", spec.random_text(rng, 1, 150)]
                    )
                    data = text.encode("utf8")
                    raw += prefixed(data)
                    lines.append(mon.kv("Name string size", len(data)))
                    lines.append(mon.kv("Name string", text))
                elif label.endswith("+"):
                    if size is None:
                        data = internal(random_key(rng), random_varint(rng, 56), 1)
                    else:
                        data = bytes([rng.randrange(256)]) * max(size - 5, 128)
                    raw += prefixed(data)
                    lines += slice_lines(label[:-1], data)
                else:
                    value = random_varint(rng, 32 if label == "Level" else 64)
                    if size is not None:
                        value = 3
                    raw += varint(value)
                    lines.append(mon.kv(label, value))
        return raw, lines

    records = record_sizes(rng, make, features)
    return write_log(
        rng,
        leveldb.LevelDBDatabaseDescriptorFile,
        [raw for raw, _ in records],
        lambda index: records[index][1],
        features,
    )


# IndexedDB


def identifier(rng, maximum):
    size = rng.randint(1, maximum)
    return size, rng.choice([0, rng.getrandbits(8 * size), rng.randrange(200) & (1 << 8 * size) - 1])


def indexeddb_key(rng):
    """Returns the key and its segments."""
    sizes, values = zip(identifier(rng, 8), identifier(rng, 8), identifier(rng, 4))
    if rng.random() < 0.25:
        values = (0, 0, 0)
    raw = bytes([sizes[0] - 1 << 5 | sizes[1] - 1 << 2 | sizes[2] - 1])
    for size, value in zip(sizes, values):
        raw += value.to_bytes(size, "little")
    segments = [str(value) for value in values]
    if values == (0, 0, 0):
        kind = rng.choice([0, 1, 2, 100, 201, 255])
        raw += bytes([kind])
        segments.append(str(kind))
    rest = spec.random_bytes(rng, rng.choice([0, 1, 4, 20]))
    if rest:
        segments.append(repr(rest)[1:])
    return raw + rest, segments
