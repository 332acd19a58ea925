"""MacOS keychain databases."""

import struct

from dtformats import keychain

from vf import mon, spec
from vf.fmt import Case

S = spec.Struct("keychain")
KINDS = {
    0: "STRING",
    1: "SINT32",
    2: "UINT32",
    3: "BIG_NUM",
    4: "REAL",
    5: "TIME_DATE",
    6: "BLOB",
    7: "MULTI_UINT32",
    8: "COMPLEX",
}
TABLES = {
    0x00000000: "CSSM_DL_DB_SCHEMA_INFO",
    0x00000001: "CSSM_DL_DB_SCHEMA_INDEXES",
    0x00000002: "CSSM_DL_DB_SCHEMA_ATTRIBUTES",
    0x00000003: "CSSM_DL_DB_SCHEMA_PARSING_MODULE",
    0x0000000A: "CSSM_DL_DB_RECORD_ANY",
    0x0000000B: "CSSM_DL_DB_RECORD_CERT",
    0x0000000C: "CSSM_DL_DB_RECORD_CRL",
    0x0000000D: "CSSM_DL_DB_RECORD_POLICY",
    0x0000000E: "CSSM_DL_DB_RECORD_GENERIC",
    0x0000000F: "CSSM_DL_DB_RECORD_PUBLIC_KEY",
    0x00000010: "CSSM_DL_DB_RECORD_PRIVATE_KEY",
    0x00000011: "CSSM_DL_DB_RECORD_SYMMETRIC_KEY",
    0x00000012: "CSSM_DL_DB_RECORD_ALL_KEYS",
    0x80000000: "CSSM_DL_DB_RECORD_GENERIC_PASSWORD",
    0x80000001: "CSSM_DL_DB_RECORD_INTERNET_PASSWORD",
    0x80000002: "CSSM_DL_DB_RECORD_APPLESHARE_PASSWORD",
    0x80000003: "CSSM_DL_DB_RECORD_USER_TRUST",
    0x80000004: "CSSM_DL_DB_RECORD_X509_CRL",
    0x80000005: "CSSM_DL_DB_RECORD_UNLOCK_REFERRAL",
    0x80000006: "CSSM_DL_DB_RECORD_EXTENDED_ATTRIBUTE",
    0x80001000: "CSSM_DL_DB_RECORD_X509_CERTIFICATE",
    0x80008000: "CSSM_DL_DB_RECORD_METADATA",
}


def table_name(value):
    return "0x%08x (%s)" % (value, TABLES.get(value, "UNKNOWN"))


def offsets(label):
    return lambda values: [
        mon.kv(f"{label} offset: {index:d}", "0x%08x" % value)
        for index, value in enumerate(values)
    ]


CUSTOM = {
    "signature": lambda value: value.decode("ascii"),
    "record_type": table_name,
    "record_offsets": offsets("Record"),
    "table_offsets": offsets("Table"),
}


def u32(value):
    return struct.pack(">I", value & 0xFFFFFFFF)


def blob(data):
    return u32(len(data)) + data


def random_column(rng, number, features):
    """Returns (name, stored name, identifier, data type, name identifier)."""
    kind = rng.choice([0, 1, 2, 2, 5, 6, 6, rng.choice([3, 4, 7, 8])])
    identifier = number
    name_id = rng.randbytes(rng.randrange(12)) if rng.random() < 0.3 else None
    style = rng.random()
    if style < 0.45:
        stored = f"{spec.random_text(rng, 1, 16, level=1)}{number:d}"
        return stored, stored, identifier, kind, name_id
    if style < 0.95:
        code = "%c%c%02d" % (rng.choice("abcxyz"), rng.choice("qrst "), number)
        features.add("name_from_identifier")
        identifier = int.from_bytes(code.encode("ascii"), "big")
        return code, None, identifier, kind, name_id
    stored = ""
    return stored, stored, identifier, kind, name_id


def encode(rng, kind, features):
    """Returns (stored data, reported value)."""
    features.add(f"kind_{kind:d}")
    if kind == 0:
        text = spec.random_text(rng, 0, spec.extent(rng, 30, 20000), level=1)
        return blob(text.encode("ascii")), text
    if kind == 1:
        value = spec.random_int(rng, 4, True)
        if value < 0:
            features.add("negative")
        return struct.pack(">i", value), value
    if kind == 2:
        value = spec.random_int(rng, 4, False)
        return struct.pack(">I", value), value
    if kind == 5:
        text = "%04d%02d%02d%02d%02d%02dZ" % (
            rng.randrange(10000),
            rng.randint(1, 12),
            rng.randint(1, 31),
            rng.randrange(24),
            rng.randrange(60),
            rng.randrange(60),
        )
        return text.encode("ascii") + b"\0", text
    if kind == 6:
        data = spec.random_bytes(rng, spec.many(rng, [0, 1, 8, 20, 60], 70000, 0.02))
        return blob(data), repr(data)
    return rng.randbytes(rng.choice([4, 8, 12])), None


class Builder:
    def __init__(self, rng):
        self.rng = rng
        self.features = set()
        self.lines = []
        self.relations = []
        self.columns = {}
        self.records = {}

    def header(self, size, key_size=0):
        values = S.random(self.rng, "keychain_record_header")
        values["data_size"] = size
        values["key_data_size"] = key_size
        return S.pack("keychain_record_header", values), S.show(
            "keychain_record_header", values, CUSTOM
        )

    def offsets_lines(self, values):
        raw = b"".join(map(u32, values))
        return (
            raw,
            mon.dump("Attribute value offsets data", raw)
            + [
                mon.kv(f"Attribute value offset: {index:d}", "0x%08x" % value)
                for index, value in enumerate(values)
            ],
        )

    def trailing(self):
        return self.rng.choice([b"", b"", bytes(4), self.rng.randbytes(4), self.rng.randbytes(self.rng.randint(1, 40))])

    def info_record(self, identifier, name):
        raw = name.encode("ascii")
        rest = self.trailing()
        body = u32(identifier) + blob(raw)
        size = 24 + 8 + len(body) + len(rest)
        header, lines = self.header(size)
        values, more = self.offsets_lines([0x21, 0x25])
        lines = lines + more
        lines += [
            mon.kv("Relation identifier", "0x%08x" % identifier),
            mon.kv("Relation name size", len(raw)),
            mon.kv("Relation name", name),
        ]
        if rest:
            lines += mon.dump("Record trailing data", rest)
        record = {"RelationID": identifier, "RelationName": name}
        self.records.setdefault(0, []).append(record)
        return header + values + body + rest, lines

    def index_record(self, identifier):
        values = S.random(self.rng, "keychain_record_schema_indexes")
        values["relation_identifier"] = identifier
        body = S.pack("keychain_record_schema_indexes", values)
        rest = self.trailing()
        header, lines = self.header(24 + 20 + len(body) + len(rest))
        raw, more = self.offsets_lines([0x2D, 0x31, 0x35, 0x39, 0x3D])
        lines = lines + more + S.show("keychain_record_schema_indexes", values, CUSTOM)
        if rest:
            lines += mon.dump("Record trailing data", rest)
        self.records.setdefault(1, []).append(
            {
                "RelationID": identifier,
                "IndexID": values["index_identifier"],
                "AttributeID": values["attribute_identifier"],
                "IndexType": values["index_type"],
                "IndexedDataLocation": values["index_data_location"],
            }
        )
        return header + raw + body + rest, lines

    def layout(self, start, items, shuffle=True, unaligned=False):
        """Stores optional values; returns (offsets, data)."""
        rng = self.rng
        data = bytearray(start)
        result = [0] * len(items)
        order = list(range(len(items)))
        if shuffle and rng.random() < 0.3:
            rng.shuffle(order)
            self.features.add("values_not_in_order")
        for index in order:
            if items[index] is None:
                continue
            if unaligned and rng.random() < 0.1:
                data += rng.randbytes(rng.randint(1, 4))
            result[index] = len(data) + 1
            data += items[index]
            data += bytes(-len(data) % 4)
        return result, bytes(data[start:])

    def attribute_record(self, identifier, column):
        rng = self.rng
        name, stored, number, kind, name_id = column
        name_format = rng.choice([0, 2, 2, rng.randrange(12)])
        values, data = self.layout(
            24 + 24,
            [
                u32(identifier),
                u32(number),
                u32(name_format),
                None if stored is None else blob(stored.encode("ascii")),
                None if name_id is None else blob(name_id),
                u32(kind),
            ],
        )
        raw, more = self.offsets_lines(values)
        header, lines = self.header(24 + 24 + len(data))
        lines = lines + more + mon.dump("Attribute values data", data)
        kind_name = KINDS.get(name_format)
        kind_name = f"CSSM_DB_ATTRIBUTE_FORMAT_{kind_name}" if kind_name else "UNKNOWN"
        lines += [
            mon.kv("Relation identifier", table_name(identifier)),
            mon.kv("Attribute identifier", "0x%08x" % number),
            mon.kv("Attribute name data type", f"{name_format:d} ({kind_name:s})"),
            mon.kv("Attribute name", "NULL" if stored is None else stored),
            mon.kv(
                "Attribute name identifier",
                "NULL" if name_id is None else repr(name_id),
            ),
            mon.kv(
                "Attribute data type",
                f"{kind:d} (CSSM_DB_ATTRIBUTE_FORMAT_{KINDS[kind]:s})",
            ),
        ]
        self.records.setdefault(2, []).append(
            {
                "RelationID": identifier,
                "AttributeID": number,
                "AttributeNameFormat": name_format,
                "AttributeName": name,
                "AttributeNameID": None if name_id is None else repr(name_id),
                "AttributeFormat": kind,
            }
        )
        return header + raw + data, lines

    def record(self, identifier):
        rng = self.rng
        columns = self.columns[identifier]
        if not columns:
            rest = rng.randbytes(rng.choice([0, 12, 40]))
            header, lines = self.header(24 + len(rest))
            self.records.setdefault(identifier, []).append({})
            self.features.add("no_columns")
            return header + rest, lines
        key_data = rng.randbytes(rng.choice([0, 0, 4, 20, 60]))
        if key_data:
            self.features.add("key_data")
        stored, record = [], {}
        for name, _, _, kind, _ in columns:
            if rng.random() < 0.25:
                stored.append(None)
                record[name] = None
                self.features.add("absent_value")
            else:
                raw, value = encode(rng, kind, self.features)
                stored.append(raw)
                record[name] = value
        start = 24 + 4 * len(columns)
        values, data = self.layout(start + len(key_data), stored)
        data = key_data + data + rng.choice([b"", b"", rng.randbytes(8)])
        size = start + len(data)
        header, lines = self.header(size, len(key_data))
        raw, more = self.offsets_lines(values)
        lines = lines + more
        if key_data:
            lines += mon.dump("Key data", key_data)
        lines += mon.dump("Attribute values data", data[len(key_data) :])
        for index, (name, _, _, _, _) in enumerate(columns):
            part = b""
            if values[index]:
                ends = [value - 1 for value in values if value > values[index]]
                part = data[values[index] - 1 - start : min(ends + [size]) - start]
            lines += mon.dump(f"Attribute value: {index:d} ({name or 'NULL':s}) data", part)
        self.records.setdefault(identifier, []).append(record)
        return header + raw + data, lines

    def table(self, identifier, producers):
        """producers: functions returning (data, lines) of a record."""
        rng = self.rng
        slots = []
        for producer in producers:
            while rng.random() < 0.1:
                slots.append(None)
                self.features.add("empty_slot")
            slots.append(producer())
        while rng.random() < 0.3:
            slots.append(None)
            self.features.add("empty_slot")
        size = 28 + 4 * len(slots)
        data = bytearray()
        places = [0] * len(slots)
        order = [index for index, slot in enumerate(slots) if slot]
        if rng.random() < 0.3:
            rng.shuffle(order)
            self.features.add("records_not_in_order")
        for index in order:
            places[index] = size + len(data)
            data += slots[index][0]
            data += bytes(-len(data) % 4)
            if rng.random() < 0.1:
                data += rng.randbytes(8)
        rest = rng.choice([b"", bytes.fromhex("0000000800000000"), rng.randbytes(12)])
        values = S.random(rng, "keychain_table_header")
        values.update(
            data_size=size + len(data) + len(rest),
            record_type=identifier,
            number_of_records=len(order),
            records_array_offset=size,
            number_of_record_offsets=len(slots),
            record_offsets=places,
        )
        header = S.pack("keychain_table_header", values)
        lines = S.show("keychain_table_header", values, CUSTOM)
        position = size
        for index, slot in enumerate(slots):
            if slot:
                lines += slot[1]
                position = places[index] + len(slot[0])
                if identifier not in (0, 1, 2) and not self.columns.get(identifier):
                    position = places[index] + 24
        raw = header + bytes(data) + rest
        if raw[position:]:
            lines += mon.dump("Table trailing data", raw[position:])
        return raw, lines


def make(rng):
    builder = Builder(rng)
    features = builder.features
    number = rng.choice([0, 1, 2, 4, 8])
    others = rng.sample(
        [key for key in TABLES if key > 2] + [0x80000010, 0x1234, 0xFFFFFFFF], number
    )
    relations = [0, 1, 2] + others
    if rng.random() < 0.3:
        rest = relations[1:]
        rng.shuffle(rest)
        relations = [0] + rest
    names = {}
    for identifier in relations:
        names[identifier] = rng.choice(
            [TABLES.get(identifier, "x"), "", spec.random_text(rng, 1, 30, level=1)]
        )
        builder.columns[identifier] = []
    described = [key for key in relations if key > 2 or rng.random() < 0.5]
    attributes = []
    for identifier in described:
        count = spec.many(rng, [0, 1, 2, 5, 20], 80, 0.3)
        seen = set()
        for index in range(count):
            column = random_column(rng, index, features)
            if column[0] in seen:
                continue
            seen.add(column[0])
            attributes.append((identifier, column))
    if rng.random() < 0.3:
        rng.shuffle(attributes)
    for identifier, column in attributes:
        builder.columns[identifier].append(column)
    tables = [
        (
            0,
            [
                lambda key=key: builder.info_record(key, names[key])
                for key in relations
            ],
        )
    ]
    schema = [
        (
            1,
            [
                lambda: builder.index_record(rng.choice(relations))
                for _ in range(spec.many(rng, [0, 1, 6], 300))
            ],
        ),
        (
            2,
            [
                lambda item=item: builder.attribute_record(*item)
                for item in attributes
            ],
        ),
    ]
    rng.shuffle(schema)
    rest = []
    for identifier in others:
        count = spec.many(rng, [0, 1, 2, 6], 150, 0.3)
        rest.append(
            (identifier, [lambda key=identifier: builder.record(key)] * count)
        )
    rng.shuffle(rest)
    tables += schema + rest
    built = [builder.table(*item) for item in tables]
    start = rng.choice([20, 20, 24, 100])
    places, data = [], bytearray()
    base = 8 + 4 * len(built)
    order = list(range(len(built)))
    places = [0] * len(built)
    if rng.random() < 0.3:
        rng.shuffle(order)
        features.add("tables_not_in_order")
    for index in order:
        places[index] = base + len(data)
        data += built[index][0]
    values = S.random(rng, "keychain_file_header")
    values.update(signature=b"kych", tables_array_offset=start)
    array = {
        "data_size": base + len(data),
        "number_of_tables": len(built),
        "table_offsets": places,
    }
    lines = S.show("keychain_file_header", values, CUSTOM)
    lines += S.show("keychain_tables_array", array, CUSTOM)
    for _, more in built:
        lines += more
    raw = S.pack("keychain_file_header", values).ljust(start, b"\0")
    raw += S.pack("keychain_tables_array", array) + bytes(data)
    raw += rng.choice([b"", bytes(16), rng.randbytes(5)])
    expected = [
        (
            key,
            names[key],
            [(column[2], column[0], column[3]) for column in builder.columns[key]],
            builder.records.get(key, []),
        )
        for key in relations
    ]
    layout = {"start": start, "tables": [start + place for place in places]}
    return Case(
        keychain.KeychainDatabaseFile, raw, lines, features, tables=expected, layout=layout
    )


def broken(rng):
    """Returns (what, data of a file that has to be refused)."""
    case = make(rng)
    data = bytearray(case.data)
    layout = case.more["layout"]
    info = layout["tables"][0]
    count = struct.unpack_from(">I", data, info + 24)[0]
    records = [
        info + place for place in struct.unpack_from(f">{count:d}I", data, info + 28) if place
    ]
    kind = rng.choice(["signature", "truncated", "info_offsets", "name", "table", "tables"])
    if kind == "signature":
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == "truncated":
        del data[rng.randrange(records[-1]) :]
    elif kind == "info_offsets":
        data[rng.choice(records) + 24 + rng.randrange(8)] ^= 1 << rng.randrange(8)
    elif kind == "name":
        for record in records:
            size = struct.unpack_from(">I", data, record + 36)[0]
            if size:
                data[record + 40 + rng.randrange(size)] = rng.randint(0x80, 0xFF)
                break
        else:
            del data[3]
    elif kind == "table":
        # A table without a description, at the end of the tables.
        missing = rng.choice([0x77777777, 0x80004444])
        record = u32(24) + bytes(20)
        table = struct.pack(">7I", 56, missing, 1, 32, 0, 0, 1) + u32(32) + record
        place = layout["tables"][-1]
        data[place:] = table
    else:
        data[layout["start"] + 4 : layout["start"] + 8] = u32(0x7FFFFFF)
    return kind, bytes(data)


def broken_values(rng):
    """A record with an offset of a value that is not in the values data."""
    builder = Builder(rng)
    relations = [0, 1, 2, 15]
    builder.columns = {0: [], 1: [], 2: [], 15: []}
    kind = rng.choice([0, 1, 2, 5, 6])
    columns = [
        ("a", "a", 0, 2, None),
        ("b", "b", 1, kind, None),
    ]
    builder.columns[15] = columns
    tables = [
        (0, [lambda key=key: builder.info_record(key, "x") for key in relations]),
        (2, [lambda column=c: builder.attribute_record(15, column) for c in columns]),
    ]
    values = [u32(5), encode(rng, kind, builder.features)[0]]
    places, data = builder.layout(32, values, shuffle=False)
    what = rng.choice(["before", "after", "size", "cut"])
    size = 32 + len(data)
    if what == "before":
        places[1] = rng.randint(1, 32)
    elif what == "after":
        places[1] = rng.choice([size + 1, size + 4, 0x7FFFFFFF, 0xFFFFFFFF])
    elif what == "size":
        size = rng.randrange(32)
    else:
        size = places[1] - 1 + rng.randrange(4)
    record = u32(size) + bytes(20) + b"".join(map(u32, places)) + data
    tables.append((15, [lambda: (record, [])]))
    built = [builder.table(*item)[0] for item in tables]
    header = struct.pack(">4sHHIII", b"kych", 1, 0, 16, 20, 0)
    array, body = b"", b""
    for item in built:
        array += u32(8 + 4 * len(built) + len(body))
        body += item
    array = u32(8 + len(array) + len(body)) + u32(len(built)) + array
    return what, header + array + body


BROKEN_SCHEMAS = (
    "no_info", "no_attributes", "no_indexes", "index_relation", "attribute_relation",
    "attribute_without_relation", "index_offsets", "column_name", "short_attribute",
)


def broken_schema(rng):
    """A schema that does not describe itself."""
    what = rng.choice(BROKEN_SCHEMAS)
    builder = Builder(rng)
    relations = [0, 1, 2, 15]
    missing = {"no_info": 0, "no_attributes": 2, "no_indexes": 1}.get(what)
    if missing is not None:
        relations.remove(missing)
    if missing != 0 and rng.random() < 0.7:
        rng.shuffle(relations)
        relations.sort(key=bool)
    builder.columns = {0: [], 1: [], 2: [], 15: []}
    name = rng.choice(["a", "Alias"])
    columns = [(name, name, index, rng.choice([0, 2, 5, 6]), None) for index in range(2)]
    unknown = rng.choice([3, 16, 0x80000000])
    index = rng.randrange(2)

    def attribute(number):
        relation = 15
        if number == index and what == "attribute_relation":
            relation = unknown
        record, lines = builder.attribute_record(relation, columns[number])
        record = bytearray(record)
        if number == index:
            if what == "attribute_without_relation":
                record[24:28] = bytes(4)
            elif what == "column_name":
                place = int.from_bytes(record[36:40], "big") - 1
                record[place + 4] = rng.randint(0x80, 0xFF)
            elif what == "short_attribute":
                record[:4] = u32(rng.randrange(48))
        return bytes(record), lines

    def index_record():
        relation = unknown if what == "index_relation" else rng.choice(relations)
        record = bytearray(builder.index_record(relation)[0])
        if what == "index_offsets":
            record[24 + rng.randrange(20)] ^= 1 << rng.randrange(8)
        return bytes(record), []

    tables = [
        (0, [lambda key=key: builder.info_record(key, "x") for key in relations]),
        (2, [lambda number=n: attribute(number) for n in range(2)]),
        (1, [index_record]),
    ]
    if rng.random() < 0.5:
        tables[1:] = tables[:0:-1]
    built = [builder.table(*item)[0] for item in tables]
    header = struct.pack(">4sHHIII", b"kych", 1, 0, 16, 20, 0)
    array, body = b"", b""
    for item in built:
        array += u32(8 + 4 * len(built) + len(body))
        body += item
    array = u32(8 + len(array) + len(body)) + u32(len(built)) + array
    return what, header + array + body
