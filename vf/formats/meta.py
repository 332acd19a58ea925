"""Windows (enhanced) metafiles."""

from dtformats import wemf

from vf import mon, spec
from vf.fmt import Case

E = spec.Struct("emf")
W = spec.Struct("wmf")


def names(struct, name):
    return {value["number"]: value["name"] for value in struct.types[name]["values"]}


EMF_TYPES = names(E, "emf_record_type")
EMF_STOCK = names(E, "emf_stock_object")
WMF_TYPES = names(W, "wmf_record_type")
WMF_MAP_MODE = names(W, "wmf_map_mode")
WMF_STRETCH_MODE = names(W, "wmf_stretch_mode")
WMF_OPERATIONS = names(W, "wmf_raster_operation_code")


def known_type(rng, types):
    kind = rng.choice(list(types))
    if rng.random() < 0.1:
        kind = rng.randrange(1 << 16)
    return kind, types.get(kind) or "UNKNOWN"


def content(rng, unit):
    size = spec.many(
        rng, [0, 0, 1, 2, 3, 4, 8, 16, 17, 40, 129, 600], 100000, 0.01
    )
    return spec.random_bytes(rng, size * unit)


def make_emf(rng):
    features = {"emf_files"}
    names_size = rng.choice([0, 0, 0, 4, 20, 52])
    base = rng.choice([88, 100, 108, 108])
    features.add(f"emf_header_{base:d}")
    if names_size:
        features.add("emf_description")
    size = base + names_size
    records, reads, lines = b"", [], []
    offset = size
    number = 1
    for _ in range(spec.many(rng, [0, 1, 2, 5, 15, 40], 800)):
        choice = rng.random()
        if choice < 0.2:
            kind, name = 0x18, "EMR_SETTEXTCOLOR"
            values = E.random(rng, "emf_settextcolor")
            data = E.pack("emf_settextcolor", values)
            shown = [mon.kv("Color", "0x%04x" % values["color"])]
            features.add("emf_color")
        elif choice < 0.4:
            kind, name = 0x25, "EMR_SELECTOBJECT"
            identifier = rng.choice(list(EMF_STOCK) + [rng.getrandbits(32), rng.randrange(99)])
            data = E.pack("emf_selectobject", {"object_identifier": identifier})
            text = "0x%08x" % identifier
            if identifier in EMF_STOCK:
                text += " (%s)" % EMF_STOCK[identifier]
                features.add("emf_stock_object")
            shown = [mon.kv("Object identifier", text)]
        else:
            kind, name = known_type(rng, EMF_TYPES)
            if kind in (0x18, 0x25):
                continue
            data, shown = content(rng, rng.choice([1, 4, 4, 4])), []
        if data and choice < 0.4 and rng.random() < 0.1:
            # Decoders ignore what follows the values they know.
            data += rng.randbytes(4)
        header = E.pack("emf_record_header", {"record_type": kind, "record_size": 8 + len(data)})
        reads.append(("record header", offset, header))
        lines.append(mon.kv("Record type", "0x%04x (%s)" % (kind, name)))
        lines.append(mon.kv("Record size", "%d" % (8 + len(data))))
        lines += (mon.dump("Record data", data) if data else []) + shown
        features.add("emf_records" if data else "emf_empty_record")
        records += header + data
        offset += 8 + len(data)
        number += 1
    # The end of file record: number of palette entries, offset and last size.
    data = bytes(8) + (20).to_bytes(4, "little")
    header = E.pack("emf_record_header", {"record_type": 14, "record_size": 20})
    reads.append(("record header", offset, header))
    lines += [mon.kv("Record type", "0x000e (EMR_EOF)"), mon.kv("Record size", "20")]
    lines += mon.dump("Record data", data)
    records += header + data
    values = E.random(
        rng,
        "emf_file_header",
        record_type=1,
        record_size=size,
        signature=0x464D4520,
        format_version=0x10000,
        file_size=size + len(records),
        number_of_records=number + 1,
        unknown1=0,
        description_string_size=names_size // 2,
        description_string_offset=base if names_size else 0,
    )
    header = E.pack("emf_file_header", values)[:base]
    data = header + rng.randbytes(names_size) + records
    assert len(data) >= 108
    reads.insert(0, ("file header", 0, data[:108]))
    top = [
        mon.kv("Record type", "0x0001 (EMR_HEADER)"),
        mon.kv("Record size", size),
        mon.kv("Signature", "0x464d4520"),
        mon.kv("Format version", "0x10000"),
        mon.kv("File size", values["file_size"]),
        mon.kv("Number of records", values["number_of_records"]),
        mon.kv("Number of handles", values["number_of_handles"]),
        mon.kv("Unknown (reserved)", "0x0000"),
        mon.kv("Description string size", values["description_string_size"]),
        mon.kv("Description string offset", "0x%04x" % values["description_string_offset"]),
    ]
    return Case(wemf.EMFFile, data, top + lines, features, reads=reads)


DIB = (
    ("Source height", "source_height"),
    ("Source width", "source_width"),
    ("Source X coordinate", "source_x_coordinate"),
    ("Source Y coordinate", "source_y_coordinate"),
    ("Destination height", "destination_height"),
    ("Destination width", "destination_width"),
    ("Destination X coordinate", "destination_x_coordinate"),
    ("Destination Y coordinate", "destination_y_coordinate"),
)
# Low words of the raster operation codes, by the operation.
with open(spec.os.path.join(spec.VERIF, "spec", "raster_operations.json"), encoding="utf-8") as _f:
    OPERATIONS = {int(key): name for key, name in spec.json.load(_f).items()}


def make_wmf_record(rng, features):
    choice = rng.random()
    if choice < 0.12:
        mode = rng.choice(list(WMF_MAP_MODE) + [0, 9, rng.randrange(1 << 16)])
        name = WMF_MAP_MODE.get(mode, "UNKNOWN")
        features.add("map_mode")
        text = "0x%04x (%s)" % (mode, name)
        return 0x0103, W.pack("wmf_setmapmode", {"map_mode": mode}), [mon.kv("Map mode", text)]
    if choice < 0.24:
        mode = rng.choice(list(WMF_STRETCH_MODE) + [0, 5, rng.randrange(1 << 16)])
        name = WMF_STRETCH_MODE.get(mode, "UNKNOWN")
        features.add("stretch_mode")
        text = "0x%04x (%s)" % (mode, name)
        data = W.pack("wmf_setstretchbltmode", {"stretch_mode": mode})
        return 0x0107, data, [mon.kv("Stretch mode", text)]
    if choice < 0.32:
        values = W.random(rng, "wmf_restoredc")
        features.add("restore_dc")
        text = "%d" % values["number_of_saved_device_context"]
        shown = [mon.kv("Number of saved device context", text)]
        return 0x0127, W.pack("wmf_restoredc", values), shown
    if choice < 0.5:
        kind, name = rng.choice([(0x020B, "wmf_setwindoworg"), (0x020C, "wmf_setwindowext")])
        values = W.random(rng, name)
        features.add(name)
        shown = [
            mon.kv("X coordinate", values["x_coordinate"]),
            mon.kv("Y coordinate", values["y_coordinate"]),
        ]
        return kind, W.pack(name, values), shown
    if choice < 0.62:
        operation = rng.choice(list(OPERATIONS) + [rng.getrandbits(32)])
        values = W.random(rng, "wmf_dibstretchblt", raster_operation=operation)
        name = OPERATIONS.get(operation, "UNKNOWN")
        features.add("raster_operation" if operation in OPERATIONS else "unknown_operation")
        shown = [mon.kv("Raster operation", "0x%08x (%s)" % (operation, name))]
        shown += [mon.kv(label, values[key]) for label, key in DIB]
        return 0x0B41, W.pack("wmf_dibstretchblt", values) + content(rng, 2), shown
    while True:
        kind, _ = known_type(rng, WMF_TYPES)
        if kind not in (0x0103, 0x0107, 0x0127, 0x020B, 0x020C, 0x0B41):
            return kind, content(rng, 2), []


def make_wmf(rng):
    features = {"wmf_files"}
    reads, top, lines = [], [], []
    data = b""
    if rng.random() < 0.5:
        features.add("placeable")
        values = W.random(rng, "wmf_placeable", signature=0x9AC6CDD7)
        data = W.pack("wmf_placeable", values)
        reads.append(("placeable", 0, data))
        top = [
            mon.kv("Signature", "0x9ac6cdd7"),
            mon.kv("Resource handle", "0x%04x" % values["resource_handle"]),
            *mon.dump("Bounding box", values["bounding_box"]),
            mon.kv("Number of units per inch", values["number_of_units_per_inch"]),
            mon.kv("Unknown1", "0x%08x" % values["unknown1"]),
            mon.kv("Checksum", "0x%04x" % values["checksum"]),
        ]
    start = len(data)
    records = []
    body = b""
    offset = start + 18
    for _ in range(spec.many(rng, [0, 1, 2, 5, 15, 40], 800)):
        records.append(make_wmf_record(rng, features))
    if rng.random() < 0.9:
        records.append((0, b"", []))
    record_reads = []
    for kind, raw, shown in records:
        size = 6 + len(raw)
        header = W.pack("wmf_record_header", {"record_type": kind, "record_size": size // 2})
        record_reads.append(("record header", offset, header))
        lines.append(mon.kv("Record size", "%d (%d bytes)" % (size // 2, size)))
        name = WMF_TYPES.get(kind) or "UNKNOWN"
        lines.append(mon.kv("Record type", "0x%04x (%s)" % (kind, name)))
        lines += (mon.dump("Record data", raw) if raw else []) + shown
        features.add("wmf_records" if raw else "wmf_empty_record")
        body += header + raw
        offset += size
    words = (18 + len(body)) // 2
    values = W.random(
        rng,
        "wmf_header",
        file_type=rng.choice([1, 2]),
        record_size=9,
        format_version=rng.choice([0x100, 0x300]),
        file_size_lower=words & 0xFFFF,
        file_size_upper=words >> 16,
    )
    header = W.pack("wmf_header", values)
    reads.append(("header", start, header))
    top += [
        mon.kv("File type", "0x%04x" % values["file_type"]),
        mon.kv("Record size", 9),
        mon.kv("Format version", values["format_version"]),
        mon.kv("File size lower", values["file_size_lower"]),
        mon.kv("File size upper", values["file_size_upper"]),
        mon.kv("Maximum number of object", values["maximum_number_of_objects"]),
        mon.kv("Largest record size", values["largest_record_size"]),
        mon.kv("Number of records", values["number_of_records"]),
    ]
    data += header + body
    return Case(wemf.WMFFile, data, top + lines, features, reads=reads + record_reads)
