"""USN journals and Windows Defender DetectionHistory files."""

import json
import os
import struct

from dtformats import detection_history, usn_journal

from vf import mon, ref, spec
from vf.core import VERIF
from vf.fmt import Case

U = spec.Struct("usn_journal")
D = spec.Struct("detection_history")
CUSTOM = {"filetime": ref.filetime}
RECORD = (
    "file_reference",
    "parent_file_reference",
    "sequence_number",
    "timestamp",
    "update_reason_flags",
    "update_source_flags",
    "security_descriptor_entry",
    "file_attribute_flags",
    "name",
)


def make_record(rng, maximum=400):
    while True:
        name = spec.random_text(rng, 1, rng.choice([8, 30, 255]))
        if name.encode("utf-16-le")[:1] or name:
            break
    raw = name.encode("utf-16-le")
    if 60 + len(raw) + 8 > maximum:
        name = "n"
        raw = name.encode("utf-16-le")
    padding = bytes(-(60 + len(raw)) % 8)
    record = U.random(
        rng,
        "usn_record_v2",
        size=60 + len(raw) + len(padding),
        major_format_version=2,
        minor_format_version=0,
        name_size=len(raw),
        name_offset=60,
        name=name,
        padding=padding,
    )
    return U.pack("usn_record_v2", record), record


def make_usn(rng):
    features = {"journals"}
    data = bytearray()
    records, reads, lines = [], [], []
    for _ in range(spec.many(rng, [1, 1, 2, 3, 6], 60)):
        kind = rng.random()
        if kind < 0.25:
            features.add("sparse_gap")
            data += bytes(4096 * spec.many(rng, [1, 1, 2, 5], 600))
            continue
        # Fill a block with records.
        start = len(data)
        fill = rng.random() < 0.5
        for _ in range(200 if fill else rng.randint(1, 4)):
            room = 4096 - (len(data) - start)
            raw, record = make_record(rng, room)
            if len(raw) > room:
                features.add("full_block")
                break
            reads.append(("USN record (version 2)", len(data), raw))
            data += raw
            records.append({key: record[key] for key in RECORD})
            lines += U.show("usn_record_v2", record, CUSTOM)
        used = len(data) - start
        if used == 4096:
            features.add("exact_block")
        elif 4096 - used < 60:
            features.add("small_rest")
        data += bytes(4096 - used)
    if records and rng.random() < 0.4:
        # The last block of a stream can be incomplete.
        raw_end = reads[-1][1] + len(reads[-1][2])
        data = data[:raw_end] + bytes(rng.choice([0, 0, 8, 59, 60, 64]))
        features.add("incomplete_block")
    return Case(
        usn_journal.USNRecords, data, lines, features, reads=reads, records=records
    )


# Windows Defender DetectionHistory

MAGIC = "Magic.Version:1.2"
with open(os.path.join(VERIF, "spec", "detection_categories.json"), encoding="utf-8") as _file:
    CATEGORY_NAMES = {int(key): value for key, value in json.load(_file).items()}
DESCRIPTIONS = (
    {0: "Threat identifier", 1: "Identifier"},
    {0: "UnknownMagic1", 1: "Threat name", 4: "Category"},
    {
        0: "UnknownMagic2",
        1: "Resource type",
        2: "Resource location",
        4: "Threat tracking data size",
        5: "Threat tracking data",
        6: "Last threat status change time",
        12: "Domain user1",
        14: "Process name",
        18: "Initial detection time",
        20: "Remediation time",
        24: "Domain user2",
    },
)


def terminated(text):
    return text.encode("utf-16-le") + b"\0\0"


def make_value(rng, kind=None, value=None):
    """Returns bytes, shown values and the value of a DetectionHistory value."""
    if kind is None:
        kind = rng.choice([0, 5, 6, 8, 10, 0x15, 0x1E, 0x28])
    shown = {"data_type": kind}
    if kind in (0, 5, 6):
        value = spec.random_int(rng, 4, False) if value is None else value
        body = struct.pack("<I", value)
        shown["value_integer"] = value
    elif kind == 8:
        value = spec.random_int(rng, 8, False) if value is None else value
        body = struct.pack("<Q", value)
        shown["value_integer"] = value
    elif kind == 10:
        value = rng.choice([0, rng.getrandbits(57), spec.random_int(rng, 8, False)])
        body = struct.pack("<Q", value)
        shown["value_filetime"] = value
    elif kind == 0x15:
        if value is None:
            value = spec.random_text(rng, 0, spec.extent(rng, 60, 20000))
            if rng.random() < 0.05:
                value = rng.choice(["Magic.Version:1.1", "Magic.Version:1.20", "magic.version:1.2"])
        body = terminated(value)
        shown["value_string"] = value
    elif kind == 0x1E:
        value = spec.random_uuid(rng)
        body = value.bytes_le
        shown["value_guid"] = value
    else:
        if value is None:
            value = spec.random_bytes(
                rng, spec.many(rng, [0, 1, 7, 8, 9, 40], 70000, 0.05)
            )
        body = value
        shown["data"] = value
    shown["data_size"] = len(body)
    raw = struct.pack("<II", len(body), kind) + body
    padding = bytes(-len(raw) % 8)
    shown["alignment_padding"] = padding
    return raw + padding, shown, value


TRACKING = (
    "ThreatTrackingSha256",
    "ThreatTrackingSigSeq",
    "ThreatTrackingId",
    "ThreatTrackingStartTime",
    "ThreatTrackingIsEsuSig",
    "ThreatTrackingResearchData",
    "ThreatTrackingSize",
)


def make_tracking(rng, features):
    """Returns the data and the expected lines."""
    values, lines = b"", []
    number = spec.many(rng, [0, 1, 3, 10], 300)
    for _ in range(number):
        key = rng.choice(TRACKING) if rng.random() < 0.7 else spec.random_text(
            rng, 1, spec.extent(rng, 20, 5000)
        )
        kind = rng.choice([3, 4, 5, 6, 7])
        features.add(f"tracking_{kind}")
        raw = terminated(key)
        shown = {"key_string_size": len(raw), "key_string": key, "value_type": kind}
        raw = struct.pack("<I", len(raw)) + raw + struct.pack("<I", kind)
        if kind in (3, 4, 5):
            size = {3: 4, 4: 8, 5: 1}[kind]
            shown["value_integer"] = spec.random_int(rng, size, False)
            raw += shown["value_integer"].to_bytes(size, "little")
        elif kind == 6:
            text = spec.random_text(rng, 0, spec.extent(rng, 60, 5000))
            body = terminated(text)
            shown["value_string_size"] = len(body)
            shown["value_string"] = text
            raw += struct.pack("<I", len(body)) + body
        else:
            shown["value_data"] = spec.random_bytes(rng, 5)
            raw += shown["value_data"]
        values += raw
        lines += D.show("threat_tracking_value", shown)
    if rng.random() < 0.5:
        features.add("tracking_header")
        header_size = rng.choice([20, 20, 24, 32])
        extra = spec.random_bytes(rng, header_size - 20)
        total = header_size + (4 + len(values) if values else 0)
        unknown2 = rng.getrandbits(32)
        header = {
            "version": 1,
            "header_size": header_size,
            "values_data_size": len(values),
            "total_data_size": total,
            "unknown2": unknown2,
        }
        data = struct.pack("<5I", *header.values()) + extra
        if values:
            data += struct.pack("<I", len(values)) + values
        if rng.random() < 0.3:
            data += spec.random_bytes(rng, rng.randint(1, 40))
            features.add("tracking_rest")
        return data, D.show("threat_tracking_header", header) + lines
    size = len(values) + (4 if rng.random() < 0.5 else 0)
    if size == 0:
        size = 4
    return struct.pack("<I", size) + values, lines


def make_detection(rng, broken=None):
    features = {"detections"}
    data, reads, lines, summary = b"", [], [], []

    def add(number, index, kind=None, value=None, label=True):
        nonlocal data, lines
        raw, shown, value = make_value(rng, kind, value)
        features.add("type_%x" % shown["data_type"])
        reads.append(("value", len(data), raw))
        offset = len(data)
        data += raw
        lines += D.show("detection_history_value", shown, CUSTOM)
        if label:
            name = DESCRIPTIONS[number].get(index, f"UNKNOWN_{number}_{index}")
            text = str(value)
            if (number, index) == (1, 4):
                text += " (%s)" % CATEGORY_NAMES.get(value, "UNKNOWN")
            summary.append(mon.kv(name, text))
        return offset

    for index in range(rng.choice([2, 2, 2, 1, 5])):
        kind = 8 if index == 0 else 0x1E if index == 1 else None
        add(0, index, kind)
    if rng.random() < 0.95:
        add(1, 0, 0x15, MAGIC)
        for index in range(1, rng.choice([5, 5, 3, 9])):
            kind = {1: 0x15, 4: rng.choice([5, 6])}.get(index)
            value = rng.choice([*CATEGORY_NAMES, 35, 41, 52, 1 << 31]) if index == 4 else None
            add(1, index, kind, value)
        for resource in range(spec.many(rng, [0, 1, 1, 2, 3], 60)):
            features.add("resources" if resource else "resource")
            add(2, 0, 0x15, MAGIC)
            for index in range(1, spec.many(rng, [5, 6, 6, 10, 30], 150, 0.1)):
                if index != 5:
                    add(2, index, {1: 0x15, 2: 0x15, 4: 6}.get(index))
                elif broken == "type":
                    add(2, index, rng.choice([5, 8, 0x15, 0x1E]), label=False)
                    broken = "done"
                else:
                    tracking, more = make_tracking(rng, features)
                    if broken == "tracking":
                        cut = rng.randint(1, 4)
                        tracking = tracking[:-cut]
                        size = struct.unpack_from("<I", tracking)[0] if len(tracking) >= 4 else 1
                        if size != 1 and more:
                            broken = "done"
                    offset = add(2, index, 0x28, tracking, label=False)
                    position = offset + 8
                    summary.append(
                        "Reading threat tracking data at offset: %d (0x%08x)"
                        % (position, position)
                    )
                    reads.append(("threat tracking data", position, None))
                    summary.pop()
                    summary.extend(more)
                    features.add("tracking_data")
    # The values are announced in order, tracking data is read after all values.
    first = [read for read in reads if read[0] == "value"]
    second = [read for read in reads if read[0] != "value"]
    return Case(
        detection_history.WindowsDefenderScanDetectionHistoryFile,
        data,
        lines + summary,
        features,
        reads=first + second,
        broken=broken,
    )
