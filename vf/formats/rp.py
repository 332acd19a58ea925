"""Windows Restore Point change.log and rp.log files."""

import struct

from dtformats import rp_change_log, rp_log

from vf import mon, ref, spec
from vf.fmt import Case
from vf.formats.recycle import undated

S1 = spec.Struct("rp_log")
S2 = spec.Struct("rp_change_log")

EVENT_TYPES = {
    0x64: "BEGIN_SYSTEM_CHANGE",
    0x65: "END_SYSTEM_CHANGE",
    0x66: "BEGIN_NESTED_SYSTEM_CHANGE",
    0x67: "END_NESTED_SYSTEM_CHANGE",
}
RESTORE_POINT_TYPES = {
    0: "APPLICATION_INSTALL",
    1: "APPLICATION_UNINSTALL",
    10: "DEVICE_DRIVER_INSTALL",
    12: "MODIFY_SETTINGS",
    13: "CANCELLED_OPERATION",
}
SIGNATURE = 0xABCDEF12
RECORD_TYPES = {
    0: "RecordTypeLogHeader",
    1: "RecordTypeLogEntry",
    2: "RecordTypeVolumePath",
    3: "RecordTypeFirstPath",
    4: "RecordTypeSecondPath",
    5: "RecordTypeTempPath",
    6: "RecordTypeAclInline",
    7: "RecordTypeAclFile",
    8: "RecordTypeDebugInfo",
    9: "RecordTypeShortName",
}
PREFIX = "CHANGE_LOG_ENTRYTYPES_"
ENTRY_TYPES = {
    0x00000001: "STREAMCHANGE",
    0x00000002: "ACLCHANGE",
    0x00000004: "ATTRCHANGE",
    0x00000008: "STREAMOVERWRITE",
    0x00000010: "FILEDELETE",
    0x00000020: "FILECREATE",
    0x00000040: "FILERENAME",
    0x00000080: "DIRCREATE",
    0x00000100: "DIRRENAME",
    0x00000200: "DIRDELETE",
    0x00000400: "MOUNTCREATE",
    0x00000800: "MOUNTDELETE",
    0x00001000: "VOLUMEERROR",
    0x00002000: "STREAMCREATE",
    0x00010000: "NOOPTIMIZE",
    0x00020000: "ISDIR",
    0x00040000: "ISNOTDIR",
    0x00080000: "SIMULATEDELETE",
    0x00100000: "INPRECREATE",
    0x00200000: "OPENBYID",
}
ENTRY_FLAGS = {
    1: "TEMPPATH",
    2: "SECONDPATH",
    4: "ACLINFO",
    8: "DEBUGINFO",
    16: "SHORTNAME",
}
STRINGS = {4: "Secondary path", 5: "Backup filename", 9: "Short filename"}


def make_log(rng):
    header = {
        "event_type": rng.choice([*EVENT_TYPES, 0, 0x63, 0x68, rng.getrandbits(32)]),
        "restore_point_type": rng.choice(
            [*RESTORE_POINT_TYPES, 2, 11, 14, rng.getrandbits(32)]
        ),
        "sequence_number": spec.random_int(rng, 8, False),
        "description": spec.random_text(rng, 0, 80),
    }
    data = S1.pack("rp_log_file_header", header)
    size = rng.choice([0, 1, 8, 100, max(0, 528 - len(data))])
    rest = spec.random_bytes(rng, size)
    if rng.random() < 0.5:
        rest = bytes(size)
    time = undated(rng)
    lines = [
        mon.kv(
            "Event type",
            "0x%08x (%s)"
            % (header["event_type"], EVENT_TYPES.get(header["event_type"], "UNKNOWN")),
        ),
        mon.kv(
            "Restore point type",
            "0x%08x (%s)"
            % (
                header["restore_point_type"],
                RESTORE_POINT_TYPES.get(header["restore_point_type"], "UNKNOWN"),
            ),
        ),
        mon.kv("Sequence number", "0x%08x" % header["sequence_number"]),
        mon.kv("Description", header["description"]),
        *mon.dump("Unknown1", rest),
        mon.kv("Creation time", ref.filetime(time)),
    ]
    reads = [
        ("file header", 0, data),
        ("file footer", len(data) + size, struct.pack("<Q", time)),
    ]
    features = {"logs"}
    if size == 0:
        features.add("logs_without_gap")
    return Case(
        rp_log.RestorePointLogFile,
        data + rest + struct.pack("<Q", time),
        lines,
        features,
        reads=reads,
    )


def record_header(size, kind):
    return [
        mon.kv("Record size", size),
        mon.kv("Record type", "%d (%s)" % (kind, RECORD_TYPES.get(kind, "UNKNOWN"))),
    ]


def utf16(text):
    return text.encode("utf-16-le") + b"\0\0"


def make_sub_record(rng, kind=None):
    """Returns (data, lines) of a sub record."""
    if kind is None:
        kind = rng.choice([3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 10, 77])
    if kind in (4, 5, 9):
        text = spec.random_text(rng, 0, spec.extent(rng, 40, 40000, 0.01))
        value = utf16(text)
        if rng.random() < 0.2:
            value += spec.random_bytes(rng, rng.randint(1, 5))
    elif kind in (3, 7):
        value = utf16(spec.random_text(rng, 0, 40))
    else:
        size = spec.many(rng, [0, 1, 4, 7, 8, 12, 40], 70000, 0.01)
        value = spec.random_bytes(rng, size)
    data = struct.pack("<II", 8 + len(value), kind) + value
    lines = mon.dump("Record data", data) + record_header(len(data), kind)
    if kind in STRINGS:
        lines.append(mon.kv(STRINGS[kind], text))
    return data, lines


def make_entry(rng):
    values = S2.random(
        rng,
        "rp_change_log_entry",
        record_type=1,
        signature=SIGNATURE,
        record_size=0,
        process_name_size=0,
    )
    if rng.random() < 0.7:
        values["entry_type"] = rng.choice(list(ENTRY_TYPES)) | rng.choice(
            [0, *ENTRY_TYPES]
        )
        values["entry_flags"] = rng.getrandbits(5)
    name = spec.random_text(rng, 0, spec.extent(rng, 60, 20000, 0.01))
    values["process_name_size"] = len(utf16(name))
    subs = [make_sub_record(rng) for _ in range(spec.many(rng, [0, 1, 2, 3], 200, 0.01))]
    body = utf16(name) + b"".join(sub[0] for sub in subs)
    size = len(S2.pack("rp_change_log_entry", values)) + len(body) + 4
    values["record_size"] = size
    data = S2.pack("rp_change_log_entry", values)
    body += struct.pack("<I", size)
    lines = record_header(size, 1)
    lines.append(mon.kv("Signature", "0xabcdef12"))
    lines.append(mon.kv("Entry type", "0x%08x" % values["entry_type"]))
    lines += [
        f"\t{PREFIX}{text}"
        for flag, text in ENTRY_TYPES.items()
        if values["entry_type"] & flag
    ]
    lines.append(mon.kv("Entry flags", "0x%08x" % values["entry_flags"]))
    lines += [
        f"\tCHANGE_LOG_ENTRYFLAGS_{text}"
        for flag, text in ENTRY_FLAGS.items()
        if values["entry_flags"] & flag
    ]
    lines += [
        mon.kv("File attribute flags", "0x%08x" % values["file_attribute_flags"]),
        mon.kv("Sequence number", values["sequence_number"]),
        mon.kv("Process name size", values["process_name_size"]),
        mon.kv("Unknown2", "0x%08x" % values["unknown2"]),
        *mon.dump("Record data", body),
        mon.kv("Process name", name),
        mon.kv("Sub record data offset", len(utf16(name))),
        mon.kv("Sub record data size", sum(len(sub[0]) for sub in subs)),
    ]
    for sub in subs:
        lines += sub[1]
    lines.append(mon.kv("Copy of record size", size))
    entry = {
        key: values[key]
        for key in ("entry_type", "entry_flags", "file_attribute_flags", "sequence_number")
    }
    entry["process_name"] = name
    return data, body, lines, entry, len(subs)


def make_change_log(rng):
    path = spec.random_text(rng, 0, 80)
    record = utf16(path)
    record = struct.pack("<II", 8 + len(record), 2) + record
    size = 16 + len(record) + 4
    record += struct.pack("<I", size)
    header = struct.pack("<IIII", size, 0, SIGNATURE, 2)
    lines = record_header(size, 0) + [
        mon.kv("Signature", "0xabcdef12"),
        mon.kv("Format version", 2),
        *mon.dump("Record data", record),
        *record_header(len(record) - 4, 2),
        mon.kv("Volume path", path),
        mon.kv("Copy of record size", size),
    ]
    reads = [("file header", 0, header)]
    data = header + record
    entries = []
    features = {"change_logs"}
    for _ in range(spec.many(rng, [0, 1, 1, 2, 4], 400)):
        start, body, more, entry, subs = make_entry(rng)
        reads.append(("change log entry record", len(data), start))
        data += start + body
        lines += more
        entries.append(entry)
        features.add("entries")
        if subs:
            features.add("sub_records")
    return Case(
        rp_change_log.RestorePointChangeLogFile,
        data,
        lines,
        features,
        reads=reads,
        entries=entries,
        volume_path=path,
    )


def make_entry_keys():
    return (
        "entry_type",
        "entry_flags",
        "file_attribute_flags",
        "sequence_number",
        "process_name",
    )
