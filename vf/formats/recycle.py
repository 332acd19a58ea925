"""Windows recycle bin metadata."""

import struct

from dtformats import recycle_bin, recycler

from vf import mon, ref, spec
from vf.fmt import Case

S1 = spec.Struct("recycle_bin")
S2 = spec.Struct("recycler")
CUSTOM = {"filetime": ref.filetime}


def filetime(rng):
    return rng.choice(
        [
            0,
            0x7FFFFFFFFFFFFFFF,
            rng.randrange(116444736000000000, 150000000000000000),
            rng.randrange(116444736000000000, 150000000000000000),
            spec.random_int(rng, 8, False) >> 1,
        ]
    )


def undated(rng):
    """A FILETIME whose year has at most four digits."""
    while True:
        value = filetime(rng)
        if value in (0, 0x7FFFFFFFFFFFFFFF):
            return value
        if value // 10_000_000 - 11644473600 <= ref.MAXIMUM_SECOND:
            return value


def make_metadata(rng, version=None):
    version = version or rng.choice([1, 2])
    text = spec.random_text(rng, 0, spec.extent(rng, 100, 5000, 1))
    header = {
        "format_version": version,
        "original_file_size": spec.random_int(rng, 8, False),
        "deletion_time": undated(rng),
    }
    data = S1.pack("recycle_bin_metadata_file_header", header)
    raw = text.encode("utf-16-le")
    features = {f"format_{version}"}
    if version == 1:
        data += raw + b"\0\0"
        if rng.random() < 0.5:
            data += spec.random_bytes(rng, 60)
    else:
        raw += b"\0\0" * rng.choice([1, 1, 0, 2])
        data += struct.pack("<I", len(raw) // 2) + raw
        if rng.random() < 0.3:
            data += spec.random_bytes(rng, 9)
    lines = S1.show("recycle_bin_metadata_file_header", header, CUSTOM)
    lines.append(mon.kv("Original filename", text))
    return Case(
        recycle_bin.RecycleBinMetadataFile,
        data,
        lines,
        features,
        attributes={
            "format_version": version,
            "deletion_time": header["deletion_time"],
            "original_file_size": header["original_file_size"],
            "original_filename": text,
        },
    )


def ansi(rng):
    if rng.random() < 0.3:
        raw = bytes(
            b for b in rng.randbytes(rng.randint(0, 259)) if b >= 0x20 and b != 0x7F
        )
        raw = raw.strip()
    else:
        raw = b"C:\\" + spec.random_text(rng, 0, 200, 1).encode("cp1252")
    # What deletes an entry is to clear the drive letter.
    if rng.random() < 0.1:
        raw = b"\0" + raw[1:]
    text = raw.decode("cp1252", errors="backslashreplace")
    return raw, text.rstrip("\0")


def make_info2(rng, size=None):
    size = size or rng.choice([280, 800])
    header = S2.random(rng, "recycler_info2_file_header", file_entry_size=size)
    data = S2.pack("recycler_info2_file_header", header)
    lines = S2.show("recycler_info2_file_header", header, CUSTOM)
    features = {f"entry_size_{size}"}
    for _ in range(spec.many(rng, [0, 1, 2, 5], 800)):
        raw, text = ansi(rng)
        entry = S2.random(
            rng,
            "recycler_info2_file_entry",
            original_filename=raw,
            deletion_time=undated(rng),
        )
        data += S2.pack("recycler_info2_file_entry", entry)
        lines.append(mon.kv("Original filename (ANSI)", text))
        lines += [
            mon.kv("Index", entry["index"]),
            mon.kv("Drive number", entry["drive_number"]),
            mon.kv("Deletion time", ref.filetime(entry["deletion_time"])),
            mon.kv("Original file size", entry["original_file_size"]),
        ]
        features.add("entries")
        if size == 800:
            name = spec.random_text(rng, 0, 200)
            raw = name.encode("utf-16-le")
            if len(raw) < 516 and rng.random() < 0.3:
                # Remains of an earlier name after the terminator.
                raw += b"\0\0" + "rest".encode("utf-16-le")[: 516 - len(raw)]
            data += raw.ljust(520, b"\0")
            lines.append(mon.kv("Original filename (Unicode)", name))
    return Case(recycler.RecyclerInfo2File, data, lines, features)
