"""Firefox cache version 1 files."""

import struct

from dtformats import firefox_cache1

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("firefox_cache1")


def location(value):
    return (
        "block number: %d, extra blocks: %d, location selector: %d, reserved: %02x, "
        "location flag: %d"
        % (
            value & 0xFFFFFF,
            value >> 24 & 3,
            value >> 28 & 3,
            (value & 0x4C000000) >> 26,
            value >> 31,
        )
    )


CUSTOM = {
    "array_of_decimals": lambda v: ", ".join("%d" % i for i in v),
    "cache_location": location,
    "posix_time": ref.posix_time,
}


def make_map(rng):
    records = [
        S.random(rng, "firefox_cache1_map_record") for _ in range(spec.many(rng, [0, 1, 4, 32, 100], 3000))
    ]
    header = S.random(
        rng,
        "firefox_cache1_map_header",
        major_format_version=1,
        data_size=16 * len(records),
    )
    data = S.pack("firefox_cache1_map_header", header)
    reads = [("file header", 0, data)]
    lines = S.show("firefox_cache1_map_header", header, CUSTOM)
    for record in records:
        raw = S.pack("firefox_cache1_map_record", record)
        reads.append(("record", len(data), raw))
        data += raw
        lines += S.show("firefox_cache1_map_record", record, CUSTOM)
    features = {"maps", "records" if records else "no_records"}
    return Case(firefox_cache1.CacheMapFile, data, lines, features, reads=reads)


def walk(data, block_size):
    """Which blocks hold an entry: reads and lines."""
    reads, lines = [], []
    offset = 0
    while offset < len(data):
        step = block_size
        entry = None
        if len(data) - offset >= 36:
            fields = struct.unpack_from(">HHIiIIIIII", data, offset)
            end = offset + 36 + fields[8] + fields[9]
            if end <= len(data):
                request = data[offset + 36 : offset + 36 + fields[8]]
                if request.isascii():
                    entry = dict(
                        zip(
                            ("major_format_version", "minor_format_version", "location",
                             "fetch_count", "last_fetched_time", "last_modified_time",
                             "expiration_time", "cached_data_size", "request_size",
                             "information_size"),
                            fields,
                        )
                    )
                    entry["request"] = request.decode("ascii")
                    entry["information"] = data[end - fields[9] : end]
        if entry:
            reads.append(("cache_entry", offset, data[offset:end]))
            if entry["major_format_version"] == 1:
                lines += S.show("firefox_cache1_entry", entry, CUSTOM)
                step = -(-(end - offset) // block_size) * block_size
        else:
            reads.append(("cache_entry", offset, None))
        offset += step
    return reads, lines


def make_blocks(rng):
    number = rng.randint(1, 3)
    block_size = {1: 256, 2: 1024, 3: 4096}[number]
    features = {f"block_file_{number}"}
    data = bytearray()
    stored = []
    if rng.random() < 0.5:
        features.add("bitmap")
        size = block_size * rng.randint(1, 4)
        if rng.random() < 0.5:
            data += rng.randbytes(1 + size // 9) + bytes(size - 1 - size // 9)
        else:
            # Bits of which the sizes of an entry would be small.
            data += rng.randbytes(28) + struct.pack(">II", rng.randint(0, 3000), 0)
            data += bytes(size - 36)
            features.add("bitmap_like_entry")
        if data[:2] == b"\0\1":
            data[0] = 0xFF
    for _ in range(spec.many(rng, [1, 3, 8], 600)):
        kind = rng.random()
        if kind < 0.2:
            features.add("other_data")
            block = bytearray(spec.random_bytes(rng, block_size))
            if block[:2] == b"\0\1":
                block[0] = 0xFF
            data += block
            continue
        request = "HTTP:http://example.com/" + spec.random_text(rng, 0, 40, 1) + "\0"
        if rng.random() < 0.05:
            request = ""
        room = 4 * block_size if rng.random() < 0.3 else block_size
        information = spec.random_bytes(rng, rng.randint(0, max(0, room - 36 - len(request))))
        if rng.random() < 0.1:
            # Exactly fills its blocks.
            total = 36 + len(request) + len(information)
            information += bytes(-total % block_size)
            features.add("full_block")
        entry = S.random(
            rng,
            "firefox_cache1_entry",
            major_format_version=1,
            request_size=len(request),
            information_size=len(information),
            request=request,
            information=information,
        )
        raw = S.pack("firefox_cache1_entry", entry)
        stored.append((len(data), raw))
        data += raw
        data += spec.random_bytes(rng, -len(raw) % block_size)
        features.add("entries")
        if len(raw) > block_size:
            features.add("multiple_blocks")
    data = bytes(data)
    if rng.random() < 0.15:
        data = data[: -rng.randint(1, block_size - 1)]
        features.add("incomplete_block")
    reads, lines = walk(data, block_size)
    for offset, raw in stored:
        assert offset + len(raw) > len(data) or ("cache_entry", offset, raw) in reads
    return Case(
        firefox_cache1.CacheBlockFile,
        data,
        lines,
        features,
        reads=reads,
        name=f"_CACHE_00{number}_",
    )
