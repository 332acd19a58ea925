"""fseventsd disk log stream files."""

import gzip
import struct
import zlib

from dtformats import fseventsd

from vf import ref, spec
from vf.fmt import Case

S = spec.Struct("fseventsd")
CUSTOM = {"signature": ref.stream}


def compress(rng, data):
    level = rng.choice([0, 1, 6, 9])
    if rng.random() < 0.5:
        return gzip.compress(data, level, mtime=rng.getrandbits(31))
    compressor = zlib.compressobj(level, zlib.DEFLATED, 31)
    result = b""
    step = rng.choice([100, 1000])
    for index in range(0, len(data), step):
        result += compressor.compress(data[index : index + step])
        if rng.random() < 0.3:
            result += compressor.flush(zlib.Z_SYNC_FLUSH)
    return result + compressor.flush()


def make_content(rng):
    data, lines, reads, features = b"", [], [], set()
    for _ in range(spec.many(rng, [1, 1, 2, 4], 60)):
        version = rng.choice([1, 2])
        records = []
        for _ in range(spec.many(rng, [0, 1, 2, 6], 800, 0.05)):
            records.append(
                {
                    "path": spec.random_text(rng, 0, spec.extent(rng, 60, 2000, 0.01)),
                    "event_identifier": spec.random_int(rng, 8, False),
                    "flags": spec.random_int(rng, 4, False),
                }
            )
            if version == 2:
                records[-1]["node_identifier"] = spec.random_int(rng, 8, False)
        name = f"dls_record_v{version}"
        packed = [S.pack(name, record) for record in records]
        header = {
            "signature": b"%dSLD" % version,
            "unknown1": spec.random_bytes(rng, 4),
            "page_size": 12 + sum(map(len, packed)),
        }
        raw = S.pack("dls_page_header", header)
        reads.append(("DLS page header", len(data), raw))
        data += raw
        lines += S.show("dls_page_header", header, CUSTOM)
        features.add(f"page_v{version}")
        for record, raw in zip(records, packed):
            reads.append(("DLS record", len(data), raw))
            data += raw
            lines += S.show("dls_record", record)
            features.add(f"record_v{version}")
        if not records:
            features.add("empty_page")
    return data, lines, reads, features


def make(rng):
    content, lines, reads, features = make_content(rng)
    return Case(
        fseventsd.FseventsFile,
        compress(rng, content),
        lines,
        features,
        reads=reads,
        content=content,
    )


def struct_size(content, offset, size):
    """Changes the size of the page at an offset."""
    return content[: offset + 8] + struct.pack("<I", size) + content[offset + 12 :]
