"""C16: Windows recycle bin metadata is reported correctly."""

import struct

from dtformats import recycle_bin, recycler

from vf import fmt, mon, spec
from vf.formats import recycle

PROPERTY = "C16"
RULE = (
    "a case is a generated $I file of format 1 or 2 or INFO2 file of 0 to 5 entries of "
    "280 or 800 bytes with random values and names; non-trivial: every file, distinct "
    "by content"
)
REQUIRED = [
    "large_cases",
    "format_1",
    "format_2",
    "entry_size_280",
    "entry_size_800",
    "entries",
    "refused",
    "blanks",
]


def metadata(rng, ctx):
    case = recycle.make_metadata(rng)
    parser = fmt.check_case(case, ctx, "recycle_bin")
    quiet = case.parser()
    quiet.Open(ctx.path("recycle_bin.bin"))
    quiet.Close()
    for key, value in case.more["attributes"].items():
        mon.check_equal(getattr(parser, key), value, key, f"attribute-{key}")
        mon.check_equal(getattr(quiet, key), value, key, f"attribute-{key}")
    ctx.sample(case.lines)


def blanks(rng, ctx):
    """White space at the end of a name is part of the name."""
    version = rng.choice([1, 2])
    name = spec.random_text(rng, 0, 30) + rng.choice([" ", "  ", "\t", ".", "\u3000", "\n"])
    raw = name.encode("utf-16-le")
    data = struct.pack("<QQQ", version, rng.getrandbits(40), 131000000000000000)
    if version == 2:
        data += struct.pack("<I", len(name.encode("utf-16-le")) // 2 + 1)
    parser = recycle_bin.RecycleBinMetadataFile()
    parser.Open(ctx.path("recycle_bin.bin", data + raw + b"\0\0"))
    parser.Close()
    mon.check_equal(parser.original_filename, name, "original filename")
    ctx.count("blanks")
    ctx.seen(data + raw)


def info2(rng, ctx):
    case = recycle.make_info2(rng)
    fmt.check_case(case, ctx, "recycler")
    ctx.sample(case.lines[:8])


def refusal(rng, ctx):
    kind = rng.randrange(5)
    if kind == 0:
        data = bytearray(recycle.make_metadata(rng).data)
        version = rng.choice([0, 3, 4, 255, 1 << 32, (1 << 32) | 1, (1 << 63) | 2])
        data[:8] = struct.pack("<Q", version)
        what = "format version"
        parser = recycle_bin.RecycleBinMetadataFile
    elif kind == 1:
        data = bytearray(recycle.make_info2(rng).data)
        size = rng.choice([0, 1, 279, 281, 520, 799, 801, 65536 + 280])
        data[12:16] = struct.pack("<I", size)
        what = "entry size"
        parser = recycler.RecyclerInfo2File
    elif kind == 2:
        data = recycle.make_metadata(rng, 2).data
        header, count = data[:24], struct.unpack_from("<I", data, 24)[0]
        data = header + struct.pack("<I", count + 1) + data[28 : 28 + 2 * count]
        what = "short name"
        parser = recycle_bin.RecycleBinMetadataFile
    elif kind == 3:
        data = recycle.make_metadata(rng, rng.choice([1, 2])).data[: rng.randrange(25)]
        what = "truncated header"
        parser = recycle_bin.RecycleBinMetadataFile
    else:
        data = recycle.make_info2(rng).data
        size = struct.unpack_from("<I", data, 12)[0]
        if len(data) > 20:
            data = data[: -rng.randint(1, size - 1)]
        else:
            data = data[:-1]
        what = "partial entry"
        parser = recycler.RecyclerInfo2File
    fmt.refused(parser, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "metadata": (metadata, 2500, 40000),
    "blanks": (blanks, 60, 600),
    "info2": (info2, 1500, 30000),
    "refusal": (refusal, 800, 8000),
    "large_info2": (fmt.large(info2), 4, 100),
    "large_metadata": (fmt.large(metadata), 20, 400),
}
