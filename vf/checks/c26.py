"""C26: Firefox cache version 1 maps and metadata are decoded correctly."""

import struct

from vf import fmt
from vf.formats import ff

PROPERTY = "C26"
RULE = (
    "a case is a generated cache map of 0 to 100 records or a block file of 256, 1024 or "
    "4096 byte blocks with a bitmap, entries of 1 to 4 blocks and other data; "
    "non-trivial: every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "maps",
    "records",
    "no_records",
    "block_file_1",
    "block_file_2",
    "block_file_3",
    "bitmap",
    "bitmap_like_entry",
    "other_data",
    "full_block",
    "incomplete_block",
    "multiple_blocks",
    "entries",
    "refused",
]


def cache_map(rng, ctx):
    case = ff.make_map(rng)
    fmt.check_case(case, ctx, "map", name="_CACHE_MAP_")
    ctx.sample(case.lines[:6])


def blocks(rng, ctx):
    case = ff.make_blocks(rng)
    fmt.check_case(case, ctx, "blocks", name=case.more["name"])
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    kind = rng.randrange(4)
    case = ff.make_map(rng)
    data = bytearray(case.data)
    name = "_CACHE_MAP_"
    if kind == 0:
        what = "truncated"
        data = data[: rng.randrange(len(data))]
    elif kind == 1:
        what = "format version"
        struct.pack_into(">H", data, 0, rng.choice([0, 2, 3, 0x100, 0xFFFF]))
    elif kind == 2:
        what = "data size"
        size = len(data) - 276
        struct.pack_into(">I", data, 4, (size + rng.choice([-16, -1, 1, 16, 276])) & 0xFFFFFFFF)
    else:
        what = "filename"
        case = ff.make_blocks(rng)
        data = case.data
        name = rng.choice(["_CACHE_000_", "_CACHE_004_", "_cache_001_", "_CACHE_001", "x"])
    fmt.refused(case.parser, bytes(data), ctx, what, f"refusal-{what}", name=name)
    ctx.seen(bytes(data))


FAMILIES = {
    "map": (cache_map, 800, 10000),
    "blocks": (blocks, 1200, 20000),
    "refusal": (refusal, 600, 6000),
    "large_map": (fmt.large(cache_map), 3, 60),
    "large_blocks": (fmt.large(blocks), 4, 80),
}
