"""C36: Alias and bookmark data is decoded completely."""

import struct

from vf import fmt
from vf.formats import mac

PROPERTY = "C36"
RULE = (
    "a case is a generated alias record of version 2 or 3 with 0 to 8 tagged values of "
    "all types, or a bookmark with 1 to 9 tagged values of all data types, in any data "
    "area layout; non-trivial: every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "alias_v2",
    "alias_v3",
    "integers",
    "utf8_string",
    "utf16_string",
    "binary_data",
    "padded_value",
    "path",
    "integers_array",
    "property_flags",
    "refused",
    *("type_%x" % kind for kind in mac.KINDS),
]


def alias(rng, ctx):
    case = mac.make_alias(rng)
    fmt.check_case(case, ctx, "alias")
    ctx.sample(case.lines[:6])


def bookmark(rng, ctx):
    case = mac.make_bookmark(rng)
    fmt.check_case(case, ctx, "bookmark")
    ctx.sample(case.lines[:6])


def alias_refusal(rng, ctx):
    case = mac.make_alias(rng)
    data = bytearray(case.data)
    kind = rng.randrange(4)
    if kind == 0:
        what = "truncated"
        data = data[: rng.randrange(len(data))]
    elif kind == 1:
        what = "application information"
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 2:
        what = "record size"
        size = struct.unpack_from(">H", data, 4)[0]
        struct.pack_into(">H", data, 4, (size + rng.choice([-2, -1, 1, 2, 99])) & 0xFFFF)
    else:
        what = "format version"
        struct.pack_into(">H", data, 6, rng.choice([0, 1, 4, 5, 0x200, 0xFFFF]))
    fmt.refused(case.parser, bytes(data), ctx, what, f"refusal-alias-{what}")
    ctx.seen(bytes(data))


def bookmark_refusal(rng, ctx):
    kind = rng.randrange(8)
    tags = [0x1004, 0x1005] if kind == 6 else [0x1010, 0x2020] if kind == 7 else None
    case = mac.make_bookmark(rng, tags)
    while tags and not case.more["entries"]:
        case = mac.make_bookmark(rng, tags)
    data = bytearray(case.data)
    toc = case.more["toc"]
    if kind == 0:
        what = "truncated"
        data = data[: rng.randrange(len(data))]
    elif kind == 1:
        what = "signature"
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 2:
        what = "size"
        data += bytes(rng.randint(1, 20))
    elif kind == 3:
        what = "data area offset"
        struct.pack_into("<I", data, 12, rng.choice([0, 44, 47, 49, 52, 64, 0x10030]))
    elif kind == 4:
        what = "next TOC offset"
        struct.pack_into("<I", data, toc + 12, rng.choice([1, toc, len(data), 1 << 31]))
    elif kind == 5:
        what = "TOC signature"
        struct.pack_into("<I", data, toc + 4, rng.choice([0, 0xFFFFFFFF, 0xFFFFFFFD]))
    elif kind == 6:
        what = "array of another type"
        offset = 48 + case.more["entries"][0][1]
        struct.pack_into("<I", data, offset + 4, rng.choice([0x201, 0x301, 0x501]))
    else:
        what = "property flags of another type"
        offset = 48 + case.more["entries"][0][1]
        struct.pack_into("<I", data, offset + 4, rng.choice([0x301, 0x601, 0x303]))
    fmt.refused(case.parser, bytes(data), ctx, what, f"refusal-bookmark-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "alias": (alias, 1500, 20000),
    "bookmark": (bookmark, 1500, 20000),
    "alias_refusal": (alias_refusal, 800, 8000),
    "bookmark_refusal": (bookmark_refusal, 1000, 8000),
    "large_alias": (fmt.large(alias), 5, 100),
    "large_bookmark": (fmt.large(bookmark), 5, 100),
}
