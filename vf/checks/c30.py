"""C30: EMF and WMF records are walked without gap or overlap."""

import struct

from vf import fmt
from vf.formats import meta

PROPERTY = "C30"
RULE = (
    "a case is a generated EMF or WMF file of 0 to 40 records of known and unknown types, "
    "or such a file with one invalid size; non-trivial: every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "emf_header_88",
    "emf_header_100",
    "emf_header_108",
    "emf_description",
    "emf_color",
    "emf_stock_object",
    "emf_records",
    "emf_empty_record",
    "placeable",
    "map_mode",
    "stretch_mode",
    "restore_dc",
    "wmf_setwindoworg",
    "wmf_setwindowext",
    "raster_operation",
    "unknown_operation",
    "wmf_records",
    "wmf_empty_record",
    "refused",
]


def emf(rng, ctx):
    case = meta.make_emf(rng)
    fmt.check_case(case, ctx, "emf")
    ctx.sample(case.lines[:6])


def wmf(rng, ctx):
    case = meta.make_wmf(rng)
    fmt.check_case(case, ctx, "wmf")
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    case = rng.choice([meta.make_emf, meta.make_wmf])(rng)
    emf_file = "emf_files" in case.features
    headers = [read for read in case.more["reads"] if read[0] == "record header"]
    data = bytearray(case.data)
    if not headers or rng.random() < 0.3:
        if emf_file:
            struct.pack_into("<I", data, 4, rng.choice([0, 1, 87, len(data) + 1, 0xFFFFFFFF]))
        else:
            offset = next(read[1] for read in case.more["reads"] if read[0] == "header")
            values = ([0, 3, 9, 0xFFFF], [0, 8, 10, 0xFFFF])[where := rng.randrange(2)]
            struct.pack_into("<H", data, offset + 2 * where, rng.choice(values))
        what = "header"
    else:
        _, offset, raw = rng.choice(headers)
        rest = len(data) - offset
        if emf_file:
            sizes = [0, 1, 7, rest + 1, rest + 8, 0x7FFFFFFF, 0xFFFFFFFF]
            struct.pack_into("<I", data, offset + 4, rng.choice(sizes))
        else:
            sizes = [0, 1, 2, rest // 2 + 1, 0x7FFFFFFF, 0xFFFFFFFF]
            struct.pack_into("<I", data, offset, rng.choice(sizes))
        what = "record-size"
    fmt.refused(case.parser, data, ctx, f"invalid {what}", f"accepted-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "emf": (emf, 2500, 50000),
    "wmf": (wmf, 2500, 50000),
    "refusal": (refusal, 1500, 30000),
    "large_emf": (fmt.large(emf), 5, 100),
    "large_wmf": (fmt.large(wmf), 5, 100),
}
