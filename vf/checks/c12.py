"""C12: time zone files are reported completely in both widths."""

from dtformats import tzif

from vf import fmt, mon
from vf.formats import tz

PROPERTY = "C12"
RULE = (
    "a case is a generated time zone file of version 1, 2 or 3 whose 32-bit and 64-bit "
    "blocks have independent random counts (zero included) and values; non-trivial: "
    "every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "blocks",
    "blocks_without_transitions",
    "transitions_32",
    "transitions_64",
    "leap_seconds_32",
    "leap_seconds_64",
    "refused",
]


def blocks(rng, ctx):
    case = tz.make(rng)
    parser = fmt.check_case(case, ctx, "tzif")
    mon.check_equal(parser.format_version, case.more["version"], "format version")
    ctx.sample({"size": len(case.data), "features": sorted(case.features)})


def refusal(rng, ctx):
    case = tz.make(rng)
    data = bytearray(case.data)
    kind = rng.randrange(3)
    if kind == 0:
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
        what = "signature"
    elif kind == 1:
        data[4] = rng.choice([v for v in range(256) if v not in (0, 0x32, 0x33, 0x34)])
        what = "format version"
    else:
        # Without its last block; the footer of a version 2 file may be absent.
        first = tz.make(rng, 0).data if rng.random() < 0.5 else b""
        if first:
            data = bytearray(first[: rng.randrange(len(first))])
        else:
            data = bytearray(tz.block(rng, 0x32, 32)[0])
            more = tz.block(rng, 0x32, 64)[0]
            data += more[: rng.randrange(len(more))]
        what = "truncated"
    fmt.refused(tzif.TimeZoneInformationFile, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "blocks": (blocks, 3000, 50000),
    "refusal": (refusal, 1000, 10000),
    "large": (fmt.large(blocks), 6, 150),
}
