"""C18: Safari cookies are reported completely."""

import struct

from vf import fmt, mon, ref
from vf.formats import cookies

PROPERTY = "C18"
RULE = (
    "a case is a generated binary cookies file of 0 to 3 pages of 0 to 5 records with "
    "random values, gaps, record and string order and absent strings; non-trivial: every "
    "file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "no_pages",
    "several_pages",
    "several_records",
    "no_records",
    "refused",
    "reads_compared",
]


def parse(rng, ctx):
    case = cookies.make(rng)
    fmt.check_case(case, ctx, "safari_cookies")
    quiet = case.parser()
    quiet.Open(ctx.path("safari_cookies.bin"))
    quiet.Close()
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    case = cookies.make(rng)
    data = bytearray(case.data)
    end = case.more["reads"][1][1] + 8
    kind = rng.randrange(3)
    if kind == 0:
        what = "signature"
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 1:
        what = "truncated"
        data = data[: rng.randrange(end)]
    else:
        what = "page size"
        while not struct.unpack_from(">I", data, 4)[0]:
            case = cookies.make(rng)
            data = bytearray(case.data)
        struct.pack_into(">I", data, 8, rng.choice([len(data), 1 << 31, 0xFFFFFFFF]))
    fmt.refused(case.parser, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


def extreme(rng, ctx):
    """Any floating-point value of a time is shown as what it is."""
    value = rng.choice([1e300, -1e300, float("inf"), float("-inf"), float("nan"), 3e11, -7e10, rng.uniform(-1e20, 1e20)])
    record, _ = cookies.make_record(rng)
    record = record[:40] + struct.pack("<dd", value, 0.0) + record[56:]
    page = struct.pack("<III", 0x100, 1, 12) + record
    data = b"cook" + struct.pack(">II", 1, len(page)) + page + bytes(8)
    path = ctx.path("extreme.bin", data)
    _, rest = fmt.observe(cookies.safari_cookies.BinaryCookiesFile, path, data, ctx)
    line = [line for line in rest if line.startswith("Expiration time: ")]
    text = line[0].partition(": ")[2] if line else ""
    if "%f" % value not in text:
        raise mon.Violation(f"expiration time {value!r} is shown as {text!r}", "extreme")
    second = value + cookies.EPOCH
    if ref.MINIMUM_SECOND < second < ref.MAXIMUM_SECOND:
        mon.check_equal(text, cookies.show_time(value), "expiration time")
    ctx.count("extreme_times")
    ctx.seen(data)


FAMILIES = {
    "parse": (parse, 1600, 30000),
    "refusal": (refusal, 800, 10000),
    "extreme": (extreme, 80, 800),
    "large": (fmt.large(parse), 4, 100),
}
