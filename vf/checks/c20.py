"""C20: CUPS IPP attributes are decoded by their tag."""

from dtformats import cups_ipp

from vf import fmt, mon
from vf.formats import ipp

PROPERTY = "C20"
RULE = (
    "a case is a generated IPP file of 0 to 3 groups of 0 to 8 attributes of all tags "
    "with random names and values in five character sets; non-trivial: every file, "
    "distinct by content"
)
REQUIRED = ["large_cases"] + (
    ["files", "refused", "date_times"]
    + [f"tag_0x{tag:02x}" for tag in ipp.TAGS if tag > 0x10]
    + [f"text_{name}" for name in ipp.CHARSETS]
)


def parse(rng, ctx):
    case = ipp.make(rng)
    fmt.check_case(case, ctx, "cups_ipp")
    quiet = case.parser()
    quiet.Open(ctx.path("cups_ipp.bin"))
    quiet.Close()
    ctx.sample(case.lines[:6])


def date_time(rng, ctx):
    """A date and time value keeps its time zone offset."""
    value = ipp.date_time(rng)
    raw = ipp.S.pack("cups_ipp_datetime_value", value)
    parser = cups_ipp.CupsIppFile()
    if not hasattr(parser, "_ReadDateTimeValue"):
        ctx.count("date_times")
        return
    result = parser._ReadDateTimeValue(raw, 0)
    mon.check_equal(result.CopyToDateTimeString(), ipp.show_date_time(value), "date-time")
    offset = 60 * value["hours_from_utc"] + value["minutes_from_utc"]
    if value["direction_from_utc"] == ord("-"):
        offset = -offset
    mon.check_equal(result.time_zone_offset, offset, "time zone offset")
    ctx.count("date_times")
    ctx.seen(raw)


def refusal(rng, ctx):
    kind = rng.randrange(7)
    if kind == 0:
        what = "group tag"
        case = ipp.make(rng, [])
        tag = rng.choice([0, *range(6, 16), *range(0x80, 0x100)])
        data = case.data[:8] + bytes([tag]) + case.data[8:]
    elif kind == 1:
        what = "boolean"
        value = rng.choice([b"", b"\x02", b"\xff", b"\0\0", b"\0\1"])
        data = bytes(8) + b"\x01\x22\0\1a" + bytes([0, len(value)]) + value + b"\x03"
    elif kind == 2:
        what = "integer"
        value = rng.randbytes(rng.randrange(4))
        data = bytes(8) + b"\x01\x21\0\1a" + bytes([0, len(value)]) + value + b"\x03"
    elif kind == 3:
        what = "text"
        value = b"\xff\xfe\x80"
        tag = rng.choice([0x41, 0x42, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49])
        data = bytes(8) + bytes([1, tag, 0, 1, 0x61, 0, len(value)]) + value + b"\x03"
    elif kind == 4:
        what = "charset"
        data = bytes(8) + b"\x01\x47\0\1a\0\5bogus\x41\0\1b\0\1c\x03"
    elif kind == 5:
        what = "date-time"
        value = ipp.date_time(rng)
        key, wrong = rng.choice(
            [
                ("month", 0),
                ("month", 13),
                ("day_of_month", 32),
                ("hours", 24),
                ("minutes", 60),
                ("direction_from_utc", 0x41),
            ]
        )
        value[key] = wrong
        raw = ipp.S.pack("cups_ipp_datetime_value", value)
        data = bytes(8) + b"\x01\x31\0\1a\0\x0b" + raw + b"\x03"
    else:
        what = "truncated"
        case = ipp.make(rng)
        data = case.data[: rng.randrange(case.more["size"])]
    fmt.refused(cups_ipp.CupsIppFile, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "parse": (parse, 1600, 30000),
    "date_time": (date_time, 800, 20000),
    "refusal": (refusal, 1000, 10000),
    "large": (fmt.large(parse), 5, 100),
}
