"""C29: USN change records and Defender detections are decoded completely."""

import struct

from vf import fmt, mon
from vf.core import Violation
from vf.formats import win

PROPERTY = "C29"
RULE = (
    "a case is a generated USN journal stream of 1 to 6 blocks of records and sparse gaps, "
    "or a DetectionHistory file of all value types with 0 to 3 resources with threat "
    "tracking data; non-trivial: every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "sparse_gap",
    "full_block",
    "exact_block",
    "small_rest",
    "incomplete_block",
    "records_compared",
    "interleaved_iterations",
    *("type_%x" % kind for kind in (0, 5, 6, 8, 10, 0x15, 0x1E, 0x28)),
    *("tracking_%d" % kind for kind in (3, 4, 5, 6, 7)),
    "tracking_header",
    "tracking_data",
    "resources",
    "refused",
]


def fields(record):
    return {key: getattr(record, key) for key in win.RECORD}


def usn(rng, ctx):
    case = win.make_usn(rng)
    path = ctx.path("usn.bin", case.data)
    writer = mon.Writer()
    parser = case.parser(debug=True, output_writer=writer)
    parser.Open(path)
    observed = [fields(record) for record in parser.ReadRecords()]
    rest, reads = mon.split_reads(mon.norm_lines(writer.text()))
    mon.check_equal(len(observed), len(case.more["records"]), "number of USN records")
    mon.check_equal(observed, case.more["records"], "USN records")
    mon.check_equal(reads, case.more["reads"], "sequence of reads")
    mon.compare(rest, mon.text_lines(case.lines), "usn", ctx=ctx)
    parser.Close()
    parser = case.parser()
    parser.Open(path)
    # Records can be read again, also while they are being read.
    first, second = parser.ReadRecords(), parser.ReadRecords()
    results = [[], []]
    pending = [(0, first), (1, second)]
    while pending:
        choice = rng.randrange(len(pending))
        index, iterator = pending[choice]
        try:
            results[index].append(fields(next(iterator)))
        except StopIteration:
            del pending[choice]
    parser.Close()
    mon.check_equal(results[0], case.more["records"], "interleaved USN records")
    mon.check_equal(results[1], case.more["records"], "interleaved USN records")
    ctx.count("interleaved_iterations")
    ctx.count("records_compared", len(observed) * 3)
    for feature in case.features:
        ctx.count(feature)
    ctx.seen(case.data)
    ctx.sample(case.lines[:6])


def usn_refusal(rng, ctx):
    """An invalid record is refused after the records before it are returned."""
    case = win.make_usn(rng)
    while not case.more["records"]:
        case = win.make_usn(rng)
    data = bytearray(case.data)
    reads = case.more["reads"]
    index = rng.randrange(len(reads))
    offset, raw = reads[index][1:]
    kind = rng.randrange(3)
    if kind == 0:
        struct.pack_into("<H", data, offset + 4, rng.choice([0, 1, 3, 4, 0x200]))
    elif kind == 1:
        struct.pack_into("<I", data, offset, rng.choice([1, 59, 60, 61]))
    else:
        index = len(reads) - 1
        offset, raw = reads[index][1:]
        data = data[: offset + rng.randrange(60, len(raw))]
    from dtformats import errors

    path = ctx.path("refused.bin", bytes(data))
    for debug in (False, True):
        parser = case.parser(debug=debug, output_writer=mon.NullWriter())
        parser.Open(path)
        observed = []
        try:
            for record in parser.ReadRecords():
                observed.append(fields(record))
        except errors.ParseError:
            ctx.count("refused")
        else:
            raise Violation("invalid USN record accepted", f"refusal-usn-{kind}")
        finally:
            parser.Close()
        mon.check_equal(observed, case.more["records"][:index], "records before")
    ctx.seen(bytes(data))


def detection(rng, ctx):
    case = win.make_detection(rng)
    fmt.check_case(case, ctx, "detection")
    ctx.sample(case.lines[:6])


def detection_refusal(rng, ctx):
    kind = rng.randrange(4)
    if kind < 2:
        broken = ("type", "tracking")[kind]
        case = win.make_detection(rng, broken)
        while case.more["broken"] != "done":
            case = win.make_detection(rng, broken)
        data = case.data
        what = f"threat tracking data {broken}"
    else:
        case = win.make_detection(rng)
        data = bytearray(case.data)
        reads = [read for read in case.more["reads"] if read[0] == "value"]
        name, offset, raw = rng.choice(reads)
        if kind == 2:
            what = "truncated"
            data = data[: offset + rng.randrange(1, len(raw))]
        else:
            what = "data type"
            struct.pack_into("<I", data, offset + 4, rng.choice([1, 7, 9, 11, 0x16, 0xFF]))
    fmt.refused(case.parser, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "usn": (usn, 700, 8000),
    "usn_refusal": (usn_refusal, 500, 4000),
    "detection": (detection, 1200, 15000),
    "detection_refusal": (detection_refusal, 600, 6000),
    "large_usn": (fmt.large(usn), 4, 80),
    "large_detection": (fmt.large(detection), 4, 80),
}
