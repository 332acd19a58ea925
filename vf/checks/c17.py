"""C17: Restore point logs are decoded completely."""

import struct

from dtformats import rp_change_log, rp_log

from vf import fmt, mon
from vf.formats import rp

PROPERTY = "C17"
RULE = (
    "a case is a generated rp.log file with random header, gap and footer, or "
    "change.log file of a volume path and 0 to 4 entries with 0 to 3 sub records of all "
    "record types; non-trivial: every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "logs",
    "logs_without_gap",
    "change_logs",
    "entries",
    "sub_records",
    "refused",
    "entries_compared",
]


def log(rng, ctx):
    case = rp.make_log(rng)
    fmt.check_case(case, ctx, "rp_log")
    writer = mon.Writer()
    quiet = case.parser(output_writer=writer)
    quiet.Open(ctx.path("rp_log.bin"))
    quiet.Close()
    mon.check_equal(writer.text(), "", "output without debug")
    ctx.sample(case.lines[:4])


def change_log(rng, ctx):
    case = rp.make_change_log(rng)
    parser = fmt.check_case(case, ctx, "rp_change_log")
    quiet = case.parser()
    quiet.Open(ctx.path("rp_change_log.bin"))
    quiet.Close()
    for observed in (parser, quiet):
        mon.check_equal(observed.volume_path, case.more["volume_path"], "volume path")
        mon.check_equal(
            [
                {key: getattr(entry, key) for key in rp.make_entry_keys()}
                for entry in observed.entries
            ],
            case.more["entries"],
            "entries",
        )
        ctx.count("entries_compared", len(observed.entries))
    ctx.sample(case.lines[:4])


def refusal(rng, ctx):
    parser = rp_change_log.RestorePointChangeLogFile
    case = rp.make_change_log(rng)
    while not case.more["entries"]:
        case = rp.make_change_log(rng)
    data = bytearray(case.data)
    first = struct.unpack_from("<I", data, 0)[0]
    entry = case.more["reads"][rng.randrange(1, len(case.more["reads"]))][1]
    kind = rng.randrange(11)
    if kind == 0:
        what = "header signature"
        data[8 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 1:
        what = "header record type"
        data[4 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 2:
        what = "format version"
        data[12 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 3:
        what = "copy of header record size"
        data[first - 1 - rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 4:
        what = "volume path record type"
        data[20 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 5:
        what = "entry record type"
        data[entry + 4 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 6:
        what = "entry signature"
        data[entry + 8 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 7:
        what = "copy of entry record size"
        size = struct.unpack_from("<I", data, entry)[0]
        data[entry + size - 1 - rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 8:
        what = "small entry record size"
        struct.pack_into("<I", data, entry, rng.randrange(72))
    elif kind == 9:
        what = "truncated"
        data = data[: rng.randrange(1, len(data))]
        if len(data) in [read[1] for read in case.more["reads"]]:
            data = data[:-1]
    else:
        what = "short rp.log"
        parser = rp_log.RestorePointLogFile
        case = rp.make_log(rng)
        header = case.more["reads"][0][2]
        data = case.data[: rng.randrange(len(header) + 8)]
    fmt.refused(parser, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "log": (log, 1600, 30000),
    "change_log": (change_log, 1600, 30000),
    "refusal": (refusal, 1100, 16000),
    "large_log": (fmt.large(log), 20, 400),
    "large_change_log": (fmt.large(change_log), 4, 100),
}
