"""C22: Jump lists yield every destination and its shortcut."""

import struct

from dtformats import jump_list

from vf import fmt, mon
from vf.formats import cfb, jl

PROPERTY = "C22"
RULE = (
    "a case is a generated compound file with a DestList stream of version 1 to 4 with 0 "
    "to 6 entries and 0 to 40 LNK streams, or a custom destinations file of 0 to 3 "
    "categories of all types with 0 to 5 LNK entries; non-trivial: every file, distinct "
    "by content"
)
REQUIRED = [
    "large_cases",
    "empty_dest_list",
    "dest_list_v1",
    "dest_list_v2",
    "dest_list_v3",
    "dest_list_v4",
    "category_0",
    "category_1",
    "category_2",
    "trailing_data",
    "shortcuts_compared",
    "refused",
]


def automatic(rng, ctx):
    case = jl.make_automatic(rng)
    path = ctx.path("automatic.bin", case.data)
    writer = mon.Writer()
    parser = case.parser(debug=True, output_writer=writer)
    parser.Open(path)
    rest, reads = mon.split_reads(mon.norm_lines(writer.text()))
    mon.check_reads(reads, case.more["content"], ctx)
    mon.check_equal(reads, case.more["reads"], "sequence of reads")
    mon.compare(rest, mon.text_lines(case.lines), "automatic", ctx=ctx)
    check_shortcuts(parser, case, ctx)
    parser.Close()
    parser = case.parser()
    parser.Open(path)
    check_shortcuts(parser, case, ctx)
    parser.Close()
    for feature in case.features:
        ctx.count(feature)
    ctx.seen(case.data)
    ctx.sample(case.lines[:6])


def check_shortcuts(parser, case, ctx):
    entries = list(parser.GetJumpListEntries())
    names = [entry.identifier for entry in entries]
    mon.check_equal(sorted(names), sorted(case.more["shortcuts"]), "identifiers")
    for entry in entries:
        mon.check_equal(
            jl.describe(entry), case.more["shortcuts"][entry.identifier], "shortcut"
        )
        ctx.count("shortcuts_compared")


def custom(rng, ctx):
    case = jl.make_custom(rng)
    fmt.check_case(case, ctx, "custom")
    for debug in (False, True):
        parser = case.parser(debug=debug, output_writer=mon.NullWriter())
        parser.Open(ctx.path("custom.bin"))
        observed = [
            (entry.identifier, jl.describe(entry)) for entry in parser.GetJumpListEntries()
        ]
        parser.Close()
        mon.check_equal(observed, case.more["shortcuts"], "shortcuts")
        ctx.count("shortcuts_compared", len(observed))
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    kind = rng.randrange(8)
    parser = jump_list.CustomDestinationsFile
    case = jl.make_custom(rng)
    while not case.more["shortcuts"]:
        case = jl.make_custom(rng)
    data = bytearray(case.data)
    places = {}
    for name, offset, _ in case.more["reads"]:
        places.setdefault(name, []).append(offset)
    if kind == 0:
        what = "format version"
        data[rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 1:
        what = "category type"
        struct.pack_into(
            "<I", data, rng.choice(places["category header"]), rng.choice([3, 4, 1 << 31])
        )
    elif kind == 2:
        what = "entry header"
        data[rng.choice(places["entry header"]) + rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif kind == 3:
        what = "category footer"
        data[rng.choice(places["category footer"]) + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif kind == 4:
        what = "truncated"
        data = data[: rng.randrange(case.more["size"])]
    else:
        parser = jump_list.AutomaticDestinationsFile
        stream, _, reads, _ = jl.make_dest_list(rng, entries=rng.randint(1, 3))
        stream = bytearray(stream)
        if kind == 5:
            what = "DestList format version"
            struct.pack_into("<I", stream, 0, rng.choice([0, 5, 6, 0xFFFFFFFF]))
        elif kind == 6:
            what = "truncated DestList"
            size = rng.randrange(1, len(stream))
            stream = stream[: size - 1 if size in [r[1] for r in reads] else size]
            stream = stream or b"\1"
        else:
            what = "missing DestList"
        name = "DestList" if kind != 7 else "Other"
        data = cfb.write({name: bytes(stream), "1": jl.make_lnk(rng)[0]})
    fmt.refused(parser, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


def early_footer(rng, ctx):
    """A category can end before its number of entries is reached."""
    lnk, shown = jl.make_lnk(rng)
    announced = rng.choice([2, 3, 100, 0xFFFFFFFF])
    data = struct.pack("<III", 2, 1, 0) + struct.pack("<II", 2, announced)
    data += jl.GUID + lnk + jl.FOOTER + bytes(16)
    path = ctx.path("early.bin", data)
    parser = jump_list.CustomDestinationsFile()
    parser.Open(path)
    observed = [jl.describe(entry) for entry in parser.GetJumpListEntries()]
    parser.Close()
    mon.check_equal(observed, [shown], "shortcuts before an early footer")
    ctx.count("early_footers")


FAMILIES = {
    "automatic": (automatic, 900, 12000),
    "custom": (custom, 1200, 20000),
    "refusal": (refusal, 800, 8000),
    "early_footer": (early_footer, 40, 200),
    "large_automatic": (fmt.large(automatic), 3, 60),
    "large_custom": (fmt.large(custom), 4, 80),
}
CPU_LIMIT = 30
