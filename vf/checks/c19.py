"""C19: File system event logs are decoded page by page."""

from vf import fmt, mon
from vf.formats import fse

PROPERTY = "C19"
RULE = (
    "a case is a generated stream of 1 to 4 version 1 or 2 pages of 0 to 6 records, "
    "compressed at different levels and with flushes; non-trivial: every stream, distinct "
    "by content"
)
REQUIRED = ["large_cases", "page_v1", "page_v2", "record_v1", "record_v2", "empty_page", "refused"]


def parse(rng, ctx):
    case = fse.make(rng)
    path = ctx.path("fsevents.gz", case.data)
    _, rest = fmt.observe(case.parser, path, case.more["content"], ctx, case.more["reads"])
    mon.compare(rest, mon.text_lines(case.lines), "fseventsd", ctx=ctx)
    quiet = case.parser()
    quiet.Open(path)
    quiet.Close()
    for feature in case.features:
        ctx.count(feature)
    ctx.seen(case.more["content"])
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    while True:
        case = fse.make(rng)
        records = [read for read in case.more["reads"] if read[0] == "DLS record"]
        if records:
            break
    content = case.more["content"]
    pages = [read[1] for read in case.more["reads"] if read[0] == "DLS page header"]
    starts = [read[1] for read in case.more["reads"]]
    kind = rng.randrange(3)
    if kind == 0:
        what = "signature"
        filled = [
            page
            for page, after in zip(starts, starts[1:] + [0])
            if page in pages and after not in pages and after
        ]
        page = rng.choice(filled)
        content = bytearray(content)
        content[page + rng.randrange(4)] ^= 1 << rng.randrange(8)
        if content[page : page + 4] in (b"1SLD", b"2SLD"):
            content[page] = 0x33
    elif kind == 1:
        what = "record past the end of the page"
        record = rng.choice(records)
        page = max(page for page in pages if page < record[1])
        size = record[1] - page + rng.randrange(1, len(record[2]))
        content = fse.struct_size(content, page, size)
    else:
        what = "truncated"
        content = content[: rng.randrange(1, len(content))]
        if len(content) in starts and len(content) in pages:
            content = content[:-1]
    data = fse.compress(rng, bytes(content))
    fmt.refused(case.parser, data, ctx, what, f"refusal-{what}")
    ctx.seen(bytes(content))


FAMILIES = {
    "parse": (parse, 1200, 20000),
    "refusal": (refusal, 600, 8000),
    "large": (fmt.large(parse), 5, 100),
}
