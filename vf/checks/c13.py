"""C13: login records are reported completely and correctly."""

from dtformats import utmp

from vf import fmt
from vf.formats import ut

PROPERTY = "C13"
RULE = (
    "a case is a generated utmp or utmpx file of 1 to 6 records with random values, "
    "names (ASCII to supplementary planes, full width, not UTF-8) and addresses; "
    "non-trivial: every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "linux_entries",
    "macos_entries",
    "ipv4_addresses",
    "ipv6_addresses",
    "refused",
]


def linux(rng, ctx):
    case = ut.make_linux(rng)
    fmt.check_case(case, ctx, "utmp")
    ctx.sample({"size": len(case.data), "first": case.lines[:4]})


def macos(rng, ctx):
    case = ut.make_macos(rng)
    fmt.check_case(case, ctx, "utmpx")
    ctx.sample({"size": len(case.data), "first": case.lines[:4]})


def refusal(rng, ctx):
    kind = rng.randrange(4)
    parser = utmp.MacOSXUtmpxFile
    if kind == 0:
        data = b"".join(ut.macos_entry(rng)[0] for _ in range(rng.randint(1, 3)))
        what = "utmpx file without header record"
    elif kind == 1:
        data = bytearray(ut.make_macos(rng).data)
        data[rng.randrange(11)] ^= 1 << rng.randrange(8)
        what = "utmpx header signature"
    elif kind == 2:
        data = bytearray(ut.make_macos(rng).data)
        # The login type of the first record.
        value = rng.choice([v for v in range(-5, 20) if v != 10])
        data[296:298] = value.to_bytes(2, "little", signed=True)
        what = "utmpx header type"
    else:
        case = rng.choice([ut.make_macos, ut.make_linux])(rng)
        parser = case.parser
        size = 384 if parser is utmp.LinuxLibc6UtmpFile else 628
        cut = rng.randint(1, len(case.data) - 1)
        if cut % size == 0:
            cut -= 1
        data = case.data[:cut]
        what = "partial record"
    fmt.refused(parser, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "linux": (linux, 1500, 30000),
    "macos": (macos, 1500, 30000),
    "refusal": (refusal, 600, 8000),
    "large_linux": (fmt.large(linux), 2, 60),
    "large_macos": (fmt.large(macos), 2, 60),
}
