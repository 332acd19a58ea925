"""C21: Windows task jobs are decoded completely."""

from vf import fmt, mon
from vf.formats import job

PROPERTY = "C21"
RULE = (
    "a case is a generated .job file with random fixed-length section, present and absent "
    "strings, user and reserved data of 0 to 100 bytes and 0 to 5 triggers; non-trivial: "
    "every file, distinct by content"
)
REQUIRED = [
    "large_cases",
    "files",
    "empty_string",
    "string",
    "user_data",
    "reserved_data",
    "triggers",
    "no_triggers",
    "configurations_compared",
    "refused",
]


def parse(rng, ctx):
    case = job.make(rng)
    parser = fmt.check_case(case, ctx, "job")
    quiet = case.parser()
    quiet.Open(ctx.path("job.bin"))
    quiet.Close()
    for observed in (parser, quiet):
        configuration = observed.GetWindowsTaskConfiguration()
        mon.check_equal(
            {key: getattr(configuration, key) for key in case.more["configuration"]},
            case.more["configuration"],
            "configuration",
        )
        ctx.count("configurations_compared")
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    case = job.make(rng)
    data = case.data[: rng.randrange(case.more["size"])]
    fmt.refused(case.parser, data, ctx, "truncated", "refusal-truncated")
    ctx.seen(data)


FAMILIES = {
    "parse": (parse, 1600, 30000),
    "refusal": (refusal, 800, 10000),
    "large": (fmt.large(parse), 20, 400),
}
