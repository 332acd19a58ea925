"""C37: AMCache entries are collected from every key of the hive."""

from vf import fmt
from vf.formats import regf

PROPERTY = "C37"
RULE = (
    "a case is a generated registry hive with 0 to 3 volumes of files, programs, "
    "applications and application files, of 0 to 20 keys each with values of all types; "
    "non-trivial: every hive, distinct by content"
)
REQUIRED = [
    "large_cases",
    "hives",
    "file_keys",
    "Programs",
    "InventoryApplication",
    "InventoryApplicationFile",
    "ntfs_reference",
    "round_sequence",
    "other_reference",
    "text_value",
    "integer_value",
    "multi_text_value",
    "binary_value",
    "unexpected_type",
    "other_hive",
    "no_root",
]


def hive(rng, ctx):
    case = regf.make_amcache(rng)
    fmt.check_case(case, ctx, "hive")
    parser = case.parser()
    parser.Open(ctx.path("hive.bin"))
    parser.Close()
    ctx.sample(case.lines[:6])


FAMILIES = {
    "hive": (hive, 1200, 15000),
    "large": (fmt.large(hive), 6, 100),
}
