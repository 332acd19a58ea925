"""C28: systemd journal entries resolve to their field values."""

import struct

from vf import fmt
from vf.formats import journal

PROPERTY = "C28"
RULE = (
    "a case is a generated systemd journal of 0 to 12 entries of 0 to 20 items each, in a "
    "chain of entry arrays, with shared, compressed and unreachable objects, or such a "
    "journal with one invalid object; non-trivial: every journal, distinct by content"
)
REQUIRED = [
    "large_cases",
    "header_208",
    "header_224",
    "header_240",
    "data_0",
    "data_1",
    "data_2",
    "shared_data",
    "entry_without_items",
    "out_of_order",
    "unused_slot",
    "array_chain",
    "no_entry_array",
    "entries",
    "refused",
]


def entries(rng, ctx):
    case = journal.make_journal(rng)
    fmt.check_case(case, ctx, "journal")
    ctx.sample(case.lines[:6])


def refusal(rng, ctx):
    case = journal.make_journal(rng)
    reads = case.more["reads"]
    data = bytearray(case.data)
    kind = rng.randrange(6)
    name, offset, raw = reads[rng.randrange(len(reads))]
    if kind == 0 or name == "file header":
        if rng.random() < 0.5:
            data[rng.randrange(8)] ^= 1 << rng.randrange(8)
            what = "signature"
        else:
            struct.pack_into("<Q", data, 88, rng.choice([0, 207, 209, 216, 256, 1 << 40]))
            what = "header-size"
    elif kind == 1:
        data[offset] = rng.choice([t for t in range(9) if t != data[offset]])
        what = "object-type"
    elif kind == 2:
        flags = rng.choice([3, 4, 8, 255] if name == "data object" else [1, 2, 3, 4, 255])
        data[offset + 1] = flags
        what = "object-flags"
    elif kind == 3:
        minimum = 24 if name == "entry array object" else 64
        struct.pack_into("<Q", data, offset + 8, rng.randrange(minimum))
        what = "object-size-too-small"
    elif kind == 4 and case.more["arrays"]:
        # The chain of entry arrays is a loop.
        arrays = case.more["arrays"]
        struct.pack_into("<Q", data, arrays[-1] + 16, rng.choice(arrays))
        what = "loop"
    else:
        _, offset, raw = max(reads, key=lambda read: read[1])
        del data[offset + rng.randrange(len(raw)) :]
        what = "truncated"
    fmt.refused(case.parser, data, ctx, f"invalid {what}", f"accepted-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "entries": (entries, 3000, 60000),
    "refusal": (refusal, 1500, 30000),
    "large": (fmt.large(entries), 6, 150),
}
