"""C15: BSM audit records are decoded token by token."""

import struct

from dtformats import bsm as module

from vf import fmt
from vf.formats import bsm

PROPERTY = "C15"
RULE = (
    "a case is a generated file of 0 to 4 records of a random header token, 0 to 7 "
    "random tokens of all 41 supported types with random values and a trailer; "
    "non-trivial: every file, distinct by content"
)
REQUIRED = ["large_cases", "records", "refused", "reads_compared"] + [
    f"token_0x{kind:02x}" for kind in bsm.TOKENS
]


def parse(rng, ctx):
    case = bsm.make(rng)
    fmt.check_case(case, ctx, "bsm")
    quiet = case.parser()
    quiet.Open(ctx.path("bsm.bin"))
    quiet.Close()
    ctx.sample(case.lines[:8])


def events(rng, ctx):
    """Every event type is shown with its name."""
    records = []
    for _ in range(40):
        record = bsm.make_record(rng, [], 0x14)
        record[0][1]["event_type"] = (
            rng.choice(list(bsm.EVENT_TYPES)) if rng.random() < 0.9 else rng.getrandbits(16)
        )
        records.append(record)
    data, lines, reads, features = bsm.encode(records)
    case = fmt.Case(module.BSMEventAuditingFile, data, lines, features, reads=reads)
    fmt.check_case(case, ctx, "bsm")
    ctx.count("event_types", 40)


def refusal(rng, ctx):
    before = [bsm.make_record(rng) for _ in range(rng.choice([0, 1]))]
    prefix = bsm.encode(before)[0]
    record = bsm.make_record(rng)
    data = bytearray(bsm.encode([record])[0])
    kind = rng.randrange(8)
    if kind == 0:
        what = "header token type"
        data[0] = rng.choice([b for b in range(256) if b not in bsm.HEADERS])
    elif kind == 1:
        what = "format version"
        data[5] = rng.choice([2, 10, 1, 0, 12, rng.choice([b for b in range(256) if b != 11])])
    elif kind == 2:
        what = "trailer size"
        size = struct.unpack_from(">I", data, len(data) - 4)[0]
        struct.pack_into(">I", data, len(data) - 4, size ^ (1 << rng.randrange(32)))
    elif kind == 3:
        what = "trailer signature"
        data[-6 + rng.randrange(2)] ^= 1 << rng.randrange(8)
    elif kind == 4:
        what = "missing trailer"
        data = data[:-7]
        struct.pack_into(">I", data, 1, len(data))
    elif kind == 5:
        what = "truncated record"
        data = data[: rng.randrange(1, len(data))]
    elif kind == 6:
        what = "unsupported token type"
        value = rng.choice([b for b in range(256) if b not in bsm.TOKENS])
        data[-7:-7] = bytes([value]) + rng.randbytes(8)
        struct.pack_into(">I", data, 1, len(data))
        struct.pack_into(">I", data, len(data) - 4, len(data))
    else:
        what = "net type"
        number = rng.choice([0, 1, 5, 8, 15, 17, 32])
        token = rng.choice([0x15, 0x79, 0x7A, 0x7B, 0x7C, 0x7D, 0x7F, 0x7E])
        header = token if token in bsm.HEADERS else None
        record = bsm.make_record(rng, [] if header else [token], header)
        values = record[0 if header else 1][1]
        values["net_type"] = number
        for key in list(values):
            if key.endswith("ip_address") and token != 0x7E:
                values[key] = [1] * number
        size = len(bsm.encode([record])[0])
        record[0][1]["record_size"] = record[-1][1]["record_size"] = size
        data = bytearray(bsm.encode([record])[0])
    fmt.refused(
        module.BSMEventAuditingFile, prefix + bytes(data), ctx, what, f"refusal-{what}"
    )
    ctx.seen(bytes(data))


FAMILIES = {
    "parse": (parse, 1600, 40000),
    "events": (events, 48, 200),
    "refusal": (refusal, 800, 16000),
    "large": (fmt.large(parse), 4, 100),
}
