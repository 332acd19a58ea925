"""C14: Apple System Log records are followed and resolved completely."""

import struct

from dtformats import asl as asl_module

from vf import fmt
from vf.formats import asl

PROPERTY = "C14"
RULE = (
    "a case is a generated ASL file with a chain of 0 to 6 records whose strings are "
    "absent, inline (0 to 7 bytes) or stored before the record or shared with an "
    "earlier record, and extra fields; non-trivial: a file with at least one record"
)
REQUIRED = [
    "large_cases",
    "files",
    "chains",
    "stored_strings",
    "shared_strings",
    "inline_strings",
    "empty_inline_strings",
    "absent_strings",
    "extra_fields",
    "refused",
]


def chain(rng, ctx):
    case = asl.make(rng)
    fmt.check_case(case, ctx, "asl")
    ctx.sample({"size": len(case.data), "features": sorted(case.features)})


def refusal(rng, ctx):
    case = asl.make(rng)
    while not case.more["offsets"]:
        case = asl.make(rng)
    data = bytearray(case.data)
    offset = rng.choice(case.more["offsets"])
    kind = rng.randrange(6)
    # Offsets of the four string references in a record.
    place = offset + rng.choice([66, 74, 82, 90])
    if kind == 0:
        data[place : place + 8] = bytes([rng.choice([0x90, 0xA0, 0xC0, 0xF1])]) + b"a" * 7
        what = "inline flag"
    elif kind == 1:
        data[place : place + 8] = bytes([0x80 | rng.randint(8, 15)]) + b"a" * 7
        what = "inline size"
    elif kind == 2:
        data[place : place + 8] = b"\x83" + b"a\xffb" + b"\0" * 4
        what = "inline text"
    elif kind == 3:
        (size,) = struct.unpack_from(">I", data, offset + 2)
        struct.pack_into(">I", data, offset + 2, size + rng.randint(1, 7))
        data += bytes(64)
        what = "additional data size"
    elif kind == 4:
        data[place : place + 8] = struct.pack(">Q", len(data) + rng.getrandbits(50))
        what = "string beyond the end"
    else:
        data[rng.randrange(12)] ^= 1 << rng.randrange(8)
        what = "signature"
    fmt.refused(asl_module.AppleSystemLogFile, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "chain": (chain, 2500, 50000),
    "refusal": (refusal, 1000, 10000),
    "large": (fmt.large(chain), 4, 100),
}
