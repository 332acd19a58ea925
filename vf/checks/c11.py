"""C11: gzip members are walked and reported completely."""

from dtformats import gzipfile

from vf import fmt
from vf.formats import gz

PROPERTY = "C11"
RULE = (
    "a case is a gzip file of 1 to 5 generated members with random header values, "
    "optional fields, content and compression level; non-trivial: at least one member "
    "with an optional field or several members"
)
REQUIRED = [
    "large_cases",
    "members",
    "empty_members",
    "multiple_members",
    "extra_fields",
    "file_names",
    "comments",
    "header_checksums",
    "huge_members",
    "refused",
]


def members(rng, ctx):
    case = gz.make(rng)
    fmt.check_case(case, ctx, "gzip")
    ctx.sample({"size": len(case.data), "features": sorted(case.features)})


def huge(rng, ctx):
    fmt.check_case(gz.huge(rng), ctx, "gzip")


def refusal(rng, ctx):
    first = gz.make(rng, 2).data if rng.random() < 0.5 else b""
    data = bytearray(gz.member(rng)[0])
    kind = rng.randrange(5)
    if kind == 0:
        data[rng.randrange(2)] ^= 1 << rng.randrange(8)
        what = "unsupported signature"
    elif kind == 1:
        data[2] = rng.choice([m for m in range(256) if m != 8])
        what = f"compression method {data[2]}"
    elif kind == 2:
        del data[-rng.randint(1, 8) :]
        what = "footer cut off"
    elif kind == 3:
        data = data[: rng.randint(1, len(data) - 1)]
        what = "member cut off"
    else:
        header = gz.S.pack(
            "gzip_member_header", {"signature": 0x8B1F, "compression_method": 8}
        )
        data = header + b"\x07" + rng.randbytes(40)
        what = "invalid block type"
    fmt.refused(
        gzipfile.GZipFile, first + bytes(data), ctx, what, f"refusal-{what.split()[0]}"
    )
    ctx.seen(bytes(data))


FAMILIES = {
    "members": (members, 3000, 60000),
    "huge": (huge, 4, 30),
    "refusal": (refusal, 800, 10000),
    "large": (fmt.large(members), 5, 100),
}
