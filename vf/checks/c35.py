"""C35: Prefetch hashes equal the Windows algorithms for every path."""

import random

from dtformats import prefetch

from vf import mon

PROPERTY = "C35"
RULE = (
    "a case is a generated path of 0 to 2000 characters of the ASCII, Latin, Greek, "
    "Cyrillic, CJK and supplementary planes in mixed case; non-trivial: every path, "
    "distinct by value"
)
REQUIRED = ["ascii", "bmp", "supplementary", "empty", "long", "case_pairs", "xp_negative", "edge_values"]
MASK = 0xFFFFFFFF

TARGETS = (
    0,
    1,
    0x7FFFFFFF,
    0x80000000,
    0x80000001,
    MASK,
    1000000006,
    1000000007,
    1000000008,
    2000000014,
    (1 << 32) - 1000000007,
)

def polynomial(data, start):
    """sum(start * 37^n + data[i] * 37^(n - 1 - i)) modulo 2^32."""
    total = start * pow(37, len(data), 1 << 32)
    power = 1
    for value in reversed(data):
        total += value * power
        power = power * 37 & MASK
    return total & MASK


def xp(data):
    value = polynomial(data, 0) * 314159269 & MASK
    if value & 0x80000000:
        value = (-value) & MASK
    return value % 1000000007


def vista(data):
    return polynomial(data, 314159)


def scan2008(data):
    """Blocks of 8 bytes as long as more than 8 bytes remain, then byte by byte."""
    value = 314159
    position = 0
    while len(data) - position > 8:
        block = data[position : position + 8]
        number = 0
        for byte in block[1:]:
            number = number * 37 + byte
        value = (number + 442596621 * block[0] - 803794207 * value) & MASK
        position += 8
    for byte in data[position:]:
        value = (value * 37 + byte) & MASK
    return value


ALPHABETS = (
    ("ascii", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ._-()~$"),
    ("ascii", "".join(map(chr, range(1, 128)))),
    ("bmp", "".join(chr(c) for c in range(0xA0, 0x530))),
    ("bmp", "".join(chr(c) for c in range(0x1E00, 0xD800, 7))),
    ("bmp", "".join(chr(c) for c in range(0xE000, 0x10000, 3))),
    ("supplementary", "".join(chr(c) for c in range(0x10400, 0x10450))),
    ("supplementary", "".join(chr(c) for c in range(0x10000, 0x110000, 1009))),
)


def check(path, ctx):
    data = path.upper().encode("utf-16-le")
    expected = (xp(data), vista(data), scan2008(data))
    observed = (
        prefetch.CalculatePrefetchHashXP(path),
        prefetch.CalculatePrefetchHashVista(path),
        prefetch.CalculatePrefetchHash2008(path),
    )
    mon.check_equal(
        [f"{value:08x}" for value in observed],
        [f"{value:08x}" for value in expected],
        f"hashes of {path!r:.200}",
    )
    if polynomial(data, 0) * 314159269 & 0x80000000:
        ctx.count("xp_negative")
    ctx.seen(path)
    return observed


def paths(rng, ctx):
    kind, alphabet = rng.choice(ALPHABETS)
    size = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, rng.randint(0, 80), rng.randint(0, 80)])
    path = "".join(rng.choice(alphabet) for _ in range(size))
    if rng.random() < 0.4:
        path = "\\Device\\HarddiskVolume%d\\%s" % (rng.randint(1, 30), path)
    if rng.random() < 0.03:
        path += "x" * rng.randint(500, 2000)
        ctx.count("long")
    ctx.count(kind if size else "empty")
    observed = check(path, ctx)
    for other in (path.lower(), path.upper()):
        if other.upper() == path.upper():
            mon.check_equal(check(other, ctx), observed, "hashes by case")
            ctx.count("case_pairs")
    ctx.sample([path[:40], *(f"{value:08x}" for value in observed)])


SUFFIXES = {}


def edges(rng, ctx):
    """Paths of which the XP hash is next to the sign bit and the modulus.

    A suffix of three characters is looked up that completes a random prefix.
    """
    if not SUFFIXES:
        source = random.Random(1)
        for _ in range(150000):
            suffix = "".join(chr(source.randrange(0x4E00, 0xA000)) for _ in range(3))
            SUFFIXES[polynomial(suffix.encode("utf-16-le"), 0)] = suffix
    target = rng.choice(TARGETS)
    wanted = target * pow(314159269, -1, 1 << 32) & MASK
    start = rng.choice(["", "\\DEVICE\\"])
    value = polynomial(start.encode("utf-16-le"), 0)
    shift = pow(37, 6, 1 << 32)
    for _ in range(200000):
        first, second = rng.randrange(0x4E00, 0xA000), rng.randrange(0x4E00, 0xA000)
        prefix = value
        for byte in (first & 255, first >> 8, second & 255, second >> 8):
            prefix = (prefix * 37 + byte) & MASK
        suffix = SUFFIXES.get((wanted - prefix * shift) & MASK)
        if suffix:
            path = start + chr(first) + chr(second) + suffix
            data = path.encode("utf-16-le")
            mon.check_equal(polynomial(data, 0) * 314159269 & MASK, target, "edge")
            check(path, ctx)
            ctx.count("edge_values")
            return


FAMILIES = {
    "paths": (paths, 12000, 200000),
    "edges": (edges, 160, 1000),
}
