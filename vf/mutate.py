"""Damages inputs."""

import struct

INTERESTING = [
    0, 1, 2, 3, 4, 7, 8, 12, 15, 16, 20, 24, 32, 64, 100, 127, 128, 255, 256, 511, 512,
    1000, 1024, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000,
    0xFFFFFFFE, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, 0xFFFFFFFFFFFFFFFF,
]


def place(rng, size, marks):
    """An offset, preferably near the start of a structure."""
    if not size:
        return 0
    choice = rng.random()
    if marks and choice < 0.45:
        return min(size - 1, max(0, rng.choice(marks) + rng.randrange(-4, 48)))
    if choice < 0.65:
        return rng.randrange(min(size, 96))
    if choice < 0.75:
        return size - 1 - rng.randrange(min(size, 64))
    return rng.randrange(size)


def damage(rng, data, marks=(), other=None, count=None):
    """Damaged data."""
    data = bytearray(data)
    for _ in range(count or rng.choice([1, 1, 1, 2, 3, 6])):
        size = len(data)
        kind = rng.randrange(12)
        at = place(rng, size, marks)
        if kind == 0:
            # Truncated, preferably within or right after a structure.
            del data[at:]
        elif kind == 1 and size:
            data[at] ^= 1 << rng.randrange(8)
        elif kind == 2 and size:
            data[at] = rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)])
        elif kind in (3, 4, 5) and size:
            width = rng.choice([1, 2, 2, 4, 4, 4, 8])
            if rng.random() < 0.6:
                at -= at % width
            value = rng.choice(
                [rng.choice(INTERESTING), rng.choice(INTERESTING), size, size - 1,
                 size - at, at, rng.randrange(size + 1), rng.choice(marks or [0])]
            ) & ((1 << 8 * width) - 1)
            raw = value.to_bytes(width, rng.choice(["little", "little", "big"]))
            data[at : at + width] = raw[: size - at]
        elif kind == 6 and size:
            # A value slightly changed.
            width = rng.choice([1, 2, 4, 8])
            raw = bytes(data[at : at + width])
            order = rng.choice(["little", "big"])
            value = int.from_bytes(raw, order) + rng.choice([-2, -1, 1, 2, 16, -16])
            value &= (1 << 8 * len(raw)) - 1
            data[at : at + width] = value.to_bytes(len(raw), order)
        elif kind == 7 and size:
            # A part copied onto another place.
            length = rng.choice([1, 2, 4, 8, 16, rng.randrange(1, 200)])
            source = place(rng, size, marks)
            part = bytes(data[source : source + length])
            data[at : at + len(part)] = part[: size - at]
        elif kind == 8:
            length = rng.choice([1, 2, 4, rng.randrange(1, 64)])
            if rng.random() < 0.5:
                del data[at : at + length]
            else:
                data[at:at] = rng.choice([bytes(length), rng.randbytes(length)])
        elif kind == 9:
            fill = rng.choice([0, 0xFF, 0x80, 0x41])
            length = rng.randrange(1, 40)
            end = min(size, at + length)
            data[at:end] = bytes([fill]) * (end - at)
        elif kind == 10 and other:
            start = rng.randrange(len(other))
            data[at:] = other[start:]
        else:
            data += rng.choice([bytes(1), rng.randbytes(rng.randrange(1, 80)), bytes(data[:200])])
    return bytes(data)


def garbage(rng):
    """Data without a relation to any format."""
    size = rng.choice([0, 1, 3, 4, 16, 100, 1000, 5000])
    return rng.choice([bytes(size), b"\xff" * size, rng.randbytes(size), b"A" * size,
                       struct.pack("<I", 1) * (size // 4)])
