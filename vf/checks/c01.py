"""C01: a data range exposes exactly its window of the parent file."""

import io
import os

from dtformats import cpio
from dtformats import data_range

from vf import mon
from vf.core import Violation

PROPERTY = "C01"
RULE = (
    "a case is a random parent, one to three windows on it (also nested, empty, past the "
    "end, archive file entries) and a random history of up to 60 seek/read/tell/size "
    "operations interleaved over the ranges and the parent; non-trivial: at least one "
    "read returned data and one seek moved"
)
REQUIRED = ["reads_with_data", "reads_clipped", "seeks", "refused_seeks", "refused_windows",
    "reads_past_4gib", "large_reads"]


class Model:
    """A file that holds only the window."""

    def __init__(self, content, offset, size):
        self.data = content[offset : offset + size]
        self.size = size
        self.position = 0

    def read(self, size):
        if size is None or size < 0:
            size = self.size
        end = min(self.position + size, self.size)
        data = self.data[self.position : max(end, self.position)]
        self.position += len(data)
        return data

    def seek(self, offset, whence):
        base = {os.SEEK_SET: 0, os.SEEK_CUR: self.position, os.SEEK_END: self.size}
        if whence not in base or base[whence] + offset < 0:
            return False
        self.position = base[whence] + offset
        return True


def history(rng, ctx):
    content = rng.randbytes(rng.choice([0, 1, 7, 64, 200, 4096, 20000]))
    parent = rng.choice([io.BytesIO, mon.TracingFile])(content)
    ranges = []
    for _ in range(rng.randint(1, 3)):
        offset = rng.randint(0, len(content) + 8) if rng.random() < 0.9 else 0
        size = rng.choice(
            [0, 1, rng.randint(0, 40), rng.randint(0, len(content) + 16), len(content)]
        )
        kind = rng.choice([data_range.DataRange, cpio.CPIOArchiveFileEntry])
        if ranges and rng.random() < 0.2:
            # A range on a range.
            outer, outer_model = rng.choice(ranges)
            window = Model(outer_model.data.ljust(0), offset, size)
            ranges.append((kind(outer, data_offset=offset, data_size=size), window))
            # The outer range is moved by the inner one: only use the inner one.
            ranges = [pair for pair in ranges if pair[0] is not outer]
            continue
        arguments = {"data_offset": offset, "data_size": size}
        ranges.append((kind(parent, **arguments), Model(content, offset, size)))

    moved = got = False
    log = []
    for _ in range(rng.randint(5, 60)):
        real, model = rng.choice(ranges)
        action = rng.random()
        if action < 0.15:
            parent.seek(rng.randint(0, len(content) + 3))
            if rng.random() < 0.5:
                parent.read(rng.randint(0, 20))
            continue
        if action < 0.5:
            size = rng.choice(
                [None, 0, 1, rng.randint(0, 50), rng.randint(0, len(content) + 9), 1 << 40, -1, -5]
            )
            log.append(("read", size))
            expected = model.read(size)
            if size is None and rng.random() < 0.5:
                actual = real.read()
            elif rng.random() < 0.5:
                actual = real.read(size=size)
            else:
                actual = real.read(size)
            if actual != expected:
                raise Violation(
                    f"read({size}) of a window returned {len(actual)} bytes "
                    f"{actual[:24].hex()}, expected {len(expected)} bytes "
                    f"{expected[:24].hex()}",
                    "read-negative-size" if size and size < 0 else "read",
                    {"history": log[-20:]},
                )
            if expected:
                ctx.count("reads_with_data")
                got = True
            if size and size > len(expected):
                ctx.count("reads_clipped")
        elif action < 0.85:
            whence = rng.choice([0, 0, 1, 1, 2, 2, 3, -1, 7])
            offset = rng.choice(
                [0, rng.randint(-60, 60), rng.randint(-len(content) - 5, len(content) + 5)]
            )
            log.append(("seek", offset, whence))
            accepted = model.seek(offset, whence)
            try:
                if whence == 0 and rng.random() < 0.5:
                    real.seek(offset)
                else:
                    real.seek(offset, whence)
                refused = False
            except OSError:
                refused = True
            if refused == accepted:
                raise Violation(
                    f"seek({offset}, {whence}) refused={refused}", "seek-refusal",
                    {"history": log[-20:]},
                )
            ctx.count("seeks" if accepted else "refused_seeks")
            moved = moved or accepted
        mon.check_equal(real.tell(), model.position, "position", "tell")
        mon.check_equal(real.get_offset(), model.position, "offset", "tell")
        mon.check_equal(real.get_size(), model.size, "size", "size")
        mon.check_equal(real.seekable(), True, "seekable", "seekable")
    ctx.seen((content[:32], log), moved and got)
    ctx.sample({"parent_size": len(content), "windows": len(ranges), "history": repr(log[:8])})


def sequential(rng, ctx):
    """Chunked reads to the end deliver the window exactly once."""
    content = rng.randbytes(rng.randint(1, 3000))
    offset = rng.randint(0, len(content))
    size = rng.randint(0, len(content) + 20)
    chunk = rng.choice([1, 3, 16, 511, 512, 4096])
    real = data_range.DataRange(io.BytesIO(content), data_offset=offset, data_size=size)
    parts = []
    while len(parts) <= len(content) + 2:
        part = real.read(chunk)
        if not part:
            break
        parts.append(part)
    mon.check_equal(b"".join(parts), content[offset : offset + size], "window", "chunked-read")
    ctx.seen((content[:16], offset, size, chunk))
    ctx.count("chunked_windows")


def invalid(rng, ctx):
    """Invalid windows are refused."""
    content = rng.randbytes(100)
    kind = rng.choice([data_range.DataRange, cpio.CPIOArchiveFileEntry])
    offset, size = rng.choice([(-rng.randint(1, 200), 10), (5, -rng.randint(1, 200)), (-3, -3)])
    real = kind(io.BytesIO(content), data_offset=offset, data_size=size)
    for size_argument in (None, 1, 10):
        try:
            data = real.read(size_argument)
        except OSError:
            ctx.count("refused_windows")
            continue
        raise Violation(
            f"window at {offset} of size {size} was read: {data[:16].hex()}", "invalid-window"
        )
    if size < 0:
        try:
            real.seek(0)
        except OSError:
            pass
        else:
            raise Violation(f"seek in a window of size {size}", "invalid-window")
    mon.check_equal(real.tell(), 0, "position", "tell")
    ctx.seen((offset, size))


class VirtualFile(io.RawIOBase):
    """A huge file of which every byte follows from its offset."""

    def __init__(self, size):
        super().__init__()
        self.size = size
        self.position = 0

    @staticmethod
    def content(offset, size):
        first = offset // 8
        data = b"".join(
            (number * 0x9E3779B97F4A7C15 & (1 << 64) - 1).to_bytes(8, "little")
            for number in range(first, (offset + size) // 8 + 1)
        )
        return data[offset - first * 8 :][:size]

    def read(self, size=-1):
        left = max(self.size - self.position, 0)
        size = left if size is None or size < 0 else min(size, left)
        data = self.content(self.position, size)
        self.position += size
        return data

    def seek(self, offset, whence=os.SEEK_SET):
        self.position = offset + {0: 0, 1: self.position, 2: self.size}[whence]
        return self.position

    def tell(self):
        return self.position


def large(rng, ctx):
    """Windows and reads larger than a buffer, and offsets of more than 32 bits."""
    if rng.random() < 0.5:
        parent_size = rng.choice([1 << 31, 1 << 32, 1 << 33, 1 << 41]) + rng.randrange(1 << 20)
        edges = [1 << 16, 1 << 31, 1 << 32, parent_size]
        offset = max(0, rng.choice(edges) - rng.choice([0, 3, 5000, 70000]))
        size = rng.choice([parent_size, parent_size - offset, 5, 100000, (1 << 32) + 9])
        most = 200000
    else:
        parent_size = rng.randint(1, 9 << 20)
        offset = rng.randrange(parent_size)
        size = rng.choice([parent_size, rng.randint(1, parent_size)])
        most = 3 << 20
    parent = VirtualFile(parent_size)
    kind = rng.choice([data_range.DataRange, cpio.CPIOArchiveFileEntry])
    real = kind(parent, data_offset=offset, data_size=size)
    # What the parent has of the window.
    stored = max(0, min(size, parent_size - offset))
    position = 0
    log = []
    for _ in range(6):
        if rng.random() < 0.8:
            target = rng.choice([0, stored, size, size // 2, 1 << 31, 1 << 32, 65536])
            target = max(0, target + rng.choice([0, 0, -1, 7, -rng.randrange(1 << 17)]))
            whence = rng.randrange(3)
            real.seek(target - (0, position, size)[whence], whence)
            position = target
        wanted = rng.choice([1, 65535, 65536, 65537, 100000, 1 << 20, most])
        wanted = min(wanted, most)
        if size - position > most:
            argument = wanted
        else:
            argument = rng.choice([wanted, None, -1, size + 1])
        log.append((position, argument))
        length = size if argument is None or argument < 0 else argument
        length = max(0, min(length, stored - position, size - position))
        data = real.read(argument) if argument is not None else real.read()
        expected = VirtualFile.content(offset + position, length)
        if data != expected:
            raise Violation(
                f"read({argument}) at {position} of a window at {offset} of size {size} "
                f"returned {len(data)} bytes {data[:16].hex()}, expected {length} bytes "
                f"{expected[:16].hex()}",
                "read-large",
                {"history": log},
            )
        position += length
        if position < size and length < wanted:
            position = real.tell()
        mon.check_equal(real.tell(), position, "position", "tell")
        ctx.count("bytes_of_large_windows", length)
        if offset + position > 1 << 32 and length:
            ctx.count("reads_past_4gib")
        if length > 65536:
            ctx.count("large_reads")
    ctx.seen((parent_size, offset, size, log), True)


FAMILIES = {
    "history": (history, 6000, 200000),
    "sequential": (sequential, 1500, 20000),
    "invalid": (invalid, 300, 3000),
    "large": (large, 60, 1500),
}
