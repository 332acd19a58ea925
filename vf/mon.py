"""Monitors: recording output writer, tracing file object, text oracle."""

import difflib
import io
import os
import re

from vf.core import Violation

PRINTABLE = [chr(b) if 0x20 <= b <= 0x7E else "." for b in range(256)]


def hexdump(data):
    """Reference hex dump (list of lines) of the debug output.

    16 bytes per line: offset, two groups of 8 bytes, printable ASCII. A run of
    lines equal to the one before it is shown as a single "...", the last line
    of the data is always shown.
    """
    lines = []
    previous = None
    elided = False
    count = (len(data) + 15) // 16
    for number in range(count):
        block = bytes(data[number * 16 : number * 16 + 16])
        if block == previous and number != count - 1:
            if not elided:
                lines.append("...")
                elided = True
            continue
        left = " ".join("%02x" % b for b in block[:8])
        right = " ".join("%02x" % b for b in block[8:])
        column = (left.ljust(23) + "  " + right).ljust(48)
        lines.append(
            "0x%08x  %s  %s" % (number * 16, column, "".join(PRINTABLE[b] for b in block))
        )
        previous = block
        elided = False
    return lines


class Writer:
    """Output writer that records what is written."""

    def __init__(self, limit=None):
        self.texts = []
        self.size = 0
        self.limit = limit
        self.events = 0

    def Open(self):
        return

    def Close(self):
        return

    def WriteText(self, text):
        if not isinstance(text, str):
            raise Violation(f"output is not text: {type(text)}", "output-not-text")
        self.events += 1
        self.texts.append(text)
        self.size += len(text)

    def WriteValue(self, description, value):
        self.WriteText(f"{description}\t: {value}\n")

    def text(self):
        return "".join(self.texts)


class NullWriter(Writer):
    """Output writer that only counts."""

    def WriteText(self, text):
        self.events += 1
        self.size += len(text)


_TABS = re.compile(r"[ ]*\t*: ")


def norm_lines(text):
    """Normalizes debug output: alignment and blank lines do not count."""
    result = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        if not HEXLINE.match(line):
            line = re.sub(r"^([^\t]*)\t+: ?", r"\1: ", line).rstrip(" \t")
        else:
            line = line.rstrip()
        result.append(line)
    return result


READING = re.compile(r"^Reading (.*) at offset: (-?\d+) \(0x([0-9a-f]+)\)$")
HEXLINE = re.compile(r"^0x([0-9a-f]{8,})  ")


def parse_dump(lines):
    """Inverts a hex dump; returns bytes, or None if it is not well-formed."""
    data = bytearray()
    gap = False
    previous = None
    for line in lines:
        if line == "...":
            gap = True
            continue
        match = HEXLINE.match(line)
        if not match:
            return None
        offset = int(match.group(1), 16)
        if gap:
            if previous is None or (offset - len(data)) % 16:
                return None
            while len(data) < offset:
                data.extend(previous)
            gap = False
        if offset != len(data):
            return None
        column = line[match.end() : match.end() + 48]
        block = bytes.fromhex("".join(column.split()))
        data.extend(block)
        previous = block
    return None if gap else bytes(data)


def split_reads(lines, keep=False):
    """Splits off the read announcements and the raw data that follows them.

    If keep, announcements without data remain among the lines.
    Returns (remaining lines, [(description, offset, data or None)]).
    """
    rest, reads = [], []
    index = 0
    while index < len(lines):
        line = lines[index]
        match = READING.match(line)
        if not match:
            rest.append(line)
            index += 1
            continue
        description, offset, hexadecimal = match.groups()
        offset = int(offset)
        if int(hexadecimal, 16) != offset:
            raise Violation(
                f"announced offsets disagree: {line}", "announced-offset-mismatch"
            )
        index += 1
        data = None
        title = f"{description[:1].upper()}{description[1:]} data:"
        if index < len(lines) and lines[index] == title:
            index += 1
            dump = []
            while index < len(lines) and (
                lines[index] == "..." or HEXLINE.match(lines[index])
            ):
                if dump and lines[index].startswith("0x00000000  "):
                    break
                dump.append(lines[index])
                index += 1
            data = parse_dump(dump)
            if data is None and dump:
                raise Violation(
                    f"malformed dump after: {line}\n" + "\n".join(dump[:6]),
                    "malformed-dump",
                )
            if data is None:
                data = b""
        if keep and data is None:
            rest.append(line)
            continue
        reads.append((description, offset, data))
    return rest, reads


def check_reads(reads, content, ctx=None):
    """What a read announcement shows is what lies at that offset."""
    for description, offset, data in reads:
        if ctx:
            ctx.count("reads_announced")
        if data is None:
            continue
        if ctx:
            ctx.count("reads_compared")
        if content is not None and content[offset : offset + len(data)] != data:
            raise Violation(
                f"data shown for {description!r} at offset {offset} is not the data "
                "of the file at that offset",
                "announced-data-mismatch",
                {
                    "shown": data[:64].hex(),
                    "file": content[offset : offset + len(data)][:64].hex(),
                },
            )


def compare(actual, expected, what, mechanism=None, ctx=None):
    """Compares two lists of normalized lines."""
    if actual != expected:
        diff = list(
            difflib.unified_diff(expected, actual, "expected", "actual", lineterm="", n=2)
        )
        raise Violation(
            f"{what}: output differs\n" + "\n".join(diff[:40]),
            mechanism or f"{what}-output",
        )
    if ctx:
        ctx.count("output_lines_compared", len(expected))


def check_equal(actual, expected, what, mechanism=None):
    if actual != expected or (
        isinstance(expected, (bool, float)) and type(actual) is not type(expected)
    ):
        raise Violation(
            f"{what}: got {actual!r:.300}, expected {expected!r:.300}",
            mechanism or what,
        )


class TracingFile(io.RawIOBase):
    """Read-only file-like object recording every access."""

    def __init__(self, data, max_events=None):
        super().__init__()
        self._data = bytes(data)
        self._position = 0
        self.log = []
        self.bytes_read = 0
        self.closed_by_code = False
        self.max_events = max_events

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return False

    def _event(self, event):
        self.log.append(event)
        if self.max_events is not None and len(self.log) > self.max_events:
            raise Violation(
                f"more than {self.max_events} file operations on an input of "
                f"{len(self._data)} bytes",
                "unbounded-reads",
            )

    def read(self, size=-1):
        if size is None or size < 0:
            size = max(0, len(self._data) - self._position)
        data = self._data[self._position : self._position + size]
        self._event(("read", self._position, size, len(data)))
        self._position += len(data)
        self.bytes_read += len(data)
        return data

    def seek(self, offset, whence=os.SEEK_SET):
        if whence == os.SEEK_CUR:
            offset += self._position
        elif whence == os.SEEK_END:
            offset += len(self._data)
        if offset < 0:
            raise OSError(22, "Invalid argument")
        self._position = offset
        self._event(("seek", offset, whence))
        return offset

    def tell(self):
        return self._position

    def get_offset(self):
        return self._position

    def get_size(self):
        return len(self._data)

    def close(self):
        self.closed_by_code = True
        super().close()


def kv(label, value):
    """Expected line of a value."""
    return f"{label}: {value}".rstrip(" \t")


def dump(label, data):
    """Expected lines of a data dump."""
    return [f"{label}:"] + [line.rstrip() for line in hexdump(data)]


def text_lines(lines):
    """Normalizes expected lines the way norm_lines does.

    A value with embedded new lines becomes several lines.
    """
    return norm_lines("\n".join(lines))
