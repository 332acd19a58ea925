"""C04: structures are read from exactly the requested bytes or refused."""

import io
import os
import struct

from dtfabric.runtime import fabric as dtfabric_fabric

from dtformats import data_format, errors

from vf import mon, spec
from vf.core import Violation

PROPERTY = "C04"
RULE = (
    "a case is a file with encoded structures (fixed size, counted, terminated, "
    "conditional, nested, both byte orders) at random offsets between filler, read "
    "through the real reader over a tracing file object, intact, truncated at every "
    "kind of position, with corrupt content, or with a fault (OSError or short read) "
    "injected at a chosen operation; non-trivial: a structure of more than one member"
)
REQUIRED = [
    "structures_read",
    "data_reads",
    "truncations_refused",
    "faults_refused",
    "bad_content_refused",
    "byte_stream_maps",
    "reads_compared",
    "large_structures",
    "large_reads",
    "reads_past_4gib",
]

_DEFINITION = b"""
name: uint8
type: integer
attributes: {size: 1, format: unsigned, units: bytes}
---
name: int16
type: integer
attributes: {size: 2, format: signed, units: bytes}
---
name: uint16
type: integer
attributes: {size: 2, format: unsigned, units: bytes}
---
name: uint32
type: integer
attributes: {size: 4, format: unsigned, units: bytes}
---
name: uint64
type: integer
attributes: {size: 8, format: unsigned, units: bytes}
---
name: char
type: integer
attributes: {size: 1, format: signed, units: bytes}
---
name: wchar16
type: character
attributes: {size: 2, units: bytes}
---
name: byte
type: integer
attributes: {size: 1, format: unsigned, units: bytes}
---
name: fixed
type: structure
attributes: {byte_order: little-endian}
members:
- {name: a, data_type: uint8}
- {name: b, data_type: int16}
- {name: c, data_type: uint32}
- {name: d, data_type: uint64}
---
name: fixed_big
type: structure
attributes: {byte_order: big-endian}
members:
- {name: a, data_type: uint8}
- {name: b, data_type: int16}
- {name: c, data_type: uint32}
- {name: d, data_type: uint64}
---
name: signed
type: structure
attributes: {byte_order: big-endian}
members:
- name: signature
  type: stream
  element_data_type: byte
  elements_data_size: 4
  value: "SIGN"
- {name: number, data_type: uint16}
---
name: counted
type: structure
attributes: {byte_order: little-endian}
members:
- {name: number, data_type: uint8}
- {name: values, type: sequence, element_data_type: uint32, number_of_elements: counted.number}
- {name: size, data_type: uint16}
- {name: data, type: stream, element_data_type: byte, elements_data_size: counted.size}
- {name: last, data_type: uint32}
---
name: terminated
type: structure
attributes: {byte_order: little-endian}
members:
- {name: first, data_type: uint16}
- {name: name, type: string, encoding: utf8, element_data_type: char, elements_terminator: "\\x00"}
- {name: last, data_type: uint8}
---
name: wide_terminated
type: structure
attributes: {byte_order: little-endian}
members:
- {name: first, data_type: uint16}
- {name: wide, type: string, encoding: utf-16-le, element_data_type: wchar16, elements_terminator: "\\x00\\x00"}
- {name: last, data_type: uint8}
---
name: cstring
type: string
encoding: ascii
element_data_type: char
elements_terminator: "\\x00"
---
name: strings
type: structure
attributes: {byte_order: little-endian}
members:
- {name: number, data_type: uint8}
- {name: texts, type: sequence, element_data_type: cstring, number_of_elements: strings.number}
- {name: last, data_type: uint16}
---
name: conditional
type: structure
attributes: {byte_order: little-endian}
members:
- {name: flags, data_type: uint8}
- {name: x, condition: conditional.flags & 1 != 0, data_type: uint32}
- {name: y, condition: conditional.flags & 2 != 0, data_type: uint16}
- {name: z, data_type: uint8}
---
name: nested
type: structure
attributes: {byte_order: little-endian}
members:
- {name: number, data_type: uint16}
- {name: elements, type: sequence, element_data_type: fixed, number_of_elements: nested.number}
"""


class Format(data_format.BinaryDataFormat):
    _FABRIC = dtfabric_fabric.DataTypeFabric(yaml_definition=_DEFINITION)


class File(data_format.BinaryDataFile):
    _FABRIC = dtfabric_fabric.DataTypeFabric(yaml_definition=_DEFINITION)

    def ReadFileObject(self, file_object):
        return


def _fixed(rng):
    return {
        "a": spec.random_int(rng, 1, False),
        "b": spec.random_int(rng, 2, True),
        "c": spec.random_int(rng, 4, False),
        "d": spec.random_int(rng, 8, False),
    }


def make(rng, conditional=False):
    """A structure: (type name, expected attributes, encoded bytes)."""
    names = "fixed fixed_big signed counted terminated wide_terminated nested".split()
    names += ["conditional", "strings"]
    name = "conditional" if conditional else rng.choice(names)
    if name in ("fixed", "fixed_big"):
        v = _fixed(rng)
        order = "<" if name == "fixed" else ">"
        return name, v, struct.pack(order + "BhIQ", v["a"], v["b"], v["c"], v["d"])
    if name == "signed":
        v = {"signature": b"SIGN", "number": rng.getrandbits(16)}
        return name, v, struct.pack(">4sH", b"SIGN", v["number"])
    if name == "counted":
        number = rng.choice([0, 1, 2, rng.randint(0, 60), 255])
        data = rng.randbytes(rng.choice([0, 1, rng.randint(0, 40), 600]))
        data = rng.randbytes(spec.many(rng, [len(data)], 65535))
        values = tuple(rng.getrandbits(32) for _ in range(number))
        v = {
            "number": number,
            "values": values,
            "size": len(data),
            "data": data,
            "last": rng.getrandbits(32),
        }
        raw = struct.pack("<B%dIH" % number, number, *values, len(data))
        return name, v, raw + data + struct.pack("<I", v["last"])
    if name == "terminated":
        v = {
            "first": rng.getrandbits(16),
            "name": spec.random_text(rng, 0, spec.extent(rng, 40, 5000, 0.7)),
            "last": rng.getrandbits(8),
        }
        raw = struct.pack("<H", v["first"]) + v["name"].encode("utf8") + b"\0"
        return name, v, raw + bytes([v["last"]])
    if name == "wide_terminated":
        v = {
            "first": rng.getrandbits(16),
            "wide": spec.random_text(rng, 0, spec.extent(rng, 40, 5000, 0.7)),
            "last": rng.getrandbits(8),
        }
        raw = struct.pack("<H", v["first"])
        raw += v["wide"].encode("utf-16-le") + b"\0\0" + bytes([v["last"]])
        return name, v, raw
    if name == "strings":
        number = spec.many(rng, range(1, 7), 255)
        texts = tuple(spec.random_text(rng, 0, 20, 1) for _ in range(number))
        v = {"number": len(texts), "texts": texts, "last": rng.getrandbits(16)}
        raw = bytes([len(texts)]) + b"".join(t.encode("ascii") + b"\0" for t in texts)
        return name, v, raw + struct.pack("<H", v["last"])
    if name == "conditional":
        flags = rng.getrandbits(8)
        v = {"flags": flags, "z": rng.getrandbits(8)}
        raw = bytes([flags])
        if flags & 1:
            v["x"] = rng.getrandbits(32)
            raw += struct.pack("<I", v["x"])
        if flags & 2:
            v["y"] = rng.getrandbits(16)
            raw += struct.pack("<H", v["y"])
        return name, v, raw + bytes([v["z"]])
    number = spec.many(rng, [0, 1, 3, 20], 1500)
    elements = [_fixed(rng) for _ in range(number)]
    raw = struct.pack("<H", number) + b"".join(
        struct.pack("<BhIQ", e["a"], e["b"], e["c"], e["d"]) for e in elements
    )
    return name, {"number": number, "elements": elements}, raw


def check_value(value, expected, path):
    for key, item in expected.items():
        actual = getattr(value, key, None)
        if isinstance(item, list):
            mon.check_equal(len(actual), len(item), f"{path}.{key} count", "value")
            for number, element in enumerate(item):
                check_value(actual[number], element, f"{path}.{key}[{number}]")
        else:
            if isinstance(item, tuple):
                actual = tuple(actual)
            mon.check_equal(actual, item, f"{path}.{key}", "value")
    for key in ("x", "y"):
        if path == "conditional" and key not in expected:
            mon.check_equal(getattr(value, key, None), None, f"{path}.{key}", "absent")


class FaultFile(mon.TracingFile):
    """Raises OSError or returns too little at the n-th read, or fails to seek."""

    def __init__(self, data, kind, nth):
        super().__init__(data)
        self.kind, self.nth, self.fired = kind, nth, False
        self.reads = 0
        self.seeks = 0

    def read(self, size=-1):
        self.reads += 1
        if self.reads == self.nth and self.kind in ("error", "short"):
            self.fired = True
            if self.kind == "error":
                raise OSError(5, "Input/output error")
            return super().read(max(0, size - 1))
        return super().read(size)

    def seek(self, offset, whence=os.SEEK_SET):
        self.seeks += 1
        if self.seeks == self.nth and self.kind == "seek":
            self.fired = True
            raise OSError(29, "Illegal seek")
        return super().seek(offset, whence)


def layout(rng, count):
    content = bytearray()
    items = []
    for _ in range(count):
        content += rng.randbytes(rng.choice([0, 1, 7, rng.randint(0, 64)]))
        name, values, raw = make(rng)
        items.append((len(content), name, values, raw))
        content += raw
    return content, items


def read(rng, ctx):
    content, items = layout(rng, rng.randint(1, 5))
    content += rng.randbytes(rng.choice([0, 0, 1, 40]))
    content = bytes(content)
    ctx.keep_input("content", content)
    debug = rng.random() < 0.3
    writer = mon.Writer()
    reader = rng.choice([Format, File])(debug=debug, output_writer=writer)
    file_object = rng.choice([mon.TracingFile, io.BytesIO])(content)
    reads = []
    for _ in range(rng.randint(1, 8)):
        offset, name, values, raw = rng.choice(items)
        file_object.seek(rng.randrange(len(content) + 10))
        data_type_map = reader._GetDataTypeMap(name)
        choice = rng.random()
        if choice < 0.6:
            value, size = reader._ReadStructureFromFileObject(
                file_object, offset, data_type_map, f"the {name}"
            )
            check_value(value, values, name)
            mon.check_equal(size, len(raw), f"size of {name}", "reported-size")
            reads.append((f"the {name}", offset, raw))
            ctx.count("structures_read")
        elif choice < 0.8:
            start = rng.randrange(len(content) + 1)
            size = rng.randint(0, len(content) - start)
            data = reader._ReadData(file_object, start, size, "data")
            mon.check_equal(data, content[start : start + size], "data read", "data")
            ctx.count("data_reads")
        else:
            if rng.random() < 0.3:
                name, values, raw = make(rng, True)
                data_type_map = reader._GetDataTypeMap(name)
            value = reader._ReadStructureFromByteStream(
                raw + rng.randbytes(rng.choice([0, 3])), offset, data_type_map, name
            )
            check_value(value, values, name)
            ctx.count("byte_stream_maps")
        ctx.seen((name, raw, choice < 0.6), len(values) > 1)
    if debug:
        lines = mon.norm_lines(writer.text())
        rest, announced = mon.split_reads(lines)
        mon.check_equal(rest, [], "unexpected debug output", "debug")
        mon.check_equal(
            [(d, o, bytes(x or b"")) for d, o, x in announced],
            reads,
            "reads announced",
            "announced",
        )
        mon.check_reads(announced, content, ctx)
    else:
        mon.check_equal(writer.text(), "", "output without debug", "debug-off")
    ctx.sample({"types": [item[1] for item in items], "size": len(content)})


def refused(function, what, mechanism):
    try:
        result = function()
    except errors.ParseError:
        return
    except Exception as exception:  # pylint: disable=broad-except
        raise Violation(
            f"{what}: {type(exception).__name__} {exception} instead of ParseError",
            f"{mechanism}-{type(exception).__name__}",
        ) from exception
    raise Violation(f"{what}: accepted with {result!r:.200}", mechanism)


def truncated(rng, ctx):
    content, items = layout(rng, 1)
    offset, name, values, raw = items[0]
    cut = rng.choice([0, len(raw) - 1, rng.randrange(len(raw))])
    content = bytes(content[: offset + cut])
    if rng.random() < 0.1:
        offset += rng.randint(100, 1 << 40)
    ctx.keep_input("content", content)
    reader = Format()
    data_type_map = reader._GetDataTypeMap(name)
    for file_object in (mon.TracingFile(content), io.BytesIO(content)):
        refused(
            lambda f=file_object: reader._ReadStructureFromFileObject(
                f, offset, data_type_map, name
            ),
            f"{name} truncated to {cut} of {len(raw)} bytes",
            "truncated",
        )
        size = rng.randint(cut + 1, cut + 1000)
        refused(
            lambda f=file_object: reader._ReadData(f, offset, size, name),
            f"read of {size} bytes where {cut} are left",
            "truncated-data",
        )
    refused(
        lambda: reader._ReadStructureFromByteStream(
            raw[:cut], offset, data_type_map, name
        ),
        f"{name} mapped from {cut} of {len(raw)} bytes",
        "truncated-stream",
    )
    ctx.count("truncations_refused", 3)
    ctx.seen((name, raw, cut), len(values) > 1)


def fault(rng, ctx):
    content, items = layout(rng, 1)
    offset, name, values, raw = items[0]
    kind = rng.choice(["error", "short", "seek"])
    nth = rng.randint(1, 3)
    reader = Format()
    data_type_map = reader._GetDataTypeMap(name)
    # The file carries on after the structure, so a short read is not the end.
    content = bytes(content) + rng.randbytes(20)
    file_object = FaultFile(content, kind, nth)
    try:
        value, size = reader._ReadStructureFromFileObject(
            file_object, offset, data_type_map, name
        )
    except errors.ParseError:
        if not file_object.fired:
            raise Violation("refused without a fault", "refused-intact")
        ctx.count("faults_refused")
        # The reader and the file are usable again afterwards.
        value, size = reader._ReadStructureFromFileObject(
            file_object, offset, data_type_map, name
        )
    except OSError as exception:
        raise Violation(
            f"fault {kind} escapes as {exception!r}", f"fault-escapes-{kind}"
        ) from exception
    else:
        # All bytes of the structure can be there although fewer than asked for are.
        end = max(event[1] + event[3] for event in file_object.log if event[0] == "read")
        if file_object.fired and (kind != "short" or end < offset + len(raw)):
            raise Violation(
                f"{name}: fault {kind} at operation {nth} went unnoticed",
                f"fault-unnoticed-{kind}",
            )
    check_value(value, values, name)
    mon.check_equal(size, len(raw), f"size of {name}", "reported-size")
    ctx.seen((name, raw, kind, nth), len(values) > 1)


def content(rng, ctx):
    """Content that contradicts the definition."""
    reader = Format()
    if rng.random() < 0.5:
        raw = bytearray(struct.pack(">4sH", b"SIGN", rng.getrandbits(16)))
        raw[rng.randrange(4)] ^= 1 << rng.randrange(8)
        name = "signed"
    else:
        name = rng.choice(["terminated", "wide_terminated"])
        raw = struct.pack("<H", rng.getrandbits(16))
        if name == "terminated":
            raw += b"abc" + rng.choice([b"\xff", b"\xc3\x28", b"\xed\xa0\x80"]) + b"x\0"
        else:
            raw += rng.choice([b"\x00\xdc", b"\x00\xd8a\0"]) + b"\0\0"
        raw += b"\x01"
    raw = bytes(raw)
    filler = rng.randbytes(rng.randrange(20))
    data_type_map = reader._GetDataTypeMap(name)
    refused(
        lambda: reader._ReadStructureFromFileObject(
            io.BytesIO(filler + raw), len(filler), data_type_map, name
        ),
        f"{name} with content {raw.hex()}",
        "bad-content",
    )
    refused(
        lambda: reader._ReadStructureFromByteStream(raw, 0, data_type_map, name),
        f"{name} with content {raw.hex()}",
        "bad-content-stream",
    )
    ctx.count("bad_content_refused", 2)
    ctx.seen(raw)


def invalid(rng, ctx):
    """Offsets and sizes that are outside of any file."""
    data = rng.randbytes(50)
    reader = Format()
    path = ctx.path("native", data)
    with open(path, "rb") as native:
        for file_object in (io.BytesIO(data), native):
            for offset, size in (
                (-1, 4),
                (-rng.getrandbits(63) - 1, 4),
                (0, -1),
                (10, -rng.randint(2, 1 << 40)),
                (1 << 63, 4),
                (1 << 70, 4),
                (0, 1 << 70),
                (rng.randint(51, 1 << 50), 1),
            ):
                refused(
                    lambda f=file_object, o=offset, s=size: reader._ReadData(
                        f, o, s, "data"
                    ),
                    f"read of {size} bytes at {offset}",
                    "invalid-read",
                )
    ctx.count("invalid_reads_refused", 16)


class PlacedFile(io.RawIOBase):
    """A huge file of zero bytes with content at an offset."""

    def __init__(self, start, content, after):
        super().__init__()
        self.start, self.content, self.after = start, content, after
        self.position = 0

    def read(self, size=-1):
        end = self.start + len(self.content) + self.after
        size = end - self.position if size is None or size < 0 else size
        size = max(0, min(size, end - self.position))
        before = max(0, min(size, self.start - self.position))
        first = max(0, self.position - self.start)
        data = bytes(before) + self.content[first : first + size - before]
        self.position += size
        return data + bytes(size - len(data))

    def seek(self, offset, whence=os.SEEK_SET):
        if whence == os.SEEK_CUR:
            offset += self.position
        elif whence == os.SEEK_END:
            offset += self.start + len(self.content) + self.after
        self.position = offset
        return offset

    def tell(self):
        return self.position


def large(rng, ctx):
    """Structures and reads of kilobytes to megabytes, and at offsets past 4 GiB."""
    rng.large = True
    reader = rng.choice([Format, File])()
    offset = rng.choice([0, 65535, (1 << 31) - 9, (1 << 32) - 9, 1 << 32, 1 << 40])
    offset += rng.choice([0, 5, rng.randrange(1 << 16)])
    after = rng.choice([0, 1, 100])
    if rng.random() < 0.5:
        name, values, raw = make(rng)
        file_object = PlacedFile(offset, raw, after)
        data_type_map = reader._GetDataTypeMap(name)
        value, size = reader._ReadStructureFromFileObject(
            file_object, offset, data_type_map, name
        )
        check_value(value, values, name)
        mon.check_equal(size, len(raw), f"size of {name}", "reported-size")
        value = reader._ReadStructureFromByteStream(raw, offset, data_type_map, name)
        check_value(value, values, name)
        refused(
            lambda: reader._ReadStructureFromFileObject(
                PlacedFile(offset, raw[:-1], 0), offset, data_type_map, name
            ),
            f"{name} of {len(raw)} bytes without the last byte",
            "truncated",
        )
        refused(
            lambda: reader._ReadStructureFromByteStream(
                raw[:-1], offset, data_type_map, name
            ),
            f"{name} of {len(raw)} bytes without the last byte",
            "truncated-stream",
        )
        if len(raw) > 4096:
            ctx.count("large_structures")
    else:
        size = rng.choice([65535, 65537, 1 << 20, (1 << 20) + 1, 3 << 20, 9 << 20])
        raw = rng.randbytes(1 << 12) * (size // 4096 + 1)
        raw = raw[: size - 2] + rng.randbytes(2)
        file_object = PlacedFile(offset, raw, after)
        data = reader._ReadData(file_object, offset, size, "data")
        if data != raw:
            raise Violation(
                f"read of {size} bytes at {offset} returned {len(data)} bytes that "
                "are not those of the file",
                "data",
            )
        start = rng.randrange(size)
        data = reader._ReadData(file_object, offset + start, size - start, "data")
        if data != raw[start:]:
            raise Violation(
                f"read of {size - start} bytes at {offset + start} returned "
                f"{len(data)} bytes that are not those of the file",
                "data",
            )
        refused(
            lambda: reader._ReadData(file_object, offset, size + after + 1, "data"),
            f"read of {size + after + 1} bytes where {size + after} are left",
            "truncated-data",
        )
        name, values = "data", raw
        ctx.count("large_reads")
    if offset >= 1 << 32:
        ctx.count("reads_past_4gib")
    ctx.seen((name, offset, len(raw), raw[:64], raw[-8:]), len(values) > 1)


FAMILIES = {
    "read": (read, 8000, 150000),
    "truncated": (truncated, 6000, 100000),
    "fault": (fault, 6000, 100000),
    "content": (content, 2000, 20000),
    "invalid": (invalid, 50, 500),
    "large": (large, 150, 3000),
}
