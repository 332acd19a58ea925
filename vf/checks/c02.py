"""C02: hexadecimal dumps reproduce the dumped bytes exactly."""

from dtformats import data_format

from vf import mon, spec
from vf.core import Violation

PROPERTY = "C02"
RULE = (
    "a case is a byte string: random, all byte values, runs of equal 16-byte lines "
    "(interrupted, at the end, with a partial last line), or a string with a repeated "
    "prefix; non-trivial: longer than one line"
)
REQUIRED = ["dumps", "elided_runs", "partial_last_lines", "equal_last_lines",
    "large_dumps"]


def data_for(rng):
    mode = rng.randrange(6)
    if mode == 0:
        return rng.randbytes(rng.randint(0, 100))
    if mode == 1:
        data = bytearray()
        for _ in range(rng.randint(1, 6)):
            line = rng.choice([bytes(16), b"\xff" * 16, rng.randbytes(16)])
            data += line * rng.choice([1, 1, 2, 3, 4, 9])
        return bytes(data[: len(data) - rng.choice([0, 0, 1, 5, 8, 15])])
    if mode == 2:
        return bytes(rng.randrange(256) for _ in range(rng.choice([15, 16, 17, 31, 32, 33])))
    if mode == 3:
        start = rng.randrange(256)
        return bytes((start + i) % 256 for i in range(rng.randint(1, 300)))
    if mode == 4:
        return spec.random_bytes(rng, rng.randint(0, 700))
    # Equal lines except for one byte.
    line = bytearray(rng.randbytes(16))
    data = bytearray(line * rng.randint(2, 8))
    data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    data += bytes(line[: rng.randrange(16)])
    return bytes(data)


def dump(rng, ctx):
    data = data_for(rng)
    ctx.keep_input("data", data)
    writer = mon.Writer()
    format_object = data_format.BinaryDataFormat(output_writer=writer)
    description = spec.random_text(rng, 1, 30, 1)
    format_object._DebugPrintData(description, data)
    text = writer.text()
    expected = mon.hexdump(data)
    lines = text.split("\n")
    if lines[0] != f"{description}:":
        raise Violation(f"dump heading is {lines[0]!r}", "heading")
    body = lines[1:]
    while body and not body[-1]:
        body.pop()
    if [line.rstrip() for line in body] != [line.rstrip() for line in expected]:
        raise Violation(
            "dump differs\nexpected:\n"
            + "\n".join(expected[:12])
            + "\nactual:\n"
            + "\n".join(body[:12]),
            "dump",
        )
    # The trace property itself, without the reference layout: the dump can be
    inverted = mon.parse_dump(body)
    if inverted != data:
        raise Violation("the dump does not invert to the data", "inversion")
    for line in body:
        if line != "...":
            start = int(line[:10], 16)
            block = data[start : start + 16]
            if line[62:] != "".join(mon.PRINTABLE[b] for b in block):
                raise Violation(f"text column of {line!r}", "text-column")
    # A dump is also followed by a blank line so that dumps do not run together.
    if not text.endswith("\n\n"):
        raise Violation("dump is not terminated by a blank line", "terminator")
    result = format_object._FormatDataInHexadecimal(data)
    mon.check_equal(result[0], text[len(lines[0]) + 1 :], "formatted data", "formatted")
    mon.check_equal(bool(result[1]), True, "new line flag", "formatted")
    ctx.count("dumps")
    if "..." in body:
        ctx.count("elided_runs", body.count("..."))
        if data[-16:] == data[-32:-16]:
            ctx.count("equal_last_lines")
    if len(data) % 16:
        ctx.count("partial_last_lines")
    ctx.seen(data, len(data) > 16)
    ctx.sample(data[:40].hex())


def silent(rng, ctx):
    """Without an output writer nothing happens."""
    data = data_for(rng)
    data_format.BinaryDataFormat()._DebugPrintData("Data", data)
    ctx.count("without_writer")


def large(rng, ctx):
    """Dumps of more lines than 4 hexadecimal digits of offset."""
    data = rng.randbytes(rng.randint(60000, 200000))
    run = rng.choice([bytes(16), rng.randbytes(16)]) * rng.choice([1, 2, 300, 5000, 70000])
    where = rng.randrange(len(data)) & rng.choice([~15, ~0])
    data = data[:where] + run + data[where:]
    data = data[: len(data) - rng.choice([0, 1, 15])]
    writer = mon.Writer()
    data_format.BinaryDataFormat(output_writer=writer)._DebugPrintData("Data", data)
    lines = writer.text().split("\n")
    mon.check_equal(lines[0], "Data:", "heading")
    body = lines[1:]
    while body and not body[-1]:
        body.pop()
    expected = mon.hexdump(data)
    for number, (line, other) in enumerate(zip(body, expected)):
        if line.rstrip() != other.rstrip():
            raise Violation(
                f"line {number} of the dump of {len(data)} bytes is {line!r} instead of "
                f"{other!r}",
                "dump",
            )
    mon.check_equal(len(body), len(expected), "number of lines", "dump")
    ctx.count("large_dumps")
    ctx.count("large_dump_lines", len(body))
    ctx.seen((len(data), len(run), where), True)


FAMILIES = {"dump": (dump, 12000, 400000), "silent": (silent, 50, 500),
    "large": (large, 16, 300)}
