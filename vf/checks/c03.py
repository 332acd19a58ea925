"""C03: scalar values, dates, addresses and structures are rendered correctly."""

import contextlib
import io
import types
import uuid

from dtformats import data_format
from dtformats import output_writers

from vf import mon, ref, spec
from vf.core import Violation

PROPERTY = "C03"
RULE = (
    "a case renders random and boundary values (sign, width, epoch, leap days, century "
    "ends, sentinels) with every formatter, or a random structure with present, absent "
    "and multi-line fields; non-trivial: every case"
)
REQUIRED = ["times", "integers", "addresses", "streams", "structures", "lines"]


def _formatter():
    writer = mon.Writer()
    return data_format.BinaryDataFormat(debug=True, output_writer=writer), writer


def _text(result):
    """A formatter returns the text, or the text and a layout flag."""
    if isinstance(result, tuple):
        result = result[0]
    return result


def _printed(writer, description):
    text = writer.text()
    writer.texts.clear()
    head, separator, value = text.partition(": ")
    if not separator or head.rstrip("\t") != description or not value.endswith("\n"):
        raise Violation(f"value line is {text!r}", "value-line")
    return value[:-1]


def _seconds(rng):
    """An interesting number of seconds since 1970."""
    mode = rng.randrange(5)
    if mode == 0:
        return rng.randint(-(1 << 31), (1 << 32) - 1)
    if mode == 1:
        # Around the end of February, of years and of centuries.
        year = rng.choice([1600, 1601, 1700, 1899, 1900, 1904, 1970, 1999, 2000, 2001, 2004, 2024, 2038, 2100, 2400, rng.randint(1, 9998)])
        days = (year - 1970) * 365 + (year - 1969) // 4 - (year - 1901) // 100 + (year - 1601) // 400
        return (days + rng.choice([-1, 0, 1, 31, 58, 59, 60, 364, 365, 366])) * 86400 + rng.choice([0, -1, 1, 86399, rng.randrange(86400)])
    if mode == 2:
        return rng.randint(ref.MINIMUM_SECOND, ref.MAXIMUM_SECOND)
    if mode == 3:
        return rng.choice([0, 1, -1, ref.MINIMUM_SECOND, ref.MAXIMUM_SECOND, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])
    return rng.randint(0, 2_000_000_000)


def times(rng, ctx):
    fmt, writer = _formatter()
    for _ in range(12):
        second = _seconds(rng)
        # POSIX
        value = second if rng.random() < 0.9 else spec.random_int(rng, 8, True)
        kind = ref.check_time(_text(fmt._FormatIntegerAsPosixTime(value)), value, ref.posix_time, 1)
        ctx.count(f"posix_{kind}")
        fmt._DebugPrintPosixTimeValue("Time", value)
        ref.check_time(_printed(writer, "Time"), value, ref.posix_time, 1)
        # POSIX with fraction
        value = second * 10**6 + rng.choice([0, 1, 999999, rng.randrange(10**6)])
        if rng.random() < 0.1:
            value = spec.random_int(rng, 8, rng.random() < 0.5)
        ref.check_time(_text(fmt._FormatIntegerAsPosixTimeInMicroseconds(value)), value, ref.posix_micro, 10**6)
        value = second * 10**9 + rng.choice([0, 1, 10**9 - 1, rng.randrange(10**9)])
        if rng.random() < 0.1:
            value = spec.random_int(rng, 8, rng.random() < 0.5)
        ref.check_time(_text(fmt._FormatIntegerAsPosixTimeInNanoseconds(value)), value, ref.posix_nano, 10**9)
        # FILETIME
        value = (second + 11644473600) * 10**7 + rng.choice([0, 1, 10**7 - 1, rng.randrange(10**7)])
        if value < 0 or rng.random() < 0.15:
            value = rng.choice([0, 1, (1 << 63) - 1, (1 << 63) - 2, 1 << 63, (1 << 64) - 1, spec.random_int(rng, 8, False)])
        ref.check_time(_text(fmt._FormatIntegerAsFiletime(value)), value, ref.filetime, 10**7, -11644473600)
        fmt._DebugPrintFiletimeValue("Time", value)
        ref.check_time(_printed(writer, "Time"), value, ref.filetime, 10**7, -11644473600)
        # HFS
        value = second + 2082844800
        if rng.random() < 0.2:
            value = spec.random_int(rng, 4, False)
        text = _text(fmt._FormatIntegerAsHFSTime(value))
        if 0 <= value < 1 << 32:
            mon.check_equal(text, ref.hfs_time(value), f"HFS time {value}", "time-hfs")
        elif not ref.is_hexadecimal(text, value):
            raise Violation(f"HFS time {value} is rendered as {text!r}", "time-hfs")
        ctx.count("times", 5)
        ctx.seen((second, value))
    ctx.sample({"second": second, "posix": ref.posix_time(second)})


def integers(rng, ctx):
    fmt, writer = _formatter()
    for _ in range(20):
        size = rng.choice([1, 2, 4, 8])
        value = spec.random_int(rng, size, rng.random() < 0.3)
        mon.check_equal(_text(fmt._FormatIntegerAsDecimal(value)), str(value), "decimal")
        fmt._DebugPrintDecimalValue("Value", value)
        mon.check_equal(_printed(writer, "Value"), str(value), "decimal")
        unsigned = abs(value)
        for width, function in (
            (2, fmt._FormatIntegerAsHexadecimal2),
            (4, fmt._FormatIntegerAsHexadecimal4),
            (8, fmt._FormatIntegerAsHexadecimal8),
        ):
            mon.check_equal(
                _text(function(unsigned)),
                "0x" + format(unsigned, "x").rjust(width, "0"),
                f"hexadecimal {width}",
            )
        mon.check_equal(_text(fmt._FormatIntegerAsOffset(unsigned)), ref.offset(unsigned), "offset")
        ctx.count("integers", 5)
        ctx.seen(value)
        array = [spec.random_int(rng, 4, False) for _ in range(rng.randint(0, 5))]
        mon.check_equal(
            _text(fmt._FormatArrayOfIntegersAsDecimals(array)),
            ", ".join(str(i) for i in array),
            "array of decimals",
        )
        mon.check_equal(
            _text(fmt._FormatArrayOfIntegersAsOffsets(array)),
            ", ".join(ref.offset(i) for i in array),
            "array of offsets",
        )
        floating_point = spec.random_float(rng, 8)
        mon.check_equal(_text(fmt._FormatFloatingPoint(floating_point)), "%f" % floating_point, "float")
        value = uuid.UUID(int=rng.getrandbits(128))
        mon.check_equal(_text(fmt._FormatUUIDAsString(value)), str(value), "uuid")


def addresses(rng, ctx):
    fmt, _ = _formatter()
    for _ in range(20):
        octets = [spec.random_int(rng, 1, False) for _ in range(16)]
        mon.check_equal(_text(fmt._FormatArrayOfIntegersAsIPv4Address(octets[:4])), ref.ipv4(octets[:4]), "ipv4")
        mon.check_equal(_text(fmt._FormatArrayOfIntegersAsIPv6Address(octets)), ref.ipv6(octets), "ipv6")
        number = rng.choice([0, 1, 3, 5, 8, 15, 17])
        octets = [1] * number
        mon.check_equal(_text(fmt._FormatArrayOfIntegersAsIPv4Address(octets)), None, "ipv4 of another size")
        mon.check_equal(_text(fmt._FormatArrayOfIntegersAsIPv6Address(octets)), None, "ipv6 of another size")
        ctx.count("addresses", 2)
        ctx.seen(octets)


def streams(rng, ctx):
    fmt, _ = _formatter()
    data = rng.randbytes(rng.randint(0, 40))
    if ctx.index < 256:
        data = bytes([ctx.index]) + data
    text = _text(fmt._FormatStreamAsString(data))
    if text != ref.stream(data):
        bad = [
            "0x%02x" % b for b in sorted(set(data))
            if _text(fmt._FormatStreamAsString(bytes([b]))) != ref.stream(bytes([b]))
        ]
        raise Violation(
            f"stream {data.hex()} is rendered as {text!r}, expected {ref.stream(data)!r}",
            f"stream-{'-'.join(bad[:4])}",
        )
    string = spec.random_text(rng) + "\x00" * rng.randint(0, 4)
    mon.check_equal(_text(fmt._FormatString(string)), string.rstrip("\x00"), "string")
    inner = "a\x00b" + "\x00" * rng.randint(0, 2)
    mon.check_equal(_text(fmt._FormatString(inner)), "a\x00b", "string")
    ctx.count("streams")
    ctx.seen(data)


class Shape(data_format.BinaryDataFormat):
    """Format with callbacks of every layout."""

    def _FormatLines(self, value):
        return value, True

    def _FormatInline(self, value):
        return value, False

    def _FormatPlain(self, value):
        return value


def structures(rng, ctx):
    writer = mon.Writer()
    fmt = Shape(debug=True, output_writer=writer)
    debug_info, expected, values = [], [], {}
    last = ""
    for number in range(rng.randint(0, 8)):
        name = f"member{number}"
        description = spec.random_text(rng, 1, 71, 1)
        mode = rng.randrange(9)
        text = None
        if mode == 0:
            debug_info.append((name, description, "_FormatIntegerAsDecimal"))
            if rng.random() < 0.5:
                values[name] = None
            continue
        if mode == 1:
            values[name] = spec.random_int(rng, 8, True)
            debug_info.append((name, description, "_FormatIntegerAsDecimal"))
            text = ref.value_line(description, values[name])
        elif mode == 2:
            values[name] = spec.random_int(rng, 4, False)
            debug_info.append((name, description, "_FormatIntegerAsHexadecimal8"))
            text = ref.value_line(description, "0x%08x" % values[name])
        elif mode == 3:
            values[name] = rng.choice([0, "", False, spec.random_text(rng)])
            debug_info.append((name, description, None))
            text = ref.value_line(description, values[name])
        elif mode == 4:
            values[name] = rng.randbytes(rng.randint(0, 40))
            debug_info.append((name, description, "_FormatDataInHexadecimal"))
            text = f"{description}:\n" + "\n".join(mon.hexdump(values[name]) + ["", ""])
        elif mode == 5:
            values[name] = "first\nsecond\n"
            debug_info.append((name, description, rng.choice(["_FormatLines", "_FormatPlain"])))
            text = f"{description}:\nfirst\nsecond\n"
        elif mode == 6:
            values[name] = "first\nsecond\n"
            debug_info.append((name, description, "_FormatInline"))
            text = ref.value_line(description, "first\nsecond")
        elif mode == 7:
            values[name] = spec.random_int(rng, 2, False)
            debug_info.append((name, description, "_FormatNoSuchThing"))
            text = ref.value_line(description, values[name])
        else:
            values[name] = spec.random_text(rng, 0, 9)
            debug_info.append((name, description, rng.choice(["_FormatInline", "_FormatString"])))
            text = ref.value_line(description, values[name])
        expected.append(text)
        last = text
    if last[-2:] != "\n\n":
        expected.append("\n")
    fmt._DebugPrintStructureObject(types.SimpleNamespace(**values), debug_info)
    actual, wanted = writer.text(), "".join(expected)
    # The padding inside of a dump line is checked by C02.
    strip = lambda text: [line.rstrip(" ") for line in text.split("\n")]
    if strip(actual) != strip(wanted):
        raise Violation(f"structure is rendered as {actual!r}, expected {wanted!r}", "structure")
    ctx.count("structures")
    ctx.seen((debug_info, sorted(values)))


def lines(rng, ctx):
    """Values start in the same column, in debug output and on stdout."""
    writer = mon.Writer()
    fmt = data_format.BinaryDataFormat(debug=True, output_writer=writer)
    description = spec.random_text(rng, 1, 90, 1)
    value = spec.random_text(rng)
    fmt._DebugPrintValue(description, value)
    text = writer.text()
    if text != ref.value_line(description, value):
        raise Violation(f"value line {text!r}", "value-line")
    if len(description) < 72 and text.expandtabs(8).index(": ", len(description)) != 72:
        raise Violation(f"value column of {text!r}", "value-column")
    writer.texts.clear()
    fmt._DebugPrintText(value)
    mon.check_equal(writer.text(), value, "text")

    stdout_writer = output_writers.StdoutWriter()
    prefix = "\t" * rng.choice([0, 0, 1, 2])
    tabbed = prefix + description
    stream = io.StringIO()
    with contextlib.redirect_stdout(stream):
        stdout_writer.Open()
        stdout_writer.WriteText(value)
        stdout_writer.WriteText("\n")
        stdout_writer.WriteValue(tabbed, value)
        stdout_writer.Close()
    tabs = "\t" * (9 - (len(description) + 8 * len(prefix)) // 8)
    mon.check_equal(stream.getvalue(), f"{value}\n{tabbed}{tabs}: {value}\n", "stdout", "stdout-writer")
    # Without a writer there is no output and no error.
    quiet = data_format.BinaryDataFormat(debug=True)
    quiet._DebugPrintValue(description, value)
    quiet._DebugPrintText(value)
    ctx.count("lines")
    ctx.seen((description, value))


FAMILIES = {
    "times": (times, 1600, 60000),
    "integers": (integers, 600, 20000),
    "addresses": (addresses, 200, 5000),
    "streams": (streams, 1000, 20000),
    "structures": (structures, 2500, 60000),
    "lines": (lines, 1500, 20000),
}
