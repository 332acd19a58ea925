"""Reference renderings of values, independent of the code under test."""

import re

from vf.core import Violation


def civil(days):
    """Gregorian calendar date of a number of days since 1970-01-01."""
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + 1 if m <= 2 else y), m, d


def date_time(seconds, fraction=None, digits=0):
    """Date and time string of a number of seconds since 1970-01-01."""
    days, rest = divmod(seconds, 86400)
    year, month, day = civil(days)
    hours, rest = divmod(rest, 3600)
    minutes, secs = divmod(rest, 60)
    text = "%04d-%02d-%02d %02d:%02d:%02d" % (year, month, day, hours, minutes, secs)
    if digits:
        text += ".%0*d" % (digits, fraction)
    return text


# First and last second that can be shown as a date with a four digit year.
MINIMUM_SECOND = -62135596800
MAXIMUM_SECOND = 253402300799

HEXADECIMAL = re.compile(r"^0x-?0*([0-9a-f]*)$")


def is_hexadecimal(text, value):
    match = HEXADECIMAL.match(text)
    return bool(match) and int(match.group(1) or "0", 16) == abs(value)


def filetime(value):
    if value == 0:
        return "Not set (0)"
    if value == 0x7FFFFFFFFFFFFFFF:
        return "Never (0x7fffffffffffffff)"
    if not 0 <= value < 1 << 64:
        return "0x%08x" % value
    seconds, fraction = divmod(value, 10_000_000)
    return date_time(seconds - 11644473600, fraction, 7) + " UTC"


def hfs_time(value):
    if value == 0:
        return "Not set (0)"
    if not 0 <= value < 1 << 32:
        return "0x%08x" % value
    return date_time(value - 2082844800) + " UTC"


def posix_time(value):
    if value == 0:
        return "Not set (0)"
    return date_time(value) + " UTC"


def posix_micro(value):
    if value == 0:
        return "Not set (0)"
    seconds, fraction = divmod(value, 1_000_000)
    return date_time(seconds, fraction, 6) + " UTC"


def posix_nano(value):
    if value == 0:
        return "Not set (0)"
    seconds, fraction = divmod(value, 1_000_000_000)
    return date_time(seconds, fraction, 9) + " UTC"


def check_time(text, value, reference, scale, epoch=0):
    """The text is the right date, or hexadecimal for an undisplayable value."""
    expected = reference(value)
    if text == expected:
        return "date"
    second = value // scale + epoch
    if not MINIMUM_SECOND <= second <= MAXIMUM_SECOND and is_hexadecimal(text, value):
        return "hexadecimal"
    raise Violation(
        f"{reference.__name__} {value} is rendered as {text!r}, expected {expected!r}",
        f"time-{reference.__name__}",
    )


def offset(value):
    return "%d (0x%08x)" % (value, value)


def ipv4(octets):
    return ".".join("%d" % octet for octet in octets)


def ipv6(octets):
    return ":".join(
        "%02x%02x" % (octets[index], octets[index + 1]) for index in range(0, 16, 2)
    )


def stream(data):
    """Printable ASCII characters as is, all other bytes escaped."""
    return "".join(
        chr(byte) if 0x20 <= byte <= 0x7E else "\\x%02x" % byte for byte in data
    )


def value_line(description, value):
    """A value line: description, tabs up to the value column, value."""
    return description + "\t" * (9 - len(description) // 8) + f": {value}\n"
