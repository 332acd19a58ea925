"""C33: unified log format strings render as the logging system does."""

import inspect
import logging
import os

from dtformats import unified_logging

from vf import fmt
from vf.core import Violation
from vf.formats import aul

PROPERTY = "C33"
RULE = (
    "a case is a tracev3 file with up to 60 log entries per chunk, each with a format string "
    "of up to 5 conversions (flags, width, precision, length modifier, annotations, literal "
    "percent signs and braces) and the data items of its values; a file with random format "
    "strings and data items; or every decoder class with values of every size up to 80 "
    "bytes; non-trivial: distinct by format string and data"
)
INTEGERS = "diuxXoDUO"
REQUIRED = [
    "large_cases",
    *(f"value-integer-{c}" for c in INTEGERS), *(f"value-float-{c}" for c in "feEgGfF"),
    "value-character", "value-pointer", "value-string", "value-private-string", "value-private",
    "value-errno", "value-errno-m", "value-bool", "value-BOOL", "value-mdns:acceptable",
    "value-mdns:addrmv", "value-mdns:yesno", "value-darwin.mode", "value-in_addr",
    "value-in6_addr", "value-sockaddr", "value-time_t", "value-uuid_t", "value-mask.hash",
    "value-mdns:dns.counts", "value-mdns:dnshdr", "value-mdns:dns.idflags",
    "value-location:SqliteResult", "value-mdns:protocol", "value-mdns:nreason",
    "value-mdns:rrtype", "value-odtypes:ODError", "value-odtypes:mbridtype",
    "value-odtypes:mbr_details", "value-odtypes:nt_sid_t",
    "value-location:CLClientAuthorizationStatus", "value-location:escape_only",
    "value-location:_CLClientManagerStateTrackerState",
    "value-location:_CLLocationManagerStateTrackerState",
    "value-signpost.begin_time", "value-signpost.end_time", "value-signpost.string1",
    "value-signpost.string2", "value-unsupported-decoder", "value-wrong-size",
    "value-invalid-utf8", "value-missing", "value-extra", "hostile-messages", "decoder-values",
    "decoder-classes", "single-piece",
]
CPU_LIMIT = 120


def setup(ctx):
    logging.disable(logging.CRITICAL)


def read(directory, main):
    trace = unified_logging.TraceV3File()
    trace.Open(os.path.join(directory, main))
    try:
        return list(trace.ReadLogEntries())
    finally:
        trace.Close()


def check(rng, ctx, make_message, records):
    world = aul.World(rng, make_message=make_message, plain=True)
    files, main = world.build(1, 1, records, ("log",))
    directory = os.path.join(ctx.scratch, "logs")
    aul.write(directory, files)
    for name, data in files.items():
        if len(data) < 200000:
            ctx.keep_input(name, data)
    found = read(directory, main)
    if len(found) != len(world.entries):
        raise Violation(f"{len(found):d} entries instead of {len(world.entries):d}", "count")
    for entry, got in zip(world.entries, found):
        if "format_string" not in entry:
            continue
        item = aul.Message("", [], entry["expected"])
        text = got.event_message or ""
        if not item.matches(text):
            raise Violation(
                f"message {text!r} instead of {item.text()!r} of {entry['format_string']!r}",
                "message",
            )
        ctx.seen((entry["format_string"], item.text()))
    ctx.sample({"format": world.entries[-1].get("format_string"), "text": found[-1].event_message})
    for label, number in world.labels.items():
        if label.startswith("value-"):
            ctx.count(label, number)
    return world


def messages(rng, ctx):
    """Format strings of any of the conversions."""
    check(rng, ctx, lambda: aul.message(rng), 60)


def single(rng, ctx):
    """Format strings of one kind of conversion."""
    name = rng.choice(list(aul.PIECES))
    check(rng, ctx, lambda: aul.message(rng, (name,), missing=0.02), 60)
    ctx.count("single-piece")


def hostile_message(rng):
    """A format string with data items that have nothing to do with it."""
    parts = []
    for _ in range(rng.randint(0, 8)):
        parts.append(rng.choice((
            "%", "%%", "{", "}", "{0}", "%{", "%{}", "%{public}", "%{,,}", "%{ uuid_t , }", "%*", "%.*",
            "%-+ #0", "%99999", "%.99999", "%123456789012", "%.123456789012", "%.", "%5.3", "%l", "%hh", "%z", "%n", "%C", "%S", "%a",
            "d", "s", "@", "P", "x", "m", "c", "p", "f", "A", "y", "\0"[:0], "é", "%{%d}d", "%{signpost.description:attribute}",
            "%{signpost.telemetry:number1}", "%{signpost.telemetry:string2}", "%{name=x,uuid_t}", "%{internal:s}",
            "%{location:_CLLocationManagerStateTrackerState}.*P", "%{mdns:dnshdr}.*P", "%{errno}", "%{darwin.mode}",
            "%{network:sockaddr}.*P", "%{network:in6_addr}.*P", "%{odtypes:mbr_details}.*P", "%{mask.hash}.*P", "%{time_t}",
        )))
    items = []
    for _ in range(rng.randint(0, 6)):
        kind = rng.choice((0x00, 0x00, 0x02, 0x10, 0x12, 0x20, 0x22, 0x30, 0x32, 0x40, 0x42, 0xF2, 0x01, 0x21, 0x25, 0x31, 0x35, 0x41, 0x45))
        if kind in (0x10, 0x12):
            # A precision.
            items.append((kind, rng.choice((b"\0\0\0\0", b"\x05\0\0\0", b"\xff\xff\xff\xff", rng.randbytes(4))), None))
        elif kind in (0x00, 0x02, 0x01):
            items.append((kind, rng.randbytes(rng.choice((1, 2, 4, 8, 8, 0, 3, 16))), None))
        else:
            data = rng.choice((b"", b"text\0", rng.randbytes(rng.randint(0, 90)), b"\0" * rng.randint(1, 80)))
            items.append((kind, data, "p" if kind in (0x01, 0x21, 0x25, 0x31, 0x35, 0x41, 0x45) else "v"))
    return "".join(parts), items


def hostile(rng, ctx):
    """No format string or value makes reading a log entry fail."""
    kept = []

    def make():
        text, items = hostile_message(rng)
        kept.append((text, items))
        return aul.Message(text, items, [""])

    world = aul.World(rng, make_message=make, plain=True)
    files, main = world.build(1, 1, 40, ("log",))
    directory = os.path.join(ctx.scratch, "logs")
    aul.write(directory, files)
    for name, data in files.items():
        if len(data) < 200000:
            ctx.keep_input(name, data)
    try:
        found = read(directory, main)
    except Exception as exception:  # pylint: disable=broad-except
        raise Violation(f"{type(exception).__name__:s}: {exception!s}", "hostile") from exception
    if len(found) != len(world.entries):
        raise Violation(f"{len(found):d} entries instead of {len(world.entries):d}", "count")
    for entry, got in zip(world.entries, found):
        if not isinstance(got.event_message, (str, type(None))):
            raise Violation(f"message {got.event_message!r}", "hostile")
        if "format_string" in entry:
            ctx.seen((entry["format_string"], got.event_message))
            ctx.count("hostile-messages")


def decoder_classes():
    base = unified_logging.BaseFormatStringDecoder
    for _, item in sorted(vars(unified_logging).items()):
        if inspect.isclass(item) and issubclass(item, base) and item is not base:
            if "FormatValue" in vars(item):
                yield item


def decoders(rng, ctx):
    """No decoder fails on a value of any size."""
    for item in decoder_classes():
        decoder = item()
        ctx.count("decoder-classes")
        for size in range(81):
            data = rng.choice((rng.randbytes(size), bytes(size), b"\xff" * size, b"a" * size))
            try:
                found = decoder.FormatValue(data)
            except Exception as exception:  # pylint: disable=broad-except
                raise Violation(
                    f"{item.__name__:s}: value {data.hex():s}: {type(exception).__name__:s}: {exception!s}",
                    item.__name__,
                ) from exception
            if not isinstance(found, str):
                raise Violation(f"{item.__name__:s}: value {data.hex():s}: {found!r}", item.__name__)
            ctx.count("decoder-values")
    ctx.seen(rng.random())


FAMILIES = {
    "large": (fmt.large(messages), 60, 1000),
    "messages": (messages, 700, 6000),
    "single": (single, 700, 6000),
    "hostile": (hostile, 500, 5000),
    "decoders": (decoders, 100, 1500),
}
