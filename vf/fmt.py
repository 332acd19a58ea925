"""Running a real parser on a generated file and comparing what it reports."""

import itertools

from dtformats import errors

from vf import mon
from vf.core import Violation


class Case:
    """A generated file and what a parser has to report for it.

    parser: class under test; data: content of the file; lines: expected debug
    output (without announcements of reads); features: what the case contains.
    """

    def __init__(self, parser, data, lines, features=(), **more):
        self.parser = parser
        self.data = bytes(data)
        self.lines = lines
        self.features = set(features)
        self.more = more


def observe(parser_class, path, content, ctx, expected_reads=None, **kwargs):
    """Reads a file in debug mode; returns the parser and its output lines.

    expected_reads: [(description, offset, data)] the file consists of.
    """
    writer = mon.Writer()
    parser = parser_class(debug=True, output_writer=writer, **kwargs)
    parser.Open(path)
    parser.Close()
    lines = mon.norm_lines(writer.text())
    rest, reads = mon.split_reads(lines)
    mon.check_reads(reads, content, ctx)
    if expected_reads is not None and reads != expected_reads:
        for number, (read, expected) in enumerate(
            itertools.zip_longest(reads, expected_reads)
        ):
            if read != expected:
                raise Violation(
                    f"read {number}: {read!r:.300}, expected {expected!r:.300}",
                    "sequence-of-reads",
                )
    ctx.count("files_parsed")
    return parser, rest


def check_case(case, ctx, what, name=None, **kwargs):
    """The debug output of a file is exactly what is stored in it."""
    path = ctx.path(name or f"{what}.bin", case.data)
    parser, rest = observe(
        case.parser, path, case.data, ctx, case.more.get("reads"), **kwargs
    )
    mon.compare(rest, mon.text_lines(case.lines), what, ctx=ctx)
    for feature in case.features:
        ctx.count(feature)
    ctx.seen(case.data, bool(case.features))
    return parser


def large(function):
    """A family whose generators make few but large files.

    Limits such as the number of records, the size of a buffer or the width of an
    offset only show with more items or data than a small file has.
    """

    def run(rng, ctx):
        rng.large = True
        function(rng, ctx)
        ctx.count("large_cases")

    return run


def refused(parser_class, data, ctx, what, mechanism, debug=None, name=None, **kwargs):
    """The parser refuses a file with a ParseError."""
    path = ctx.path(name or "refused.bin", data)
    for mode in (False, True) if debug is None else (debug,):
        parser = parser_class(debug=mode, output_writer=mon.NullWriter(), **kwargs)
        try:
            parser.Open(path)
        except errors.ParseError:
            ctx.count("refused")
            continue
        except Exception as exception:  # pylint: disable=broad-except
            raise Violation(
                f"{what}: {type(exception).__name__} {exception!s:.200} instead of "
                "ParseError",
                f"{mechanism}-{type(exception).__name__}",
            ) from exception
        try:
            parser.Close()
        except OSError:
            pass
        raise Violation(f"{what}: accepted", mechanism)
