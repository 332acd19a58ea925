"""C24: LevelDB tables, logs and descriptors return every stored entry."""

import logging

from dtformats import errors, indexeddb, leveldb

from vf import fmt, mon
from vf.core import Violation
from vf.formats import ldb

PROPERTY = "C24"
RULE = (
    "a case is a generated table of up to 120 entries in 0 to 60 blocks, a log or "
    "descriptor of up to 20 records, a batch of variable-size integers or an IndexedDB "
    "table, or such a file with one invalid part; non-trivial: distinct by content"
)
REQUIRED = [
    "large_cases",
    "compression_0",
    "compression_1",
    "compression_2",
    "restarts",
    "shared_prefix",
    "data_blocks",
    "empty_table",
    "table_entries",
    "interleaved_iterations",
    "record_type_1",
    "record_type_2",
    "record_type_3",
    "record_type_4",
    "page_trailer",
    "page_end",
    "empty_first_block",
    "preallocated",
    "log_value_type_0",
    "log_value_type_1",
    *(f"tag_{tag:d}" for tag in ldb.TAGS),
    "integers",
    "refused_integers",
    "indexeddb_entries",
    "refused",
]


def setup(ctx):
    logging.disable(logging.CRITICAL)


def values_of(entry):
    return (entry.key, entry.sequence_number, entry.value_type, entry.value)


def table(rng, ctx):
    case = ldb.make_table(rng)
    path = ctx.path("table.ldb", bytes(case.data))
    writer = mon.Writer()
    parser = leveldb.LevelDBDatabaseTableFile(debug=True, output_writer=writer)
    parser.Open(path)
    observed = [values_of(entry) for entry in parser.ReadTableEntries()]
    parser.Close()
    mon.check_equal(observed, case.entries, "table entries")
    rest, reads = mon.split_reads(mon.norm_lines(writer.text()))
    mon.check_equal(reads, case.reads, "sequence of reads")
    mon.compare(rest, mon.text_lines(case.lines), "table", ctx=ctx)
    parser = leveldb.LevelDBDatabaseTableFile()
    parser.Open(path)
    results = [[], []]
    pending = [(index, parser.ReadTableEntries()) for index in range(2)]
    while pending:
        choice = rng.randrange(len(pending))
        index, iterator = pending[choice]
        for _ in range(rng.choice([1, 1, 5])):
            entry = next(iterator, None)
            if entry is None:
                del pending[choice]
                break
            results[index].append(values_of(entry))
    parser.Close()
    for result in results:
        mon.check_equal(result, case.entries, "interleaved table entries")
    ctx.count("interleaved_iterations")
    ctx.count("table_entries", len(observed))
    for feature in case.features:
        ctx.count(feature)
    ctx.seen(bytes(case.data))
    ctx.sample(case.lines[:5])


def log(rng, ctx):
    case = ldb.make_log(rng)
    fmt.check_case(case, ctx, "log")
    parser = case.parser()
    parser.Open(ctx.path("log.bin"))
    parser.Close()


def descriptor(rng, ctx):
    case = ldb.make_descriptor(rng)
    fmt.check_case(case, ctx, "descriptor")
    parser = case.parser()
    parser.Open(ctx.path("descriptor.bin"))
    parser.Close()


def integers(rng, ctx):
    parser = leveldb.LevelDBDatabaseLogFile()
    for size in range(0, 65):
        value = rng.getrandbits(size) | 1 << size - 1 if size else 0
        data = ldb.varint(value)
        if len(data) < 10 and rng.random() < 0.2:
            data = ldb.varint(value, rng.randint(1, 10 - len(data)))
        following = rng.randbytes(rng.randrange(4))
        observed = parser._ReadVariableSizeInteger(data + following)
        mon.check_equal(observed, (value, len(data)), f"variable size integer {value:d}")
        ctx.count("integers")
        if len(data) > 1 and rng.random() < 0.3:
            try:
                parser._ReadVariableSizeInteger(data[:-1])
            except errors.ParseError:
                ctx.count("refused_integers")
            else:
                raise Violation("incomplete integer accepted", "incomplete-integer")
    ctx.seen(data)


def indexed(rng, ctx):
    segments = {}

    def make_key(rng):
        key, parts = ldb.indexeddb_key(rng)
        segments[key] = parts
        return key

    case = ldb.make_table(rng, make_key)
    path = ctx.path("indexed.ldb", bytes(case.data))
    parser = indexeddb.IndexedDBDatabaseTableFile()
    parser.Open(path)
    observed = [
        (entry.key_segments, entry.sequence_number, entry.value_type, entry.value)
        for entry in parser.ReadEntries()
    ]
    parser.Close()
    expected = [
        (segments[key], sequence, kind, value) for key, sequence, kind, value in case.entries
    ]
    mon.check_equal(observed, expected, "IndexedDB entries")
    ctx.count("indexeddb_entries", len(observed))
    ctx.seen(bytes(case.data))


def check_refused(parser, read, path, ctx, what):
    """The file is refused when it is opened or its entries are read."""
    try:
        parser.Open(path)
        try:
            for _ in read(parser):
                pass
        finally:
            parser.Close()
    except errors.ParseError:
        ctx.count("refused")
    except Exception as exception:
        raise Violation(
            f"{what}: {type(exception).__name__} {exception!s:.200}",
            f"{what}-{type(exception).__name__}",
        ) from exception
    else:
        raise Violation(f"{what}: accepted", f"accepted-{what}")


def refusal(rng, ctx):
    kind = rng.randrange(7)
    if kind < 4:
        case = ldb.make_table(rng)
        data = bytearray(case.data)
        if kind == 0:
            data[-1 - rng.randrange(8)] ^= 1 << rng.randrange(8)
            what = "table-signature"
        elif kind == 1:
            _, offset, _ = rng.choice(case.reads[1:])
            data[offset] = rng.choice([3, 4, 255])
            what = "compression-type"
        elif kind == 2:
            del data[len(data) - rng.randint(1, len(data)) :]
            what = "truncated-table"
        else:
            # Invalid content of an index block that is stored as is.
            handle = (0, 0)
            data = bytearray()
            content = rng.choice(
                [
                    b"",
                    b"\1\0\0",
                    b"\0\0\0\0" + b"\xff\xff\xff\xff",
                    b"\5\0\0\0\0" + b"\1\0\0\0",
                    b"\0\3\0key\0\0\0\0\1\0\0\0",
                    b"\0\x10\x00internal\0\0\0\0\1\0\0\0",
                    b"\0\x08\x02\1\0\0\0\0\0\0\0\0\0\0\0\0\1\0\0\0",
                    b"\x80\x80\x80\0\0\0\0\1\0\0\0",
                    b"\0\x08\x00\1\0\0\0\0\0\0\0\0\0\0\0\1\0\0\0",
                ]
            )
            data += content + b"\0" + ldb.masked_crc(content + b"\0").to_bytes(4, "little")
            handle = ldb.varint(0) + ldb.varint(len(content))
            data += (handle * 2).ljust(40, b"\0") + ldb.MAGIC
            what = "invalid-block"
        path = ctx.path("refused.ldb", bytes(data))
        parser = leveldb.LevelDBDatabaseTableFile(
            debug=rng.random() < 0.5, output_writer=mon.NullWriter()
        )
        check_refused(parser, lambda parser: parser.ReadTableEntries(), path, ctx, what)
    else:
        case = rng.choice([ldb.make_log, ldb.make_descriptor])(rng)
        while not case.more["reads"]:
            case = rng.choice([ldb.make_log, ldb.make_descriptor])(rng)
        data = bytearray(case.data)
        if kind == 4:
            _, offset, raw = rng.choice([r for r in case.more["reads"] if len(r[2]) > 7])
            data = data[: offset + rng.randrange(1, len(raw))]
            what = "truncated-log"
        elif kind == 5:
            stray = rng.choice([b"\0\0\0\0\0\0\3", b"\0\0\0\0\0\0\4"])
            if rng.random() < 0.5:
                data = bytearray(stray) + data
            else:
                # After records that are complete.
                data = bytearray()
                body = bytes(12) if case.parser is leveldb.LevelDBDatabaseLogFile else b"\2\1"
                for _ in range(rng.randint(1, 3)):
                    parts = [body] if rng.random() < 0.5 else [body[:1], body[1:]]
                    for index, part in enumerate(parts):
                        data += bytes(4) + len(part).to_bytes(2, "little")
                        data += bytes([1 if len(parts) == 1 else (2, 4)[index]]) + part
                data += stray
            what = "record-without-first-block"
        else:
            log_file = case.parser is leveldb.LevelDBDatabaseLogFile
            head = bytes(12) if log_file else b""
            record = head + rng.choice(
                [b"\1\5key", b"\1\3key\5val", b"\0\x83", b"\2\1k", b"\0"]
                if log_file
                else [b"\1\5key", b"\1\2\xff\xff", b"\7\1\1\1\1k", b"\2", b"\2\x83", b"\x08\1", b"\0"]
            )
            data = bytearray(4) + len(record).to_bytes(2, "little") + b"\1" + record
            what = "invalid-record"
        path = ctx.path("refused.log", bytes(data))
        parser = case.parser(debug=rng.random() < 0.5, output_writer=mon.NullWriter())
        check_refused(parser, lambda parser: (), path, ctx, what)
    ctx.seen(bytes(data))


FAMILIES = {
    "table": (table, 700, 15000),
    "log": (log, 250, 5000),
    "descriptor": (descriptor, 250, 5000),
    "integers": (integers, 300, 5000),
    "indexed": (indexed, 500, 10000),
    "refusal": (refusal, 800, 15000),
    "large_table": (fmt.large(table), 3, 60),
    "large_log": (fmt.large(log), 3, 60),
    "large_descriptor": (fmt.large(descriptor), 3, 60),
}
