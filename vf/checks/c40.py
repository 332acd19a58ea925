"""C40: the debug output of unified logging files reports what is stored."""

import logging
import os
import uuid

from dtformats import unified_logging

from vf import mon
from vf.core import Violation
from vf.formats import aul, aul_debug

PROPERTY = "C40"
RULE = (
    "a case is a directory with a tracev3 file (up to 2 catalogs, 3 chunk sets and 6 records "
    "per chunk) of which every field that does not affect the entries is random, read in debug "
    "mode in whole, in part or twice; or one shared-cache, uuidtext or timesync file with "
    "lookups; non-trivial: distinct by content"
)
STRUCTURES = (
    "chunk_header", "header_chunk", "header_continuous_time_sub_chunk", "header_system_information_sub_chunk",
    "header_generation_sub_chunk", "header_time_zone_sub_chunk", "catalog", "catalog_process_information_entry",
    "catalog_sub_chunk", "lz4_block_header", "simpledump_chunk", "statedump_chunk", "oversize_chunk",
    "firehose_header", "firehose_tracepoint", "firehose_tracepoint_log", "firehose_tracepoint_signpost",
    "firehose_tracepoint_activity", "firehose_tracepoint_trace", "firehose_tracepoint_loss",
    "firehose_tracepoint_backtrace_data", "data_item",
)
REQUIRED = [
    *(f"tracev3_{name}" for name in STRUCTURES),
    *(f"item-{n}" for n in ("00", "01", "02", "10", "12", "20", "21", "22", "25", "30", "31", "32", "35",
                            "40", "41", "42", "45")),
    "process-image", "image", "name", "mismatch", "trailing", "compressed", "uncompressed",
    "without-timesync", "read-in-part", "read-again", "lines", "reads",
    "dsc-1", "dsc-2", "dsc-string", "dsc-none", "dsc-dynamic", "uuidtext-string", "uuidtext-none",
    "boot-record", "sync-record", "timesync-again",
]
CPU_LIMIT = 120


def setup(ctx):
    logging.disable(logging.CRITICAL)


class Output:
    """The lines written since the last time."""

    def __init__(self, content):
        self.content = content
        self.writer = mon.Writer()
        self.position = 0

    def take(self):
        """Returns lines and reads; what reads show is compared with the file."""
        text = "".join(self.writer.texts[self.position:])
        self.position = len(self.writer.texts)
        lines, reads = mon.split_reads(mon.norm_lines(text))
        mon.check_reads(reads, self.content)
        for what, offset, data in reads:
            if data is None:
                raise Violation(f"no data shown of {what} at {offset}", "read-without-data")
        return lines, reads


def tracev3(rng, ctx):
    """A tracev3 file."""
    aul.FILL = rng
    try:
        world = aul.World(rng)
        files, main = world.build(rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 6))
    finally:
        aul.FILL = None
    directory = os.path.join(ctx.scratch, "logs")
    aul.write(directory, files)
    for name, data in files.items():
        if len(data) < 200000:
            ctx.keep_input(name, data)
    ctx.seen(files[main])
    walk = aul_debug.Walk(world, files, main)
    output = Output(files[main])
    trace = unified_logging.TraceV3File(debug=True, output_writer=output.writer)
    trace.Open(os.path.join(directory, main))
    try:
        if rng.random() < 0.3:
            # The first entries only.
            iterator = trace.ReadLogEntries()
            for _ in range(rng.randint(0, len(world.entries) // 2)):
                next(iterator, None)
            iterator.close()
            lines, _ = output.take()
            aul_debug.compare(world, walk.events, lines, "tracev3 in part", partial=True)
            list(trace.ReadLogEntries())
            lines, reads = output.take()
            count = aul_debug.compare(world, walk.events[walk.start:], lines, "tracev3 after part")
            mon.check_equal(reads, walk.reads[walk.start_reads:], "reads")
            ctx.count("read-in-part")
        else:
            list(trace.ReadLogEntries())
            lines, reads = output.take()
            count = aul_debug.compare(world, walk.events, lines, "tracev3")
            mon.check_equal(reads, walk.reads, "reads")
        if rng.random() < 0.3:
            list(trace.ReadLogEntries())
            lines, reads = output.take()
            aul_debug.compare(world, walk.events[walk.start:], lines, "tracev3 again")
            mon.check_equal(reads, walk.reads[walk.start_reads:], "reads")
            ctx.count("read-again")
    finally:
        trace.Close()
    ctx.count("lines", count)
    ctx.count("reads", len(reads))
    for label in ("compressed", "uncompressed", "without-timesync"):
        ctx.count(label, world.labels.get(label, 0))
    for label, number in walk.tally.items():
        ctx.count(label, number)
    ctx.sample({"lines": count, "tally": walk.tally})


def shared_cache(rng, ctx):
    """A shared-cache strings file."""
    version = rng.choice((1, 2))
    cache = aul.Cache(rng, version)
    known = [cache.add(rng, aul.word(rng))[0] for _ in range(rng.randint(0, 8))]
    data = cache.file()
    ctx.seen(data)
    path = ctx.path("cache", data)
    output = Output(data)
    dsc = unified_logging.DSCFile(debug=True, output_writer=output.writer)
    dsc.Open(path)
    try:
        expected = aul_debug.dsc(data)
        lines, _ = output.take()
        mon.compare(lines, mon.text_lines(expected), "dsc", ctx=ctx)
        for reference in known + [rng.getrandbits(31), 0]:
            values = dsc.GetImageValues(reference, False)
            lines, reads = output.take()
            if values is None:
                mon.compare(lines, [], "dsc without string")
                ctx.count("dsc-none")
            else:
                mon.compare(lines, mon.text_lines([f"String\t: {values.string}"]), "dsc string", ctx=ctx)
                mon.check_equal(len(reads), 1, "number of reads")
                ctx.count("dsc-string")
        for image in cache.images:
            dsc.GetImageValues(image[0], True)
            mon.compare(output.take()[0], [], "dsc dynamic string")
            ctx.count("dsc-dynamic")
    finally:
        dsc.Close()
    ctx.count(f"dsc-{version:d}")


def uuidtext(rng, ctx):
    """An uuidtext file."""
    image = aul.Image(rng, large=rng.random() < 0.5)
    known = [image.add(rng, aul.word(rng)) for _ in range(rng.randint(0, 8))]
    data = image.file()
    ctx.seen(data)
    path = ctx.path("uuidtext", data)
    output = Output(data)
    strings = unified_logging.UUIDTextFile(debug=True, output_writer=output.writer)
    strings.Open(path)
    try:
        lines, _ = output.take()
        mon.compare(lines, mon.text_lines(aul_debug.uuidtext(data)), "uuidtext", ctx=ctx)
        for reference in known + [0, 0xFFFFFFFF]:
            string = strings.GetString(reference)
            lines, reads = output.take()
            if string is None:
                mon.compare(lines, [], "uuidtext without string")
                ctx.count("uuidtext-none")
            else:
                mon.compare(lines, mon.text_lines([f"Format string\t: {string}"]), "uuidtext string", ctx=ctx)
                mon.check_equal(len(reads), 1, "number of reads")
                ctx.count("uuidtext-string")
    finally:
        strings.Close()


def timesync(rng, ctx):
    """A timesync file."""
    data = b""
    aul.FILL = rng
    try:
        for _ in range(rng.randint(0, 12)):
            timestamp = rng.choice((0, -1, rng.getrandbits(62), -(1 << 63), (1 << 63) - 1))
            if rng.random() < 0.4:
                record = aul.boot_record(
                    uuid.UUID(bytes=rng.randbytes(16)), rng.getrandbits(32), rng.getrandbits(32), timestamp)
                ctx.count("boot-record")
            else:
                record = aul.sync_record(rng.getrandbits(64), timestamp)
                ctx.count("sync-record")
            data += record
    finally:
        aul.FILL = None
    ctx.seen(data)
    path = ctx.path("boot.timesync", data)
    output = Output(data)
    database = unified_logging.TimesyncDatabaseFile(debug=True, output_writer=output.writer)
    database.Open(path)
    try:
        expected = mon.text_lines(aul_debug.timesync(data))
        for _ in range(2):
            list(database.ReadRecords())
            lines, _ = output.take()
            mon.compare(lines, expected, "timesync", ctx=ctx)
        ctx.count("timesync-again")
    finally:
        database.Close()


FAMILIES = {
    "tracev3": (tracev3, 2500, 25000),
    "shared-cache": (shared_cache, 250, 4000),
    "uuidtext": (uuidtext, 250, 4000),
    "timesync": (timesync, 200, 3000),
}
