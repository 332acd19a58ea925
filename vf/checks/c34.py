"""C34: unified log files yield every log entry with its resolved values."""

import logging
import os
import uuid

from dtformats import errors, unified_logging

from vf import fmt, mon, spec
from vf.core import Violation
from vf.formats import aul

PROPERTY = "C34"
RULE = (
    "a case is a directory with a tracev3 file (up to 2 catalogs, 3 chunk sets of 3 chunks "
    "and 8 records each), timesync, uuidtext and shared-cache strings files; a tracev3 file "
    "with more strings files than are cached; one shared-cache, uuidtext or timesync file "
    "with lookups; or a damaged chunk sequence; non-trivial: distinct by content"
)
REQUIRED = [
    "large_cases",
    "record-log", "record-signpost", "record-activity", "record-trace", "record-loss",
    "record-state", "record-simple", "record-unused", "compressed", "uncompressed",
    "several-chunks", "layout-system", "layout-archive", "layout-live", "without-timesync",
    "strings-main", "strings-identifier", "strings-cache", "strings-large-cache",
    "strings-absolute", "strings-dynamic", "strings-unknown", "strings-string",
    "oversize", "oversize-missing", "backtrace", "private-data", "value-private",
    "many-files", "read-again", "interleaved-file", "dsc-1", "dsc-2", "dsc-found", "dsc-outside", "dsc-dynamic",
    "uuidtext-found", "uuidtext-outside", "timesync-records", "debug", "refused",
    "refused-trace-size", "refused-trace-count",
]
CPU_LIMIT = 120


def setup(ctx):
    logging.disable(logging.CRITICAL)


def compare(ctx, world, found, what):
    if len(found) != len(world.entries):
        raise Violation(
            f"{what:s}: {len(found):d} entries instead of {len(world.entries):d}", "count"
        )
    for entry, got in zip(world.entries, found):
        difference = aul.check_entry(world, entry, got)
        if difference:
            raise Violation(f"{what:s}: {difference:s}", "entry")


def prepare(rng, ctx, world, *arguments):
    files, main = world.build(*arguments)
    directory = os.path.join(ctx.scratch, "logs")
    aul.write(directory, files)
    for name, data in files.items():
        if len(data) < 200000:
            ctx.keep_input(name, data)
    ctx.seen(files[main])
    for label, number in world.labels.items():
        ctx.count(label, number)
    return os.path.join(directory, main), files, main


def entries(rng, ctx):
    """Every entry of a file."""
    world = aul.World(rng)
    path, _, _ = prepare(rng, ctx, world)
    debug = rng.random() < 0.15
    writer = mon.Writer() if debug else None
    trace = unified_logging.TraceV3File(debug=debug, output_writer=writer)
    trace.Open(path)
    try:
        compare(ctx, world, list(trace.ReadLogEntries()), "entries")
        ctx.count("debug", int(debug))
        if rng.random() < 0.4:
            compare(ctx, world, list(trace.ReadLogEntries()), "read again")
            ctx.count("read-again")
        if rng.random() < 0.2:
            # Stop half way.
            iterator = trace.ReadLogEntries()
            for _ in range(len(world.entries) // 2):
                next(iterator)
            iterator.close()
            compare(ctx, world, list(trace.ReadLogEntries()), "read again after stop")
    finally:
        trace.Close()
    if rng.random() < 0.2:
        trace.Open(path)
        compare(ctx, world, list(trace.ReadLogEntries()), "opened again")
        trace.Close()
    ctx.sample({"path": os.path.basename(path), "entries": len(world.entries), "labels": dict(world.labels)})


def two_files(rng, ctx):
    """Two files of different systems that are read alternately."""
    worlds, traces = [], []
    for index in range(2):
        world = aul.World(rng)
        files, main = world.build()
        directory = os.path.join(ctx.scratch, f"logs{index:d}")
        aul.write(directory, files)
        worlds.append(world)
        ctx.seen(files[main])
        for name, data in files.items():
            if len(data) < 200000:
                ctx.keep_input(f"{index:d}/{name:s}", data)
        trace = unified_logging.TraceV3File()
        trace.Open(os.path.join(directory, main))
        traces.append(trace)
    iterators = [trace.ReadLogEntries() for trace in traces]
    found = [[], []]
    active = [0, 1]
    while active:
        index = rng.choice(active)
        try:
            found[index].append(next(iterators[index]))
        except StopIteration:
            active.remove(index)
    for world, trace, got in zip(worlds, traces, found):
        compare(ctx, world, got, "read alternately")
        trace.Close()
    ctx.count("interleaved-file")


def many_files(rng, ctx):
    """More strings files than are cached."""
    world = aul.World(rng, images=rng.randint(70, 150))
    path, _, _ = prepare(rng, ctx, world, 2, 6, 12)
    if len([1 for image in world.images if image.present]) <= 64:
        return
    trace = unified_logging.TraceV3File()
    trace.Open(path)
    try:
        compare(ctx, world, list(trace.ReadLogEntries()), "entries")
        compare(ctx, world, list(trace.ReadLogEntries()), "read again")
    finally:
        trace.Close()
    ctx.count("many-files")


def shared_cache(rng, ctx):
    """Lookups of a shared-cache strings file."""
    version = rng.choice((1, 2))
    cache = aul.Cache(rng, version)
    known = []
    for _ in range(spec.many(rng, range(21), 1500)):
        text = aul.word(rng)
        reference, image = cache.add(rng, text)
        known.append((reference, text, image))
    data = cache.file()
    path = ctx.path("cache", data)
    dsc = unified_logging.DSCFile()
    dsc.Open(path)
    try:
        rng.shuffle(known)
        mon.check_equal(
            [(u.image_identifier, u.image_path, u.text_offset, u.text_size) for u in dsc.uuids],
            [(i[2], i[3], i[0], i[1]) for i in cache.images], "images",
        )
        mon.check_equal(
            [(r.range_offset, r.range_size, r.image_identifier, r.image_path, r.text_offset) for r in dsc.ranges],
            [(o, len(d), cache.images[i][2], cache.images[i][3], cache.images[i][0]) for o, d, i in cache.ranges],
            "ranges",
        )
        for reference, text, image in known:
            values = dsc.GetImageValues(reference, False)
            mon.check_equal(
                (values.string, values.identifier, values.path, values.text_offset),
                (text, image[2], image[3], image[0]), "image values",
            )
            ctx.count("dsc-found")
        used = {index for _, _, index in cache.ranges}
        for index, image in enumerate(cache.images):
            if index in used:
                for reference in (image[0], image[0] + image[1] - 1, image[0] + rng.randrange(image[1])):
                    values = dsc.GetImageValues(reference, True)
                    mon.check_equal(
                        (values.string, values.identifier, values.path, values.text_offset),
                        ("%s", image[2], image[3], image[0]), "dynamic image values",
                    )
                    ctx.count("dsc-dynamic")
        outside = [0, 0xFFFFFFFF] + [o - 1 for o, _, _ in cache.ranges] + [o + len(d) for o, d, _ in cache.ranges]
        for reference in outside:
            if not any(o <= reference < o + len(d) for o, d, _ in cache.ranges):
                mon.check_equal(dsc.GetImageValues(reference, False), None, "outside")
                ctx.count("dsc-outside")
        for image in cache.images:
            for reference in (image[0] - 1, image[0] + image[1]):
                if not any(i[0] <= reference < i[0] + i[1] for i in cache.images):
                    mon.check_equal(dsc.GetImageValues(reference, True), None, "outside")
    finally:
        dsc.Close()
    ctx.count(f"dsc-{version:d}")
    ctx.seen(data)


def uuidtext(rng, ctx):
    """Lookups of an uuidtext file."""
    image = aul.Image(rng, large=rng.random() < 0.5)
    known = {}
    for _ in range(spec.many(rng, range(21), 1500)):
        text = aul.word(rng)
        known[image.add(rng, text)] = text
    data = image.file()
    path = ctx.path("uuidtext", data)
    strings = unified_logging.UUIDTextFile()
    strings.Open(path)
    try:
        mon.check_equal(strings.GetImagePath(), image.path, "image path")
        references = list(known)
        rng.shuffle(references)
        for reference in references:
            mon.check_equal(strings.GetString(reference), known[reference], "string")
            encoded = known[reference]
            if encoded.isascii() and len(encoded) > 1:
                # A reference in a string.
                skip = rng.randrange(len(encoded))
                mon.check_equal(strings.GetString(reference + skip), encoded[skip:], "string")
            ctx.count("uuidtext-found")
        ranges = image._ranges
        for base, content in ranges:
            for reference in (base - 1, base + len(content), 0, 0xFFFFFFFF):
                if not any(b <= reference < b + len(c) for b, c in ranges):
                    mon.check_equal(strings.GetString(reference), None, "outside")
                    ctx.count("uuidtext-outside")
    finally:
        strings.Close()
    ctx.seen(data)


def timesync(rng, ctx):
    """Records of a timesync file."""
    data, expected = b"", []
    for _ in range(spec.many(rng, range(21), 1500)):
        timestamp = rng.choice((0, -1, rng.getrandbits(62), -(1 << 63), (1 << 63) - 1))
        zone = rng.choice((0, -60, 720, -(1 << 31)))
        dst = rng.choice((0, 1))
        if rng.random() < 0.4:
            identifier = uuid.UUID(bytes=rng.randbytes(16))
            timebase = rng.choice(((1, 1), (125, 3)))
            data += aul.boot_record(identifier, *timebase, timestamp, zone, dst)
            expected.append((identifier, *timebase, timestamp, zone, dst))
        else:
            kernel_time = rng.choice((0, rng.getrandbits(64)))
            data += aul.sync_record(kernel_time, timestamp, zone, dst)
            expected.append((kernel_time, timestamp, zone, dst))
    path = ctx.path("boot.timesync", data)
    database = unified_logging.TimesyncDatabaseFile()
    database.Open(path)
    try:
        for _ in range(2):
            found = []
            for record in database.ReadRecords():
                rest = (record.timestamp, record.time_zone_offset, record.daylight_saving_flag)
                if hasattr(record, "boot_identifier"):
                    found.append((
                        record.boot_identifier, record.timebase_numerator, record.timebase_denominator, *rest,
                    ))
                else:
                    found.append((record.kernel_time, *rest))
            mon.check_equal(found, expected, "records")
        ctx.count("timesync-records", len(expected))
    finally:
        database.Close()
    ctx.seen(data)


def refused(rng, ctx):
    """A tracev3 file with an invalid chunk yields the entries before it and is refused."""
    kind = rng.choice(
        ("tag", "truncated", "header", "compressed-size", "trace-size", "trace-count")
    )
    broken_trace = kind.startswith("trace")
    while True:
        world = aul.World(rng)
        world.broken = kind if broken_trace else None
        files, main = world.build()
        if world.broken == "done" or not broken_trace:
            break
    data = files[main]
    if broken_trace:
        pass
    elif kind == "tag":
        offset = rng.choice(world.marks[2:])
        data = data[:offset] + aul.chunk(rng.choice((0, 0x1000, 0x6001, 0x7000)), bytes(16)) + data[offset:]
    elif kind == "truncated":
        data = data[:world.marks[-1] - rng.randint(8, 15)]
    elif kind == "header":
        data = aul.chunk(rng.choice((0, 0x600B, 0x600D)), bytes(200)) + data[world.marks[2]:]
    else:
        offset = world.marks[-2]
        data = data[:offset + 8] + (1 << 40).to_bytes(8, "little") + data[offset + 16:]
    files[main] = data
    directory = os.path.join(ctx.scratch, "logs")
    aul.write(directory, files)
    ctx.keep_input("tracev3", data)
    trace = unified_logging.TraceV3File()
    found = []
    opened = False
    try:
        trace.Open(os.path.join(directory, main))
        opened = True
        for entry in trace.ReadLogEntries():
            found.append(entry)
    except errors.ParseError:
        ctx.count("refused")
        ctx.count(f"refused-{kind:s}")
    else:
        raise Violation(f"not refused: {kind:s}", f"refused-{kind:s}")
    finally:
        if opened:
            trace.Close()
    for entry, got in zip(world.entries, found):
        difference = aul.check_entry(world, entry, got)
        if difference:
            raise Violation(f"before invalid chunk: {difference:s}", "entry")
    ctx.seen(data)


FAMILIES = {
    "entries": (entries, 1500, 12000),
    "two-files": (two_files, 150, 1500),
    "many-files": (many_files, 24, 300),
    "shared-cache": (shared_cache, 300, 4000),
    "uuidtext": (uuidtext, 300, 4000),
    "timesync": (timesync, 200, 2000),
    "refused": (refused, 300, 3000),
    "large": (fmt.large(entries), 4, 40),
    "large_shared_cache": (fmt.large(shared_cache), 2, 30),
    "large_uuidtext": (fmt.large(uuidtext), 2, 30),
    "large_timesync": (fmt.large(timesync), 3, 60),
}
