"""C25: Chrome cache addresses, index and entries are decoded correctly."""

import contextlib
import io
import logging
import os
import shutil

from dtformats import chrome_cache, errors

from vf import fmt, mon, spec
from vf.core import Violation
from vf.formats import chrome

PROPERTY = "C25"
RULE = (
    "a case is a batch of cache addresses or keys, or a generated cache directory of an "
    "index of up to 256 slots and chains of up to 64 entries in up to 3 block files; "
    "non-trivial: every case, distinct by content"
)
REQUIRED = [
    "large_cases",
    "addresses",
    "address_type_0",
    "address_type_1",
    "address_type_2",
    "address_type_3",
    "address_type_4",
    "address_unknown",
    "hashes",
    "text_hashes",
    "chains",
    "chained_block_file",
    "key_in_multiple_blocks",
    "full_key",
    "key_elsewhere",
    "undecodable_key",
    "range_at_end",
    "entries_compared",
    "directories",
    "block_files",
    "missing_block_file",
    "loop",
    "refused",
]


def setup(ctx):
    logging.disable(logging.CRITICAL)


def attributes(cache_address):
    names = (
        "value",
        "is_initialized",
        "file_type",
        "filename",
        "block_number",
        "block_offset",
    )
    return {name: getattr(cache_address, name) for name in names}


def addresses(rng, ctx):
    values = [0, 0x80000000]
    for kind in range(8):
        for _ in range(8):
            value = kind << 28 | rng.getrandbits(28) | rng.getrandbits(1) << 31
            values += [value, value & 0xF3FFFFFF]
    for value in values:
        observed = chrome_cache.CacheAddress(value)
        expected, blocks = chrome.address(value)
        mon.check_equal(attributes(observed), expected, f"cache address 0x{value:08x}")
        if observed.block_size not in chrome.block_sizes(value):
            raise Violation(
                f"cache address 0x{value:08x}: block size {observed.block_size}",
                "address-block-size",
            )
        mon.check_equal(
            observed.GetDebugString(), chrome.show_address(value), "debug string of an address"
        )
        ctx.count("addresses")
        kind = value >> 28 & 7
        ctx.count(f"address_type_{kind:d}" if kind < 5 else "address_unknown")
        del blocks
    ctx.seen(values)


def block_count(rng, ctx):
    """The size of the data of an address includes its first block."""
    for _ in range(20):
        kind = rng.randrange(1, 5)
        value = 0x80000000 | kind << 28 | rng.getrandbits(26)
        size = chrome_cache.CacheAddress(value).block_size
        expected, known = chrome.block_sizes(value)
        ctx.count("block_sizes")
        if size != expected:
            raise Violation(
                f"cache address 0x{value:08x}: block size {size} instead of {expected}",
                "block-size-without-first-block" if size == known else "address-block-size",
            )
    ctx.seen(value)


def hashes(rng, ctx):
    for size in [*range(0, 20), rng.randint(20, 3000)]:
        key = rng.randbytes(size) if rng.random() < 0.5 else spec.random_bytes(rng, size)
        observed = chrome_cache.SuperFastHash(key)
        mon.check_equal(observed, chrome.super_fast_hash(key), f"hash of {key!r:.80}")
        ctx.count("hashes")
        text = spec.random_text(rng, size, size, level=1)
        observed = chrome_cache.SuperFastHash(text)
        expected = chrome.super_fast_hash(text.encode("ascii"))
        mon.check_equal(observed, expected, f"hash of {text!r:.80}")
        ctx.count("text_hashes")
    ctx.seen(key)


def new_cache(rng, ctx):
    shutil.rmtree(ctx.path("cache"), ignore_errors=True)
    cache = chrome.Cache(rng)
    path = cache.write(ctx, "cache")
    for feature in cache.features:
        ctx.count(feature)
    return cache, path


def check_table(index_file, cache):
    observed = {key: value.value for key, value in index_file.index_table.items()}
    mon.check_equal(observed, cache.table, "index table")
    for value in index_file.index_table.values():
        expected, _ = chrome.address(value.value)
        mon.check_equal(attributes(value), expected, "address of the index table")
    header = cache.header
    mon.check_equal(index_file.creation_time, header["creation_time"], "creation time")
    mon.check_equal(
        index_file.format_version, "2.%d" % header["minor_format_version"], "format version"
    )


def files(rng, ctx):
    """Every file of a cache and every entry, read on its own."""
    cache, path = new_cache(rng, ctx)
    content = cache.files["index"]
    parser, rest = fmt.observe(
        chrome_cache.IndexFile, os.path.join(path, "index"), content, ctx, cache.index_reads
    )
    mon.compare(rest, mon.text_lines(cache.index_lines), "index", ctx=ctx)
    check_table(parser, cache)
    for name, (raw, values, lines) in cache.headers.items():
        block_path = os.path.join(path, name)
        reads = [("data block file header", 0, raw)]
        parser, rest = fmt.observe(
            chrome_cache.DataBlockFile, block_path, cache.files[name], ctx, reads
        )
        mon.compare(rest, mon.text_lines(lines), "block-file", ctx=ctx)
        mon.check_equal(parser.block_size, values["block_size"], "block size")
        mon.check_equal(parser.number_of_entries, values["number_of_entries"], "entries")
        ctx.count("block_files")
        entries = [
            entry
            for chain in cache.chains.values()
            for entry in chain
            if chrome.address(entry[0])[0]["filename"] == name
        ]
        writer = mon.Writer()
        parser = chrome_cache.DataBlockFile(debug=True, output_writer=writer)
        parser.Open(block_path)
        rng.shuffle(entries)
        for value, fields, fixed, lines in entries:
            writer.texts.clear()
            offset = chrome.address(value)[0]["block_offset"]
            entry = parser.ReadCacheEntry(offset)
            rest, reads = mon.split_reads(mon.norm_lines(writer.text()))
            mon.check_equal(reads, [("data block cache entry", offset, fixed)], "reads")
            mon.compare(rest, mon.text_lines(lines), "entry", ctx=ctx)
            for name_ in ("creation_time", "hash", "key"):
                mon.check_equal(getattr(entry, name_), fields[name_], f"{name_} of an entry")
            following, _ = chrome.address(fields["next_address"])
            mon.check_equal(attributes(entry.next), following, "next address of an entry")
            node, _ = chrome.address(fields["rankings_node_address"])
            mon.check_equal(attributes(entry.rankings_node), node, "rankings node address")
            ctx.count("entries_compared")
        parser.Close()
    ctx.seen(content)
    ctx.sample(cache.index_lines[:4])


def parse_directory(path, debug=False):
    output = io.StringIO()
    writer = mon.NullWriter() if debug else None
    parser = chrome_cache.ChromeCacheParser(debug=debug, output_writer=writer)
    with contextlib.redirect_stdout(output):
        try:
            parser.ParseDirectory(path)
            error = None
        except errors.ParseError as exception:
            error = exception
    return [line for line in output.getvalue().split("\n") if line], error


def directory(rng, ctx):
    """Every entry reachable through the index is found."""
    cache, path = new_cache(rng, ctx)
    listing, error = parse_directory(path, debug=rng.random() < 0.2)
    if error:
        raise Violation(f"cache directory refused: {error}", "directory-refused")
    mon.check_equal(listing, cache.listing(), "entries of a cache directory")
    ctx.count("directories")
    parser = chrome_cache.ChromeCacheParser()
    for name in cache.files:
        parser.ParseFile(os.path.join(path, name))
    ctx.seen(cache.files["index"])


def refusal(rng, ctx):
    cache, path = new_cache(rng, ctx)
    while not cache.table:
        cache, path = new_cache(rng, ctx)
    kind = rng.randrange(5)
    slot = rng.choice(list(cache.table))
    if kind == 0:
        # A loop of entries does not end in an endless listing.
        value, _, _, _ = rng.choice(cache.chains[slot])
        last, _, _, _ = cache.chains[slot][-1]
        fields, _ = chrome.address(last)
        data = bytearray(cache.files[fields["filename"]])
        offset = fields["block_offset"] + 4
        data[offset : offset + 4] = value.to_bytes(4, "little")
        ctx.path(f"cache/{fields['filename']}", bytes(data))
        listing, error = parse_directory(path)
        complete = set(cache.listing()) <= set(listing)
        if error is None and not complete:
            raise Violation("entries missing before a loop of entries", "loop-listing")
        ctx.count("loop")
    elif kind == 1:
        filename = chrome.address(cache.table[slot])[0]["filename"]
        os.unlink(os.path.join(path, filename))
        _, error = parse_directory(path)
        if error is None:
            raise Violation("missing block file is not reported", "missing-block-file")
        ctx.count("missing_block_file")
    else:
        name = rng.choice(list(cache.files))
        data = bytearray(cache.files[name])
        choice = rng.randrange(3)
        if choice == 0:
            data[rng.randrange(4)] ^= 1 << rng.randrange(8)
        elif choice == 1:
            data[4:8] = rng.choice([b"\0\0\1\0", b"\2\0\2\0", b"\0\0\3\0", b"\0\1\2\0"])
        else:
            del data[rng.randrange(368 if name == "index" else 8192) :]
        parser_class = chrome_cache.IndexFile if name == "index" else chrome_cache.DataBlockFile
        fmt.refused(parser_class, data, ctx, f"invalid {name}", "invalid-file-accepted")
        broken = ctx.path("broken", bytes(data))
        try:
            chrome_cache.ChromeCacheParser().ParseFile(broken)
        except errors.ParseError:
            ctx.count("refused")
        else:
            raise Violation("invalid file parsed", "invalid-file-parsed")
    ctx.seen(cache.files["index"])


FAMILIES = {
    "addresses": (addresses, 1000, 20000),
    "block_count": (block_count, 5, 50),
    "hashes": (hashes, 600, 10000),
    "files": (files, 250, 6000),
    "directory": (directory, 300, 8000),
    "refusal": (refusal, 250, 6000),
    "large": (fmt.large(directory), 3, 60),
}
