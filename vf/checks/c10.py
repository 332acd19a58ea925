"""C10: CPIO archives list every entry with its metadata and content."""

import bz2
import gzip
import hashlib
import importlib.util
import io
import lzma
import os

from dtformats import cpio

from vf import core, fmt, mon
from vf.core import Violation
from vf.formats import cp

PROPERTY = "C10"
RULE = (
    "a case is a generated archive in one of the five formats with random metadata, "
    "paths, padding and content (content that looks like an entry included), opened "
    "by path or handed in as a file object, or hashed by the tool (also compressed and "
    "concatenated); non-trivial: at least one entry"
)
REQUIRED = ["large_cases"] + [f"format:{form}" for form in cp.FORMATS] + [
    "entries",
    "empty_entries",
    "duplicate_paths",
    "non_ascii_paths",
    "trailers",
    "contents_compared",
    "hashes_compared",
    "compressed_archives",
    "refused",
]

_STATE = {}


def hasher():
    if "module" not in _STATE:
        path = os.path.join(core.REPO, "scripts", "cpio.py")
        module_spec = importlib.util.spec_from_file_location("vf_script_cpio", path)
        module = importlib.util.module_from_spec(module_spec)
        module_spec.loader.exec_module(module)
        _STATE["module"] = module
    return _STATE["module"].CPIOArchiveFileHasher


def check_entries(parser, case, rng, ctx):
    expected = case.more["entries"]
    found = list(parser.GetFileEntries())
    mon.check_equal(
        [e.path for e in found], [m["path"] for m, _ in expected], "paths", "paths"
    )
    order = list(range(len(expected)))
    rng.shuffle(order)
    for index in order:
        metadata, content = expected[index]
        entry = parser.GetFileEntryByPath(metadata["path"])
        if entry is not found[index]:
            raise Violation("lookup by path gives another entry", "lookup")
        mon.check_equal(
            parser.FileEntryExistsByPath(metadata["path"]), True, "exists", "exists"
        )
        for key, item in metadata.items():
            mon.check_equal(getattr(entry, key), item, f"entry {key}", f"entry-{key}")
        mon.check_equal(entry.get_size(), len(content), "entry size", "entry-size")
        mon.check_equal(entry.tell(), 0, "start position", "position")
        if rng.random() < 0.5:
            mon.check_equal(entry.read(), content, "entry content", "content")
        else:
            data = b""
            step = rng.randint(1, 64)
            while len(data) < len(content):
                part = entry.read(step)
                if not part:
                    break
                data += part
                if rng.random() < 0.2 and expected:
                    # Interleaved with another entry of the archive.
                    other = parser.GetFileEntryByPath(rng.choice(expected)[0]["path"])
                    position = other.tell()
                    other.seek(rng.randrange(9))
                    other.read(3)
                    other.seek(position)
            mon.check_equal(data, content, "entry content", "content")
            entry.seek(len(content))
            mon.check_equal(entry.read(7), b"", "read past the entry", "content-end")
        ctx.count("contents_compared")
    absent = "absent/" + "x" * rng.randint(1, 9)
    mon.check_equal(parser.FileEntryExistsByPath(absent), False, "absent", "absent")
    if parser.GetFileEntryByPath(absent):
        raise Violation("an absent path is found", "absent")
    prefix = rng.choice(["", "a", "a/", "ab", "usr/", "ü", "zz"])
    mon.check_equal(
        [e.path for e in parser.GetFileEntries(path_prefix=prefix)],
        [m["path"] for m, _ in expected if m["path"].startswith(prefix)],
        f"paths with prefix {prefix!r}",
        "prefix",
    )


def archive(rng, ctx):
    case = cp.make(rng)
    path = ctx.path("archive.cpio", case.data)
    writer = mon.Writer()
    debug = rng.random() < 0.7
    parser = cpio.CPIOArchiveFile(debug=debug, output_writer=writer)
    opened = rng.random() < 0.6 or not case.features & {"trailers"}
    if opened:
        parser.Open(path)
    else:
        file_object = io.BytesIO(case.data)
        file_object.seek(rng.randrange(len(case.data)))
        parser.ReadFileObject(file_object)
    if debug:
        rest, reads = mon.split_reads(mon.norm_lines(writer.text()))
        mon.check_reads(reads, case.data, ctx)
        mon.compare(rest, mon.text_lines(case.lines), "cpio", ctx=ctx)
    else:
        mon.check_equal(writer.text(), "", "output without debug", "debug-off")
    mon.check_equal(parser.file_format, case.more["form"], "file format", "format")
    mon.check_equal(parser.size, case.more["size"], "archive size", "size")
    check_entries(parser, case, rng, ctx)
    if opened:
        parser.Close()
        mon.check_equal(list(parser.GetFileEntries()), [], "after close", "closed")
    for feature in case.features:
        ctx.count(feature)
    ctx.seen(case.data, "entries" in case.features)
    ctx.sample({"size": len(case.data), "features": sorted(case.features)})


def hashes(rng, ctx):
    """The hashing tool, on concatenated and compressed archives."""
    data, expected = b"", []
    compressed = rng.random() < 0.5
    for _ in range(rng.randint(0 if compressed else 1, 2)):
        data += bytes(-len(data) % 16)
        case = cp.make(rng, content_size=9000)
        while "trailers" not in case.features:
            case = cp.make(rng, content_size=9000)
        data += case.data[: case.more["size"]]
        expected.append(case)
    if compressed:
        data += bytes(-len(data) % 16)
        case = cp.make(rng, content_size=9000)
        while "trailers" not in case.features:
            case = cp.make(rng, content_size=9000)
        data += rng.choice([gzip.compress, bz2.compress, lzma.compress])(case.data)
        expected.append(case)
        ctx.count("compressed_archives")
    path = ctx.path("hash.cpio", data)
    writer = mon.Writer()
    hasher()(path, output_writer=writer).HashFileEntries()
    lines = []
    for case in expected:
        part = []
        for metadata, content in case.more["entries"]:
            if content:
                part.append((metadata["path"], hashlib.sha256(content).hexdigest()))
        lines.append(sorted(f"{digest}\t{name}" for name, digest in part))
    actual = writer.text().split("\n")[:-1]
    flat = [line for part in lines for line in part]
    mon.check_equal(len(actual), len(flat), "number of hashes", "hash-count")
    position = 0
    for part in lines:
        found = sorted(actual[position : position + len(part)])
        mon.check_equal(found, part, "hashes of an archive", "hashes")
        position += len(part)
    ctx.count("hashes_compared", len(flat))
    ctx.seen(data)


def refusal(rng, ctx):
    case = cp.make(rng)
    data = bytearray(case.data)
    kind = rng.randrange(3)
    if kind == 0:
        signature = rng.choice(
            [b"070708", b"070700", b"\xc7\x70", b"\x71\xc6", b"070", b"", b"\xc7\x71"]
        )
        if len(signature) < 6 and signature[:2] not in (b"\xc7\x71",):
            data = bytearray(signature + bytes(6))
        elif len(signature) == 6:
            data[:6] = signature
        else:
            data = bytearray(signature)
        what = "signature"
    elif kind == 1:
        form = rng.choice(["odc", "newc", "crc"])
        case = cp.make(rng, form)
        data = bytearray(case.data)
        position = rng.randrange(6, 70)
        data[position] = ord(rng.choice("gz-:\0"))
        if data[position] == ord("-") and data[position + 1 : position + 2] != b"0":
            data[position] = ord("g")
        what = "digit"
        if data[position] == ord("-"):
            data[position] = ord("z")
    else:
        form = rng.choice(cp.FORMATS)
        part, _, _ = cp.entry(rng, form, 0, "name" * rng.randint(1, 9), b"")
        size = {"odc": 76, "newc": 110, "crc": 110}.get(form, 26)
        data = part[: rng.randrange(3, size + 4)]
        what = "truncated entry"
    fmt.refused(cpio.CPIOArchiveFile, bytes(data), ctx, what, f"refusal-{what}")
    ctx.seen(bytes(data))


FAMILIES = {
    "archive": (archive, 2500, 50000),
    "hashes": (hashes, 300, 5000),
    "refusal": (refusal, 600, 8000),
    "large": (fmt.large(archive), 5, 100),
}
