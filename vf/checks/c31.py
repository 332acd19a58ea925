"""C31: WMI repository storage resolves keys to their object records."""

import logging
import os

from dtformats import errors, wmi_repository

from vf import fmt, mon
from vf.core import Violation
from vf.formats import wmi

PROPERTY = "C31"
RULE = (
    "a case is a generated repository directory of format version 2.1 or 2.2 with up to "
    "40 keys in up to 30 index pages, up to 3 mapping files of which one is the most "
    "recent, and object records of up to 30000 bytes in up to 20 pages; a mapping or "
    "index file on its own; or a repository with an invalid part; non-trivial: distinct "
    "by content"
)
REQUIRED = [
    "large_cases",
    "keys", "records", "sub_page", "stale_map", "separate_maps",
    "without_index.map", "without_objects.map", "data_pages",
    "version_2.1", "version_2.2", "mapping_2.1_1", "mapping_2.1_2", "mapping_2.2_2",
    "mapping_trailing", "index_file", "relative_path", "by_file", "refused_repository",
    "version_mismatch", "missing_mapping", "missing_objects_mapping",
    *(f"broken_{w:s}" for w in ("descriptor", "size", "page", "truncated", "loop",
                                "segment", "missing_file", "first_page", "offset")),
]


def setup(ctx):
    logging.disable(logging.CRITICAL)


def open_repository(path, debug=False):
    writer = mon.NullWriter() if debug else None
    return wmi_repository.CIMRepository(debug=debug, output_writer=writer)


class Warnings(logging.Handler):
    """The warnings logged."""

    def __enter__(self):
        self.texts = []
        self.others = logging.getLogger().handlers
        logging.getLogger().handlers = [self]
        logging.disable(logging.NOTSET)
        return self

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.texts.append(record.getMessage())

    def __exit__(self, *_):
        logging.disable(logging.CRITICAL)
        logging.getLogger().handlers = self.others


def storage(rng, ctx):
    """Every key is enumerated once and resolves to the record stored."""
    version = rng.choice(["2.1", "2.2"])
    features = set()
    records, _, _, _ = wmi.make_records(rng, version, features)
    made = wmi.Repository(rng, version, records)
    directory = made.write(os.path.join(ctx.scratch, "repository"))
    try:
        debug = rng.random() < 0.15
        repository = open_repository(directory, debug)
        how = rng.choice(["directory", "directory", "relative", "slash"])
        path = directory
        here = os.getcwd()
        if how == "relative":
            os.chdir(ctx.scratch)
            path = "repository"
            ctx.count("relative_path")
        elif how == "slash":
            path = directory
        try:
            with Warnings() as warnings:
                repository.Open(path)
        finally:
            os.chdir(here)
        mon.check_equal(
            any("active mapping file" in text for text in warnings.texts), made.warned(),
            "warning of another active mapping file",
        )
        if made.warned():
            ctx.count("version_mismatch")
        keys = list(repository.GetIndexKeys())
        if sorted(keys) != sorted(made.keys):
            missing = sorted(set(made.keys) - set(keys))[:2]
            extra = sorted(set(keys) - set(made.keys))[:2]
            raise Violation(
                f"keys: {len(keys):d} reported, {len(made.keys):d} stored; "
                f"missing {missing!r}, not stored {extra!r}",
                "keys",
            )
        ctx.count("keys", len(keys))
        for key, data in rng.sample(sorted(made.keys.items()), len(made.keys)):
            record = repository.GetObjectRecordByKey(key)
            if data is None:
                if record is not None:
                    raise Violation(f"record of key without record {key:s}", "no-record")
                continue
            kind = key.split("\\")[-1].split("_")[0]
            if record.data != data or record.data_type != kind:
                raise Violation(
                    f"record of {key:s}: type {record.data_type!r} of "
                    f"{len(record.data):d} bytes, expected {kind:s} of {len(data):d}; "
                    f"first difference {first_difference(record.data, data):d}",
                    "record",
                )
            ctx.count("records")
        expected = {"2.1": "2.1", "2.2": "2.2"}[version]
        mon.check_equal(repository.format_version, expected, "format version")
        repository.Close()
        # Only the index.
        name = next(n for n in made.files if n.lower() == "index.btr")
        repository = open_repository(directory)
        repository.Open(os.path.join(directory, name))
        if sorted(repository.GetIndexKeys()) != sorted(made.keys):
            raise Violation("keys of the index file", "keys-by-file")
        repository.Close()
        ctx.count("by_file")
    finally:
        remove(directory)
    ctx.count(f"version_{version:s}")
    for feature in made.features:
        ctx.count(feature)
    ctx.seen(made.index_data + made.objects_data, bool(made.keys))


def first_difference(first, second):
    for index, (one, other) in enumerate(zip(first, second)):
        if one != other:
            return index
    return min(len(first), len(second))


def remove(directory):
    for name in os.listdir(directory):
        os.unlink(os.path.join(directory, name))
    os.rmdir(directory)


def mapping(rng, ctx):
    """A mapping file resolves every mapped page number."""
    case = wmi.make_mapping(rng)
    parser = fmt.check_case(case, ctx, "mapping")
    mon.check_equal(parser.sequence_number, case.more["sequence"], "sequence number")
    mon.check_equal(parser.format_version, case.more["version"], "format version")
    tables = case.more["tables"]
    for table, entries in (
        (parser.GetObjectsMappingTable(), tables[0]),
        (parser.GetIndexMappingTable(), tables[-1]),
    ):
        found = [table.ResolveMappedPageNumber(number) for number in range(len(entries))]
        mon.check_equal(found, entries, "mapping table")
        try:
            table.ResolveMappedPageNumber(len(entries))
        except errors.ParseError:
            continue
        raise Violation("page number outside of the mapping table", "mapping-range")


def index_file(rng, ctx):
    """An index file reports its pages."""
    case = wmi.make_index_file(rng)
    fmt.check_case(case, ctx, "index")
    path = ctx.path("index.btr", case.data)
    parser = wmi_repository.IndexBinaryTreeFile()
    parser.Open(path)
    for number, (page_type, root, keys, subs) in enumerate(case.more["pages"]):
        page = parser.GetPage(number)
        mon.check_equal(
            (page.page_type, page.root_page_number), (page_type, root), "page"
        )
        if page_type == 0xACCC:
            mon.check_equal(page.keys, ["\\" + "\\".join(k) for k in keys], "page keys")
            mon.check_equal(page.sub_pages, subs, "sub pages")
    if parser.GetPage(len(case.more["pages"])) is not None:
        raise Violation("page outside of the file", "page-range")
    parser.Close()


def broken(rng, ctx):
    """Mismatches are refused with a ParseError."""
    version = rng.choice(["2.1", "2.2"])
    records, _, _, _ = wmi.make_records(rng, version, set())
    made = wmi.Repository(rng, version, records)
    kind = rng.choice(
        ["descriptor", "size", "page", "truncated", "loop", "segment", "missing_file",
         "first_page", "offset"]
    )
    key = rng.choice([k for k, d in made.keys.items() if d is not None and len(d) > 1])
    head, page, number, size = key.rsplit(".", 3)
    files = {name.lower(): name for name in made.files}
    index_name, objects_name = files["index.btr"], files["objects.data"]
    data = bytearray(made.files[objects_name])
    index = bytearray(made.files[index_name])
    if kind == "descriptor":
        key = f"{head:s}.{page:s}.{int(number) ^ 0x80000000:d}.{size:s}"
    elif kind == "size":
        key = f"{head:s}.{page:s}.{number:s}.{int(size) + rng.choice([-1, 1]):d}"
    elif kind == "page":
        key = f"{head:s}.{rng.choice([99999999, 1 << 40]):d}.{number:s}.{size:s}"
    elif kind == "truncated":
        del data[rng.randrange(0, 16) :]
        made.files[objects_name] = bytes(data)
    elif kind == "offset":
        wanted = int(number).to_bytes(4, "little")
        for start in range(0, len(data), wmi.PAGE):
            for place in range(start, start + 16 * 8, 16):
                if data[place : place + 4] == wanted:
                    bad = rng.choice([8192, 8193, 0xFFFFFFFF, 0x80000000])
                    data[place + 4 : place + 8] = bad.to_bytes(4, "little")
        made.files[objects_name] = bytes(data)
    elif kind in ("loop", "segment"):
        for start in range(0, len(index), wmi.PAGE):
            if int.from_bytes(index[start : start + 4], "little") != 0xACCC:
                continue
            count = int.from_bytes(index[start + 16 : start + 20], "little")
            place = start + 20 + 4 * count
            if kind == "loop":
                index[place : place + 4] = made.root.to_bytes(4, "little")
                mapped = int.from_bytes(index[start + 4 : start + 8], "little")
                if mapped != made.root:
                    index[place : place + 4] = mapped.to_bytes(4, "little")
            elif count:
                place += 4 * (count + 1)
                key_offset = int.from_bytes(index[place : place + 2], "little")
                place += 2 * count + 2 + 2 * key_offset
                index[place + 2 : place + 4] = b"\xff\xff"
        if kind == "segment" and not made.keys:
            index[0] ^= 1
        made.files[index_name] = bytes(index)
    elif kind == "first_page":
        if version == "2.1":
            for start in range(0, len(index), wmi.PAGE):
                if int.from_bytes(index[start : start + 4], "little") == 0xADDD:
                    index[start : start + 4] = b"\xdd\xba\0\0"
        made.files[index_name] = bytes(index) if version == "2.1" else b""
    else:
        name = rng.choice(["index.btr", "objects.data", "mapping"] + ["objects_mapping"] * 3)
        if name == "objects_mapping" and "objects.map" not in files:
            name = "mapping"
        for stored in list(made.files):
            lower = stored.lower()
            if name == "mapping":
                remove_it = lower.endswith(".map")
            elif name == "objects_mapping":
                remove_it = lower.endswith(".map") and lower != "index.map"
            else:
                remove_it = lower == name
            if remove_it:
                del made.files[stored]
        ctx.count(f"missing_{name:s}")
    directory = made.write(os.path.join(ctx.scratch, "repository"))
    repository = open_repository(directory, rng.random() < 0.2)
    try:
        try:
            repository.Open(directory)
            for _ in repository.GetIndexKeys():
                pass
            repository.GetObjectRecordByKey(key)
        except errors.ParseError:
            ctx.count("refused_repository")
            ctx.count(f"broken_{kind:s}")
            ctx.seen((kind, version, len(made.keys)), True)
            return
        except Exception as exception:  # pylint: disable=broad-except
            raise Violation(
                f"{kind:s}: {type(exception).__name__:s} {exception!s:.200}",
                f"broken-{kind:s}-{type(exception).__name__:s}",
            ) from exception
        if kind == "first_page" and version == "2.2":
            return
        raise Violation(f"{kind:s}: accepted", f"broken-{kind:s}")
    finally:
        repository.Close()
        remove(directory)


FAMILIES = {
    "storage": (storage, 120, 6000),
    "mapping": (mapping, 60, 4000),
    "index_file": (index_file, 25, 1500),
    "broken": (broken, 200, 5000),
    "large_storage": (fmt.large(storage), 1, 20),
    "large_mapping": (fmt.large(mapping), 2, 40),
    "large_index_file": (fmt.large(index_file), 2, 40),
}
