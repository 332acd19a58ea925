"""Valid inputs of every format and how to read all that a parser reports."""

import contextlib
import hashlib
import io
import os
import random

from dtformats import chrome_cache, errors, indexeddb, leveldb, spotlight_storedb, unified_logging, wmi_repository

from vf import core
from vf.formats import (
    asl, aul, bsm, cfb, chrome, cookies, cp, ff, fse, gz, ipp, jl, job, journal,
    keychain, ldb, mac, meta, recycle, regf, rp, spotlight, tz, ut, win, wmi,
)


class Sample:
    """Files of an input; main is the path to open."""

    def __init__(self, files, main, arguments=(), marks=(), wrap=None, inner=None):
        self.files = dict(files)
        self.main = main
        self.arguments = tuple(arguments)
        # Offsets in the main file (or its inner data) where structures start.
        self.marks = sorted(set(marks))
        # wrap(inner data) gives the main file.
        self.wrap = wrap
        self.inner = inner

    def write(self, directory):
        os.makedirs(directory, exist_ok=True)
        for name, data in self.files.items():
            path = os.path.join(directory, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as file_object:
                file_object.write(data)
        return os.path.join(directory, self.main) if self.main else directory


def value_of(value, depth=0, seen=()):
    """A comparable value of what a parser reports."""
    if value is None or isinstance(value, (bool, int, str)):
        return value
    if isinstance(value, float):
        return repr(value)
    if isinstance(value, (bytes, bytearray, memoryview)):
        data = bytes(value)
        return data if len(data) < 32 else (len(data), hashlib.blake2b(data).digest())
    if depth > 12 or id(value) in seen:
        return type(value).__name__
    seen = seen + (id(value),)
    if isinstance(value, dict):
        return [
            (value_of(k, depth + 1, seen), value_of(v, depth + 1, seen))
            for k, v in value.items()
        ]
    if isinstance(value, (list, tuple)):
        return [value_of(v, depth + 1, seen) for v in value]
    if isinstance(value, (set, frozenset)):
        return sorted(repr(value_of(v, depth + 1, seen)) for v in value)
    module = type(value).__module__ or ""
    if module.startswith("dfdatetime"):
        return (type(value).__name__, value.CopyToDateTimeString())
    if hasattr(value, "read") or callable(value) or not hasattr(value, "__dict__"):
        return type(value).__name__
    attributes = {k: v for k, v in vars(value).items() if not k.startswith("_")}
    if module.startswith("dtformats"):
        for cls in type(value).__mro__:
            for name, attribute in vars(cls).items():
                if isinstance(attribute, property) and not name.startswith("_"):
                    attributes.setdefault(name, getattr(value, name))
    return (
        type(value).__name__,
        [(name, value_of(v, depth + 1, seen)) for name, v in sorted(attributes.items())],
    )


class Kind:
    """A kind of input."""

    directory = False

    def __init__(self, name, parser, make, read=None, data=(), unusual=None):
        self.name = name
        self.unusual = unusual or make
        self.parser = parser
        self._make = make
        self._read = read
        self._data = data

    def make(self, rng):
        return self._make(rng)

    def create(self, sample, debug, writer, helper=None):
        keywords = {"debug": debug, "output_writer": writer}
        if helper is not None:
            keywords["file_system_helper"] = helper
        return self.parser(*sample.arguments, **keywords)

    def open(self, parser, path):
        parser.Open(path)

    def close(self, parser):
        parser.Close()

    def read(self, parser):
        """Reads everything the public interface of an open parser reports.

        Yields what is reported, so that the caller can interleave reads.
        """
        for item in self.items(parser):
            yield value_of(item)

    def items(self, parser):
        """Yields the objects reported."""
        if self._read:
            yield from self._read(parser)

    def results(self, parser, reported):
        """Everything reported."""
        return (value_of(parser), reported)

    def samples(self):
        """Valid files of the repository."""
        result = []
        for name in self._data:
            path = os.path.join(core.REPO, "test_data", name)
            if os.path.exists(path):
                with open(path, "rb") as file_object:
                    data = file_object.read()
                result.append(Sample({os.path.basename(path): data}, os.path.basename(path)))
        return result


def of_case(function, name="input.bin"):
    """Samples from a function that makes a case."""

    def make(rng):
        case = function(rng)
        more = getattr(case, "more", {})
        title = more.get("name") or name
        marks = [read[1] for read in more.get("reads") or () if isinstance(read[1], int)]
        return Sample({title: case.data}, title, marks=marks)

    return make


def named_parser(case_function, rng):
    return case_function(rng).parser


def make_fse(rng):
    case = fse.make(rng)
    return Sample(
        {"fsevents.gz": case.data}, "fsevents.gz",
        marks=[read[1] for read in case.more["reads"]],
        wrap=lambda data: gz_of(data), inner=case.more["content"],
    )


def gz_of(data):
    import gzip

    return gzip.compress(data, mtime=0)


def make_automatic(rng):
    case = jl.make_automatic(rng)
    streams = case.more["streams"]
    name = rng.choice(list(streams))
    return Sample(
        {"input.bin": case.data}, "input.bin",
        marks=[read[1] for read in case.more["reads"]] if name == "DestList" else (),
        wrap=lambda data: cfb.write({**streams, name: data}), inner=streams[name],
    )


def make_spotlight(rng, case=None):
    case = case or spotlight.make(rng)
    files = {"store.db": case.data, **case.more["directory"]}
    layout = case.more["layout"]
    marks = [layout["map"], *layout["pages"], *layout["tables"]]
    return Sample(files, "store.db", marks=marks)


def make_cache(rng):
    cache = chrome.Cache(rng)
    return Sample(cache.files, "")


def make_cache_index(rng):
    cache = chrome.Cache(rng)
    return Sample({"index": cache.files["index"]}, "index")


def make_cache_blocks(rng):
    cache = chrome.Cache(rng)
    name = rng.choice(sorted(cache.headers))
    return Sample({name: cache.files[name]}, name, marks=[0, 8192, 8192 + 96])


def make_offsets(rng):
    arguments, data, _, _ = spotlight.make_offsets(rng)
    return Sample({"dbStr-1.map.offsets": data}, "dbStr-1.map.offsets", arguments)


def make_stream_values(rng):
    (data_size, _), _, ranges, _ = spotlight.make_offsets(rng)
    data = rng.randbytes(rng.choice([data_size, data_size, data_size // 2, data_size + 10]))
    return Sample({"dbStr-1.map.data": data}, "dbStr-1.map.data", (data_size, ranges))


def make_trace(rng):
    world = aul.World(rng)
    files, main = world.build(records=5)
    return Sample(files, main, marks=world.marks + world.inner_marks)


UUIDTEXT_RANGES = (0, 0x100000, 0x7FF00000, 0x80000000)


def make_uuidtext(rng):
    ranges = []
    for base in sorted(rng.sample(UUIDTEXT_RANGES, rng.randint(0, 4)), key=lambda _: rng.random()):
        text = "".join(aul.ascii_word(rng) + "\0" for _ in range(rng.randint(1, 6)))
        ranges.append((base, text.encode("utf-8")))
    data = aul.uuidtext_file(ranges, "/usr/libexec/" + aul.word(rng))
    return Sample({"text": data}, "text", marks=[0, 16, 16 + 8 * len(ranges)])


def make_dsc(rng):
    cache = aul.Cache(rng, rng.choice((1, 2)))
    for _ in range(rng.randint(0, 8)):
        cache.add(rng, aul.word(rng))
    return Sample({"cache": cache.file()}, "cache", marks=[0, 16])


def make_timesync(rng):
    data, marks = b"", []
    for _ in range(rng.randint(0, 8)):
        marks.append(len(data))
        if rng.random() < 0.4:
            data += aul.boot_record(aul.uuid.UUID(bytes=rng.randbytes(16)), 125, 3, rng.getrandbits(60), -60, 1)
        else:
            data += aul.sync_record(rng.getrandbits(40), rng.getrandbits(60))
    return Sample({"1.timesync": data}, "1.timesync", marks=marks)


def read_trace(parser):
    yield from parser.ReadLogEntries()


def read_uuidtext(parser):
    yield parser.GetImagePath()
    for base in UUIDTEXT_RANGES:
        for offset in (0, 1, 5, 20, 0xFFFF):
            yield parser.GetString(base + offset)


def read_dsc(parser):
    for item in list(parser.ranges)[:50]:
        for reference in (item.range_offset, item.range_offset + item.range_size - 1, item.range_offset + item.range_size):
            yield parser.GetImageValues(reference, False)
        yield parser.GetImageValues(item.text_offset, True)


def read_timesync(parser):
    for record in parser.ReadRecords():
        yield [(name, str(value)) for name, value in sorted(vars(record).items())]


def make_indexeddb(rng):
    case = ldb.make_table(rng, indexed_key)
    return Sample({"000003.ldb": case.data}, "000003.ldb", marks=[])


def indexed_key(rng):
    first = rng.choice([0, 0x24, 0xFF, rng.randrange(256)])
    sizes = (first >> 5) + 1, ((first >> 2) & 7) + 1, (first & 3) + 1
    return bytes([first]) + rng.randbytes(sum(sizes)) + rng.randbytes(rng.choice([0, 5, 20]))


def make_repository(rng, retype=False):
    version = rng.choice(["2.1", "2.2"])
    records, _, _, _ = wmi.make_records(rng, version, set(), fake=rng.random() < 0.3, retype=retype)
    made = wmi.Repository(rng, version, records)
    return Sample(made.files, "")


def make_retyped_repository(rng):
    """A repository of which the names of the namespaces are not declared as strings."""
    return make_repository(rng, retype=True)


def make_rep(rng):
    data = wmi.make_repository_file(rng, set()).data
    return Sample({"cim.rep": data}, "cim.rep")


def make_class(rng):
    parent = wmi.Class(rng) if rng.random() < 0.5 else None
    return Sample({"class.bin": wmi.Class(rng, parent).data}, "class.bin")


class ClassKind(Kind):
    """A class definition block."""

    def open(self, parser, path):
        with open(path, "rb") as file_object:
            parser.ReadClassDefinitionBlock(file_object.read())

    def close(self, parser):
        pass

    def items(self, parser):
        yield bool(parser.IsAbstract())


class CacheKind(Kind):
    """A directory with a Chrome cache."""

    directory = True

    def open(self, parser, path):
        output = io.StringIO()
        with contextlib.redirect_stdout(output):
            parser.ParseDirectory(path)
        parser.vf_listing = output.getvalue()

    def close(self, parser):
        pass

    def samples(self):
        return []


def read_repository(parser):
    yield parser.format_version
    keys = list(parser.GetIndexKeys() or ())
    yield keys
    for key in keys:
        record = parser.GetObjectRecordByKey(key)
        yield record and (record.data_type, record.data)
    yield from parser.GetInstances()
    yield from sorted(parser.GetNamespaces(), key=lambda n: n.namespace)


def read_rep(parser):
    yield parser.format_version
    yield from parser.GetInstances()
    yield from parser.GetNamespaces()


def read_archive(parser):
    for entry in parser.GetFileEntries():
        yield entry
        entry.seek(0, os.SEEK_SET)
        yield entry.read(100)
        entry.seek(0, os.SEEK_SET)
        yield entry.read()
        yield parser.FileEntryExistsByPath(entry.path)


def read_jump_list(parser):
    for entry in parser.GetJumpListEntries():
        yield (entry.identifier, jl.describe(entry))


def read_blocks(parser):
    for offset in (8192, 8448, 9216):
        try:
            yield parser.ReadCacheEntry(offset)
        except errors.ParseError as exception:
            yield str(exception)


def read_table(parser):
    yield from parser.ReadTableEntries()


def read_indexed(parser):
    yield from parser.ReadEntries()


def read_usn(parser):
    yield from parser.ReadRecords()


def read_job(parser):
    yield parser.GetWindowsTaskConfiguration()


def read_store(parser):
    identifiers = sorted(
        k for k in getattr(parser, "_record_descriptors", {}) if isinstance(k, int)
    )
    for identifier in identifiers[:40] or range(1, 5):
        yield parser.GetMetadataItemByIdentifier(identifier)


def read_index_file(parser):
    number = 0
    while number < 40:
        page = parser.GetPage(number)
        if page is None:
            break
        yield page
        number += 1


def read_mapping(parser):
    for table in (parser.GetIndexMappingTable(), parser.GetObjectsMappingTable()):
        if table is None:
            continue
        for number in range(5):
            try:
                yield table.ResolveMappedPageNumber(number)
            except errors.ParseError as exception:
                yield str(exception)


def case_kind(name, function, read=None, data=(), main="input.bin", parser=None):
    return Kind(
        name, parser or function(random.Random(1)).parser, of_case(function, main), read, data
    )


KINDS = [
    case_kind("cpio", lambda rng: cp.make(rng), read_archive, [
        f"cpio/syslog.{k:s}.cpio" for k in ("bin", "crc", "newc", "odc")]),
    case_kind("gzip", gz.make, data=["syslog.gz"]),
    case_kind("tzif", tz.make, data=["localtime.tzif"]),
    case_kind("utmp", ut.make_linux, data=["utmp-linux_libc6"]),
    case_kind("utmpx", ut.make_macos, data=["utmpx-macosx10.5"]),
    case_kind("asl", asl.make, data=["applesystemlog.asl"]),
    case_kind("bsm", bsm.make, data=["apple.bsm", "openbsm.bsm"]),
    case_kind("recycle_bin", recycle.make_metadata, data=["$I103S5F.jpg", "$II3DF3L.zip"]),
    case_kind("recycler", recycle.make_info2, data=["INFO2"]),
    case_kind("rp_log", rp.make_log, data=["rp.log"]),
    case_kind("rp_change_log", rp.make_change_log, data=["change.log.1"]),
    case_kind("safari_cookies", cookies.make, data=["Cookies.binarycookies"]),
    Kind("fseventsd", named_parser(fse.make, random.Random(1)), make_fse, None,
         ["fsevents-00000000001a0b79", "fsevents-0000000002d89b58"]),
    case_kind("cups_ipp", ipp.make, data=["cups_ipp_2.0"]),
    case_kind("job", job.make, read_job, ["wintask.job"]),
    Kind("automatic", named_parser(jl.make_automatic, random.Random(1)),
         make_automatic, read_jump_list,
         ["1b4dd67f29cb1962.automaticDestinations-ms",
          "9d1f905ce5044aee.automaticDestinations-ms"]),
    case_kind("custom", jl.make_custom, read_jump_list,
              ["5afe4de1b92fc382.customDestinations-ms"]),
    case_kind("keychain", keychain.make, data=["login.keychain"]),
    case_kind("leveldb_table", ldb.make_table, read_table,
              parser=leveldb.LevelDBDatabaseTableFile),
    case_kind("leveldb_log", ldb.make_log),
    case_kind("leveldb_descriptor", ldb.make_descriptor),
    Kind("indexeddb", indexeddb.IndexedDBDatabaseTableFile, make_indexeddb, read_indexed),
    CacheKind("chrome_cache", chrome_cache.ChromeCacheParser, make_cache),
    Kind("chrome_index", chrome_cache.IndexFile, make_cache_index),
    Kind("chrome_blocks", chrome_cache.DataBlockFile, make_cache_blocks, read_blocks),
    case_kind("firefox_map", ff.make_map, main="_CACHE_MAP_",
              data=["firefox_cache1/_CACHE_MAP_"]),
    case_kind("firefox_blocks", ff.make_blocks, data=[
        f"firefox_cache1/_CACHE_00{n:d}_" for n in (1, 2, 3)]),
    Kind("spotlight", named_parser(spotlight.make, random.Random(1)),
         make_spotlight, read_store),
    Kind("spotlight_offsets", spotlight_storedb.SpotlightStreamsMapOffsetsFile, make_offsets),
    Kind("spotlight_values", spotlight_storedb.SpotlightStreamsMapDataFile, make_stream_values),
    case_kind("systemd", journal.make_journal),
    case_kind("usn", win.make_usn, read_usn),
    case_kind("detection", win.make_detection),
    case_kind("emf", meta.make_emf),
    case_kind("wmf", meta.make_wmf, data=["grid.wmf"]),
    case_kind("alias", mac.make_alias, data=["com.apple.loginitems.plist.alias_data"]),
    case_kind("bookmark", mac.make_bookmark, data=["backgrounditems.btm.bookmark_data"]),
    case_kind("amcache", regf.make_amcache),
    case_kind("wmi_mapping", wmi.make_mapping, read_mapping,
              ["cim/INDEX.MAP", "cim/MAPPING1.MAP", "cim/OBJECTS.MAP"]),
    case_kind("wmi_index", wmi.make_index_file, read_index_file),
    Kind("wmi_repository", wmi_repository.CIMRepository, make_repository, read_repository,
         unusual=make_retyped_repository),
    Kind("wmi_rep", wmi_repository.CIMRepository, make_rep, read_rep),
    Kind("tracev3", unified_logging.TraceV3File, make_trace, read_trace,
         ["unified_logging/0000000000000030.tracev3"]),
    Kind("uuidtext", unified_logging.UUIDTextFile, make_uuidtext, read_uuidtext,
         ["unified_logging/uuidtext/22/0D3C2953A33917B333DD8366AC25F2",
          "unified_logging/uuidtext/00/7EF56328D53A78B59CCCE3E3189F57"]),
    Kind("dsc", unified_logging.DSCFile, make_dsc, read_dsc,
         ["unified_logging/uuidtext/dsc/8E21CAB1DCF936B49F85CF860E6F34EC"]),
    Kind("timesync", unified_logging.TimesyncDatabaseFile, make_timesync, read_timesync),
    ClassKind("wmi_class", wmi_repository.ClassDefinition, make_class),
]
BY_NAME = {kind.name: kind for kind in KINDS}
