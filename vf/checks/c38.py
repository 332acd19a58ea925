"""C38: command line tools report what the parsers report."""

import bz2
import collections
import contextlib
import datetime
import glob
import gzip
import hashlib
import io
import json
import logging
import lzma
import math
import os
import re
import runpy
import shutil
import struct
import subprocess
import sys
import uuid

from dtformats import (
    alias_data, amcache, asl, bookmark_data, bsm, chrome_cache, cpio, cups_ipp,
    detection_history, errors, firefox_cache1, fseventsd, gzipfile, indexeddb, job, jump_list,
    keychain, leveldb, prefetch, recycle_bin, recycler, rp_change_log, rp_log, safari_cookies,
    spotlight_storedb, systemd, tzif, unified_logging, usn_journal, utmp, wemf, wmi_repository,
)

from vf import corpus, fat, mon, ref, spec
from vf.core import REPO, Violation
from vf.formats import cp, shell

PROPERTY = "C38"
RULE = (
    "a case is one command line tool with one generated or sample input: without debug output "
    "(compared with what the library reports for the input), with debug output (an interleaving "
    "of the former and of the debug output of the library), from a file system image, as a "
    "process, or without or with a missing argument; non-trivial: distinct tool, options and "
    "input"
)
QUICK_BUDGET = 240
CPU_LIMIT = 120
SCRIPTS = os.path.join(REPO, "scripts")
SAMPLES = {k.name: k for k in corpus.KINDS}


def setup(ctx):
    logging.disable(logging.CRITICAL)


# Running a tool.


def run(script, *arguments):
    """Runs a tool in this process; returns the exit status and output."""
    path = os.path.join(SCRIPTS, script)
    data = io.BytesIO()
    output = io.TextIOWrapper(data, encoding="utf-8", newline="\n", write_through=True)
    error = io.StringIO()
    saved = sys.argv
    sys.argv = [path, *arguments]
    failure = None
    try:
        with contextlib.redirect_stdout(output), contextlib.redirect_stderr(error):
            try:
                runpy.run_path(path, run_name="__main__")
                status = 0
            except SystemExit as exception:
                status = exception.code
                if status is None:
                    status = 0
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as exception:  # pylint: disable=broad-except
                # The interpreter shows a traceback and exits with 1.
                status, failure = 1, exception
    finally:
        sys.argv = saved
    output.flush()
    if not isinstance(status, int):
        status = 1
    return status, data.getvalue().decode("utf-8"), failure


def success(script, *arguments):
    status, output, failure = run(script, *arguments)
    options = " ".join(a for a in arguments if a.startswith("-"))
    if status != 0 or failure:
        raise Violation(
            f"{script:s} {options:s}: exit status {status!r}: "
            f"{type(failure).__name__:s}: {failure!s:.300}", f"exit-{script:s}",
        )
    return output


def tidy(text):
    """The lines of a text without layout."""
    return [" ".join(line.split()) for line in text.splitlines() if line.strip()]


def same_text(found, expected, what):
    found, expected = tidy(found), tidy(expected)
    if found != expected:
        number = 0
        while number < min(len(found), len(expected)) and found[number] == expected[number]:
            number += 1
        raise Violation(
            f"{what:s}: line {number:d}: {found[number:number + 1]!r:.300}, "
            f"expected {expected[number:number + 1]!r:.300}", f"output-{what.split()[0]:s}",
        )


def interleaving(text, first, second):
    """Whether a text consists of two texts with their order kept."""
    if len(text) != len(first) + len(second):
        return False
    # Positions in the first text that are possible after each character.
    states = {0}
    for index, character in enumerate(text):
        following = set()
        for position in states:
            if position < len(first) and first[position] == character:
                following.add(position + 1)
            other = index - position
            if other < len(second) and second[other] == character:
                following.add(position)
        if not following:
            return False
        states = following
    return True


# What the library reports. Every function reads an input with the library and
# returns the expected text of the tool without debug output (or a function
# that checks it).


def of_class(module, name, header):
    def read(path, debug, writer, options):
        parser = getattr(module, name)(debug=debug, output_writer=writer)
        parser.Open(path)
        parser.Close()
        return header

    return read


def read_job(path, debug, writer, options):
    parser = job.WindowsTaskSchedulerJobFile(debug=debug, output_writer=writer)
    parser.Open(path)
    task = parser.GetWindowsTaskConfiguration()
    parser.Close()
    return "\n".join((
        "Windows Task Scheduler job information:", f"Identifier : {task.identifier}",
        f"Application name : {task.application_name}", f"Parameters : {task.parameters}",
        f"Author : {task.author}", f"Comment : {task.comment}",
    ))


def read_cpio(path, debug, writer, options):
    parser = cpio.CPIOArchiveFile(debug=debug, output_writer=writer)
    parser.Open(path)
    result = (
        f"CPIO archive information:\nFormat : {parser.file_format:s}\n"
        f"Size : {parser.size:d} bytes"
    )
    parser.Close()
    return result


def filetime(value):
    return ref.filetime(value)


def read_recycle_bin(path, debug, writer, options):
    parser = recycle_bin.RecycleBinMetadataFile(debug=debug, output_writer=writer)
    parser.Open(path)
    parser.Close()
    time = re.sub(r" \(.*\)", "", filetime(parser.deletion_time))
    return (
        "Recycle.Bin metadata ($I) file information:\n"
        f"Format version : {parser.format_version:d}\n"
        f"Deletion time : {time:s}\n"
        f"Original filename : {parser.original_filename:s}\n"
        f"Original file size : {parser.original_file_size:d}"
    )


def read_change_log(path, debug, writer, options):
    parser = rp_change_log.RestorePointChangeLogFile(debug=debug, output_writer=writer)
    parser.Open(path)
    parser.Close()
    types, flags = parser.LOG_ENTRY_TYPES, parser.LOG_ENTRY_FLAGS
    lines = ["Windows Restore Point change.log information:", f"Volume path: {parser.volume_path}"]
    for entry in parser.entries:
        lines += [
            "Entry type: " + ", ".join(t for f, t in types.items() if entry.entry_type & f),
            "Entry flags: " + ", ".join(t for f, t in flags.items() if entry.entry_flags & f),
            f"Sequence number: {entry.sequence_number:d}", f"Process name: {entry.process_name}",
        ]
    return "\n".join(lines)


def read_utmp(path, debug, writer, options):
    with open(path, "rb") as file_object:
        mac = file_object.read(11) == b"utmpx-1.00\0"
    parser = (utmp.MacOSXUtmpxFile if mac else utmp.LinuxLibc6UtmpFile)(
        debug=debug, output_writer=writer
    )
    parser.Open(path)
    parser.Close()
    return "utmp information:"


def read_wemf(path, debug, writer, options):
    with open(path, "rb") as file_object:
        emf = file_object.read(44)[40:] == b" EMF"
    parser = (wemf.EMFFile if emf else wemf.WMFFile)(debug=debug, output_writer=writer)
    parser.Open(path)
    parser.Close()
    return "Windows Enhanced Metafile information:" if emf else "Windows Metafile information:"


def read_firefox(path, debug, writer, options):
    name = "CacheMapFile" if os.path.basename(path) == "_CACHE_MAP_" else "CacheBlockFile"
    parser = getattr(firefox_cache1, name)(debug=debug, output_writer=writer)
    parser.Open(path)
    parser.Close()
    return "Firefox cache version 1 information:"


def read_chrome_cache(path, debug, writer, options):
    parser = chrome_cache.ChromeCacheParser(debug=debug, output_writer=writer)
    output = io.StringIO()
    with contextlib.redirect_stdout(output):
        if os.path.isdir(path):
            parser.ParseDirectory(path)
        else:
            parser.ParseFile(path)
    return output.getvalue()


VALUE_TYPES = {0: "del", 1: "val"}


def read_leveldb(path, debug, writer, options):
    with open(path, "rb") as file_object:
        table = file_object.read()[-8:] == b"\x57\xfb\x80\x8b\x24\x75\x47\xdb"
    if table:
        name = "LevelDBDatabaseTableFile"
    elif os.path.basename(path).startswith("MANIFEST"):
        name = "LevelDBDatabaseDescriptorFile"
    else:
        name = "LevelDBDatabaseLogFile"
    parser = getattr(leveldb, name)(debug=debug, output_writer=writer)
    parser.Open(path)
    lines = ["LevelDB database file information:"]
    if table:
        for entry in parser.ReadTableEntries():
            kind = VALUE_TYPES.get(entry.value_type, "UNKNOWN")
            lines.append(
                f"{repr(entry.key)[1:]:s} @ {entry.sequence_number:d} : {kind:s} => "
                f"{repr(entry.value)[1:]:s}"
            )
    parser.Close()
    return "\n".join(lines)


def read_indexeddb(path, debug, writer, options):
    parser = indexeddb.IndexedDBDatabaseTableFile(debug=debug, output_writer=writer)
    parser.Open(path)
    lines = ["IndexedDB database file information:"]
    for entry in parser.ReadEntries():
        kind = VALUE_TYPES.get(entry.value_type, "UNKNOWN")
        lines.append(
            f"<<{', '.join(entry.key_segments):s}>> @ {entry.sequence_number:d} : {kind:s} => "
            f"{repr(entry.value)[1:]:s}"
        )
    parser.Close()
    return "\n".join(lines)


def read_usn(path, debug, writer, options):
    parser = usn_journal.USNRecords(debug=debug, output_writer=writer)
    parser.Open(path)
    expected = [
        "USN journal records information:",
        "Date and time,Name,File reference,Parent file reference",
    ]
    references = []
    for record in parser.ReadRecords():
        expected.append(",".join(
            [filetime(record.timestamp), record.name or ""] + [
                f"{reference & ((1 << 48) - 1):d}-{reference >> 48:d}"
                for reference in (record.file_reference, record.parent_file_reference)
            ]
        ))
    parser.Close()

    return "\n".join(expected)


KEYCHAIN_TYPES = {
    0: "String with size", 1: "Integer 32-bit signed", 2: "Integer 32-bit unsigned",
    3: "CSSM_DB_ATTRIBUTE_FORMAT_BIG_NUM", 4: "Floating-point 64-bit", 5: "Date and time",
    6: "Binary data", 7: "CSSM_DB_ATTRIBUTE_FORMAT_MULTI_UINT32",
    8: "CSSM_DB_ATTRIBUTE_FORMAT_COMPLEX",
}


def read_keychain(path, debug, writer, options):
    parser = keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)
    parser.Open(path)
    lines = []
    if "-c" in options:
        for table in parser.tables:
            lines.append(f"Table: {table.relation_name} (0x{table.relation_identifier:08x})")
            lines.append("\t".join(c.attribute_name or "NULL" for c in table.columns))
            for record in table.records:
                lines.append("\t".join(
                    "NULL" if value is None else str(value) for value in record.values()
                ))
    else:
        lines.append("Keychain database file schema:")
        for table in parser.tables:
            lines.append(f"Table: {table.relation_name} (0x{table.relation_identifier:08x})")
            lines.append(f"Number of columns: {len(table.columns):d}")
            lines.append("Column Identifier Name Type")
            for index, column in enumerate(table.columns):
                identifier = column.attribute_identifier
                if identifier is None or identifier >= len(table.columns):
                    identifier = ""
                kind = column.attribute_data_type
                if kind is None:
                    kind = ""
                else:
                    kind = KEYCHAIN_TYPES.get(kind, f"0x{kind:08x}")
                lines.append(
                    f"{index:d}\t{identifier!s}\t{column.attribute_name or 'NULL'}\t{kind:s}"
                )
    parser.Close()
    return "\n".join(lines)


LINK_FLAGS = {
    0x1: "Contains a link target identifier", 0x4: "Contains a description string",
    0x8: "Contains a relative path string", 0x10: "Contains a working directory string",
    0x20: "Contains a command line arguments string", 0x40: "Contains an icon location string",
    0x200: "Contains an environment variables block", 0x4000: "Contains an icon location block",
    0x40000: "Contains no distributed link tracking data block",
}


def read_jump_list(path, debug, writer, options):
    with open(path, "rb") as file_object:
        automatic = file_object.read(8) == b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"
    name = "AutomaticDestinationsFile" if automatic else "CustomDestinationsFile"
    parser = getattr(jump_list, name)(debug=debug, output_writer=writer)
    parser.Open(path)
    entries = list(parser.GetJumpListEntries())
    shown = []
    for entry in entries:
        lnk = entry.lnk_file
        shown.append([text for flag, text in LINK_FLAGS.items() if lnk.data_flags & flag] + [
            f"Number of data blocks : {lnk.number_of_data_blocks:d}",
            f"Creation time : {filetime(lnk.get_file_creation_time_as_integer()):s}",
            f"Modification time : {filetime(lnk.get_file_modification_time_as_integer()):s}",
            f"Accesss time : {filetime(lnk.get_file_access_time_as_integer()):s}",
            f"File size : {lnk.file_size:d}", f"Icon index : {lnk.icon_index:d}",
            f"Show Window value : 0x{lnk.show_window_value:08x}",
            f"Hot Key value : {lnk.hot_key_value:d}",
            f"File attribute flags : 0x{lnk.file_attribute_flags:08x}",
            f"Description : {lnk.description or ''}", f"Relative path : {lnk.relative_path or ''}",
            f"Working directory : {lnk.working_directory or ''}",
            f"Icon location : {lnk.icon_location or ''}",
        ])
    parser.Close()

    def check(found):
        lines = tidy(found)
        expected = ["Windows Jump List information:", f"Number of entries : {len(shown):d}"]
        mon.check_equal(lines[:2], expected, "jump_list.py header")
        parts, current = [], None
        for line in lines[2:]:
            if re.fullmatch(r"Entry: \d+", line):
                mon.check_equal(line, f"Entry: {len(parts) + 1:d}", "jump_list.py entry")
                current = []
                parts.append(current)
            else:
                current.append(line)
        mon.check_equal(len(parts), len(shown), "jump_list.py number of entries")
        for part, wanted in zip(parts, shown):
            position = 0
            for line in wanted:
                line = " ".join(line.split())
                while position < len(part) and part[position].replace("Access time", "Accesss time") != line:
                    position += 1
                if position == len(part):
                    raise Violation(
                        f"jump_list.py: missing {line!r:.200} in {part!r:.600}", "jump-list"
                    )
                position += 1

    return check


COCOA = datetime.datetime(2001, 1, 1)


def cocoa(value):
    if not -6.3e10 < value < 7.4e9:
        return None
    moment = COCOA + datetime.timedelta(seconds=math.floor(value))
    return moment.isoformat(sep=" ")


SPOTLIGHT_NAMES = {
    "_kMDItemDisplayNameWithExtensions": "", "kMDItemContentCreationDate": "",
    "kMDItemContentCreationDate_Ranking": "", "kMDItemContentModificationDate": "",
    "kMDItemContentModificationDate_Ranking": "", "kMDItemContentType": "",
    "kMDItemContentTypeTree": "", "kMDItemDateAdded": "", "kMDItemDateAdded_Ranking": "",
    "kMDItemDisplayName": "", "kMDItemDocumentIdentifier": "",
    "kMDItemFSContentChangeDate": "_kMDItemContentChangeDate",
    "kMDItemFSCreationDate": "_kMDItemCreationDate",
    "kMDItemFSCreatorCode": "_kMDItemCreatorCode",
    "kMDItemFSFinderFlags": "_kMDItemFinderFlags", "kMDItemFSHasCustomIcon": "",
    "kMDItemFSInvisible": "", "kMDItemFSIsExtensionHidden": "_kMDItemIsExtensionHidden",
    "kMDItemFSIsStationery": "", "kMDItemFSLabel": "_kMDItemFinderLabel",
    "kMDItemFSName": "_kMDItemFileName", "kMDItemFSNodeCount": "_kMDItemNodeCount",
    "kMDItemFSOwnerGroupID": "_kMDItemOwnerGroupID",
    "kMDItemFSOwnerUserID": "_kMDItemOwnerUserID", "kMDItemFSSize": "",
    "kMDItemFSTypeCode": "", "kMDItemInterestingDate_Ranking": "", "kMDItemKind": "",
    "kMDItemLogicalSize": "", "kMDItemPhysicalSize": "",
}


def read_spotlight(path, debug, writer, options):
    if path.lower().endswith(".map.header"):
        header = spotlight_storedb.SpotlightStreamsMapHeaderFile(
            debug=debug, output_writer=writer
        )
        header.Open(path)
        header.Close()
        offsets = spotlight_storedb.SpotlightStreamsMapOffsetsFile(
            header.data_size, header.number_of_offsets, debug=debug, output_writer=writer
        )
        offsets.Open(path[:-6] + "offsets")
        offsets.Close()
        values = spotlight_storedb.SpotlightStreamsMapDataFile(
            header.data_size, offsets.ranges, debug=debug, output_writer=writer
        )
        values.Open(path[:-6] + "data")
        values.Close()
        return ""
    parser = spotlight_storedb.SpotlightStoreDatabaseFile(debug=debug, output_writer=writer)
    parser.Open(path)
    try:
        if "-i" not in options:
            version, properties = "", ""
            item = parser.GetMetadataItemByIdentifier(1)
            if item:
                attribute = item.attributes.get("kMDStoreProperties")
                if attribute:
                    properties = attribute.value.decode("utf-8")
                attribute = item.attributes.get("_kStoreMetadataVersion")
                if attribute:
                    version = f"{attribute.value >> 16:d}.{attribute.value & 0xFFFF:d}"
            lines = [
                "Apple Spotlight database information:", f"Metadata version: {version:s}",
                f"Number of metadata items: {parser.number_of_metadata_items:d}",
            ]
            if properties:
                lines += ["Properties:", properties]
            return "\n".join(lines)
        identifier = int(options[options.index("-i") + 1])
        item = parser.GetMetadataItemByIdentifier(identifier)
    finally:
        parser.Close()
    if not item:
        return f"No such metadata item: {identifier:d}"
    expected = []
    for name, lookup in SPOTLIGHT_NAMES.items():
        attribute = item.attributes.get(lookup or name)
        if not attribute:
            value = "(null)"
        elif isinstance(attribute.value, (list, tuple)):
            # The layout of multiple values is not part of the property.
            value = None
        elif attribute.value_type == 0x0B:
            value = f'"{attribute.value!s}"'
        elif attribute.value_type == 0x0C and isinstance(attribute.value, (int, float)):
            value = cocoa(attribute.value)
        else:
            value = f"{attribute.value!s}"
        expected.append((name, value))

    def check(found):
        position = 0
        for name, value in expected:
            match = re.compile(rf"^{name:s}\s+= ", re.MULTILINE).search(found, position)
            if not match or match.start() < position:
                raise Violation(f"spotlight_storedb.py: missing {name:s}", "spotlight-name")
            position = match.end()
            if value is not None:
                if not found.startswith(value, position):
                    raise Violation(
                        f"spotlight_storedb.py: {name:s}: {found[position:position + 80]!r}, "
                        f"expected {value!r:.200}", "spotlight-value",
                    )
                position += len(value)

    return check


def posix(value):
    """A date and time of a number of nanoseconds with microseconds."""
    moment = datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=value // 1000)
    return f"{moment:%Y-%m-%d %H:%M:%S.%f}+0000"


def read_logging(path, debug, writer, options):
    with open(path, "rb") as file_object:
        signature = file_object.read(4)
    header = "Apple Unified Logging and Activity Tracing information:"
    if signature == b"hcsd":
        parser = unified_logging.DSCFile(debug=debug, output_writer=writer)
        parser.Open(path)
        lines = [header]
        for index, image in enumerate(parser.uuids):
            lines += [
                f"uuid {index:d}:", f"uuid {index:d}: {str(image.image_identifier).upper():s}",
                f"dsc text: 0x{image.text_offset:08x} .. "
                f"0x{image.text_offset + image.text_size:08x} ({image.text_size:d})",
                f"path: {image.image_path:s}",
            ]
        for index, item in enumerate(parser.ranges):
            lines += [
                f"Range {index:d}:",
                f"uuid {item.uuid_index:d}: {str(item.image_identifier).upper():s}",
                f"dsc range: 0x{item.range_offset:08x} .. "
                f"0x{item.range_offset + item.range_size:08x} ({item.range_size:d})",
                f"path: {item.image_path:s}",
            ]
        parser.Close()
        return "\n".join(lines)
    if signature == b"\x99\x88\x77\x66":
        parser = unified_logging.UUIDTextFile(debug=debug, output_writer=writer)
        parser.Open(path)
        parser.Close()
        return header
    if signature in (b"\xb0\xbb\x30\0", b"Ts\x20\0"):
        parser = unified_logging.TimesyncDatabaseFile(debug=debug, output_writer=writer)
        parser.Open(path)
        for _ in parser.ReadRecords():
            pass
        parser.Close()
        return header
    parser = unified_logging.TraceV3File(debug=debug, output_writer=writer)
    parser.Open(path)
    entries = list(parser.ReadLogEntries())
    mask = parser.ACTIVITY_IDENTIFIER_BITMASK
    parser.Close()
    check = check_json if "json" in options else check_lines
    return lambda found: check(found, entries, header, mask)


def by_time(entries):
    """Entries per timestamp, in order of time."""
    result = collections.OrderedDict()
    for entry in sorted(entries, key=lambda e: e.timestamp):
        result.setdefault(entry.timestamp, []).append(entry)
    return result


def name_of(path):
    return path.rpartition("/")[2]


def check_lines(found, entries, header, mask):
    texts = []
    for group in by_time(entries).values():
        texts.append(([], []))
        for entry in group:
            parts = []
            if entry.process_image_path:
                parts.append(f"{name_of(entry.process_image_path):s}:")
            if entry.sender_image_path:
                parts.append(f"({name_of(entry.sender_image_path):s})")
            if entry.sub_system and entry.category:
                parts.append(f"[{entry.sub_system:s}:{entry.category:s}]")
            parts.append(entry.event_message or "")
            texts[-1][1].append(
                f"{posix(entry.timestamp):s} 0x{entry.thread_identifier or 0:x} "
                f"{entry.event_type:s} 0x{entry.activity_identifier or 0:x} "
                f"{entry.process_identifier or 0:d} {entry.ttl or 0:d} " + " ".join(parts)
            )
    lines = tidy(found)
    mon.check_equal(lines[:1], [header], "unified_logging.py header")
    mon.check_equal(
        lines[1:2], ["Timestamp Thread Type Activity PID TTL"], "unified_logging.py columns"
    )
    position = 2
    for _, wanted in texts:
        # Entries of the same time can be in any order.
        wanted = [tidy(text) for text in wanted]
        size = sum(map(len, wanted))
        block = lines[position:position + size]
        position += size
        if size == len(wanted):
            same = sorted(block) == sorted(line for text in wanted for line in text)
        else:
            same = sorted(block) == sorted(line for text in wanted for line in text)
        if not same:
            raise Violation(
                f"unified_logging.py: {block!r:.400}, expected {wanted!r:.400}", "logging-text"
            )
    mon.check_equal(lines[position:], [], "unified_logging.py rest")


def identifier_of(value):
    return str(value).upper() if value else ""


def check_json(found, entries, header, mask):
    first, _, rest = found.partition("\n")
    mon.check_equal(first, header, "unified_logging.py header")
    try:
        shown = json.loads(rest)
    except ValueError as exception:
        position = getattr(exception, "pos", 0)
        raise Violation(
            f"unified_logging.py --format json: not JSON: {exception!s}: "
            f"{rest[max(0, position - 60):position + 60]!r}", "json",
        ) from exception
    if not entries:
        return
    mon.check_equal(len(shown), len(entries), "unified_logging.py JSON entries")
    position = 0
    parents, ambiguous = {}, False
    for timestamp, group in by_time(entries).items():
        block = shown[position:position + len(group)]
        position += len(group)
        wanted = []
        for entry in group:
            item = {
                "timestamp": posix(timestamp), "bootUUID": identifier_of(entry.boot_identifier),
                "eventType": entry.event_type or "", "category": entry.category or "",
                "subsystem": entry.sub_system or "", "threadID": entry.thread_identifier or 0,
                "activityIdentifier": entry.activity_identifier or 0,
                "machTimestamp": entry.mach_timestamp, "traceID": entry.trace_identifier,
                "processID": entry.process_identifier or 0,
                "senderProgramCounter": entry.sender_program_counter or 0,
                "processImageUUID": identifier_of(entry.process_image_identifier),
                "senderImageUUID": identifier_of(entry.sender_image_identifier),
                "processImagePath": entry.process_image_path or "",
                "senderImagePath": entry.sender_image_path or "",
            }
            message = (entry.event_message or "").rstrip()
            if len(message) < 1085:
                item["eventMessage"] = message
            if entry.event_type not in ("activityCreateEvent", "userActionEvent"):
                item["formatString"] = entry.format_string or ""
            else:
                item["formatString"] = ""
            activity = entry.activity_identifier or 0
            creator = entry.creator_activity_identifier
            if entry.event_type == "timesyncEvent":
                item["parentActivityIdentifier"] = 0
            else:
                # The parent of an activity is the one that created it.
                if creator is not None:
                    ambiguous = ambiguous or len(group) > 1
                    parents[activity] = creator & mask
                parent = entry.parent_activity_identifier or parents.get(activity) or 0
                if parent == creator:
                    parent = 0
                if not ambiguous:
                    item["parentActivityIdentifier"] = parent
            if entry.event_type != "timesyncEvent":
                if entry.loss_count is not None:
                    item["lossCount"] = entry.loss_count
                    item["lossStartMachContinuousTimestamp"] = entry.loss_start_mach_timestamp
                    item["lossEndMachContinuousTimestamp"] = entry.loss_end_mach_timestamp
                    item["lossStartTimestamp"] = posix(entry.loss_start_timestamp)
                    item["lossEndTimestamp"] = posix(entry.loss_end_timestamp)
                if entry.signpost_identifier is not None:
                    item["signpostID"] = entry.signpost_identifier
                    item["signpostScope"] = entry.signpost_scope or ""
                    item["signpostType"] = entry.signpost_type or ""
                    if entry.creator_activity_identifier is None and entry.loss_count is None:
                        item["signpostName"] = entry.signpost_name or ""
                if entry.creator_activity_identifier is not None:
                    item["creatorActivityID"] = entry.creator_activity_identifier
                if entry.backtrace_frames:
                    item["backtrace"] = {"frames": [
                        {"imageOffset": f.image_offset, "imageUUID": identifier_of(f.image_identifier)}
                        for f in entry.backtrace_frames
                    ]}
                if entry.event_type in ("logEvent", "traceEvent", "stateEvent"):
                    item["messageType"] = entry.message_type or ""
            wanted.append(item)
        left = list(block)
        for item in wanted:
            for candidate in left:
                if all(candidate.get(k) == v for k, v in item.items()):
                    left.remove(candidate)
                    break
            else:
                differences = [
                    {k: (c.get(k), v) for k, v in item.items() if c.get(k) != v} for c in left
                ]
                smallest = min(differences, key=len) if differences else item
                raise Violation(
                    f"unified_logging.py --format json: (shown, reported): {smallest!r:.500}",
                    "json-value",
                )


def read_wmi(path, debug, writer, options):
    mode = "instances"
    if "--output_mode" in options:
        mode = options[options.index("--output_mode") + 1]
    if os.path.basename(path).lower() == "index.btr":
        mode = "index"
    repository = wmi_repository.CIMRepository(debug=debug, output_writer=writer)
    repository.Open(path)
    lines = []
    if mode == "index":
        lines = list(repository.GetIndexKeys())
    elif mode == "namespaces":
        lines = sorted(n.namespace or "" for n in repository.GetNamespaces())
    elif mode == "instances":
        for instance in repository.GetInstances():
            name = instance.properties.get("Name")
            relative = f"{instance.class_name:s}=@"
            if name:
                relative = f'{instance.class_name:s}.Name="{name!s}"'
            namespace = instance.namespace or "ROOT"
            pairs = [
                ("__GENUS", "2"), ("__CLASS", instance.class_name),
                ("__SUPERCLASS", instance.super_class_name or ""),
                ("__DYNASTY", instance.dynasty or ""), ("__RELPATH", relative),
                ("__PROPERTY_COUNT", str(len(instance.properties))),
                ("__DERIVATION", f"{{{', '.join(instance.derivation):s}}}"),
                ("__SERVER", "."), ("__NAMESPACE", namespace),
                ("__PATH", f"\\\\.\\{namespace:s}:{relative:s}"),
            ] + [
                (key, "" if value is None else str(value))
                for key, value in sorted(instance.properties.items())
            ]
            lines += [f"{key:s} : {value:s}" for key, value in pairs]
    else:
        for key in repository.GetIndexKeys():
            if "." in key and key.rpartition("\\")[2].partition("_")[0] == "R":
                record = repository.GetObjectRecordByKey(key)
                if record:
                    registration = wmi_repository.Registration(debug=debug, output_writer=writer)
                    registration.ReadObjectRecord(record.data)
    repository.Close()
    return "\n".join(lines)


class Tool:

    def __init__(self, script, kinds, read, options=((),), name=None, image=False, rename=None):
        self.script = script
        self.kinds = kinds
        self.read = read
        # The combinations of options.
        self.options = options
        self.image = image
        self.rename = rename

    def sample(self, rng):
        kind = SAMPLES[rng.choice(self.kinds)]
        sample = None
        if rng.random() < 0.15:
            samples = [s for s in kind.samples() if sum(map(len, s.files.values())) < 100000]
            sample = rng.choice(samples) if samples else None
        return kind, sample or kind.make(rng)


def simple(script, kinds, module, name, header):
    return Tool(script, kinds, of_class(module, name, header))


TOOLS = [
    simple("alias_data.py", ["alias"], alias_data, "MacOSLoginItemAliasData",
           "Mac OS com.apple.loginitems.plist Alias information:"),
    simple("amcache.py", ["amcache"], amcache, "WindowsAMCacheFile", "AMCache information:"),
    simple("asl.py", ["asl"], asl, "AppleSystemLogFile", "Apple System Log information:"),
    simple("bookmark_data.py", ["bookmark"], bookmark_data, "MacOSBackgroundItemBookmarkData",
           "Mac OS backgrounditems.btm bookmark information:"),
    simple("bsm.py", ["bsm"], bsm, "BSMEventAuditingFile", "BSM event auditing information:"),
    Tool("chrome_cache.py", ["chrome_cache", "chrome_index"], read_chrome_cache),
    Tool("cpio.py", ["cpio"], read_cpio),
    simple("cups_ipp.py", ["cups_ipp"], cups_ipp, "CupsIppFile",
           "CUPS Internet Printing Protocol (IPP) information:"),
    simple("detection_history.py", ["detection"], detection_history,
           "WindowsDefenderScanDetectionHistoryFile",
           "Windows Defender scan DetectionHistory information:"),
    Tool("firefox_cache1.py", ["firefox_map", "firefox_blocks"], read_firefox),
    simple("fseventsd.py", ["fseventsd"], fseventsd, "FseventsFile",
           "MacOS fseventsd information:"),
    simple("gzipfile.py", ["gzip"], gzipfile, "GZipFile", "GZip information:"),
    Tool("indexeddb.py", ["indexeddb"], read_indexeddb, image=True),
    Tool("job.py", ["job"], read_job),
    Tool("jump_list.py", ["automatic", "custom"], read_jump_list, image=True),
    Tool("keychain.py", ["keychain"], read_keychain, options=((), ("-c",))),
    Tool("leveldb.py", ["leveldb_table", "leveldb_log", "leveldb_descriptor"], read_leveldb,
         image=True, rename={
             "leveldb_descriptor": ["MANIFEST-000001", "MANIFEST-1234567", "MANIFEST-999999"],
         }),
    Tool("recycle_bin.py", ["recycle_bin"], read_recycle_bin),
    simple("recycler.py", ["recycler"], recycler, "RecyclerInfo2File",
           "Recycler INFO2 file information:"),
    Tool("rp_change_log.py", ["rp_change_log"], read_change_log),
    simple("rp_log.py", ["rp_log"], rp_log, "RestorePointLogFile",
           "Windows Restore Point rp.log information:"),
    simple("safari_cookies.py", ["safari_cookies"], safari_cookies, "BinaryCookiesFile",
           "Safari Cookies information:"),
    Tool("spotlight_storedb.py", ["spotlight"], read_spotlight, options=((), ("-i",)),
         image=True),
    simple("systemd.py", ["systemd"], systemd, "SystemdJournalFile",
           "Systemd journal information:"),
    simple("tzif.py", ["tzif"], tzif, "TimeZoneInformationFile", "Timezone information:"),
    Tool("unified_logging.py", ["tracev3", "tracev3", "dsc", "uuidtext", "timesync"],
         read_logging, options=((), ("--format", "json"), ("--format", "text")), image=True),
    Tool("usn_journal.py", ["usn"], read_usn),
    Tool("utmp.py", ["utmp", "utmpx"], read_utmp),
    Tool("wemf.py", ["emf", "wmf"], read_wemf),
    Tool("wmi_repository.py", ["wmi_repository", "wmi_rep"], read_wmi, options=(
        (), ("--output_mode", "index"), ("--output_mode", "namespaces"),
        ("--output_mode", "instances"), ("--output_mode", "debug"),
    )),
]
ALL_SCRIPTS = sorted([t.script for t in TOOLS] + [
    "analyzer.py", "decode_nskeyedarchiver_plist.py", "prefetch_hash.py",
])
REQUIRED = (
    [f"tool:{tool.script:s}" for tool in TOOLS] + [f"debug:{tool.script:s}" for tool in TOOLS]
    + [f"usage:{name:s}" for name in ALL_SCRIPTS] + [f"process:{name:s}" for name in ALL_SCRIPTS]
    + [f"image:{tool.script:s}" for tool in TOOLS if tool.image]
    + [f"shortcut:{name:s}" for name in shell.ITEMS]
    + [f"shortcut:block_0x{kind:08x}" for kind in shell.BLOCKS]
    + ["prefetch", "map-header", "missing-file", "help", "many-values", "debug-values",
       "back-end", "analyzer", "hash", "hash:gzip", "hash:bz2", "hash:lzma", "hash:archives"]
)


def place(rng, ctx, tool):
    kind, sample = tool.sample(rng)
    directory = os.path.join(ctx.scratch, "input")
    shutil.rmtree(directory, ignore_errors=True)
    path = sample.write(directory)
    name = (tool.rename or {}).get(kind.name)
    if name:
        name = rng.choice(name)
        renamed = os.path.join(os.path.dirname(path), name)
        os.rename(path, renamed)
        path = renamed
    if kind.name == "firefox_blocks" and not os.path.basename(path).startswith("_CACHE_00"):
        renamed = os.path.join(os.path.dirname(path), "_CACHE_001_")
        os.rename(path, renamed)
        path = renamed
    if kind.name == "wmi_rep":
        path = os.path.dirname(path)
    elif tool.script == "wmi_repository.py" and rng.random() < 0.3:
        # The tree of the index instead of the repository.
        trees = [name for name in os.listdir(path) if name.lower() == "index.btr"]
        if trees:
            path = os.path.join(path, trees[0])
            ctx.count("wmi-index")
    for name, data in sample.files.items():
        if len(data) < 100000:
            ctx.keep_input(name, data)
    return kind, sample, path, directory


def choose_options(rng, tool, path):
    options = list(rng.choice(tool.options))
    if "-i" in options:
        parser = spotlight_storedb.SpotlightStoreDatabaseFile()
        parser.Open(path)
        known = [i for i in getattr(parser, "_record_descriptors", {}) if isinstance(i, int)]
        parser.Close()
        options.append(str(rng.choice(known + [0, 1, 2, 99999999999])))
        ctx_note = options[-1]
        if ctx_note.startswith("-"):
            options[-1] = "1"
    return options


def accepted(kind, sample, path, tool, options):
    """Whether the library accepts the input."""
    try:
        tool.read(path, False, mon.NullWriter(), options)
        return True
    except (errors.ParseError, OSError):
        return False


def tool_family(tool):
    def function(rng, ctx):
        kind, sample, path, _ = place(rng, ctx, tool)
        options = choose_options(rng, tool, path)
        if not accepted(kind, sample, path, tool, options):
            ctx.count("refused")
            return
        expected = tool.read(path, False, mon.NullWriter(), options)
        plain = success(tool.script, *options, path)
        if callable(expected):
            expected(plain)
        else:
            same_text(plain, expected, tool.script)
        ctx.count(f"tool:{tool.script:s}")
        if plain.count("\n") > 20:
            ctx.count("many-values")
        if rng.random() < 0.5:
            writer = mon.Writer()
            tool.read(path, True, writer, options)
            loud = success(tool.script, "-d", *options, path)
            text = writer.text()
            if len(text) < 400000 and not interleaving(loud, plain, text):
                raise Violation(
                    f"{tool.script:s} -d: {len(loud):d} characters of output instead of "
                    f"{len(text):d} of the library and {len(plain):d} of the tool: "
                    f"{difference(loud, text)!r:.400}", f"debug-{tool.script:s}",
                )
            ctx.count(f"debug:{tool.script:s}")
            if text:
                ctx.count("debug-values")
        ctx.sample({"tool": tool.script, "options": options, "output": plain[:200]})
        ctx.seen(repr((tool.script, options, sorted(sample.files.items()))))

    return function


def difference(found, expected):
    """The first line of the expected text that is not found."""
    lines = collections.Counter(found.splitlines())
    for line in expected.splitlines():
        if not lines[line]:
            return line
        lines[line] -= 1
    return ""


def images(rng, ctx):
    """Tools that read from a file system image."""
    tool = rng.choice([t for t in TOOLS if t.image])
    kind, sample, path, directory = place(rng, ctx, tool)
    options = choose_options(rng, tool, path)
    if not accepted(kind, sample, path, tool, options):
        return
    files = {}
    for parent, _, names in os.walk(directory):
        for name in names:
            item = os.path.join(parent, name)
            with open(item, "rb") as file_object:
                files["Data/" + os.path.relpath(item, directory)] = file_object.read()
    image = fat.Image(files).write()
    if len(image) > 8 << 20 or not all(name.isascii() for name in files):
        return
    # Without a back-end keeping what it read of the image of another case.
    image_path = os.path.join(ctx.scratch, f"image{ctx.index:d}.raw")
    with open(image_path, "wb") as file_object:
        file_object.write(image)
    native = success(tool.script, *options, path)
    inner = ["", "Data", *os.path.relpath(path, directory).split(os.sep)]
    image = ["--image", image_path]
    if rng.random() < 0.5:
        inner = "\\".join(inner)
    else:
        # The separator of libtsk.
        image += ["--back_end", "TSK"]
        inner = "/".join(inner)
        ctx.count("back-end")
    # The choice of a back-end is kept for the duration of a process.
    result = process(tool.script, *image, *options, inner)
    if result.returncode != 0:
        raise Violation(
            f"{tool.script:s} {' '.join(image[2:]):s}: exit status {result.returncode:d}: "
            f"{result.stderr[-300:]!r}", f"image-{tool.script:s}",
        )
    found = result.stdout.decode("utf-8")
    if found != native and sorted(tidy(found)) != sorted(tidy(native)):
        raise Violation(
            f"{tool.script:s}: {difference(found, native)!r:.300} not shown with --image",
            f"image-{tool.script:s}",
        )
    status, output, _ = run(tool.script, "--image", image_path)
    if status == 0 or "usage:" not in output:
        raise Violation(
            f"{tool.script:s} --image without source: status {status!r}, {output[:200]!r}",
            "image-without-source",
        )
    ctx.count(f"image:{tool.script:s}")
    ctx.seen(repr((tool.script, "image", options, sorted(files.items()))))


def cpio_hash(rng, ctx):
    """The hashes of the files of one or more archives, such as an initrd."""
    data, expected = b"", []
    complete = True
    number = rng.choice([1, 1, 2, 3])
    for index in range(number):
        case = cp.make(rng)
        while "trailers" not in case.features:
            case = cp.make(rng)
        content = case.data[:case.more["size"]]
        if case.data[case.more["size"]:] and rng.random() < 0.3 and index == number - 1:
            content = case.data
        compression = rng.choice([None, gzip.compress, bz2.compress, lzma.compress])
        if compression and index == number - 1:
            data += compression(content)
            ctx.count(f"hash:{compression.__module__:s}")
        else:
            data += content
            complete = len(content) == case.more["size"]
            if index < number - 1 or rng.random() < 0.3:
                data += bytes(-len(data) % 16)
            ctx.count("hash:archive")
        lines = [
            (metadata["path"], hashlib.sha256(content).hexdigest())
            for metadata, content in case.more["entries"] if content
        ]
        expected += [f"{digest:s}\t{path:s}" for path, digest in sorted(lines)]
    if number > 1:
        ctx.count("hash:archives")
    path = os.path.join(ctx.scratch, "initrd")
    with open(path, "wb") as file_object:
        file_object.write(data)
    found = success("cpio.py", "--hash", path)
    ctx.keep_input("initrd", data)
    if not complete:
        # Whether data that follows the archives is reported is not part of the property.
        found = "\n".join(line for line in found.splitlines() if "Unsupported" not in line)
    same_text(found, "\n".join(expected), "cpio.py --hash")
    ctx.count("hash")
    ctx.seen(hashlib.sha256(data).hexdigest())


def map_header(rng, ctx):
    """The streams map files of a Spotlight store."""
    _, sample, path, directory = place(rng, ctx, next(t for t in TOOLS if t.script == "spotlight_storedb.py"))
    headers = sorted(glob.glob(os.path.join(directory, "*.map.header")))
    if not headers:
        return
    path = rng.choice(headers)
    if rng.random() < 0.3:
        # The name of the files in capitals.
        for suffix in ("header", "offsets", "data"):
            if os.path.exists(path[:-10] + "map." + suffix):
                os.rename(path[:-10] + "map." + suffix, path[:-10] + "MAP." + suffix)
        path = path[:-10] + "MAP.header"
        ctx.count("map-capitals")
    try:
        read_spotlight(path, False, mon.NullWriter(), [])
    except (errors.ParseError, OSError):
        return
    plain = success("spotlight_storedb.py", path)
    writer = mon.Writer()
    read_spotlight(path, True, writer, [])
    loud = success("spotlight_storedb.py", "-d", path)
    if not interleaving(loud, plain, writer.text()):
        raise Violation("spotlight_storedb.py -d of a map header", "debug-map-header")
    ctx.count("map-header")
    ctx.seen(repr(sorted(sample.files.items())))


def usage(rng, ctx):
    """Tools without a source or with one that does not exist."""
    for script in ALL_SCRIPTS:
        status, output, failure = run(script)
        if status != 1 or failure or "usage:" not in output or "missing" not in output.lower():
            raise Violation(
                f"{script:s} without arguments: status {status!r}, {failure!r}, {output[:200]!r}",
                f"usage-{script:s}",
            )
        status, output, failure = run(script, "--help")
        if status != 0 or failure or "usage:" not in output:
            raise Violation(f"{script:s} --help: status {status!r}", f"help-{script:s}")
        ctx.count("help")
        if script not in ("analyzer.py", "prefetch_hash.py"):
            missing = os.path.join(ctx.scratch, f"missing{rng.randrange(1000):d}")
            if script == "firefox_cache1.py":
                missing = os.path.join(missing, "_CACHE_MAP_")
            status, _, _ = run(script, missing)
            if status == 0:
                raise Violation(f"{script:s} of missing file: status 0", f"missing-{script:s}")
            ctx.count("missing-file")
        status, _, _ = run(script, "--no-such-option")
        if status == 0:
            raise Violation(f"{script:s} --no-such-option: status 0", f"option-{script:s}")
        ctx.count(f"usage:{script:s}")
    ctx.seen(rng.random())


def process(*arguments):
    return subprocess.run(
        [sys.executable, os.path.join(SCRIPTS, arguments[0]), *arguments[1:]],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, check=False,
        env={**os.environ, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"},
    )


def processes(rng, ctx):
    """A tool as a process."""
    index = ctx.index % len(ALL_SCRIPTS)
    script = ALL_SCRIPTS[index]
    result = process(script)
    if result.returncode != 1 or b"usage:" not in result.stdout:
        raise Violation(
            f"{script:s} without arguments: status {result.returncode:d}", f"usage-{script:s}"
        )
    tool = next((t for t in TOOLS if t.script == script), None)
    if tool:
        kind, sample, path, _ = place(rng, ctx, tool)
        options = choose_options(rng, tool, path)
        if not accepted(kind, sample, path, tool, options):
            return
        if rng.random() < 0.4:
            options.insert(0, "-d")
        plain = success(script, *options, path)
        result = process(script, *options, path)
        if result.returncode != 0 or result.stdout.decode("utf-8") != plain:
            raise Violation(
                f"{script:s} as a process: status {result.returncode:d}, "
                f"{result.stderr[-300:]!r}", f"process-{script:s}",
            )
        missing = process(script, os.path.join(ctx.scratch, "missing"))
        if missing.returncode == 0:
            raise Violation(f"{script:s} of missing file: status 0", f"missing-{script:s}")
    ctx.count(f"process:{script:s}")
    ctx.seen(rng.random())


def shortcuts(rng, ctx):
    """The shell items and data blocks of the shortcuts in a jump list."""
    data, expected, features = shell.make_custom(rng)
    path = ctx.path("shortcuts.customDestinations-ms", data)
    lines = tidy(success("jump_list.py", path))
    lines = [line.replace("Accesss time", "Access time") for line in lines]
    expected = [" ".join(line.split()) for line in expected]
    for number, (found, wanted) in enumerate(zip(lines, expected)):
        if found != wanted:
            raise Violation(
                f"jump_list.py: line {number:d} is {found!r} instead of {wanted!r}", "shortcut"
            )
    mon.check_equal(len(lines), len(expected), "jump_list.py: number of lines", "shortcut")
    for name in features:
        ctx.count(f"shortcut:{name}")
    ctx.seen(hashlib.sha256(data).hexdigest())


def prefetch_hash(rng, ctx):
    for _ in range(20):
        path = "\\" + "".join(
            rng.choice("ABCxyz\\. é0") for _ in range(rng.randint(1, 40))
        )
        lines = tidy(success("prefetch_hash.py", path))
        mon.check_equal(lines, [
            "Windows Prefetch hashes:",
            f"Windows XP : 0x{prefetch.CalculatePrefetchHashXP(path):08x}",
            f"Windows Vista : 0x{prefetch.CalculatePrefetchHashVista(path):08x}",
            f"Windows 2008 : 0x{prefetch.CalculatePrefetchHash2008(path):08x}",
        ], "prefetch_hash.py")
        ctx.count("prefetch")
        ctx.seen(path)


def analyzer(rng, ctx):
    """A virtual hard disk shown by its dtFabric definition."""
    data = bytearray(320 * 1024)
    for _ in range(rng.choice([0, 1, 5])):
        start = rng.randrange(len(data))
        noise = spec.random_bytes(rng, rng.choice([1, 40, 4000]))
        data[start:start + len(noise)] = noise
    del data[320 * 1024:]
    lines = []

    def identifier():
        value = uuid.UUID(int=rng.getrandbits(128))
        return value.bytes_le, str(value)

    def number(bits):
        return rng.choice([0, 1, (1 << bits) - 1, rng.getrandbits(bits)])

    creator = "".join(c for c in spec.random_text(rng, 0, 60) if c >= " ")
    encoded = creator.encode("utf-16-le")
    data[:520] = b"vhdxfile" + encoded + bytes(512 - len(encoded))
    lines += mon.dump("Signature", b"vhdxfile") + [mon.kv("Creator", creator)]
    lines += mon.dump("Unknown1", bytes(data[520:65536]))
    for offset in (65536, 131072):
        names = ("File write", "Data write", "Log")
        guids = [identifier() for _ in names]
        checksum, sequence, log, size, position = [number(b) for b in (32, 64, 16, 32, 64)]
        version = number(16)
        data[offset:offset + 80] = struct.pack(
            "<4sIQ16s16s16sHHIQ", b"head", checksum, sequence, *[g[0] for g in guids], log, version,
            size, position,
        )
        lines += mon.dump("Signature", b"head")
        lines += [
            mon.kv("Checksum", f"0x{checksum:08x}"), mon.kv("Sequence number", sequence),
            *[mon.kv(f"{n:s} identifier", g[1]) for n, g in zip(names, guids)],
            mon.kv("Log format version", log), mon.kv("Format version", version),
            mon.kv("Log size", size), mon.kv("Log offset", f"0x{position:08x}"),
        ]
        lines += mon.dump("Unknown1", bytes(data[offset + 80:offset + 4096]))
    for offset in (196608, 262144):
        count, checksum, unknown = rng.choice([1, 2, 3, 9]), number(32), number(32)
        header = struct.pack("<4sIII", b"regi", checksum, count, unknown)
        data[offset:offset + 16] = header
        lines += mon.dump("Signature", b"regi") + [
            mon.kv("Checksum", f"0x{checksum:08x}"), mon.kv("Number of entries", count),
            mon.kv("Unknown1", unknown), "Entries:",
        ]
        for index in range(count):
            guid, position, size, flag = identifier(), number(64), number(32), number(32)
            start = offset + 16 + index * 32
            data[start:start + 32] = struct.pack("<16sQII", guid[0], position, size, flag)
            lines += [
                f"Entry: {index:d}", mon.kv("Region type identifier", guid[1]),
                mon.kv("Region data offset", f"0x{position:08x}"),
                mon.kv("Region data size", size), mon.kv("Is required flag", flag),
            ]
    path = os.path.join(ctx.scratch, "disk.vhdx")
    with open(path, "wb") as file_object:
        file_object.write(data)
    ctx.keep_input("disk.vhdx", bytes(data))
    output = success("analyzer.py", "vhdx.yaml", path)
    found, reads = mon.split_reads(mon.norm_lines(output))
    mon.check_equal(
        [offset for _, offset, _ in reads], [0, 65536, 131072, 196608, 262144], "analyzer.py reads"
    )
    mon.check_reads(reads, bytes(data))
    mon.compare(found, mon.text_lines(lines), "analyzer.py")
    status, output, _ = run("analyzer.py", "other.yaml", path)
    if status == 0:
        raise Violation("analyzer.py with another definition: status 0", "analyzer-definition")
    status, output, _ = run("analyzer.py", "vhdx.yaml")
    if status == 0 or "usage:" not in output:
        raise Violation("analyzer.py without source: status 0", "usage-analyzer.py")
    ctx.count("analyzer")
    ctx.seen(hashlib.sha256(data).hexdigest())


SLOW = {"chrome_cache.py": 0.3, "wmi_repository.py": 1, "spotlight_storedb.py": 1}
FAMILIES = {
    tool.script[:-3]: (
        tool_family(tool), int(40 * SLOW.get(tool.script, 1)) * min(3, len(tool.options)),
        1000 * min(3, len(tool.options)),
    )
    for tool in TOOLS
}
FAMILIES.update({
    "images": (images, 60, 1500),
    "cpio_hash": (cpio_hash, 60, 2000),
    "analyzer": (analyzer, 20, 500),
    "map_header": (map_header, 30, 500),
    "usage": (usage, 2, 8),
    "processes": (processes, len(ALL_SCRIPTS) * 2, len(ALL_SCRIPTS) * 20),
    "prefetch": (prefetch_hash, 10, 200),
    "shortcuts": (shortcuts, 200, 5000),
})
