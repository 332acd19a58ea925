"""The properties: source of properties.jsonl and of MANIFEST.json."""

NOTE = (
    "Held on every generated execution the monitors observed (counts in the evidence "
    "file); an independent reference encoder and renderer in /verif is trusted, paths "
    "that no generated input drives are not covered."
)
NOTES = (
    "Runtime monitoring: the real parsers run on generated and hostile inputs; oracles "
    "compare their public results and the text they write with independent reference "
    "models. No hooks in /repo are needed."
)
WHY = (
    "The tests parse one or a few sample files per format and mostly assert only that "
    "parsing does not raise; the values reported for other inputs are never compared."
)
TECH = "runtime monitor: reference-model oracle over recorded output and results"


def fmt(identifier, title, statement, everything, files, mech, **more):
    values = {
        "id": identifier,
        "title": title,
        "statement": statement,
        "all": everything,
        "why": WHY,
        "files": files,
        "mech": mech,
        "technique": TECH,
    }
    values.update(more)
    return values


PROPERTIES = [
    fmt(
        "C01",
        "A data range exposes exactly its window of the parent file",
        "For every parent file, window offset and size, and every sequence of seek, read, tell and size operations, a data range (and an archive file entry, which is one) returns exactly the bytes a separate file holding only the window would return, whatever happens to the parent's position in between. It never returns a byte outside the window, and negative offsets, invalid windows and unsupported whence values are refused with an OSError without moving the position.",
        "all parent contents, windows and operation sequences, interleaved with use of the parent and of other ranges on it",
        ["dtformats/data_range.py", "dtformats/cpio.py"],
        [("bounded read and seek", "dtformats/data_range.py: DataRange.read, DataRange.seek")],
        over=["inputs", "histories"],
        why="The tests perform a dozen fixed reads and seeks on one range.",
        technique="runtime monitor: operation histories checked online against an in-memory file model",
    ),
    fmt(
        "C02",
        "Hexadecimal dumps reproduce the dumped bytes exactly",
        "For every byte string, the hexadecimal dump in the debug output can be inverted to exactly those bytes: each line carries the right offset, up to 16 bytes as two groups of eight two-digit values, and the printable ASCII rendering with '.' for every other byte. A run of lines identical to the line before it is abbreviated to a single '...' and the last line is always shown.",
        "all byte strings of any length, including runs of equal lines and partial last lines",
        ["dtformats/data_format.py"],
        [("hex dump", "dtformats/data_format.py: _FormatDataInHexadecimal, _DebugPrintData")],
        why="The tests dump three fixed byte strings.",
    ),
    fmt(
        "C03",
        "Scalar values, dates, addresses and structures are rendered correctly",
        "For every value a field can hold, the rendered text denotes exactly that value: decimal, fixed-width hexadecimal, offset, floating-point, UUID, IPv4 and IPv6 address, byte string, and FILETIME, HFS and POSIX (seconds, microseconds, nanoseconds) timestamps as the correct UTC calendar date with the fraction at full precision, with the not-set and never sentinels named and undisplayable timestamps shown in hexadecimal. A structure is rendered as one line per present field, in definition order, with its description aligned in the value column, and absent fields omitted.",
        "all values of the field types, all structures and descriptions",
        ["dtformats/data_format.py", "dtformats/output_writers.py"],
        [("value formatters", "dtformats/data_format.py: _Format*, _DebugPrint*")],
        why="The tests format one value per formatter.",
    ),
    fmt(
        "C04",
        "Structures are read from exactly the requested bytes or refused",
        "Reading data or a structure at an offset yields the value encoded by exactly the bytes of the file at that offset and reports the number of bytes the structure occupies, for fixed and variable size structures, regardless of the position the file was left at. If any of the bytes are missing, the content does not satisfy the definition, or the underlying read fails, a ParseError is raised and no partial value is returned.",
        "all file contents, offsets, sizes, definitions, truncation points and read faults",
        ["dtformats/data_format.py"],
        [("bounded reads", "dtformats/data_format.py: _ReadData, _ReadStructureFromFileObject, _ReadStructureFromByteStream")],
        over=["inputs", "fault_sequences"],
        why="The tests read two fixed structures.",
        technique="runtime monitor: tracing file object with injected faults, reference codec oracle",
    ),
    fmt(
        "C05",
        "Malformed input ends in a ParseError and always terminates",
        "For every input, however damaged or truncated, opening and reading it with any of the file parsers either succeeds or raises a ParseError (or an OSError for an input the operating system or a container library refuses); no other exception escapes. It always terminates after an amount of work bounded by the size of the input, with and without debug output.",
        "all byte strings, in particular truncations, bit flips, field overwrites, splices and cyclic references of valid files of every supported format",
        ["dtformats/*.py"],
        [("error containment", "dtformats/data_format.py: _ReadData, _ReadStructure*; the read methods of every format")],
        over=["inputs", "configurations"],
        why="The tests only read intact sample files.",
        technique="runtime monitor: exception, operation-count and CPU-budget monitors over mutation fuzzing",
    ),
    fmt(
        "C06",
        "Results do not depend on debug mode, history or other parsers",
        "What a parser reports for a file is a function of the file alone: it is the same with debug output on and off (a damaged file may however be refused with debug output on because of a structure that only debug output reads), on a first and on any later use of the same parser object, and when other files of the same or other formats were opened, failed to parse or are being read in between. Nothing is written to the output writer when debug output is off unless the operation is documented to print.",
        "all interleavings of opening, reading and closing parsers of all formats on valid and damaged files, in both modes",
        ["dtformats/*.py"],
        [("per-object state", "dtformats/data_format.py: BinaryDataFormat.__init__; Open, Close of every format")],
        over=["inputs", "histories", "configurations"],
        why="The tests use a fresh parser object per test and never compare the two modes.",
        technique="runtime monitor: differential oracle over recorded histories of parser use",
    ),
    fmt(
        "C07",
        "Opening and closing keeps the files of others intact",
        "Parsers never modify, create, rename or delete files, use only read access, and close every file they opened themselves on Close, also when parsing failed; a second Open without Close and a Close without Open are refused with an OSError. A file object handed in by the caller (where a parser does not need other files next to it) stays open and usable.",
        "all formats, valid and damaged inputs, and all sequences of Open, ReadFileObject and Close, including failing ones",
        ["dtformats/data_format.py", "dtformats/file_system.py"],
        [("file life cycle", "dtformats/data_format.py: BinaryDataFile.Open, BinaryDataFile.Close")],
        over=["inputs", "histories", "fault_sequences"],
        why="The tests open and close one intact file per format and never look at the file handles.",
        technique="runtime monitor: audit hook over open and file-changing calls, handle ledger",
    ),
    fmt(
        "C08",
        "File system helpers agree on every path",
        "For every path and directory tree the native and the dfVFS file system helper agree on existence, size, content, base name, directory name, path segments and directory listing, joining the segments of a split path gives the same file, and a parser that reads through either helper reports the same. The storage media image options of the tools select exactly the back-ends, partitions, snapshots and volumes given, and a helper is provided if there is exactly one file system.",
        "all directory trees and path strings",
        ["dtformats/file_system.py", "dtformats/dfvfs_helpers.py"],
        [("helpers", "dtformats/file_system.py, dtformats/dfvfs_helpers.py")],
        why="The tests use each helper on one path and never compare them.",
        technique="runtime monitor: differential oracle between the helpers and the operating system",
    ),
    fmt(
        "C09",
        "Format definitions decode every structure as specified",
        "For every structure of every definition file and every combination of field values, mapping the specified on-disk encoding yields exactly those values at the specified sizes, byte orders, signedness and string encodings, and an encoding with a wrong fixed signature or value is refused. The debug definition of a structure names existing fields only, each with the specified description and value representation, in the specified order. A debug definition file is read as it is written, and one with a missing, undefined, repeated or unsupported element is refused with a ParseError.",
        "all structures of all definition files and all values of their fields",
        ["dtformats/*.yaml", "dtformats/yaml_definitions_file.py", "dtformats/data_format.py"],
        [("definitions", "dtformats/*.yaml"), ("debug definitions", "dtformats/yaml_definitions_file.py, ReadDebugInformationFile")],
        why="The build only checks that the files are YAML; the tests decode the structures of the sample files without comparing values, and many structures are never decoded.",
    ),
    fmt(
        "C10",
        "CPIO archives list every entry with its metadata and content",
        "For every archive in binary (either byte order), portable ASCII, new ASCII and new ASCII with checksum format, each file entry is found under its path with the owner, mode, inode, modification time and exactly the content stored in the archive, in archive order and filtered by path prefix, up to the trailer. The hashing tool prints the SHA-256 of every non-empty entry, also for compressed archives.",
        "all archives: entry counts, path and content lengths (padding), field values, formats",
        ["dtformats/cpio.py", "dtformats/cpio.yaml", "scripts/cpio.py"],
        [("file entries", "dtformats/cpio.py: _ReadFileEntry, _ReadFileEntries")],
    ),
    fmt(
        "C11",
        "gzip members are walked and reported completely",
        "For every gzip file of one or more members, with any combination of optional header fields and any content including empty and highly compressible data, every member's header values, optional file name and comment, and footer (checksum and size) are reported in order from their exact position; a member with an unsupported signature or compression method is refused with a ParseError.",
        "all member sequences, optional header fields, content and compression levels",
        ["dtformats/gzipfile.py", "dtformats/gzipfile.yaml"],
        [("member walk", "dtformats/gzipfile.py: ReadFileObject, _ReadMember*")],
    ),
    fmt(
        "C12",
        "Time zone files are reported completely in both widths",
        "For every version 1, 2 or 3 time zone information file, all header counts, the 32-bit and, if present, the 64-bit transition times with their local time type indexes, and the remaining tables are reported with the values stored in their own block, including files without transitions.",
        "all time zone files: counts (zero included), values, versions",
        ["dtformats/tzif.py", "dtformats/tzif.yaml"],
        [("block walk", "dtformats/tzif.py: _ReadTimeZoneInformation32bit, _ReadTimeZoneInformation64bit")],
    ),
    fmt(
        "C13",
        "Login records are reported completely and correctly",
        "Every record of a Linux utmp or Mac OS X utmpx file is reported in order with its login type name, process and terminal identifiers, user, terminal and host names, status values, timestamp with microseconds and IPv4 or IPv6 address exactly as stored; a utmpx file without its header record is refused with a ParseError.",
        "all record sequences and field values",
        ["dtformats/utmp.py", "dtformats/utmp.yaml"],
        [("records", "dtformats/utmp.py: _ReadEntries, _DebugPrintEntry")],
    ),
    fmt(
        "C14",
        "Apple System Log records are followed and resolved completely",
        "For every ASL file, the header and every record reachable from the first-record offset are reported in chain order with all fixed fields, and every string reference (absent, inline or stored elsewhere in the file) and extra name/value field resolves to the stored text; invalid inline strings and record sizes are refused with a ParseError.",
        "all record chains, string placements (inline lengths 0 to 7, stored), extra fields and values",
        ["dtformats/asl.py", "dtformats/asl.yaml", "dtformats/asl.debug.yaml"],
        [("records and strings", "dtformats/asl.py: _ReadRecord, _ReadRecordString")],
    ),
    fmt(
        "C15",
        "BSM audit records are decoded token by token",
        "For every BSM event auditing file, each record is reported from header to trailer with every token decoded according to its type (values, counts, strings, addresses and names of event and network types), tokens follow each other without gap or overlap, and records with an unsupported token, size mismatch or bad trailer are refused with a ParseError.",
        "all sequences of records and tokens of all supported types and field values",
        ["dtformats/bsm.py", "dtformats/bsm.yaml", "dtformats/bsm.debug.yaml"],
        [("token walk", "dtformats/bsm.py: _ReadRecord, _ReadToken")],
    ),
    fmt(
        "C16",
        "Windows recycle bin metadata is reported correctly",
        "For every $I metadata file of format 1 or 2 the original size, deletion time and original file name are reported as stored, and for every INFO2 file the header and each entry's index, drive, deletion time, size and ANSI (and, when present, Unicode) original name are reported in order; unsupported versions and entry sizes are refused with a ParseError.",
        "all field values, file names and entry counts",
        ["dtformats/recycle_bin.py", "dtformats/recycler.py", "dtformats/recycle_bin.yaml", "dtformats/recycler.yaml"],
        [("decoding", "dtformats/recycle_bin.py, dtformats/recycler.py: ReadFileObject")],
    ),
    fmt(
        "C17",
        "Restore point logs are decoded completely",
        "For every change.log file the volume path and each change entry (type and flag names, attributes, sequence number, process name and its sub records) are reported in order and made available as entries, and for every rp.log file the event, restore point type, sequence number, description and creation time are reported; inconsistent record sizes, types or signatures are refused with a ParseError.",
        "all entry sequences, sub record combinations and field values",
        ["dtformats/rp_change_log.py", "dtformats/rp_log.py", "dtformats/rp_change_log.yaml", "dtformats/rp_log.yaml"],
        [("entries", "dtformats/rp_change_log.py: _ReadChangeLogEntry, _ReadRecord"), ("log", "dtformats/rp_log.py")],
    ),
    fmt(
        "C18",
        "Safari cookies are reported completely",
        "For every binary cookies file, every page and every cookie record is reported in order with flags, expiration and creation times and the URL, name, path and value strings at their stored offsets, absent strings as empty.",
        "all page and record layouts, string placements and field values",
        ["dtformats/safari_cookies.py", "dtformats/safari_cookies.yaml"],
        [("pages and records", "dtformats/safari_cookies.py: _ReadPage, _ReadRecord")],
    ),
    fmt(
        "C19",
        "File system event logs are decoded page by page",
        "For every gzip-compressed disk log stream of one or more version 1 or 2 pages, every page header and every event record (path, event identifier, flags and, in version 2, node identifier) is reported in order and nothing is read past a page's end.",
        "all page sequences, record counts, paths and field values",
        ["dtformats/fseventsd.py", "dtformats/fseventsd.yaml"],
        [("pages", "dtformats/fseventsd.py: ReadFileObject")],
    ),
    fmt(
        "C20",
        "CUPS IPP attributes are decoded by their tag",
        "For every IPP control file, the header and every attribute of every group are reported in order with name, tag and the value decoded according to the tag (integer, enum, boolean, date and time, text in the announced character set, keyword-like strings), up to the end-of-attributes tag; unsupported delimiter tags and boolean values are refused with a ParseError.",
        "all attribute sequences, tags, values and character sets",
        ["dtformats/cups_ipp.py", "dtformats/cups_ipp.yaml"],
        [("attributes", "dtformats/cups_ipp.py: _ReadAttributesGroup, _ReadAttribute")],
    ),
    fmt(
        "C21",
        "Windows task jobs are decoded completely",
        "For every .job file, the fixed-length section, the variable-length section with all its strings and data, and every trigger are reported with the values stored, dates and times as stored, and interval and product version text denoting the stored value; a file that ends early is refused with a ParseError.",
        "all field values, strings and trigger counts",
        ["dtformats/job.py", "dtformats/job.yaml", "dtformats/job.debug.yaml"],
        [("sections", "dtformats/job.py")],
    ),
    fmt(
        "C22",
        "Jump lists yield every destination and its shortcut",
        "For every automatic destinations file, every entry of the destination list is reported with all its values and every stored shortcut is yielded under its identifier with its exact data; for every custom destinations file, categories, entries and shortcuts are walked in order to the footer and every shortcut is yielded with its exact data.",
        "all entry counts, versions, paths, categories and shortcuts",
        ["dtformats/jump_list.py", "dtformats/jump_list.yaml"],
        [("entries", "dtformats/jump_list.py")],
    ),
    fmt(
        "C23",
        "Keychain tables, columns and records are decoded by their schema",
        "For every keychain database, the tables described by the schema are available with their columns in order and each table's records carry, for every column, the value stored for that column decoded by the column's type, or no value if absent. A value outside of its record and a schema that does not describe itself or describes an unknown table are refused with a ParseError.",
        "all schemas, record contents, attribute types and absent attributes",
        ["dtformats/keychain.py", "dtformats/keychain.yaml", "dtformats/keychain.debug.yaml"],
        [("schema and records", "dtformats/keychain.py: _ReadRecord*, _ReadTable")],
    ),
    fmt(
        "C24",
        "LevelDB tables, logs and descriptors return every stored entry",
        "For every LevelDB table file, reading its entries yields exactly the keys, sequence numbers, value types and values stored, in order, for any prefix sharing, restart interval, block partition and compression; every record of a log or descriptor file, also when fragmented over blocks, and every tagged descriptor value is reported as stored. Variable-size integers decode to the encoded value for every length, and IndexedDB key prefixes decode to the encoded identifiers.",
        "all key/value sequences, block layouts, compression choices, fragmentations and integer lengths",
        ["dtformats/leveldb.py", "dtformats/indexeddb.py", "dtformats/leveldb.yaml"],
        [("tables", "dtformats/leveldb.py: _ReadTable, _ReadBlock"), ("logs", "dtformats/leveldb.py: LevelDBDatabaseLogFile, LevelDBDatabaseDescriptorFile"), ("keys", "dtformats/indexeddb.py")],
    ),
    fmt(
        "C25",
        "Chrome cache addresses, index and entries are decoded correctly",
        "For every cache address the file type, block number, block count, block file and offsets follow from its bits; for every cache index and block file the header, allocation bitmap and table are reported as stored, and every entry reachable through the index is found with its key, times and addresses. The cache hash equals SuperFastHash for every key.",
        "all address values, index tables, block files, entries and keys",
        ["dtformats/chrome_cache.py", "dtformats/chrome_cache.yaml"],
        [("addresses and entries", "dtformats/chrome_cache.py")],
    ),
    fmt(
        "C26",
        "Firefox cache version 1 maps and metadata are decoded correctly",
        "For every version 1 cache map, the header and every record with its hash, eviction rank and the fields of its data and metadata location are reported as stored; for every cache entry of a block file, whatever the blocks before it contain, the location, times, sizes, request and information are reported as stored.",
        "all map records, location values and entries",
        ["dtformats/firefox_cache1.py", "dtformats/firefox_cache1.yaml"],
        [("maps and entries", "dtformats/firefox_cache1.py")],
    ),
    fmt(
        "C27",
        "Spotlight stores yield every metadata item with its attributes",
        "For every Spotlight store database, the property tables (types, values, indexes) and every record page, compressed or not, are decoded so that each item is found by its identifier with its parent, flags, time and every attribute of every type, as stored; variable-size integers decode to the encoded value for every length. An item with an attribute of an unknown type, or of which the value is invalid or does not fit, is refused with a ParseError.",
        "all property tables, records, attribute types, compression choices and integer lengths",
        ["dtformats/spotlight_storedb.py", "dtformats/spotlight_storedb.yaml"],
        [("pages and records", "dtformats/spotlight_storedb.py")],
    ),
    fmt(
        "C28",
        "systemd journal entries resolve to their field values",
        "For every systemd journal file, the header and every entry reachable through the entry array chain are reported in order, each entry's items resolve to the data objects stored, compressed or not, and every object is reported with its stored values.",
        "all entry arrays, data objects, compression choices and field values",
        ["dtformats/systemd.py", "dtformats/systemd.yaml", "dtformats/systemd.debug.yaml"],
        [("objects", "dtformats/systemd.py")],
    ),
    fmt(
        "C29",
        "USN change records and Defender detections are decoded completely",
        "For every USN journal stream, every version 2 record, at any alignment and after sparse gaps, is reported with the values stored; for every Windows Defender DetectionHistory file each section and threat tracking value is reported in order, decoded by its data type and size.",
        "all record sequences, value types and field values",
        ["dtformats/usn_journal.py", "dtformats/detection_history.py", "dtformats/usn_journal.yaml", "dtformats/detection_history.yaml"],
        [("records", "dtformats/usn_journal.py"), ("values", "dtformats/detection_history.py")],
    ),
    fmt(
        "C30",
        "EMF and WMF records are walked without gap or overlap",
        "For every EMF and WMF file, the header and every record are reported in order with type name, size and data exactly as stored, each record starts where the one before it ended, and the records whose layout is known are decoded to their stored values.",
        "all record sequences, types, sizes and contents",
        ["dtformats/wemf.py", "dtformats/emf.yaml", "dtformats/wmf.yaml"],
        [("record walk", "dtformats/wemf.py")],
    ),
    fmt(
        "C31",
        "WMI repository storage resolves keys to their object records",
        "For every CIM repository, the most recent mapping file is used, every key of the index tree is enumerated exactly once, and each key resolves through the mapping tables to exactly the object record stored, whatever the page layout, tree shape or number of data pages; a key without a matching record, a size mismatch, an invalid page number or data offset, a loop in the index tree and a missing file are refused with a ParseError.",
        "all index trees, mapping tables, page layouts and object sizes",
        ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml"],
        [("index, mapping and object pages", "dtformats/wmi_repository.py")],
    ),
    fmt(
        "C32",
        "CIM class definitions, instances and namespaces decode correctly",
        "For every class definition, its name, super class, qualifiers and properties with data type, index and offset are decoded as stored; an instance decodes, through the class hierarchy, to exactly the stored value of every numeric, boolean, string, date and time, reference and string array property (other arrays and embedded objects are reported without a value), and namespaces and instance references are reported as stored; a missing super class, a loop of super classes, an unsupported type and an offset outside of the data are refused with a ParseError.",
        "all class hierarchies, property types, qualifiers and instance values",
        ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml"],
        [("class and instance decoding", "dtformats/wmi_repository.py: ClassDefinition, Instance, ClassValueDataMap")],
    ),
    fmt(
        "C33",
        "Unified log format strings render as the logging system does",
        "For every format string and argument values, conversion flags, width, precision, length modifiers, literal percent signs and decoder annotations are honoured, each value is rendered by the decoder its annotation names (integers, floating-point, strings, errors, addresses, UUIDs, masks, DNS, location, directory and security types) and missing or private values by their placeholders; nothing raises for a value of an unexpected size.",
        "all format strings, operators, values and value sizes",
        ["dtformats/unified_logging.py", "dtformats/darwin.py", "dtformats/macos_*.yaml", "dtformats/windows_nt.yaml"],
        [("format strings and decoders", "dtformats/unified_logging.py: StringFormatter, FormatStringOperator, *FormatStringDecoder")],
    ),
    fmt(
        "C34",
        "Unified log files yield every log entry with its resolved values",
        "For every tracev3 file with its timesync, uuidtext and shared-cache strings files, every log, signpost, activity, trace, loss, state and simple dump record of every compressed or uncompressed chunk set yields exactly one entry with the timestamp derived from the boot's timesync records, its process, thread, activity, subsystem, category, level and message resolved from the right strings file; string and image lookups resolve to the strings stored.",
        "all chunk sequences, catalog contents, record types, flags and strings files",
        ["dtformats/unified_logging.py", "dtformats/aul_*.yaml"],
        [("chunks and records", "dtformats/unified_logging.py: TraceV3File"), ("strings files", "dtformats/unified_logging.py: DSCFile, UUIDTextFile, TimesyncDatabaseFile")],
    ),
    fmt(
        "C35",
        "Prefetch hashes equal the Windows algorithms for every path",
        "For every path, the three prefetch hash functions return the 32-bit value of the Windows XP, Vista and 2008 scanning algorithms over the upper-cased little-endian UTF-16 path, for every length and character.",
        "all paths",
        ["dtformats/prefetch.py", "scripts/prefetch_hash.py"],
        [("hashes", "dtformats/prefetch.py")],
        why="The tests hash one path.",
    ),
    fmt(
        "C36",
        "Alias and bookmark data is decoded completely",
        "For every Mac OS login item alias record of version 2 or 3 the record and every tagged value is reported as stored, and for every bookmark the header, table of contents and every tagged value reachable from it is reported with the value decoded by its type.",
        "all field values, tagged value types, counts and offsets",
        ["dtformats/alias_data.py", "dtformats/bookmark_data.py", "dtformats/alias_data.yaml", "dtformats/bookmark_data.yaml"],
        [("records and tagged values", "dtformats/alias_data.py, dtformats/bookmark_data.py")],
    ),
    fmt(
        "C37",
        "AMCache entries are collected from every key of the hive",
        "For every AMCache registry hive, each application, program and file key yields exactly one entry carrying the values stored under it, in key order.",
        "all hives with the AMCache key layout",
        ["dtformats/amcache.py"],
        [("key walk", "dtformats/amcache.py")],
    ),
    fmt(
        "C38",
        "Command line tools report what the parsers report",
        "For every valid input each command line tool exits with success and prints what the library reports for it, with debug output exactly the library's debug output, and with a missing or absent argument it prints its usage and exits with failure. The definition analyzer prints every member of the structures of the definition it supports.",
        "all tools, options and valid inputs",
        ["scripts/*.py"],
        [("entry points", "scripts/*.py: Main")],
        over=["inputs", "configurations"],
        why="The scripts have no tests.",
        technique="runtime monitor: process-level oracle over exit status and output of the tools",
    ),
    fmt(
        "C39",
        "NSKeyedArchiver property lists are decoded to the objects that were archived",
        "For every binary or XML property list written by NSKeyedArchiver of a graph of the supported classes (arrays, dictionaries, sets, hash tables, URLs, UUIDs, background item composites) and plain values, the decoder prints as JSON exactly the archived objects: every element, member and root, in order, with values such as 0, false and empty kept, data as URL safe base64 and null references as null. A property list of another archiver or version is refused.",
        "all graphs of objects of the supported classes, with shared objects and back references to a container",
        ["scripts/decode_nskeyedarchiver_plist.py"],
        [("object decoding", "scripts/decode_nskeyedarchiver_plist.py: NSKeyedArchiverDecoder")],
        why="The script has no tests.",
        technique="runtime monitor: reference-model oracle (generated object graphs) over the output of the tool",
    ),
    fmt(
        "C40",
        "Unified logging: the debug output reports every structure as it is stored",
        "For every valid tracev3, shared-cache strings, uuidtext and timesync file the debug output of reading it shows, in the order in which they are read, every chunk, catalog entry, firehose header, tracepoint, activity, trace, loss, log and signpost structure, backtrace, data item, oversize, state dump and simple dump with the value stored of every field, the times derived with the timesync data, and for every tracepoint the strings file, image, format string, sub system, load address and program counter it resolves to; every announced read shows the data at that offset of the file. Reading again, also after having read in part, shows the same.",
        "all files of the layouts the generators produce: every field that does not affect the layout takes any value",
        ["dtformats/unified_logging.py", "dtformats/aul_*.yaml", "dtformats/aul_*.debug.yaml"],
        [("debug output", "dtformats/unified_logging.py: TraceV3File"), ("structures", "dtformats/aul_tracev3.debug.yaml")],
        why="The tests never compare debug output; a field that is shown with the value of another, or not at all, cannot be noticed.",
        technique="runtime monitor: trace checker over the debug output events against an independent walk of the stored bytes",
    ),
    fmt(
        "C41",
        "WMI repositories: the debug output reports every structure as it is stored",
        "For every valid object record of a class definition, instance or registration the debug output of reading it shows every field, qualifier, property, property value, string and dynamic block with the value stored and the offset it is read at. For every repository directory reading an object record shows each objects data page, all its object descriptors and each data segment at its offset in the file, and reading the instances shows every class definition, instance record, instance block and their summaries. For every cim.rep file opening it shows the header, node bins and all node cells with their offset and number, and reading the instances, namespaces and class definitions shows every node visited in the order of the hierarchy; every announced read shows the data at that offset of the file.",
        "all records, repositories and cim.rep files of the layouts the generators produce: every field that does not affect the layout takes any value",
        ["dtformats/wmi_repository.py", "dtformats/wmi_repository.yaml", "dtformats/wmi_repository.debug.yaml"],
        [("records", "dtformats/wmi_repository.py: ClassDefinition, Instance, Registration"), ("nodes", "dtformats/wmi_repository.py: RepositoryFile"), ("pages", "dtformats/wmi_repository.py: ObjectsDataFile")],
        why="The tests never compare debug output, nor do they read a cim.rep file with a hierarchy of classes.",
        technique="runtime monitor: trace checker over the debug output events against an independent walk of the stored bytes",
    ),
]
