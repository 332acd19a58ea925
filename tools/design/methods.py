D={
'C01':"A random history of seek, read, tell and size operations runs on the ranges and on the parent, interleaved; after each operation the result is compared with an `io.BytesIO` of the window (reference model), and the parent records every read so that a byte outside the window would be seen. Bounds: up to 60 operations, 3 ranges, nested ranges.",
'C02':"The dump that the real writer is given is inverted to bytes (elided lines are expanded) and compared; the layout of every line is checked.",
'C03':"Values at and around every boundary (epochs, leap days, sentinels, sign bits) are formatted with each formatter and compared with rational calendar arithmetic and an independent text model; structures with absent and multi-line fields are rendered through `DebugPrintStructureObject`.",
'C04':"The real readers run over a tracing file object: position, requested and returned byte counts are monitored, the structure is compared with the frozen decoder, and a fault (OSError or short read) is injected at a chosen operation. A read that returns fewer bytes than requested has to be refused.",
'C05':"For each of the kinds of input valid, sample and damaged files are read completely; monitors: exception type, CPU time per case (60 s for files of a few kilobytes that take milliseconds; linear-time budget), memory limit. Bounded-progress restatement of termination.",
'C06':"Differential: a fresh parser without debug output is the reference; the same input with debug output, after other inputs on the same object (also after a refused one), and interleaved with other parsers (stepping two generators in a random order) has to give the same result and debug text.",
'C07':"A ledger of opens and closes, the audit hook and the process' descriptor table are compared after every operation of a random open/read/close history, with read errors injected; a directory snapshot shows that nothing was written or removed.",
'C08':"The same generated tree is stored natively, in a TAR or ZIP archive and in a FAT image; the helpers' answers for each path (existing or not, normalized or not) are compared with the tree and with each other, and parsers are run through every helper and compared.",
'C09':"For every structure of every definition file random member values are encoded by the frozen specification and mapped by dtFabric with the repository's definitions, with trailing data, truncated and with damaged fixed values; enumerations are compared number by number; every debug definition is used to render its structure with the expected label and formatting.",
'C10':"Archives in five formats are written, read entry by entry (contents compared, also in pieces) and hashed by the tool.",
'C11':"Members are written bit by bit (own header writer, zlib for the payload) and the reported fields, checksum and content are compared; huge members check the bounded memory path.",
'C12':"Both blocks are written with independent values and compared with what is reported for each.",
'C13':"Records of both platforms are written from a model and every reported attribute compared.",
'C14':"Record chains with absent, inline, stored and shared strings are written; the entries are compared.",
'C15':"Every supported token type is written with random values; the debug output per token is compared with the model, and every event type of the table is compared with the frozen table.",
'C16':"$I (both formats) and INFO2 (both entry sizes) files are written and compared.",
'C17':"rp.log and change.log files are written with all record types and compared.",
'C18':"Cookie files with permuted records and strings are written and compared.",
'C19':"Pages of both versions, compressed with flushes at random places, are written and compared; offsets of the report are those of the uncompressed pages.",
'C20':"Attribute groups with all tags and character sets are written and compared.",
'C21':"Job files with all optional parts are written and compared.",
'C22':"A writer of compound files (FAT, mini FAT, DIFAT) and one of LNK files give both kinds of jump list; destinations and the shortcut data are compared.",
'C23':"A writer of keychains with a random schema gives tables, columns, records; values are compared by their schema type.",
'C24':"Writers of tables (restarts, prefixes, three compressions), logs and descriptors (pages, split records), and of IndexedDB keys; entries are compared, also from two interleaved iterations.",
'C25':"A writer of index and block files (three block sizes, separate files, chains over files); entries, addresses and hashes are compared.",
'C26':"A writer of cache maps and block files (all block sizes, entries over several blocks) and the result compared.",
'C27':"A writer of stores (property pages or streams maps, zlib or LZ4, chained pages) with all attribute kinds; items and attributes are compared.",
'C28':"A writer of journals (hash tables, entry array chains, compressed data) and the resolved entries compared.",
'C29':"Writers of USN streams and DetectionHistory files, records and values compared.",
'C30':"EMF and WMF files are written record by record; the walk (offset, type, size) and the decoded records are compared, by the reads on a tracing file object too.",
'C31':"A writer of repositories (mapping files, index tree, objects over pages) and lookups by key compared.",
'C32':"A writer of class definitions, instances and both repository versions; definitions, resolved inheritance, values and namespaces are compared.",
'C35':"The hash algorithms (XP, Vista, 2008/7) are implemented independently with 32-bit arithmetic and upper-casing by the frozen table.",
'C36':"Alias and bookmark writers with all tags and data types; values compared.",
'C37':"A writer of registry hives gives AMCache files; the collected entries are compared with the keys written.",
'C33':"The catalog of all format strings and decoders is driven two ways: the format string parser and the value decoders directly (every conversion, flag, width, precision and length against glibc's `snprintf` through ctypes, and a model of the named decoders such as UUID, IP addresses, error codes), and end to end through log entries of a TraceV3 file.",
'C34':"A writer of Unified Logging directories (TraceV3 with header, catalog, LZ4 compressed or stored chunk sets, firehose, oversize, simple dump and state dump chunks; UUIDText, DSC and timesync files) keeps the model of every log entry; all attributes of the entries read are compared, with times computed from the timesync records.",
'C38':"Each tool runs in this process (arguments and output redirected) and as a process; its plain output is compared with a text computed from the objects of the library for the same input, its `-d` output has to be an interleaving of the plain output and of the debug output of the library, `--image` with either back-end has to give the native output, and a missing argument or file usage and failure. Shortcuts with every kind of shell item, data block and property value are written and `jump_list.py` compared line by line. `cpio.py --hash` is compared with the contents that the archives (concatenated, compressed) were written from, the definition analyzer with a VHDX header that was written.",
'C39':"A random graph of objects is archived (binary and XML property lists, shared objects, back references) and the JSON that the tool prints is compared with the graph.",
'C40':"A second reader, independent of the code, walks the bytes of generated Unified Logging files (the writer of C34, with every field that does not affect the entries filled at random) and predicts every debug output event: chunk, structure, attribute, data dump, resolved string and image. The events that a recording output writer observed are compared one by one, the announced reads with the bytes at their offsets, times within the bounds of C34; also of reading in part and again, and of strings and timesync files.",
'C41':"A second reader walks the bytes of generated object records, repository directories and cim.rep files (the writers of C31 and C32 with every field that does not affect the values filled at random, and hierarchies of classes with sub classes, instances and names) and predicts the debug output of reading them: all of it, line by line, for object records, the pages and descriptors of an object and a cim.rep file (opened, then its instances, namespaces and class definitions in any order or twice), and as parts in succession for a repository read as a whole, of which the order depends on the index. Announced reads are compared with the bytes at their offsets and dates within the bounds of C03.",
}
