"""What the debug output of a unified logging file has to report.

An independent walk over the bytes of the files a World consists of.
"""

import struct
import uuid

import lz4.block

from vf import mon, ref
from vf.core import Violation
from vf.spec import Struct

TRACE = Struct("aul_tracev3")
DSC = Struct("aul_dsc")
TIMESYNC = Struct("aul_timesync")
UUIDTEXT = Struct("aul_uuidtext")

CHUNKS = {
    0x1000: "Header", 0x6001: "Firehose", 0x6002: "Oversize", 0x6003: "StateDump",
    0x6004: "SimpleDump", 0x600B: "Catalog", 0x600D: "ChunkSet",
}
RECORDS = {0: "Unused", 2: "Activity", 3: "Trace", 4: "Log", 6: "Signpost", 7: "Loss"}
STREAMS = {0: "persist", 1: "special handling", 2: "memory", 4: "signpost"}
LOG_TYPES = {0: "Default", 1: "Info", 2: "Debug", 3: "Useraction", 0x10: "Error", 0x11: "Fault"}
for _high, _scope in ((4, "Thread"), (8, "Process"), (12, "System")):
    for _low, _kind in ((0, "Event"), (1, "Start"), (2, "End")):
        LOG_TYPES[_high << 4 | _low] = f"{_scope} Signpost {_kind}"
STRINGS = {
    0x2: "Strings in uuidtext file by proc_id (0x0002)", 0x4: "Strings in DSC file (0x0004)",
    0x8: "Strings in uuidtext file by reference (0x0008)",
    0xA: "Strings in uuidtext file by identifier (0x000a)", 0xC: "Strings in DSC file (0x000c)",
}
FLAGS = (
    (0x0010, "process identifier (PID) value"), (0x0020, "large offset data"),
    (0x0100, "private data range"), (0x0200, "sub system value"), (0x0400, "rules value"),
    (0x0800, "data reference value"), (0x1000, "backtrace"), (0x8000, "name"),
)


def named(names, digits):
    def show(value):
        text = f"0x{value:0{digits}x}"
        return f"{text} ({names[value]})" if value in names else text
    return show


def tracepoint_flags(value):
    lines = [f"0x{value:04x}"]
    if value & 1:
        lines.append("\tHas current activity identfier (0x0001)")
    if value & 0xE in STRINGS:
        lines.append("\t" + STRINGS[value & 0xE])
    lines += [f"\tHas {name} (0x{bit:04x})" for bit, name in FLAGS if value & bit]
    return "\n".join(lines)


def header_flags(value):
    return "\n".join(
        [f"0x{value:04x}"] + [t for bit, t in ((1, "\t(64bits)"), (2, "\t(is_boot)")) if value & bit]
    )


def posix_seconds(value):
    return ref.posix_time(value)


CUSTOM = {
    "array_of_catalog_sub_system_entries": lambda values: [
        f"\tidentifier: {i:d}, sub_system_offset: {s:d}, category_offset: {c:d}" for i, s, c in values
    ],
    "array_of_catalog_uuid_entries": lambda values: [
        f"\tload address: 0x{address:012x}, size: {size:d}, UUID index: {index:d}, unknown1: 0x{unknown:x}"
        for size, unknown, index, address in values
    ],
    "array_of_decimals": lambda values: ", ".join(str(v) for v in values),
    "array_of_entry_descriptors": lambda values: [
        f"\t[{n:03d}] offset: 0x{offset:08x}, data size: {size:d}" for n, (offset, size) in enumerate(values)
    ],
    "array_of_strings": lambda values: [f"\t[{n:03d}] {v}" for n, v in enumerate(values)],
    "array_of_uuids": lambda values: [f"\t[{n:03d}] {v}" for n, v in enumerate(values)],
    "chunk_tag": named(CHUNKS, 8),
    "data_range": lambda value: f"offset: 0x{value[0]:04x}, size: {value[1]:d}",
    "header_flags": header_flags,
    "log_type": named(LOG_TYPES, 2),
    "posix_time": posix_seconds,
    "record_type": named(RECORDS, 2),
    "signature": ref.stream,
    "timestamp": ref.posix_nano,
    "stream_type": named(STREAMS, 2),
    "tracepoint_flags": tracepoint_flags,
}


class Reader:
    """Reads values from bytes."""

    def __init__(self, data, offset=0):
        self.data = data
        self.offset = offset

    def take(self, size):
        result = self.data[self.offset:self.offset + size]
        if len(result) != size:
            raise AssertionError("walk beyond the data")
        self.offset += size
        return result

    def number(self, code):
        return struct.unpack("<" + code, self.take(struct.calcsize("<" + code)))[0]

    def fields(self, text):
        """name:code pairs; u is an UUID."""
        values = {}
        for item in text.split():
            name, code = item.split(":")
            if code == "u":
                values[name] = uuid.UUID(bytes=self.take(16))
            elif code[0] == "b" and len(code) > 1:
                values[name] = self.take(int(code[1:]))
            else:
                values[name] = self.number(code)
        return values

    def align(self, size=8, base=0):
        return self.take(-(self.offset - base) % size)


def text_of(data):
    return data.split(b"\0", 1)[0].decode("utf-8")


class Walk:
    """The expected debug output; events are lines or tuples that are resolved."""

    def __init__(self, world, files, main):
        self.world = world
        self.data = files[main]
        self.events = []
        self.reads = []
        self.chunk = 1
        self.tally = {}
        self.catalog = None
        self.processes = {}
        self.oversize = {}
        self.paths = {i.uuid: i.path for i in world.images if i.present}
        self.entries = iter([e for e in world.entries if e["kind"] not in ("boot", "sync")])
        self._walk()

    def count(self, label, number=1):
        self.tally[label] = self.tally.get(label, 0) + number

    def line(self, label, value):
        # A value can contain a tab.
        self.events.append(f"{label}\t: {value}")

    def show(self, name, values):
        self.count(name)
        self.events.extend(TRACE.show(name, values, CUSTOM))

    def time(self, value, label="Continuous time"):
        self.events.append(("time", label, value))

    def announce(self, what, offset, size):
        self.reads.append((what, offset, self.data[offset:offset + size]))

    def _chunk_header(self, data):
        values = Reader(data).fields("chunk_tag:I chunk_sub_tag:I chunk_data_size:Q")
        self.show("tracev3_chunk_header", values)
        return values

    def _walk(self):
        data = self.data
        offset = 0
        while offset < len(data):
            self.events.append(f"Chunk: {self.chunk:d}")
            self.chunk += 1
            self.announce("chunk header", offset, 16)
            header = self._chunk_header(data[offset:offset + 16])
            offset += 16
            size = header["chunk_data_size"]
            if header["chunk_tag"] == 0x1000:
                self._header(offset)
            elif header["chunk_tag"] == 0x600B:
                self._catalog(offset, size)
            else:
                self._chunk_set(offset, size)
            offset += size
            offset += -offset % 8
            if header["chunk_tag"] == 0x1000:
                self.start = len(self.events)
                self.start_reads = len(self.reads)

    def _header(self, offset):
        reader = Reader(self.data, offset)
        header = reader.fields(
            "timebase_numerator:I timebase_denominator:I start_time:Q timestamp:i unknown1:I unknown2:I "
            "time_zone_offset:i daylight_savings_flag:I flags:I"
        )
        self.show("tracev3_header_chunk", header)
        values = reader.fields("sub_chunk_tag:I sub_chunk_data_size:I continuous_time:Q")
        self.show("tracev3_header_continuous_time_sub_chunk", values)
        time = values["continuous_time"]
        values = reader.fields(
            "sub_chunk_tag:I sub_chunk_data_size:I unknown1:I unknown2:I build_version:b16 hardware_model:b32"
        )
        for name in ("build_version", "hardware_model"):
            values[name] = text_of(values[name])
        self.show("tracev3_header_system_information_sub_chunk", values)
        self.show("tracev3_header_generation_sub_chunk", reader.fields(
            "sub_chunk_tag:I sub_chunk_data_size:I boot_identifier:u logd_process_identifier:I logd_exit_status:I"
        ))
        values = reader.fields("sub_chunk_tag:I sub_chunk_data_size:I path:b48")
        values["path"] = text_of(values["path"])
        self.show("tracev3_header_time_zone_sub_chunk", values)
        self.announce("header chunk", offset, reader.offset - offset)
        self.time(header["start_time"], "Start time")
        self.time(time, "Continuous sub chunk time")

    def _catalog(self, offset, size):
        reader = Reader(self.data, offset)
        catalog = reader.fields(
            "sub_system_strings_offset:H process_information_entries_offset:H "
            "number_of_process_information_entries:H sub_chunks_offset:H number_of_sub_chunks:H unknown1:b6 "
            "earliest_firehose_timestamp:Q"
        )
        uuids = [
            uuid.UUID(bytes=reader.take(16)) for _ in range(catalog["sub_system_strings_offset"] // 16)
        ]
        strings_data = reader.take(
            catalog["process_information_entries_offset"] - catalog["sub_system_strings_offset"]
        )
        strings, by_offset, position = [], {}, 0
        for string in strings_data.split(b"\0")[:-1]:
            by_offset[position] = string.decode("utf-8")
            strings.append(by_offset[position])
            position += len(string) + 1
        catalog.update(uuids=uuids, sub_system_strings=strings)
        self.announce("Catalog", offset, reader.offset - offset)
        self.show("tracev3_catalog", catalog)
        self.time(catalog["earliest_firehose_timestamp"], "Earliest firehose timestamp")
        self.processes = {}
        listing = []
        for _ in range(catalog["number_of_process_information_entries"]):
            start = reader.offset
            entry = reader.fields(
                "entry_index:H unknown1:H main_uuid_index:h dsc_uuid_index:h proc_id_upper:Q proc_id_lower:I "
                "process_identifier:I effective_user_identifier:I unknown2:I number_of_uuid_entries:I unknown3:I"
            )
            libraries = []
            for _ in range(entry["number_of_uuid_entries"]):
                values = reader.fields("size:I unknown1:I index:H lower:I upper:H")
                libraries.append((
                    values["size"], values["unknown1"], values["index"], values["upper"] << 32 | values["lower"],
                ))
            entry.update(reader.fields("number_of_sub_system_entries:I unknown4:I"))
            sub_systems = [
                (reader.number("H"), reader.number("H"), reader.number("H"))
                for _ in range(entry["number_of_sub_system_entries"])
            ]
            entry.update(
                uuid_entries=libraries, sub_system_entries=sub_systems,
                alignment_padding=reader.align(base=start),
                main_uuid=None if entry["main_uuid_index"] < 0 else uuids[entry["main_uuid_index"]],
                dsc_uuid=None if entry["dsc_uuid_index"] < 0 else uuids[entry["dsc_uuid_index"]],
            )
            self.announce("Process information entry", start, reader.offset - start)
            self.show("tracev3_catalog_process_information_entry", entry)
            entry["libraries"] = [(a, s, uuids[i]) for s, _, i, a in libraries]
            entry["names"] = {}
            for identifier, sub_system, category in sub_systems:
                entry["names"][identifier] = (by_offset.get(sub_system), by_offset.get(category))
                listing.append(
                    f"Identifier: {identifier:d}, Sub system: {by_offset.get(sub_system) or ''}, "
                    f"Category: {by_offset.get(category) or ''}"
                )
            self.processes[entry["proc_id_upper"], entry["proc_id_lower"]] = entry
        if reader.offset < offset + size:
            self.events.extend(mon.dump("Catalog sub chunks data", self.data[reader.offset:offset + size]))
        for _ in range(catalog["number_of_sub_chunks"]):
            start = reader.offset
            values = reader.fields(
                "start_time:Q end_time:Q uncompressed_size:I compression_algorithm:I number_of_indexes:I"
            )
            values["indexes"] = [reader.number("H") for _ in range(values["number_of_indexes"])]
            values["number_of_offsets"] = reader.number("I")
            values["offsets"] = [reader.number("H") for _ in range(values["number_of_offsets"])]
            reader.align(base=start)
            self.announce("Catalog sub chunk", start, reader.offset - start)
            self.show("tracev3_catalog_sub_chunk", values)
            self.time(values["start_time"], "Start time")
            self.time(values["end_time"], "End time")
        self.events.extend(listing)

    def _chunk_set(self, offset, size):
        reader = Reader(self.data, offset)
        block = reader.fields("signature:b4 uncompressed_data_size:I")
        if block["signature"] == b"bv41":
            block["compressed_data_size"] = reader.number("I")
            data = lz4.block.decompress(
                reader.take(block["compressed_data_size"]), uncompressed_size=block["uncompressed_data_size"]
            )
            self.announce("LZ4 block header", offset, 12)
        else:
            data = reader.take(block["uncompressed_data_size"])
            self.announce("LZ4 block header", offset, 8)
        self.show("tracev3_lz4_block_header", block)
        position = 0
        while position < len(data):
            self.events.append(f"Chunk: {self.chunk:d}")
            self.chunk += 1
            header = data[position:position + 16]
            self.events.extend(mon.dump("Chunk header data", header))
            values = self._chunk_header(header)
            position += 16
            body = data[position:position + values["chunk_data_size"]]
            {
                0x6001: self._firehose, 0x6002: self._oversize, 0x6003: self._state, 0x6004: self._simple,
            }[values["chunk_tag"]](body)
            position += len(body)
            position += -position % 8

    def _data_items(self, reader, number):
        items = []
        for _ in range(number):
            item = reader.fields("value_type:B data_size:B")
            data = reader.take(item["data_size"])
            if item["value_type"] in (0x20, 0x21, 0x22, 0x30, 0x32, 0x40, 0x41, 0x42, 0xF2):
                item["value_data_offset"], item["value_data_size"] = struct.unpack("<HH", data)
            else:
                item["data"] = data
            items.append(item)
        return items

    def _oversize(self, body):
        reader = Reader(body)
        values = reader.fields(
            "proc_id_upper:Q proc_id_lower:I ttl:B unknown1:B unknown2:H continuous_time:Q data_reference:I "
            "data_size:H private_data_size:H unknown3:B number_of_data_items:B"
        )
        items = self._data_items(reader, values["number_of_data_items"])
        self.show("tracev3_oversize_chunk", values)
        end = 32 + values["data_size"]
        self.oversize[values["proc_id_upper"], values["proc_id_lower"], values["data_reference"]] = (
            items, body[reader.offset:end], body[end:end + values["private_data_size"]],
        )

    def _process_image(self, process):
        path = self.paths.get(process["main_uuid"])
        if path:
            self.line("Process image identifier", process["main_uuid"])
            self.line("Process image path", path)
            self.count("process-image")

    def _state(self, body):
        reader = Reader(body)
        values = reader.fields(
            "proc_id_upper:Q proc_id_lower:I ttl:B unknown1:B unknown2:H continuous_time:Q activity_identifier:Q "
            "sender_image_identifier:u state_data_type:I state_data_size:I library:b64 decoder_type:b64 title:b64"
        )
        values["title"] = text_of(values["title"])
        values["state_data"] = reader.take(values["state_data_size"])
        self.show("tracev3_statedump_chunk", values)
        next(self.entries)
        self._process_image(self.processes[values["proc_id_upper"], values["proc_id_lower"]])
        self.time(values["continuous_time"])

    def _simple(self, body):
        reader = Reader(body)
        values = reader.fields(
            "proc_id_upper:Q proc_id_lower:I ttl:B log_type:B unknown1:H continuous_time:Q thread_identifier:Q "
            "load_address:Q sender_image_identifier:u dsc_identifier:u unknown2:I sub_system_string_size:I "
            "message_string_size:I"
        )
        values["sub_system_string"] = text_of(reader.take(values["sub_system_string_size"]))
        values["message_string"] = text_of(reader.take(values["message_string_size"]))
        self.show("tracev3_simpledump_chunk", values)
        next(self.entries)
        self._process_image(self.processes[values["proc_id_upper"], values["proc_id_lower"]])
        self.time(values["continuous_time"])

    def _firehose(self, body):
        reader = Reader(body)
        header = reader.fields(
            "proc_id_upper:Q proc_id_lower:I ttl:B collapsed:B unknown1:H public_data_size:H "
            "private_data_virtual_offset:H unknown2:H stream_type:B unknown3:B base_continuous_time:Q"
        )
        self.show("tracev3_firehose_header", header)
        self.time(header["base_continuous_time"], "Base continuous time")
        virtual = header["private_data_virtual_offset"] & 0xFFF
        private = body[len(body) - (4096 - virtual):] if virtual else b""
        proc_id = header["proc_id_upper"], header["proc_id_lower"]
        while reader.offset < 16 + header["public_data_size"]:
            self.events.append(f"Tracepoint: {reader.offset:d}")
            self._tracepoint(reader, proc_id, header["base_continuous_time"], virtual, private)
        rest = body[reader.offset:len(body) - len(private)]
        if rest:
            self.events.extend(mon.dump("Trailing firehose chunk data", rest))
            self.count("trailing")

    def _location(self, reader, flags):
        values = {"load_address_lower": reader.number("I")}
        if flags & 0x20:
            values["large_offset_data"] = reader.number("H")
        kind = flags & 0xE
        if kind == 8:
            values["load_address_upper"] = reader.number("H")
        elif kind == 10:
            values["uuidtext_file_identifier"] = uuid.UUID(bytes=reader.take(16))
        elif kind == 12:
            values["large_shared_cache_data"] = reader.number("H")
        return values

    def _tracepoint(self, reader, proc_id, base_time, virtual, private):
        point = reader.fields(
            "record_type:B log_type:B flags:H format_string_reference:I thread_identifier:Q "
            "continuous_time_lower:I continuous_time_upper:H data_size:H"
        )
        point["data"] = reader.take(point["data_size"])
        point["alignment_padding"] = reader.align()
        self.show("tracev3_firehose_tracepoint", point)
        kind, flags = point["record_type"], point["flags"]
        process = self.processes[proc_id]
        if not kind:
            return
        data = Reader(point["data"])
        values, items = {}, None
        if kind == 7:
            values = data.fields("start_time:Q end_time:Q number_of_messages:Q")
            self.show("tracev3_firehose_tracepoint_loss", values)
        elif kind == 3:
            values = {"load_address_lower": data.number("I"), "number_of_values": point["data"][-1]}
            self.show("tracev3_firehose_tracepoint_trace", values)
        elif kind == 2:
            for bit, name in ((1, "current_activity"), (0x10, "process"), (0x200, "other_activity")):
                if flags & bit:
                    values[f"{name}_identifier"] = data.number("Q")
            if point["log_type"] != 3:
                values["new_activity_identifier"] = data.number("Q")
            values.update(self._location(data, flags))
            self.show("tracev3_firehose_tracepoint_activity", values)
        else:
            if flags & 1:
                values["current_activity_identifier"] = data.number("Q")
            if flags & 0x100:
                values["private_data_range"] = (data.number("H"), data.number("H"))
            values.update(self._location(data, flags))
            if flags & 0x200:
                values["sub_system_identifier"] = data.number("H")
            if kind == 6:
                values["signpost_identifier"] = data.number("Q")
            if flags & 0x400:
                values["ttl"] = data.number("B")
            if flags & 0x800:
                values["data_reference"] = data.number("H")
            if flags & 0x8000:
                values["name_string_reference_lower"] = data.number("I")
                if flags & 0x20:
                    values["name_string_reference_upper"] = data.number("H")
            values.update(data.fields("unknown1:B number_of_data_items:B"))
            items = self._data_items(data, values["number_of_data_items"])
            name = "signpost" if kind == 6 else "log"
            self.show(f"tracev3_firehose_tracepoint_{name}", values)
        entry = next(self.entries)
        self._process_image(process)
        self.time(base_time + (point["continuous_time_upper"] << 32 | point["continuous_time_lower"]))
        self.line(
            "Trace identifier",
            point["format_string_reference"] << 32 | flags << 16 | point["log_type"] << 8 | kind,
        )
        if kind == 7:
            self.time(values["end_time"])
            self.time(values["start_time"])
            return
        large = values.get("large_offset_data") or 0
        shared = values.get("large_shared_cache_data") or 0
        reference = (point["format_string_reference"] & 0x7FFFFFFF) | (shared or large) << 31
        self.line("Calculated format string reference", f"0x{reference:08x}")
        # Where the strings are.
        address = values.get("load_address_upper", 0) << 32 | values["load_address_lower"]
        strings = {
            2: process["main_uuid"], 4: process["dsc_uuid"], 10: values.get("uuidtext_file_identifier"),
            12: process["dsc_uuid"],
        }.get(flags & 0xE)
        if flags & 0xE == 8:
            for start, size, identifier in process["libraries"]:
                if start <= address < start + size:
                    strings = identifier
        if shared and large and large != shared >> 1:
            self.events.append((
                "optional",
                f"Large offset data mismatch stored: (0x{large:04x}, calculated: 0x{shared >> 1:04x})",
            ))
            self.count("mismatch")
            address |= large << 32
        elif shared:
            address |= shared << 31
        else:
            address |= large << 31
        counter = entry["sender_program_counter"]
        text_offset = address - counter
        path = entry["sender_image_path"]
        path = path[0] if isinstance(path, tuple) else path
        if entry["sender_image_identifier"]:
            self.line("Strings file identifier", strings)
            self.line("Image identifier", entry["sender_image_identifier"])
            self.line("Image text offset", f"0x{text_offset:08x}")
            self.line("Image path", path or "")
            self.line("String", entry["format_string"] or "")
            self.count("image")
        if kind != 3:
            values_data = point["data"][data.offset:]
            if values.get("data_reference"):
                found = self.oversize.get((*proc_id, values["data_reference"]))
                if found:
                    items, values_data, private = found
                else:
                    items = None
            if private:
                self.events.extend(mon.dump("Private data", private))
            if flags & 0x1000:
                trace = Reader(values_data)
                backtrace = trace.fields(
                    "unknown1:H unknown2:B number_of_identifiers:B number_of_frames:B unknown3:B"
                )
                backtrace["identifiers"] = [
                    uuid.UUID(bytes=trace.take(16)) for _ in range(backtrace["number_of_identifiers"])
                ]
                frames = range(backtrace["number_of_frames"])
                backtrace["offsets"] = [trace.number("I") for _ in frames]
                backtrace["indexes"] = [trace.number("B") for _ in frames]
                self.show("tracev3_firehose_tracepoint_backtrace_data", backtrace)
            start = values["private_data_range"][0] - virtual if "private_data_range" in values else 0
            for item in items or []:
                shown = dict(item)
                value_type = item["value_type"]
                if "data" not in item:
                    source, begin = values_data, item["value_data_offset"]
                    if value_type in (0x21, 0x41):
                        source, begin = private, begin + start
                    shown["value_data"] = source[begin:begin + item["value_data_size"]]
                elif value_type in (0x00, 0x02, 0x10, 0x12):
                    shown["value_data"] = item["data"]
                self.show("tracev3_data_item", shown)
                self.count(f"item-{value_type:02x}")
        if "sub_system_identifier" in values:
            sub_system, category = process["names"].get(values["sub_system_identifier"], (None, None))
            self.line("Sub system identifier", values["sub_system_identifier"])
            self.line("Category", category)
            self.line("Sub system", sub_system)
        self.line("Load address", f"0x{address:08x}")
        self.line("Image text offset", f"0x{text_offset:08x}")
        self.line("Program counter", f"0x{counter:08x}")
        if kind == 6:
            lower = values.get("name_string_reference_lower") or 0
            reference = (lower & 0x7FFFFFFF) | (values.get("name_string_reference_upper") or 0) << 31
            self.line("Calculated name string reference", f"0x{reference:08x}")
            if reference and strings:
                if shared and large and large != shared >> 1:
                    self.events.append((
                        "optional",
                        f"Large offset data mismatch stored: (0x{large:04x}, calculated: 0x{shared >> 1:04x})",
                    ))
                self.line("Strings file identifier", strings)
                self.events.append(("any", "Image identifier", None))
                self.events.append(("any", "Image text offset", None))
                self.events.append(("any", "Image path", None))
                self.line("String", entry["signpost_name"] or "")
                self.count("name")


def timestamp(world, value, lines, label):
    """Checks the lines of a timestamp."""
    expected = mon.kv(label, value)
    if len(lines) < 3 or lines[0] != expected:
        return f"{lines[:1]!r} instead of {expected!r}"
    prefix, _, number = lines[1].partition(": ")
    try:
        number = int(number)
    except ValueError:
        number = None
    if prefix != "Timestamp" or not world.time_matches(value, number):
        base, numerator, denominator = world.timestamp(value)
        return f"{lines[1]!r} instead of {base + numerator // denominator}"
    prefix, _, text = lines[2].partition(": ")
    if prefix != "Date time" or not ref.check_time(text, number, ref.posix_nano, 1000000000):
        return f"{lines[2]!r} for {number}"
    return None


def compare(world, events, lines, what, partial=False):
    """Compares lines with the events; returns how many lines were compared.

    If partial there can be events after those of the lines.
    """
    position = 0

    def fail(message):
        context = "\n".join(lines[max(0, position - 4):position + 3])
        raise Violation(f"{what}: {message} after line {position}\n{context}", "debug-output")

    for event in events:
        if partial and position >= len(lines):
            return position
        if isinstance(event, str):
            for expected in mon.text_lines([event]):
                found = lines[position] if position < len(lines) else None
                if found != expected:
                    fail(f"{found!r} instead of {expected!r}")
                position += 1
        elif event[0] == "time":
            difference = timestamp(world, event[2], lines[position:position + 3], event[1])
            if difference:
                fail(difference)
            position += 3
        elif event[0] == "optional":
            if position < len(lines) and lines[position] == event[1]:
                position += 1
        else:
            if position >= len(lines) or not lines[position].startswith(event[1] + ":"):
                fail(f"{lines[position:position + 1]!r} instead of {event[1]}")
            position += 1
    if position != len(lines):
        fail(f"{len(lines) - position} further lines")
    return position


def dsc(data):
    """What is shown of a shared-cache strings file."""
    reader = Reader(data)
    header = reader.fields(
        "signature:b4 major_format_version:H minor_format_version:H number_of_ranges:I number_of_uuids:I"
    )
    lines = DSC.show("dsc_file_header", header, CUSTOM)
    version_1 = header["major_format_version"] == 1
    for _ in range(header["number_of_ranges"]):
        lines += DSC.show("dsc_range_descriptor", reader.fields(
            "uuid_descriptor_index:I range_offset:I data_offset:I range_size:I" if version_1
            else "range_offset:Q data_offset:I range_size:I uuid_descriptor_index:Q"
        ), CUSTOM)
    for _ in range(header["number_of_uuids"]):
        values = reader.fields(
            f"text_offset:{'I' if version_1 else 'Q'} text_size:I image_identifier:u path_offset:I"
        )
        lines += DSC.show("dsc_uuid_descriptor", values, CUSTOM)
        lines.append(f"Image path\t: {text_of(data[values['path_offset']:])}")
    return lines


def uuidtext(data):
    """What is shown of an uuidtext file."""
    reader = Reader(data)
    header = reader.fields("signature:b4 major_format_version:I minor_format_version:I number_of_entries:I")
    header["entry_descriptors"] = [
        (reader.number("I"), reader.number("I")) for _ in range(header["number_of_entries"])
    ]
    lines = UUIDTEXT.show("uuidtext_file_header", header, CUSTOM)
    reader.take(sum(size for _, size in header["entry_descriptors"]))
    return lines + UUIDTEXT.show("uuidtext_file_footer", {"image_path": text_of(data[reader.offset:])}, CUSTOM)


def timesync(data):
    """What is shown of a timesync file."""
    reader = Reader(data)
    lines = []
    while reader.offset < len(data):
        if data[reader.offset:reader.offset + 2] == b"Ts":
            lines += TIMESYNC.show("timesync_sync_record", reader.fields(
                "signature:b2 record_size:H unknown1:I kernel_time:Q timestamp:q time_zone_offset:i "
                "daylight_saving_flag:I"
            ), CUSTOM)
        else:
            lines += TIMESYNC.show("timesync_boot_record", reader.fields(
                "signature:b2 record_size:H unknown1:I boot_identifier:u timebase_numerator:I "
                "timebase_denominator:I timestamp:q time_zone_offset:i daylight_saving_flag:I"
            ), CUSTOM)
    return lines
