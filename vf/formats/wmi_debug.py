"""What the debug output of a WMI repository has to report.

Independent walks over the bytes of object records and of a cim.rep file.
"""

import struct

from vf import mon, ref
from vf.formats.aul_debug import Reader
from vf.formats.wmi import NAMES, SCALARS
from vf.spec import Struct

S = Struct("wmi_repository")

TYPES = {
    0x02: "SINT16", 0x03: "SINT32", 0x04: "REAL32", 0x05: "REAL64", 0x08: "STRING", 0x0B: "BOOLEAN",
    0x0D: "OBJECT", 0x10: "SINT8", 0x11: "UINT8", 0x12: "UINT16", 0x13: "UINT32", 0x14: "SINT64",
    0x15: "UINT64",
}
CIM_TYPES = {number: f"CIM-TYPE-{name}" for number, name in TYPES.items()}
CIM_TYPES.update({0x2000 | number: f"CIM-ARRAY-{name}" for number, name in TYPES.items()})
CIM_TYPES.update({0x65: "CIM-TYPE-DATETIME", 0x66: "CIM-TYPE-REFERENCE", 0x67: "CIM-TYPE-CHAR16"})

kv = mon.kv
CUSTOM = {"offset": ref.offset}


def data_type(value):
    return f"0x{value:08x} ({CIM_TYPES[value]})"


def cim_string(data, offset):
    """Returns (flags, text)."""
    return data[offset], data[offset + 1:].split(b"\0", 1)[0].decode("cp1252")


def string_lines(label, data, offset):
    flags, value = cim_string(data, offset)
    return [kv(f"{label} string flags", f"0x{flags:02x}"), kv(f"{label} string", value)], value


def name_lines(label, data, offset):
    if offset & 0x80000000:
        index = offset & 0x7FFFFFFF
        name = NAMES.get(index, f"UNKNOWN_{index:d}")
        return [kv(f"{label} index", index), kv(label, name)], name
    return string_lines(label, data, offset)


def scalar(kind, data):
    name, size, code = SCALARS[kind]
    value = struct.unpack("<" + code, data[:size])[0]
    return value == 0xFFFF if name == "boolean" else value


class ClassBlock:
    """A class definition block: expected debug output and what it defines."""

    def __init__(self, data, offset):
        self.lines = [f"Reading class definition block at offset: {offset:d} (0x{offset:08x})."]
        out = self.lines
        reader = Reader(data)
        unknown, name_offset, default_size, parent_size = struct.unpack("<BIII", reader.take(13))
        out += [
            kv("Unknown1", unknown), kv("Name offset", ref.offset(name_offset)),
            kv("Default value size", default_size), kv("Super class name block size", parent_size),
        ]
        parent = reader.take(parent_size - 4)
        out += mon.dump("Super class name block data", parent)
        qualifiers_size = reader.number("I")
        qualifiers_offset = offset + reader.offset
        out.append(kv("Qualifiers block size", qualifiers_size))
        qualifiers = reader.take(qualifiers_size - 4)
        out += mon.dump("Qualifiers block data", qualifiers)
        number = reader.number("I")
        out += [kv("Number of property descriptors", number), "Property descriptors:"]
        descriptors = [(reader.number("I"), reader.number("I")) for _ in range(number)]
        for index, (name, definition) in enumerate(descriptors):
            out.append(kv(f"    Property descriptor: {index:d} name offset", ref.offset(name)))
            out.append(kv(f"    Property descriptor: {index:d} definition offset", ref.offset(definition)))
        out += mon.dump("Default value data", reader.take(default_size))
        size = reader.number("I")
        out.append(kv("Values data size", f"{size & 0x7FFFFFFF:d} (0x{size:08x})"))
        self.values_offset = offset + reader.offset
        self.values = reader.take(size & 0x7FFFFFFF)
        out += mon.dump("Values data", self.values)
        some, self.name = string_lines("Class name", self.values, name_offset)
        out += some
        self.parent = None
        if parent_size > 4:
            some, self.parent = string_lines("Super class name", parent, 0)
            out += some
        self.qualifiers = {}
        if qualifiers_size > 4:
            self.qualifiers = self._qualifiers(qualifiers, qualifiers_offset)
        self.properties = {}
        out.append("Reading class definition properties.")
        for index, (name_offset, definition_offset) in enumerate(descriptors):
            some, name = name_lines(f"Property: {index:d} name", self.values, name_offset)
            out += some
            out.append(f"Property: {index:d} definition:")
            part = Reader(self.values, definition_offset)
            kind, position, place, level, size = struct.unpack("<IHIII", part.take(18))
            raw = part.take(size - 4)
            out += [
                kv("  Value data type", data_type(kind)), kv("  Index", position),
                kv("  Value data offset", ref.offset(place)), kv("  Level", level),
                kv("  Qualifiers block size", size),
                *mon.dump("  Qualifiers block data", raw),
            ]
            qualifiers = self._qualifiers(raw, self.values_offset + definition_offset + 18)
            self.properties[name] = (kind, position, place, qualifiers)

    def _qualifiers(self, data, offset):
        out = self.lines
        out.append(f"Reading qualifiers at offset: {offset:d} (0x{offset:08x}).")
        reader = Reader(data)
        result = {}
        index = 0
        while reader.offset < len(data):
            name_offset, unknown, kind = struct.unpack("<IBI", reader.take(9))
            out += [
                kv("Name offset", ref.offset(name_offset)), kv("Unknown1", f"0x{unknown:02x}"),
                kv("Value data type", data_type(kind)),
            ]
            value = None
            if kind in SCALARS:
                value = scalar(kind, reader.take(SCALARS[kind][1]))
                out.append(kv("Value", f"{value:f}" if isinstance(value, float) else f"{value:d}"))
            else:
                place = reader.number("I")
                out.append(kv("Value offset", ref.offset(place)))
            some, name = name_lines(f"Qualifier: {index:d} name", self.values, name_offset)
            out += some
            if kind == 8:
                some, value = string_lines(f"Qualifier: {index:d} value", self.values, place)
                out += some
            result[name.lower()] = value
            index += 1
        return result

    def summary(self):
        lines = ["Class definition:", kv("    Name", self.name)]
        if self.parent:
            lines.append(kv("    Super class name", self.parent))
        for name, value in self.qualifiers.items():
            lines.append(kv(f"    Qualifier: {name}", value))
        for name, (_, index, place, qualifiers) in self.properties.items():
            lines += [
                f"    Property: {name}", kv("        Index", index),
                kv("        Value data offset", ref.offset(place)),
            ]
            for qualifier, value in qualifiers.items():
                lines.append(kv(f"        Qualifier: {qualifier}", value))
        return lines


class ValueMap:
    """The properties of a class and its super classes."""

    def __init__(self, blocks):
        self.properties = {}
        end = (-1, 0)
        for block in blocks:
            for name, (kind, _, place, qualifiers) in block.properties.items():
                if not qualifiers.get("type"):
                    continue
                qualifier = qualifiers["type"].lower().split(":")[0]
                self.properties[name.lower()] = (name, kind, place, qualifier)
                if place > end[0]:
                    end = (place, SCALARS[kind][1] if kind in SCALARS else 4)
        self.size = sum(end) if self.properties else 0


class InstanceBlock:
    """An instance block: expected debug output and property values."""

    def __init__(self, value_map, data):
        number = len(value_map.properties)
        bits_size = (number + 3) // 4
        self.lines = [
            kv("Property state bits size", bits_size), kv("Property values data size", value_map.size),
        ]
        out = self.lines
        reader = Reader(data)
        class_name_offset, unknown = struct.unpack("<IB", reader.take(5))
        out += [kv("Class name offset", ref.offset(class_name_offset)), kv("Unknown1", f"0x{unknown:02x}")]
        out += mon.dump("Property state bits", reader.take(bits_size))
        fixed = reader.take(value_map.size)
        out += mon.dump("Property values data", fixed)
        size = reader.number("I")
        out.append(kv("Qualifiers block size", size))
        out += mon.dump("Qualifiers block data", reader.take(size - 4))
        dynamic = reader.number("B")
        out.append(kv("Dynamic block type", dynamic))
        if dynamic == 2:
            count = reader.number("I")
            out += ["Dynamic type 2 header", kv("Number of entries", count)]
            for index in range(count):
                out.append(f"Dynamic type 2 entry: {index:d}")
                size = reader.number("I")
                out.append(kv("Data size", size))
                out += mon.dump("Data", reader.take(size - 4))
        out.append(kv("Unknown offset", ref.offset(reader.number("I"))))
        values = data[reader.offset:]
        out += mon.dump("Values data", values)
        some, self.class_name = string_lines("Class name", values, class_name_offset)
        out += some
        self.properties = {}
        for name, kind, place, qualifier in value_map.properties.values():
            label = f"Property: {name} value"
            value = None
            if kind in SCALARS:
                value = scalar(kind, fixed[place:])
                out.append(kv(f"{label}: {qualifier}", value))
            else:
                target = struct.unpack_from("<I", fixed, place)[0]
                what = {8: "string ", 0x65: "string ", 0x66: "string ", 0x2008: "string array "}.get(
                    kind, "array "
                )
                out.append(kv(f"{label}: {what}offset", target))
                if target and what == "string ":
                    some, value = string_lines(label, values, target)
                    out += some
                elif target and kind == 0x2008:
                    count = struct.unpack_from("<I", values, target)[0]
                    value = []
                    for index, offset in enumerate(struct.unpack_from(f"<{count:d}I", values, target + 4)):
                        some, text = string_lines(f"{label} entry: {index:d}", values, offset)
                        out += some
                        value.append(text)
            self.properties[name] = value

    def summary(self, namespace=None, class_name_hash=None):
        lines = ["Instance:"]
        if namespace:
            lines.append(kv("    Namespace", namespace))
        lines.append(kv("    Class name", self.class_name))
        if class_name_hash:
            lines.append(kv("    Class name hash", class_name_hash))
        for name, value in self.properties.items():
            lines.append(kv(f"    Property: {name}", value))
        return lines


def class_record(data):
    """Returns (expected debug output, offset of the block, data of the block)."""
    lines = ["Reading class definition object record."] + mon.dump("Object record data", data)
    reader = Reader(data)
    size = reader.number("I")
    name = reader.take(2 * size).decode("utf-16-le")
    time, block_size = struct.unpack("<QI", reader.take(12))
    offset = reader.offset
    block = reader.take(block_size - 4)
    lines += [
        kv("Super class name size", size), kv("Super class name", name),
        ("time", "Unknown date and time", time),
        kv("Class definition block size", block_size),
        *mon.dump("Class definition block data", block),
    ]
    return lines, offset, block


def instance_record(version, data):
    """Returns (expected debug output, hash of the class name, data of the block)."""
    lines = ["Reading instance object record."] + mon.dump("Object record data", data)
    reader = Reader(data)
    digest = reader.take(64 if version == "2.1" else 128).decode("utf-16-le")
    time1, time2, block_size = struct.unpack("<QQI", reader.take(20))
    block = reader.take(block_size - 4)
    lines += [
        kv("Class name hash", digest), ("time", "Unknown date and time1", time1),
        ("time", "Unknown date and time2", time2), kv("Instance block size", block_size),
        *mon.dump("Instance block data", block),
    ]
    return lines, digest, block


def registration_record(data):
    lines = ["Reading registration object record."] + mon.dump("Object record data", data)
    reader = Reader(data)
    for label in ("Name space", "Class name", "Instance name", "Index key"):
        size = reader.number("I")
        lines.append(kv(f"{label} string size", size))
        lines.append(kv(f"{label} string", reader.take(2 * size).decode("utf-16-le")))
    return lines


def compare(expected, found, what):
    """Compares lines with what is expected: lines, or (time, label, value)."""
    from vf.core import Violation

    resolved = []
    for item in expected:
        if isinstance(item, tuple):
            prefix = f"{item[1]}: "
            index = len(mon.text_lines(resolved))
            line = found[index] if index < len(found) else ""
            if not line.startswith(prefix):
                raise Violation(f"{what}: {line!r} instead of {item[1]}", "debug-output")
            ref.check_time(line[len(prefix):], item[2], ref.filetime, 10_000_000, -11644473600)
            resolved.append(line)
        else:
            resolved.append(item)
    resolved = mon.text_lines(resolved)
    mon.compare(found, resolved, what, "debug-output")
    return len(resolved)


# cim.rep

NODES = {
    "class_definition_branch_node": ("class definition branch node", "IIIII"),
    "class_definition_root_node": ("class definition root node", "IIIIIIII"),
    "child_objects_list_node": ("child objects list node", "IIIII"),
    "child_objects_list_element_node": ("child objects list element node", "IIIIIII"),
    "child_objects_branch_node": ("child objects branch node", "IIII"),
    "child_objects_leaf_node": ("child objects leaf node", "IIIIIIIIII"),
    "child_objects_root_node": ("child objects root node", "III"),
    "instance_branch_node": ("instance branch node", "IIIII"),
    "instance_leaf_value_node": ("instance leaf value node", "II"),
    "instance_root_node": ("instance root node", "IIIIIII"),
}


class RepositoryWalk:
    """The expected debug output of reading a cim.rep file."""

    def __init__(self, data):
        self.data = data
        self.lines = []
        self.reads = []
        self.tally = {}
        self.instances = 0
        self._open()
        self.start = (self.lines, self.reads)

    def count(self, label):
        self.tally[label] = self.tally.get(label, 0) + 1

    def _read(self, what, offset, size):
        self.reads.append((what, offset, self.data[offset:offset + size]))

    def _open(self):
        header = dict(zip(
            (m["name"] for m in S.types["cim_rep_file_header"]["members"]),
            struct.unpack("<10I", self.data[:40]),
        ))
        self._read("file header", 0, 40)
        self.lines += S.show("cim_rep_file_header", header, CUSTOM)
        self.root = self.system = None
        offset, number, next_bin = 40, 0, header["node_bin_size"]
        while offset < len(self.data):
            if offset == next_bin:
                size = struct.unpack_from("<I", self.data, offset)[0]
                self._read("node bin header", offset, 4)
                self.lines += S.show("cim_rep_node_bin_header", {"node_bin_size": size}, CUSTOM)
                self.count("node_bin")
                offset += 4
                next_bin += size
            size = self._cell(offset, number)
            if not size:
                self.count("last_cell")
                break
            if number == header["root_namespace_cell_number"]:
                self.root = offset + 4
            elif number == header["system_class_cell_number"]:
                self.system = offset + 4
            offset += size
            number += 1

    def _cell(self, offset, number=None):
        raw = struct.unpack_from("<I", self.data, offset)[0]
        size = raw & 0x7FFFFFF
        self._read("node cell", offset, max(size, 4))
        self.lines += [kv("Node cell offset", ref.offset(offset)), kv("Data offset", ref.offset(offset + 4))]
        if number is not None:
            self.lines.append(kv("Node cell number", number))
        self.lines += S.show(
            "cim_rep_node_cell", {"size": raw, "data": self.data[offset + 4:offset + size]}, CUSTOM
        )
        return size

    def _enter(self, what, offset):
        """Returns a reader of the data of a node."""
        self._cell(offset - 4)
        self.lines.append(f"Reading {what} at offset: {offset:d} (0x{offset:08x})")
        self.count(what)
        return Reader(self.data, offset)

    def _node(self, kind, offset):
        what, codes = NODES[kind]
        reader = self._enter(what, offset)
        names = [m["name"] for m in S.types[f"cim_rep_{kind}"]["members"]]
        values = dict(zip(names, struct.unpack("<" + codes, reader.take(4 * len(codes)))))
        values["footer"] = reader.take(12)
        self.lines += S.show(f"cim_rep_{kind}", values, CUSTOM)
        return values

    def _name(self, offset):
        reader = self._enter("name node", offset)
        raw = b""
        while (character := reader.take(2)) != b"\0\0":
            raw += character
        self.lines += S.show("cim_rep_name_node", {
            "name": raw.decode("utf-16-le"), "alignment_padding": reader.align(4, offset),
            "footer": reader.take(12),
        }, CUSTOM)

    def _sized(self, kind, what, offset, names, align=False):
        reader = self._enter(what, offset)
        values = {}
        for name in names:
            size = reader.number("I")
            values[f"{name}_size"] = size
            values[f"{name}_data"] = reader.take(size - 4)
        if align:
            values["alignment_padding"] = reader.align(4, offset)
        values["footer"] = reader.take(12)
        self.lines += S.show(f"cim_rep_{kind}", values, CUSTOM)
        return values[f"{names[0]}_data"]

    def _class(self, offset):
        """Class definition of a branch node."""
        leaf = self._node("class_definition_branch_node", offset)["class_definition_leaf_node_offset"]
        if leaf <= 40:
            self.count("class without leaf")
            return None
        data = self._sized(
            "class_definition_leaf_node", "class definition leaf node", leaf,
            ("class_definition_block", "unknown_block"), True,
        )
        block = ClassBlock(data, leaf + 4)
        self.lines += block.lines
        return block

    def _instance(self, offset):
        branch = self._node("instance_branch_node", offset)
        root, leaf = branch["class_definition_root_node_offset"], branch["instance_leaf_node_offset"]
        if root <= 40 or leaf <= 40 or branch["unknown1"] != 2:
            self.count("not an instance")
            return None
        definition = self._node("class_definition_root_node", root)["class_definition_branch_node_offset"]
        if definition <= 40:
            self.count("instance without class")
            return None
        block = self._class(definition)
        if not block:
            return None
        data = self._sized("instance_leaf_node", "instance leaf node", leaf, ("instance_block",))
        instance = InstanceBlock(ValueMap([block]), data)
        self.lines += instance.lines + block.summary() + instance.summary()
        self.instances += 1
        return instance

    def _tree(self, offset):
        root = self._node("child_objects_root_node", offset)
        self.count(f"depth {root['depth']:d}")
        if root["depth"] == 1:
            return [root["branch_node_offset"]]
        if root["depth"] == 2 and root["branch_node_offset"] > 40:
            leaf = self._node("child_objects_branch_node", root["branch_node_offset"])["leaf_node_offset"]
            if leaf > 40:
                values = self._node("child_objects_leaf_node", leaf)
                return [values[f"value_node_offset{n:d}"] for n in range(1, 11)]
        return []

    def _list(self, offset):
        """Yields the values of the elements of a list."""
        element = self._node("child_objects_list_node", offset)["first_list_element_node_offset"]
        number = 1
        while element > 40:
            self.lines.append(f"Reading list element: {number:d}")
            values = self._node("child_objects_list_element_node", element)
            if values["name_node_offset"] > 40:
                self._name(values["name_node_offset"])
            yield values["value_node_offset"]
            element = values["next_list_element_node_offset"]
            number += 1

    def _begin(self):
        self.lines, self.reads, self.instances = [], [], 0

    def read_instances(self):
        self._begin()
        if self.root:
            self._instances(self.root)

    def _instances(self, offset):
        root = self._node("instance_root_node", offset)
        if root["name_node_offset"] > 40:
            self._name(root["name_node_offset"])
        if root["instance_branch_node_offset"] > 40:
            self._instance(root["instance_branch_node_offset"])
        if root["unknown_node5_offset"] > 40 and not root["unknown2"]:
            self._sized("unknown_node5", "unknown node 5", root["unknown_node5_offset"], ("unknown_block",))
        tree = root["child_objects_root_node_offset"]
        if 40 < tree < 0xFFFFFFFF:
            for value in self._tree(tree):
                if value > 40:
                    node = self._node("instance_leaf_value_node", value)
                    if node["name_node_offset"] > 40:
                        self._name(node["name_node_offset"])
                    if node["instance_root_node_offset"] > 40:
                        self._instances(node["instance_root_node_offset"])
        if root["child_objects_list_node_offset"] > 40:
            for value in self._list(root["child_objects_list_node_offset"]):
                if value > 40:
                    node = self._node("class_definition_root_node", value)
                    if node["class_definition_branch_node_offset"] > 40:
                        self._class(node["class_definition_branch_node_offset"])

    def read_namespaces(self):
        self._begin()
        if self.root:
            self._namespaces(self.root)

    def _namespaces(self, offset):
        root = self._node("instance_root_node", offset)
        if root["instance_branch_node_offset"] <= 40:
            return
        instance = self._instance(root["instance_branch_node_offset"])
        if not instance or not instance.properties.get("Name"):
            return
        tree = root["child_objects_root_node_offset"]
        if 40 < tree < 0xFFFFFFFF:
            for value in self._tree(tree):
                if value > 40:
                    child = self._node("instance_leaf_value_node", value)["instance_root_node_offset"]
                    if child > 40:
                        self._namespaces(child)

    def read_classes(self):
        self._begin()
        if self.system:
            self._classes(self.system)

    def _classes(self, offset):
        root = self._node("class_definition_root_node", offset)
        if root["class_definition_branch_node_offset"] > 40:
            block = self._class(root["class_definition_branch_node_offset"])
            if block:
                self.lines += block.summary()
                self.count("class")
        if root["child_objects_list_node_offset"] > 40:
            for value in self._list(root["child_objects_list_node_offset"]):
                if value > 40:
                    self._instance(value)
        if root["sub_node_offset"] > 40 and root["sub_node_type"] in (9, 10):
            for value in self._tree(root["sub_node_offset"]):
                if value > 40:
                    self.count("sub class")
                    self._classes(value)
        if root["child_objects_root_node_offset"] > 40:
            for value in self._tree(root["child_objects_root_node_offset"]):
                if value > 40:
                    self.count("class name tree")
                    self._name(value)
