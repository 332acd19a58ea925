"""C09: format definitions decode every structure as specified."""

import glob
import json
import logging
import os
import re
import struct
import subprocess
import sys
import types
import uuid

import yaml

from dtfabric import errors as dtfabric_errors
from dtfabric.runtime import data_maps

from dtformats import data_format, yaml_definitions_file
from dtformats import errors as dtformats_errors

from vf import core, spec
from vf.core import VERIF, Violation

PROPERTY = "C09"
RULE = (
    "structures: for a structure (or group, sequence or string) of a definition file random "
    "member values and the bytes of the frozen specification, mapped with and without "
    "trailing data, truncated and with a damaged fixed value; enumerations: every number and "
    "neighbours; debug: every attribute of every debug definition, with the formatting "
    "method that shows it; reader: generated debug definition files, most of them with a missing, "
    "undefined, repeated or unsupported element; non-trivial: distinct bytes per structure"
)
_LOADER = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
SPEC = {}
FABRIC = {}
# Values that the parsers pass to the definitions.
CONTEXT = {
    "elements_data_size": lambda rng: rng.choice([0, 1, 2, 4, 8, 16, 64]),
    "index_size": lambda rng: rng.choice([0, 8, 16, 64]),
    "number_of_attribute_values": lambda rng: rng.randint(0, 12),
    "number_of_elements": lambda rng: rng.randint(0, 12),
    "property_state_bits_size": lambda rng: rng.randint(0, 12),
    "property_values_data_size": lambda rng: rng.randint(0, 12),
    "tracev3_firehose_tracepoint_flags": lambda rng: rng.getrandbits(16),
    "tracev3_firehose_tracepoint_log_type": lambda rng: rng.choice([0, 1, 2, 3, 0x10, 0x11]),
    "tracev3_firehose_tracepoint_strings_file_type":
        lambda rng: rng.choice([2, 4, 8, 10, 12]),
}
KINDS = ("structure", "structure-group", "sequence", "string", "stream")


def names_of(directory):
    paths = glob.glob(os.path.join(directory, "*.yaml"))
    names = [os.path.basename(p)[:-5] for p in paths]
    return sorted(n for n in names if not n.endswith(".debug"))


NAMES = names_of(os.path.join(VERIF, "spec"))
DEBUG_NAMES = sorted(
    os.path.basename(p)[:-11]
    for p in glob.glob(os.path.join(VERIF, "spec", "*.debug.yaml"))
)


def targets_of(name):
    return [
        definition["name"] for definition in SPEC[name].documents
        if definition["type"] in KINDS
    ]


REQUIRED = (
    [f"file:{name:s}" for name in NAMES]
    + [f"debug:{name:s}" for name in DEBUG_NAMES]
    + ["truncated", "damaged_value", "trailing", "groups", "enumerations", "debug_attributes",
       "debug_methods", "conditional_present", "conditional_absent", "empty_arrays",
       "reader_accepted", "reader_refused"]
)
QUICK_BUDGET = 240


class Definitions(spec.Struct):
    """Specification including documents in order."""

    def __init__(self, name):
        super().__init__(name)
        path = os.path.join(VERIF, "spec", f"{name}.yaml")
        with open(path, "rb") as file_object:
            self.documents = list(yaml.load_all(file_object, Loader=_LOADER))


def setup(ctx):
    logging.disable(logging.CRITICAL)
    for name in NAMES:
        if name not in SPEC:
            SPEC[name] = Definitions(name)


def fabric_of(name):
    if name not in FABRIC:
        try:
            FABRIC[name] = data_format.BinaryDataFile.ReadDefinitionFile(f"{name:s}.yaml")
        except Exception as exception:
            raise Violation(
                f"{name:s}.yaml cannot be read: {exception!s:.300}", f"file-{name:s}"
            ) from exception
    return FABRIC[name]


class Outer:
    """A structure read before, with small values."""

    def __init__(self, rng):
        self._rng = rng

    def __getattr__(self, name):
        value = self._rng.choice([0, 1, 2, 3, 5, 8, 16])
        setattr(self, name, value)
        return value


class Retry(Exception):
    """The values do not fit together."""


class Group:
    def __init__(self, **values):
        self.__dict__.update(values)


class Maker:
    """Makes the bytes and expected values of a type."""

    def __init__(self, definitions, rng, context):
        self.types = definitions.types
        self.definitions = definitions
        self.rng = rng
        self.context = context
        self.present = 0
        self.absent = 0
        self.empty = 0
        self.grouped = 0
        self.base = set()
        # (offset, size) of the members with a fixed value.
        self.fixed = []

    def references(self, definition):
        """Names of members that other members depend on."""
        result = set()
        name = definition["name"]
        for member in definition.get("members") or []:
            for key in ("elements_data_size", "number_of_elements", "condition"):
                expression = member.get(key)
                if isinstance(expression, str):
                    result.update(
                        re.findall(rf"\b{re.escape(name):s}\.([a-z_0-9]+)", expression)
                    )
        return result

    def evaluate(self, expression, scope):
        if isinstance(expression, int):
            return expression
        return eval(expression, {"__builtins__": {}}, {**self.context, **scope})

    def make(self, name, order=None, offset=0):
        definition = self.types[name]
        kind = definition["type"]
        order = (definition.get("attributes") or {}).get("byte_order") or order
        if kind == "structure":
            return self.structure(definition, order, offset)
        if kind in ("sequence", "stream", "string"):
            return self.array(definition, order, {}, offset)
        if kind == "structure-group":
            return self.group(definition, order, offset)
        if kind == "uuid":
            value = spec.random_uuid(self.rng)
            return value.bytes if order == "big-endian" else value.bytes_le, value
        return self.scalar(definition, order)

    def group(self, definition, order, offset):
        members = list(definition["members"])
        default = definition.get("default")
        member = default if default and self.rng.random() < 0.3 else self.rng.choice(members)
        # The base structure is read first, hence its sizes have to be small.
        self.grouped += 1
        self.base = self.references(self.types[definition["base"]])
        number = len(self.fixed)
        data, value = self.make(member, order, offset)
        del self.fixed[number:]
        self.base = set()
        if member == default:
            identifier = definition["identifier"]
            taken = [identifiers(self.definitions, m, identifier) for m in members]
            if any(getattr(value, identifier) in values for values in taken):
                raise Retry
        return data, value

    def scalar(self, definition, order, value=None):
        kind = definition["type"]
        attributes = definition.get("attributes") or {}
        size = attributes["size"]
        name = "big" if order == "big-endian" else "little"
        rng = self.rng
        if kind == "integer":
            signed = attributes.get("format") != "unsigned"
            if value is None:
                value = spec.random_int(rng, size, signed)
            return value.to_bytes(size, name, signed=signed), value
        if kind == "character":
            if value is None:
                value = rng.randrange(128)
            return value.to_bytes(size, name), chr(value)
        if kind == "floating-point":
            value = spec.random_float(rng, size)
            code = (">" if name == "big" else "<") + {4: "f", 8: "d"}[size]
            return struct.pack(code, value), value
        if kind == "boolean":
            value = rng.random() < 0.5
            number = attributes.get("true_value", rng.choice([1, 2, 255])) if value else (
                attributes.get("false_value", 0)
            )
            return number.to_bytes(size, name), value
        raise NotImplementedError(kind)

    def structure(self, definition, order, offset=0, forced=None):
        references = self.references(definition) | self.base
        scope = types.SimpleNamespace()
        data = b""
        for member in definition["members"]:
            name = member["name"]
            if member.get("condition"):
                if not self.evaluate(member["condition"], {definition["name"]: scope}):
                    self.absent += 1
                    setattr(scope, name, None)
                    continue
                self.present += 1
            kind = member.get("type")
            if kind == "padding":
                # Relative to the start of the data that is mapped.
                part = bytes(-(offset + len(data)) % member["alignment_size"])
                value = part
            elif kind == "uuid":
                value = spec.random_uuid(self.rng)
                part = value.bytes if order == "big-endian" else value.bytes_le
            elif kind is None:
                target = self.types[member["data_type"]]
                own = (target.get("attributes") or {}).get("byte_order") or order
                if target["type"] in ("integer", "character"):
                    fixed = None
                    if "value" in member:
                        fixed = member["value"]
                    elif "values" in member:
                        fixed = self.rng.choice(member["values"])
                    elif forced and name in forced:
                        fixed = forced[name]
                    elif name in references:
                        fixed = self.small(target)
                    part, value = self.scalar(target, own, fixed)
                else:
                    part, value = self.make(member["data_type"], order, offset + len(data))
            else:
                part, value = self.array(
                    member, order, {definition["name"]: scope}, offset + len(data)
                )
            if "value" in member or "values" in member:
                self.fixed.append((offset + len(data), len(part)))
            data += part
            setattr(scope, name, value)
        return data, scope

    def small(self, target):
        maximum = (1 << (8 * target["attributes"]["size"])) - 1
        if target["attributes"].get("format") != "unsigned":
            maximum >>= 1
        return min(maximum, self.rng.choice([0, 1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 64, 68, 80]))

    def array(self, definition, order, scope, offset):
        kind = definition["type"]
        rng = self.rng
        element = self.types[definition["element_data_type"]]
        size = definition.get("elements_data_size")
        number = definition.get("number_of_elements")
        terminator = definition.get("elements_terminator")
        if isinstance(terminator, str):
            terminator = terminator.encode("latin1")
        fixed = definition.get("value")
        if fixed is None and "values" in definition:
            fixed = rng.choice(definition["values"])
        if isinstance(fixed, str):
            fixed = fixed.encode("latin1")
        if size is not None:
            size = self.evaluate(size, scope)
            if not 0 <= size <= 70000:
                raise Retry
        elif number is not None:
            number = self.evaluate(number, scope)
            if not 0 <= number <= 3000:
                raise Retry
        if kind == "sequence":
            return self.sequence(definition, element, order, size, number, terminator, offset)
        width = (element.get("attributes") or {}).get("size", 1)
        if number is not None:
            size = number * width
        if size == 0:
            self.empty += 1
        if fixed is not None:
            if size is not None and len(fixed) != size:
                raise NotImplementedError(definition["name"])
            return fixed, fixed
        if kind == "stream":
            if size is None:
                data = bytes(
                    b for b in spec.random_bytes(rng, rng.randint(0, 40))
                    if bytes([b]) != terminator
                ) + terminator
                return data, data
            data = spec.random_bytes(rng, size)
            return data, data
        encoding = definition["encoding"]
        if size is None:
            text = self.text(rng.randint(0, 40), encoding)
            data = text.encode(encoding) + terminator
            return data, text
        if size % width:
            raise Retry
        if terminator is not None:
            text = self.text(rng.randint(0, size // width), encoding)
            data = text.encode(encoding)
            while len(data) > size:
                text = text[:-1]
                data = text.encode(encoding)
            if len(data) + len(terminator) <= size:
                data += terminator
                data += spec.random_bytes(rng, size - len(data))
            elif len(data) < size:
                raise Retry
            return data, text
        text = self.text(size // width, encoding)
        data = text.encode(encoding)
        while len(data) > size:
            text = text[:-1]
            data = text.encode(encoding)
        while len(data) < size:
            text += "x"
            data = text.encode(encoding)
        return data, text

    def text(self, length, encoding):
        level = 0
        if not encoding.lower().startswith(("ascii", "cp", "latin", "iso")):
            level = self.rng.choice([0, 2, 3, 4])
        text = spec.random_text(self.rng, 0, max(length, 0), level)
        if encoding.lower().startswith("utf") and len(text) > length:
            text = text[:length]
        return text

    def sequence(self, definition, element, order, size, number, terminator, offset):
        own = (element.get("attributes") or {}).get("byte_order") or order
        data = b""
        values = []
        if size is not None:
            while len(data) < size:
                if len(values) > 3000:
                    raise Retry
                part, value = self.make(element["name"], own, offset + len(data))
                if not part:
                    raise Retry
                if len(data) + len(part) > size:
                    raise Retry
                data += part
                values.append(value)
        elif number is not None:
            for _ in range(number):
                part, value = self.make(element["name"], own, offset + len(data))
                data += part
                values.append(value)
                if not part:
                    raise Retry
        else:
            raise NotImplementedError("sequence with terminator")
        if not values:
            self.empty += 1
        return data, tuple(values)


def same(expected, value, where):
    """Raises when a mapped value is not as expected."""
    if isinstance(expected, types.SimpleNamespace):
        wanted = vars(expected)
        found = {k: v for k, v in vars(value).items() if not k.startswith("_")}
        if len(wanted) != len(found):
            raise Violation(
                f"{where:s}: members {sorted(set(wanted) ^ set(found))!r:s} differ", "members"
            )
        if set(wanted) != set(found):
            # Members with other names in the same order.
            order = member_order(type(value).__name__)
            if set(order) != set(found):
                raise Violation(
                    f"{where:s}: members {sorted(set(wanted) ^ set(found))!r:s} differ",
                    "members",
                )
            found = {name: found[other] for name, other in zip(wanted, order)}
        for name, item in wanted.items():
            same(item, found[name], f"{where:s}.{name:s}")
        return
    if isinstance(expected, tuple):
        if len(expected) != len(value):
            raise Violation(
                f"{where:s}: {len(value):d} elements instead of {len(expected):d}", "number"
            )
        for index, (one, other) in enumerate(zip(expected, value)):
            same(one, other, f"{where:s}[{index:d}]")
        return
    if isinstance(expected, bytes):
        value = bytes(value) if isinstance(value, (bytes, bytearray)) else value
    if isinstance(expected, uuid.UUID):
        value = uuid.UUID(str(value))
    if expected != value or isinstance(expected, bool) != isinstance(value, bool):
        raise Violation(
            f"{where:s}: {value!r:.200} instead of {expected!r:.200}", "value"
        )


MAPPING_ERRORS = (dtfabric_errors.ByteStreamTooSmallError, dtfabric_errors.MappingError)


def map_data(name, target, data, context):
    try:
        data_type_map = fabric_of(name).CreateDataTypeMap(target)
    except Exception as exception:
        raise Violation(
            f"{name:s}.yaml: {target:s} cannot be used: {exception!s:.200}",
            f"map-{name:s}-{target:s}",
        ) from exception
    values = data_maps.DataTypeMapContext(values=dict(context))
    return data_type_map.MapByteStream(data, context=values), values.byte_size


def make_target(name, target, rng):
    """Returns (bytes, expected, context, maker)."""
    definitions = SPEC[name]
    definition = definitions.types[target]
    for _ in range(600):
        context = {key: make(rng) for key, make in CONTEXT.items()}
        if definition["type"] != "structure":
            for expression in map(
                definition.get, ("elements_data_size", "number_of_elements")
            ):
                if isinstance(expression, str):
                    for outer in re.findall(r"\b([a-z_0-9]+)\.", expression):
                        context[outer] = Outer(rng)
        maker = Maker(definitions, rng, context)
        try:
            data, expected = maker.make(target)
        except Retry:
            continue
        return data, expected, context, maker
    raise RuntimeError(f"no values for {name:s} {target:s}")


def identifiers(definitions, structure, identifier):
    for member in definitions.types[structure]["members"]:
        if member["name"] == identifier:
            return [member["value"]] if "value" in member else member.get("values") or []
    return []


def defined_in(name):
    """Names of the types in the definition file of the repository."""
    if name not in _DEFINED:
        path = os.path.join(core.REPO, "dtformats", f"{name:s}.yaml")
        with open(path, "rb") as file_object:
            documents = list(yaml.load_all(file_object, Loader=_LOADER))
        _DEFINED[name] = {document["name"] for document in documents}
        for document in documents:
            if document["type"] == "structure":
                _ORDER[document["name"]] = [m["name"] for m in document["members"]]
    return _DEFINED[name]


_DEFINED = {}
_ORDER = {}


def member_order(name):
    return _ORDER.get(name, [])


def structures(name):
    """Structures of a definition file."""

    def function(rng, ctx):
        fabric_of(name)
        defined = defined_in(name)
        for target in targets_of(name):
            if target not in defined:
                ctx.count("undefined")
                continue
            data, expected, context, maker = make_target(name, target, rng)
            where = f"{name:s}.yaml {target:s}"
            ctx.keep_input(f"{target:s}.bin", data)
            trailing = rng.choice([b"", b"\x00" * 9, b"\xff" * 9, rng.randbytes(9)])
            if maker.grouped:
                trailing += rng.randbytes(100)
            try:
                value, size = map_data(name, target, data + trailing, context)
            except MAPPING_ERRORS as exception:
                raise Violation(
                    f"{where:s}: not mapped from {data[:64].hex():s}: {exception!s:.200}",
                    f"refused-{name:s}-{target:s}",
                ) from exception
            try:
                same(expected, value, where)
            except Violation as violation:
                violation.mechanism = f"{violation.mechanism:s}-{name:s}-{target:s}"
                raise
            if size != len(data):
                raise Violation(
                    f"{where:s}: size {size!r:s} instead of {len(data):d}",
                    f"size-{name:s}-{target:s}",
                )
            if trailing:
                ctx.count("trailing")
            ctx.count("conditional_present", maker.present)
            ctx.count("conditional_absent", maker.absent)
            ctx.count("empty_arrays", maker.empty)
            if SPEC[name].types[target]["type"] == "structure-group":
                ctx.count("groups")
            if data:
                short = data[: rng.choice([0, len(data) - 1, rng.randrange(len(data))])]
                must_refuse(name, target, short, context, f"{where:s} truncated")
                ctx.count("truncated")
            if maker.fixed and SPEC[name].types[target]["type"] == "structure":
                damaged_value(rng, ctx, name, target, data, context, maker, where)
            ctx.seen((target, data))
            ctx.sample({"file": name, "structure": target, "data": data[:48].hex()})
        ctx.count(f"file:{name:s}")

    return function


def damaged_value(rng, ctx, name, target, data, context, maker, where):
    offset, size = rng.choice(maker.fixed)
    supported = {data[o : o + s] for o, s in maker.fixed}
    supported |= set(_supported_bytes(name, size))
    damaged = bytearray(data)
    damaged[offset + rng.randrange(size)] ^= 1 << rng.randrange(8)
    if bytes(damaged[offset : offset + size]) in supported:
        return
    must_refuse(name, target, bytes(damaged), context, f"{where:s} with a damaged value")
    ctx.count("damaged_value")


_SUPPORTED = {}


def _supported_bytes(name, size):
    """All fixed values of a size in a definition file, in both byte orders."""
    if (name, size) not in _SUPPORTED:
        result = set()
        for definition in SPEC[name].documents:
            for member in definition.get("members") or []:
                if not isinstance(member, dict):
                    continue
                values = list(member.get("values") or [])
                if "value" in member:
                    values.append(member["value"])
                for value in values:
                    if isinstance(value, int):
                        for order in ("little", "big"):
                            try:
                                result.add(value.to_bytes(size, order, signed=value < 0))
                            except OverflowError:
                                pass
                    else:
                        result.add(value.encode("latin1") if isinstance(value, str) else value)
        _SUPPORTED[name, size] = result
    return _SUPPORTED[name, size]


def must_refuse(name, target, data, context, what):
    try:
        value, _ = map_data(name, target, data, context)
    except MAPPING_ERRORS:
        return
    raise Violation(
        f"{what:s}: mapped to {value!r:.100} from {data[:64].hex():s}",
        f"accepted-{name:s}-{target:s}",
    )


def enumerations(rng, ctx):
    """Names of the numbers of all enumerations."""
    for name in NAMES:
        for definition in SPEC[name].documents:
            if definition["type"] != "enumeration" or definition["name"] not in defined_in(name):
                continue
            enumeration = fabric_of(name).CreateDataTypeMap(definition["name"])
            numbers = {value["number"]: value["name"] for value in definition["values"]}
            for number in {*numbers, *(n + 1 for n in numbers), rng.getrandbits(32)}:
                found = enumeration.GetName(number)
                if found != numbers.get(number):
                    raise Violation(
                        f"{name:s}.yaml {definition['name']:s}: {number!r:s} is {found!r:s}",
                        f"enumeration-{name:s}-{definition['name']:s}",
                    )
                ctx.count("enumerations")
                ctx.seen((name, definition["name"], number))
                ctx.sample({"enumeration": definition["name"], "number": number})


def debug_definitions(rng, ctx):
    """Debug definitions show every member as specified."""
    methods = debug_methods(ctx)
    reader = yaml_definitions_file.YAMLDebugDefinitionsFile()
    for name in DEBUG_NAMES:
        path = os.path.join(core.REPO, "dtformats", f"{name:s}.debug.yaml")
        found = {}
        for definition in reader.ReadFromFile(path):
            found[definition.data_type_map] = [
                (a.name, a.description, a.format) for a in definition.attributes.values()
            ]
        for target, attributes in SPEC[name].debug.items():
            if found.get(target) != attributes:
                raise Violation(
                    f"{name:s}.debug.yaml {target:s}: "
                    f"{first_difference(attributes, found.get(target)):s}",
                    f"debug-{name:s}-{target:s}",
                )
            ctx.count("debug_attributes", len(attributes))
            ctx.seen((name, target))
        # Classes that share a file only need the methods for their own structures.
        unusable = {}
        for record in methods.get(f"{name:s}.debug.yaml", []):
            for target, items in record["definitions"].items():
                missing = [item[:3] for item in items if not item[3]]
                if target not in unusable or not missing:
                    unusable[target] = (record["owner"], missing)
                ctx.count("debug_methods", len(items) - len(missing))
        for target, (owner, missing) in unusable.items():
            if missing:
                raise Violation(
                    f"{owner:s}: {target:s} cannot be shown: {missing!r:.300s}",
                    f"debug-method-{name:s}-{target:s}",
                )
        ctx.count(f"debug:{name:s}")


FORMATS = [
    "binary_data", "decimal", "floating_point", "hexadecimal", "hexadecimal_2digits",
    "hexadecimal_4digits", "hexadecimal_8digits", "string", "uuid",
]


def definition_files(rng, ctx):
    """A debug definition file is read as it is written, or refused."""
    documents = []
    for index in range(rng.choice((1, 1, 2, 5))):
        attributes = []
        for number in range(rng.choice((1, 1, 2, 6))):
            description = "".join(rng.choice("aZ 0é\u0416\U0001f600:#'\"-") for _ in range(rng.randint(1, 20)))
            attributes.append({
                "name": rng.choice((f"unknown{number:d}", f"Unknown{number:d}", f"x_{number:d}")),
                "description": description,
                "format": rng.choice((*FORMATS, "custom:_Format", "custom:posix_time")),
            })
            keys = list(attributes[-1].items())
            rng.shuffle(keys)
            attributes[-1] = dict(keys)
        documents.append({"data_type_map": f"type{index:d}", "attributes": attributes})
    wrong = None
    if rng.random() < 0.6:
        document = rng.choice(documents)
        attribute = rng.choice(document["attributes"])
        wrong = rng.choice((
            "missing-name", "missing-description", "missing-format", "missing-attributes",
            "missing-data_type_map", "empty-attributes", "undefined-key", "repeated", "format",
            "empty-name", "empty-description", "empty-format", "empty-data_type_map",
        ))
        kind, _, key = wrong.partition("-")
        if key in attribute or key in document:
            where = attribute if key in attribute else document
            if kind == "missing":
                del where[key]
            else:
                where[key] = [] if key == "attributes" else ""
        elif wrong == "undefined-key":
            document[rng.choice(("name", "Attributes", "format", "xyz"))] = "value"
        elif wrong == "repeated":
            document["attributes"].append({**rng.choice(document["attributes"]), "description": "Again", "format": "decimal"})
        else:
            attribute["format"] = rng.choice((
                "Decimal", "decimals", "hexadecimal_16digits", "xcustom:a", "my custom:a", "custom",
                "Custom:a", "8", "decimal,string",
            ))
    text = "---\n".join(
        yaml.safe_dump(d, allow_unicode=True, sort_keys=False) for d in documents
    )
    text = rng.choice(("", "# a comment\n---\n")) + text
    path = ctx.path("definitions.debug.yaml", text.encode("utf-8"))
    ctx.seen(text)
    reader = yaml_definitions_file.YAMLDebugDefinitionsFile()
    found = []
    try:
        for item in reader.ReadFromFile(path):
            found.append((item.data_type_map, [
                (name, a.name, a.description, a.format) for name, a in item.attributes.items()
            ]))
        refused = False
    except dtformats_errors.ParseError:
        refused = True
    if wrong:
        if not refused:
            raise Violation(f"accepted a debug definition file with {wrong:s}", f"reader-{wrong:s}")
        ctx.count("reader_refused")
        return
    expected = [(d["data_type_map"], [
        (a["name"], a["name"], a["description"], a["format"]) for a in d["attributes"]
    ]) for d in documents]
    if refused or found != expected:
        raise Violation(f"debug definitions {found!r:.300s} instead of {expected!r:.300s}", "reader")
    ctx.count("reader_accepted")
    ctx.sample({"definitions": text[:200]})


def first_difference(expected, found):
    if found is None:
        return "missing"
    for index in range(max(len(expected), len(found))):
        one = expected[index] if index < len(expected) else None
        other = found[index] if index < len(found) else None
        if one != other:
            return f"{other!r:s} instead of {one!r:s}"
    return "no difference"


_METHODS = {}

SPY = r"""
import importlib, json, os, pkgutil, sys
sys.path.insert(0, sys.argv[1])
import dtformats
from dtformats import data_format
records = []
base = data_format.BinaryDataFormat
original = base.ReadDebugInformationFile.__func__
def spy(cls, filename, *arguments, **keywords):
    result = original(cls, filename, *arguments, **keywords)
    records.append((sys._getframe(1).f_globals.get("__name__"), filename, result))
    return result
base.ReadDebugInformationFile = classmethod(spy)
for module in pkgutil.iter_modules(dtformats.__path__):
    importlib.import_module("dtformats." + module.name)
output = []
for name, filename, result in records:
    module = sys.modules.get(name)
    owners = [c for c in vars(module).values() if isinstance(c, type)
              and any(v is result for v in vars(c).values())]
    if not owners:
        continue
    owner = owners[0]
    output.append({"file": filename, "owner": owner.__name__, "definitions": {
        target: [(n, d, str(m), m is not None and callable(getattr(owner, str(m), None)))
                 for n, d, m in items]
        for target, items in result.items()}})
print(json.dumps(output))
"""


def debug_methods(ctx):
    """The formatting methods of the debug definitions in every class."""
    if not _METHODS:
        process = subprocess.run(
            [sys.executable, "-c", SPY, core.REPO], capture_output=True, check=False,
            text=True,
        )
        if process.returncode:
            raise RuntimeError(process.stderr[-2000:])
        for record in json.loads(process.stdout):
            _METHODS.setdefault(record["file"], []).append(record)
    return _METHODS


FAMILIES = {"enumerations": (enumerations, 8, 200), "debug": (debug_definitions, 8, 16),
            "reader": (definition_files, 600, 20000)}
for _name in NAMES:
    FAMILIES[f"structures-{_name:s}"] = (structures(_name), 150, 5000)
