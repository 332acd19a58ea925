"""Reference codec for the frozen format specifications in /verif/spec.

The specification files are copies of the format definitions, reviewed against
the format documentation. This interpreter is independent of dtFabric: it packs
values into bytes and formats them the way the debug output is specified to.
"""

import json
import os
import re
import struct
import uuid as uuid_module

import yaml

from vf import mon
from vf.core import VERIF, Violation

_LOADER = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


class Struct:
    """Specification of one format definition file."""

    def __init__(self, name, debug=True):
        self.name = name
        self.types = {}
        path = os.path.join(VERIF, "spec", f"{name}.yaml")
        with open(path, "rb") as file_object:
            for document in yaml.load_all(file_object, Loader=_LOADER):
                self.types[document["name"]] = document
                for alias in document.get("aliases") or []:
                    self.types[alias] = document
        self.debug = {}
        path = os.path.join(VERIF, "spec", f"{name}.debug.yaml")
        if debug and os.path.exists(path):
            with open(path, "rb") as file_object:
                for document in yaml.load_all(file_object, Loader=_LOADER):
                    self.debug[document["data_type_map"]] = [
                        (a["name"], a["description"], a["format"])
                        for a in document["attributes"]
                    ]

    # Packing

    def _order(self, definition, order):
        own = (definition.get("attributes") or {}).get("byte_order")
        return own or order or "little-endian"

    def pack(self, name, values=None, order=None):
        """Packs values into the bytes of a type."""
        definition = self.types[name] if isinstance(name, str) else name
        kind = definition["type"]
        own = self._order(definition, order)
        endian = ">" if own == "big-endian" else "<"
        attributes = definition.get("attributes") or {}
        if kind in ("integer", "boolean", "character"):
            size = attributes["size"]
            if kind == "boolean":
                value = (
                    attributes.get("true_value", 1)
                    if values
                    else attributes.get("false_value", 0)
                )
            elif kind == "character":
                value = ord(values) if isinstance(values, str) else (values or 0)
            else:
                value = values or 0
            signed = attributes.get("format") != "unsigned" and value < 0
            return int(value).to_bytes(
                size, "big" if endian == ">" else "little", signed=signed
            )
        if kind == "floating-point":
            code = {4: "f", 8: "d"}[attributes["size"]]
            return struct.pack(endian + code, values or 0.0)
        if kind == "uuid":
            value = values or uuid_module.UUID(int=0)
            return value.bytes if endian == ">" else value.bytes_le
        if kind == "enumeration":
            raise NotImplementedError(name)
        if kind == "structure":
            return self.pack_structure(definition, values or {}, order)
        if kind in ("sequence", "stream", "string"):
            return self._pack_array(definition, values, own)
        raise NotImplementedError(f"{name} {kind}")

    def _pack_array(self, definition, values, order, fixed=None):
        kind = definition["type"]
        if kind == "stream":
            data = bytes(values or b"")
        elif kind == "string":
            if isinstance(values, (bytes, bytearray)):
                data = bytes(values)
            else:
                data = (values or "").encode(definition.get("encoding", "utf8"))
        else:
            element = definition["element_data_type"]
            data = b"".join(self.pack(element, value, order) for value in values or [])
        terminator = definition.get("elements_terminator")
        if terminator and not isinstance(values, (bytes, bytearray)):
            if isinstance(terminator, str):
                terminator = terminator.encode("latin1")
            data += terminator
        size = definition.get("elements_data_size")
        if size is None:
            size = definition.get("number_of_elements")
            if isinstance(size, int):
                element = self.types[definition["element_data_type"]]
                size *= (element.get("attributes") or {}).get("size", 1)
        if isinstance(size, int) and kind != "sequence":
            if len(data) > size:
                raise ValueError(f"{definition.get('name')}: too large")
            data = data.ljust(size, b"\x00")
        elif isinstance(size, int) and not values:
            element = definition["element_data_type"]
            number = definition.get("number_of_elements")
            if isinstance(number, int):
                data = self.pack(element, None, order) * number
            else:
                data = bytes(size)
        return data

    def pack_structure(self, definition, values, order=None):
        order = (definition.get("attributes") or {}).get("byte_order") or order
        result = b""
        for member in definition["members"]:
            name = member["name"]
            kind = member.get("type")
            if member.get("condition") and name not in values:
                continue
            if kind == "padding":
                alignment = member["alignment_size"]
                result += bytes(-len(result) % alignment)
                continue
            value = values.get(name)
            if value is None and "value" in member:
                value = member["value"]
                if isinstance(value, str):
                    value = value.encode("latin1")
            if kind is None:
                result += self.pack(member["data_type"], value, order)
            elif kind == "uuid":
                result += self.pack({"type": "uuid", "name": name}, value, order)
            else:
                result += self._pack_array(member, value, order)
        return result

    def size(self, name):
        return len(self.pack(name))

    # Random values

    def random(self, rng, name, /, **overrides):
        """Random values for the fixed-size members of a structure."""
        definition = self.types[name]
        order = (definition.get("attributes") or {}).get("byte_order")
        values = {}
        for member in definition["members"]:
            member_name = member["name"]
            if member_name in overrides or member.get("condition"):
                continue
            kind = member.get("type")
            if kind == "padding":
                continue
            if "value" in member:
                value = member["value"]
                if isinstance(value, str):
                    value = value.encode("latin1")
                values[member_name] = value
                continue
            if "values" in member:
                value = rng.choice(member["values"])
                if isinstance(value, str):
                    value = value.encode("latin1")
                values[member_name] = value
                continue
            if kind is None:
                values[member_name] = self.random_scalar(rng, member["data_type"])
            elif kind == "uuid":
                values[member_name] = random_uuid(rng)
            elif kind == "stream":
                size = member.get("elements_data_size", member.get("number_of_elements"))
                if isinstance(size, int):
                    values[member_name] = random_bytes(rng, size)
            elif kind == "sequence":
                number = member.get("number_of_elements")
                if number is None:
                    number = member.get("elements_data_size")
                    if isinstance(number, int):
                        number //= self.size(member["element_data_type"])
                if isinstance(number, int):
                    values[member_name] = [
                        self.random_scalar(rng, member["element_data_type"])
                        for _ in range(number)
                    ]
        del order
        values.update(overrides)
        return values

    def random_scalar(self, rng, name):
        definition = self.types[name]
        kind = definition["type"]
        attributes = definition.get("attributes") or {}
        if kind == "integer":
            return random_int(rng, attributes["size"], attributes.get("format") != "unsigned")
        if kind == "floating-point":
            return random_float(rng, attributes["size"])
        if kind == "uuid":
            return random_uuid(rng)
        if kind == "boolean":
            return rng.random() < 0.5
        if kind == "character":
            return rng.randrange(128)
        if kind == "structure":
            return self.random(rng, name)
        raise NotImplementedError(f"{name} {kind}")

    # Debug output

    def show(self, name, values, custom=None):
        """Expected debug lines of a structure.

        custom maps a custom format name to a function value -> str or
        value -> list of lines following the description.
        """
        lines = []
        for attribute, description, form in self.debug[name]:
            value = values.get(attribute)
            if value is None:
                continue
            lines.extend(show_value(description, value, form, custom or {}))
        return lines


def show_value(description, value, form, custom):
    if form == "binary_data":
        return mon.dump(description, value)
    if form.startswith("custom:"):
        text = custom[form[7:]](value)
    elif form == "decimal":
        text = "%d" % value
    elif form == "floating_point":
        text = "%f" % value
    elif form == "hexadecimal_2digits":
        text = "0x%02x" % value
    elif form == "hexadecimal_4digits":
        text = "0x%04x" % value
    elif form in ("hexadecimal_8digits",):
        text = "0x%08x" % value
    elif form == "string":
        text = value.rstrip("\x00")
    elif form == "uuid":
        text = str(value)
    else:
        raise NotImplementedError(form)
    if isinstance(text, list):
        # A multi-line value: description on a line of its own.
        return [f"{description}:"] + text
    return [mon.kv(description, text)]


# Random values


def many(rng, choices, large, chance=1.0):
    """A number of items: one of the choices, or, in a large case, up to large."""
    if getattr(rng, "large", False) and rng.random() < chance:
        return rng.randint(large // 2, large)
    return rng.choice(choices)


def extent(rng, normal, large, chance=0.02):
    """A maximum size: in a large case sometimes the large one."""
    if getattr(rng, "large", False) and rng.random() < chance:
        return large
    return normal


def random_int(rng, size, signed):
    bits = size * 8
    low = -(1 << (bits - 1)) if signed else 0
    high = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    choice = rng.random()
    if choice < 0.15:
        return rng.choice([low, high, 0, 1, high - 1, high // 2, high // 2 + 1])
    if choice < 0.45:
        value = rng.getrandbits(rng.randrange(1, bits + 1))
    else:
        value = rng.getrandbits(bits)
    if signed:
        value &= (1 << bits) - 1
        if value > high:
            value -= 1 << bits
    return max(low, min(high, value))


def random_float(rng, size):
    value = rng.choice([0.0, 1.0, -1.0, rng.uniform(-1e6, 1e6), rng.uniform(0, 1e9)])
    if size == 4:
        value = struct.unpack("<f", struct.pack("<f", value))[0]
    return value


def random_uuid(rng):
    return uuid_module.UUID(int=rng.getrandbits(128))


def random_bytes(rng, size):
    mode = rng.random()
    if mode < 0.1:
        return bytes(size)
    if mode < 0.2:
        return bytes([rng.randrange(256)]) * size
    if mode < 0.4:
        return bytes(rng.randrange(0x20, 0x7F) for _ in range(size))
    return rng.randbytes(size)


_ALPHABETS = [
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
    "abcXYZ019 ._-/\\()[]{}%$#@!&'\"+=,;<>|~^`?*",
    "äöüßéèñçøåÆŒ€ŞğЖдщλΩπ",
    "日本語漢字かなカナ한글",
    "😀🎉𝄞𐍈",
]


def random_text(rng, minimum=0, maximum=24, level=4, no_colon=False):
    """Random text without control characters.

    level: 0 letters and digits, 1 + punctuation, 2 + Latin/Greek/Cyrillic,
    3 + BMP, 4 + supplementary planes.
    """
    length = rng.randint(minimum, maximum)
    alphabet = "".join(_ALPHABETS[: rng.randint(0, level) + 1])
    text = "".join(rng.choice(alphabet) for _ in range(length))
    if no_colon:
        text = text.replace(":", "_")
    # Leading and trailing blanks are lost in the normalized output.
    return re.sub(r"^ | $", "x", text)
