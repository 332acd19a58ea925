"""Apple unified logging files (tracev3, timesync, uuidtext and shared-cache strings)."""

import base64
import ctypes
import datetime
import ipaddress
import json
import os
import re
import shutil
import stat
import struct
import uuid

import lz4.block

from vf import spec

_SPEC = os.path.join(os.path.dirname(__file__), "..", "..", "spec", "aul.json")
with open(_SPEC, encoding="utf-8") as _file_object:
    TABLES = {
        name: {int(key): value for key, value in table.items()}
        for name, table in json.load(_file_object).items()
    }

_LIBC = ctypes.CDLL("libc.so.6")

PRIVATE = "<private>"
MISSING = "<decode: missing data>"
UNSUPPORTED = "<decode: unsupported value>"

LOG_TYPES = {0x00: "Default", 0x01: "Info", 0x02: "Debug", 0x10: "Error", 0x11: "Fault"}
SIGNPOST_TYPES = (0x40, 0x41, 0x42, 0x80, 0x81, 0x82, 0xC0, 0xC1, 0xC2)
SCOPES = {4: "thread", 8: "process", 12: "system"}
EVENTS = {0: "event", 1: "begin", 2: "end"}
MASK63 = (1 << 63) - 1


def c_format(format_string, *arguments):
    """What the C library prints."""
    buffer = ctypes.create_string_buffer(70000)
    size = _LIBC.snprintf(buffer, len(buffer), format_string.encode("ascii"), *arguments)
    assert 0 <= size < len(buffer)
    return buffer.raw[:size].decode("latin1")


class Piece:
    """A conversion of a format string with its data items and expected text."""

    def __init__(self, text, items, expected, label):
        self.text = text
        # Data items: (value type, data, where) with where None (inline), "v" or "p".
        self.items = items
        # A string or a tuple of alternatives.
        self.expected = expected
        self.label = label


def _annotate(rng, *names):
    """The annotation of a conversion, with names that do not affect it."""
    before = [n for n in ("public", "name=count", "private", "sensitive") if rng.random() < 0.2]
    after = [n for n in ("xcode:size-in-bytes", "bluetooth:OI_STATUS", "name=a.b") if rng.random() < 0.1]
    parts = before + list(names) + after
    if rng.random() < 0.2:
        rng.shuffle(before)
        parts = list(names) + before + after
    if not parts:
        return ""
    return "{" + rng.choice((",", ", ")).join(parts) + "}"


def word(rng, low=0, high=12):
    return "".join(
        rng.choice("abcXYZ019 _-/.:é✓{}") for _ in range(rng.randint(low, high))
    )


def ascii_word(rng, low=1, high=12):
    return "".join(rng.choice("abcXYZ019 _-/.:{}%") for _ in range(rng.randint(low, high)))


def _inline(rng, data):
    return [(rng.choice((0x00, 0x02)), data, None)]


def _integer_bytes(rng, size, signed):
    choice = rng.random()
    if choice < 0.15:
        return bytes(size)
    if choice < 0.3:
        return b"\xff" * size
    if choice < 0.4:
        return (1 << (8 * size - 1)).to_bytes(size, "little")
    if choice < 0.6:
        return rng.randint(0, 9).to_bytes(size, "little")
    return rng.randbytes(size)


def _precision_item(rng, value, string=False):
    size = 4
    return [(0x12 if string else 0x10, struct.pack("<i", value), None)]


def integer_piece(rng):
    specifier = rng.choice("ddiiuuxxXXooDUO")
    size, modifier = rng.choice(
        ((1, "hh"), (2, "h"), (4, ""), (4, ""), (8, "l"), (8, "ll"), (8, "q"),
         (8, "j"), (8, "z"), (8, "t"), (4, "z"))
    )
    if specifier in "DUO":
        size, modifier = 8, ""
    signed = specifier in "diD"
    data = _integer_bytes(rng, size, signed)
    value = int.from_bytes(data, "little", signed=signed)
    stored = size
    if size < 4 and rng.random() < 0.5:
        # The value is stored as an integer.
        stored = 4
        data = value.to_bytes(4, "little", signed=signed)
    flags = "".join(rng.choice("-+0 #") for _ in range(rng.choice((0, 0, 1, 1, 2, 3))))
    if not signed:
        flags = flags.replace("+", "").replace(" ", "")
    width = rng.choice(("", "", "", "1", "5", "8", "12", "20", "66"))
    items = []
    arguments = []
    precision = rng.choice(("", "", "", ".0", ".", ".3", ".11", ".25", ".*"))
    if precision == ".*":
        number = rng.choice((0, 1, 3, 10, 21, -1, -7))
        items = _precision_item(rng, number)
        arguments.append(ctypes.c_int(number))
    elif precision and rng.random() < 0.2:
        items = _precision_item(rng, int(precision[1:] or "0"))
    items = items + _inline(rng, data)
    c_specifier = {"D": "d", "U": "u", "O": "o"}.get(specifier, specifier)
    arguments.append(ctypes.c_int64(value) if signed else ctypes.c_uint64(value))
    c_flags = flags
    if c_specifier in "diu":
        c_flags = c_flags.replace("#", "")
    expected = c_format(f"%{c_flags}{width}{precision}ll{c_specifier}", *arguments)
    text = f"%{_annotate(rng)}{flags if c_specifier not in 'diu' else c_flags}{width}{precision}{modifier}{specifier}"
    return Piece(text, items, expected, f"integer-{specifier}")


def pointer_piece(rng):
    size = rng.choice((4, 8))
    data = rng.randbytes(size)
    value = int.from_bytes(data, "little") or 1
    data = value.to_bytes(size, "little")
    width = rng.choice(("", "", "4", "20", "24"))
    flags = rng.choice(("", "-")) if width else ""
    return Piece(
        f"%{_annotate(rng)}{flags}{width}p", _inline(rng, data),
        c_format(f"%{flags}{width}s", f"0x{value:x}".encode()), "pointer",
    )


def character_piece(rng):
    value = rng.randint(0x21, 0x7E)
    size = rng.choice((1, 4, 4))
    width = rng.choice(("", "", "1", "5"))
    flags = rng.choice(("", "-")) if width else ""
    return Piece(
        f"%{_annotate(rng)}{flags}{width}c", _inline(rng, value.to_bytes(size, "little")),
        c_format(f"%{flags}{width}c", ctypes.c_int(value)), "character",
    )


def float_piece(rng):
    specifier = rng.choice("feEgGfF")
    value = rng.choice((
        0.0, -0.0, 1.5, -2.25, 0.1, 1e300, 5e-324, 123456789.0, rng.uniform(-1e6, 1e6),
        10 ** rng.uniform(-20, 20), rng.random(), rng.randint(-100, 100) / 2,
        float("inf"), float("-inf"), 2.5, 0.5, 999999.5,
    ))
    if rng.random() < 0.3:
        try:
            data = struct.pack("<f", value)
        except OverflowError:
            data = struct.pack("<f", 0.5)
        value = struct.unpack("<f", data)[0]
    else:
        data = struct.pack("<d", value)
    flags = "".join(rng.choice("-+0 #") for _ in range(rng.choice((0, 0, 1, 1, 2, 3))))
    if value in (float("inf"), float("-inf")):
        flags = flags.replace("0", "").replace("#", "")
    width = rng.choice(("", "", "", "1", "5", "8", "12", "30"))
    precision = rng.choice(("", "", "", ".0", ".", ".3", ".11", ".20", ".*"))
    items = []
    arguments = []
    if precision == ".*":
        number = rng.choice((0, 1, 3, 9, 17, -1))
        items = _precision_item(rng, number)
        arguments.append(ctypes.c_int(number))
    items = items + _inline(rng, data)
    arguments.append(ctypes.c_double(value))
    expected = c_format(f"%{flags}{width}{precision}{specifier}", *arguments)
    if "#" in flags and specifier in "gG":
        # glibc drops the trailing zeros of a value that is rounded up to the
        # next power of 10, hence use the formatting of Python instead.
        shown = "" if precision == ".*" and number < 0 else precision.replace("*", str(number if precision == ".*" else 0))
        expected = f"%{flags}{width}{shown}{specifier}" % value
    modifier = rng.choice(("", "", "l", "L"))
    return Piece(
        f"%{_annotate(rng)}{flags}{width}{precision}{modifier}{specifier}",
        items, expected, f"float-{specifier}",
    )


def string_piece(rng, value_types=(0x20, 0x22, 0x40, 0x42), where="v"):
    """A string with an optional width and precision."""
    specifier = rng.choice("s@")
    width = rng.choice(("", "", "", "1", "6", "22")) if specifier == "s" else ""
    flags = rng.choice(("", "-")) if width else ""
    precision = rng.choice(("", "", "", ".1", ".4", ".16", ".*", ".0", ".")) if specifier == "s" else ""
    # The width and precision are in bytes, hence use ASCII strings for those.
    most = spec.extent(rng, 20, 1500, 0.1)
    value = ascii_word(rng) if width or precision else word(rng, 0, most)
    items = []
    limit = None
    if precision == ".*":
        limit = rng.choice((1, 3, 8, 100, -1, 0))
        items = _precision_item(rng, limit, string=True)
    elif precision:
        limit = int(precision[1:] or "0")
        if rng.random() < 0.3:
            items = _precision_item(rng, limit, string=True)
    if limit is not None and limit > 0:
        expected = value[:limit]
    else:
        # Note that %.0s has been observed to have no effect.
        expected = value
    if width:
        padded = expected.ljust if flags else expected.rjust
        expected = padded(int(width))
    data = value.encode("utf-8")
    if rng.random() < 0.7 or not data:
        data += b"\0"
    if not value and not width and rng.random() < 0.5:
        data = b""
        expected = "(null)" if where == "v" else PRIVATE
    return Piece(
        f"%{_annotate(rng)}{flags}{width}{precision}{specifier}",
        items + [(rng.choice(value_types), data, where)], expected,
        "string" if where == "v" else "private-string",
    )


def private_string_piece(rng):
    return string_piece(rng, (0x21, 0x41), "p")


def private_piece(rng):
    value_type = rng.choice((0x01, 0x25, 0x31, 0x35, 0x45))
    specifier = rng.choice("dsux@")
    names = rng.choice((("private",), ("sensitive",), ("private", "mask.hash"), ()))
    text = "%" + ("{" + ",".join(names) + "}" if names else "") + specifier
    return Piece(text, [(value_type, rng.randbytes(rng.choice((4, 4, 8))) if value_type == 0x01 else bytes(4), None)], PRIVATE, "private")


def errno_piece(rng):
    value = rng.choice((*TABLES["errno"], 0, 2, 65, 200, 4096, -100, -2147483648))
    known = TABLES["errno"].get(value, f"<decode: unknown value: {value:d}>")
    data = struct.pack("<i", value)
    if rng.random() < 0.4:
        return Piece(f"%{_annotate(rng)}m", _inline(rng, data), known, "errno-m")
    name = rng.choice(("errno", "darwin.errno"))
    return Piece(
        f"%{_annotate(rng, name)}d", _inline(rng, data), f"[{value:d}: {known}]", "errno",
    )


def _boolean(name, false, true):
    def make(rng):
        size = rng.choice((1, 4, 4, 8))
        value = rng.choice((0, 0, 1, 1, 1 << (8 * size - 8), 2))
        return Piece(
            f"%{_annotate(rng, name)}d", _inline(rng, value.to_bytes(size, "little")),
            true if value else false, name,
        )
    return make


def mode_piece(rng):
    mode = rng.choice((0x1000, 0x2000, 0x4000, 0x6000, 0x8000, 0xA000, 0xC000)) | rng.randint(0, 0o777)
    return Piece(
        f"%{_annotate(rng, 'darwin.mode')}d", _inline(rng, struct.pack("<I", mode)),
        stat.filemode(mode), "darwin.mode",
    )


def in_addr_piece(rng):
    data = rng.choice((rng.randbytes(4), b"\x7f\0\0\1", bytes(4), b"\xff" * 4))
    name = rng.choice(("in_addr", "network:in_addr"))
    return Piece(
        f"%{_annotate(rng, name)}d", _inline(rng, data), str(ipaddress.IPv4Address(data)), "in_addr",
    )


def _ipv6_data(rng):
    return rng.choice((
        rng.randbytes(16), bytes(15) + b"\1", bytes(16), b"\xfe\x80" + bytes(6) + rng.randbytes(8),
        bytes(10) + b"\xff\xff" + rng.randbytes(4), rng.randbytes(2) + bytes(12) + rng.randbytes(2),
    ))


def in6_addr_piece(rng):
    data = _ipv6_data(rng)
    address = ipaddress.IPv6Address(data)
    name = rng.choice(("in6_addr", "network:in6_addr"))
    return Piece(
        f"%{_annotate(rng, name)}.16P", _precision_item(rng, 16, True) + [(rng.choice((0x30, 0x32)), data, "v")],
        (address.exploded, str(address)), "in6_addr",
    )


def sockaddr_piece(rng):
    name = rng.choice(("sockaddr", "network:sockaddr"))
    choice = rng.random()
    if choice < 0.1:
        data, expected = b"", "<NULL>"
    elif choice < 0.5:
        address = rng.randbytes(4)
        data = b"\x10\x02" + rng.randbytes(2) + address + bytes(8)
        expected = str(ipaddress.IPv4Address(address))
    elif choice < 0.9:
        address = _ipv6_data(rng)
        data = b"\x1c\x1e" + rng.randbytes(6) + address + rng.randbytes(4)
        expected = str(ipaddress.IPv6Address(address))
        packed = ipaddress.IPv6Address(address).ipv4_mapped
        if packed:
            expected = (expected, f"::ffff:{packed}")
    else:
        data, expected = b"\x10\x07" + rng.randbytes(14), UNSUPPORTED
    return Piece(
        f"%{_annotate(rng, name)}.{max(len(data), 1)}P",
        _precision_item(rng, len(data), True) + [(rng.choice((0x30, 0x32)), data, "v")], expected, "sockaddr",
    )


def time_piece(rng):
    size = rng.choice((4, 8))
    low, high = -(1 << 31), (1 << 31) - 1
    if size == 8 and rng.random() < 0.5:
        low, high = -62135596800, 253402300799
    value = rng.choice((0, low, high, -1, rng.randint(low, high)))
    expected = (
        datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=value)
    ).isoformat(sep=" ")
    if size == 8 and rng.random() < 0.1:
        value, expected = rng.choice((1 << 62, -(1 << 63), (1 << 63) - 1)), UNSUPPORTED
    return Piece(
        f"%{_annotate(rng, 'time_t')}d", _inline(rng, value.to_bytes(size, "little", signed=True)),
        expected, "time_t",
    )


def uuid_piece(rng):
    data = rng.choice((rng.randbytes(16), bytes(16)))
    return Piece(
        f"%{_annotate(rng, 'uuid_t')}.{rng.choice(('16', '*'))}P",
        _precision_item(rng, 16, True) + [(rng.choice((0x30, 0x32)), data, "v")],
        str(uuid.UUID(bytes=data)).upper(), "uuid_t",
    )


def mask_hash_piece(rng):
    data = rng.choice((rng.randbytes(16), b"", rng.randbytes(16)))
    value = f"'{base64.b64encode(data).decode('ascii')}'" if data else "(null)"
    names = rng.choice((("mask.hash",), ("mask.hash", "mdnsresponder:ip_addr")))
    return Piece(
        f"%{_annotate(rng, *names)}{rng.choice(('s', '@', '.16P', 'd'))}", [(0xF2, data, "v")],
        f"<mask.hash: {value}>", "mask.hash",
    )


def _named_integer(name, table, template="{0}"):
    def make(rng):
        values = TABLES[table]
        value = rng.choice((rng.choice(list(values)), rng.choice((9, 29, 99, 3000000000, 66))))
        known = values.get(value, f"<decode: unknown value: {value:d}>")
        return Piece(
            f"%{_annotate(rng, name)}d", _inline(rng, struct.pack("<I", value)),
            template.format(known), name,
        )
    return make


def _dns_flags(flags):
    names = [
        name for bit, name in (
            (0x0400, "AA"), (0x0200, "TC"), (0x0100, "RD"), (0x0080, "RA"),
            (0x0020, "AD"), (0x0010, "CD"),
        ) if flags & bit
    ]
    operations = ("Query", "IQuery", "Status", "Unassigned", "Notify", "Update", "DSO")
    codes = ("NoError", "FormErr", "ServFail", "NXDomain", "NotImp", "Refused", "YXDomain",
             "YXRRSet", "NXRRSet", "NotAuth", "NotZone", "DSOTypeNI")
    operation = (flags >> 11) & 15
    first = ("R" if flags & 0x8000 else "Q") + "/" + (
        operations[operation] if operation < len(operations) else "?"
    )
    code = codes[flags & 15] if flags & 15 < len(codes) else "?"
    return f"0x{flags:04X} (" + ", ".join([first, *names, code]) + ")"


def _dns_flags_value(rng):
    return rng.choice((0x8180, 0x0100, 0, 0xFFFF, rng.getrandbits(16), 1 << rng.randint(0, 15), 0x8400))


def mdns_piece(rng):
    kind = rng.choice(("dns.counts", "dns.idflags", "dnshdr"))
    name = f"mdns:{kind}"
    counts = [rng.choice((0, 1, 2, 65535, rng.getrandbits(16))) for _ in range(4)]
    identifier = rng.choice((0, 65535, rng.getrandbits(16)))
    flags = _dns_flags_value(rng)
    if kind == "dns.counts":
        data = struct.pack("<4H", *reversed(counts))
        return Piece(f"%{_annotate(rng, name)}lld", _inline(rng, data), "/".join(map(str, counts)), name)
    if kind == "dns.idflags":
        data = struct.pack("<HHI", flags, identifier, rng.choice((0, 7)))
        return Piece(
            f"%{_annotate(rng, name)}lld", _inline(rng, data),
            f"id: 0x{identifier:04X} ({identifier:d}), flags: {_dns_flags(flags)}", name,
        )
    data = struct.pack(">6H", identifier, flags, *counts)
    return Piece(
        f"%{_annotate(rng, name)}.12P", _precision_item(rng, 12, True) + [(rng.choice((0x30, 0x32)), data, "v")],
        f"id: 0x{identifier:04X} ({identifier:d}), flags: {_dns_flags(flags)}, counts: "
        + "/".join(map(str, counts)), name,
    )


def membership_piece(rng):
    indicator = rng.choice((0x23, 0x24, 0x44, 0xA0, 0xA3, 0xA4, 0xC3, 0x99))
    domain = rng.choice(("/Local/Default", "", "/LDAPv3/dé"))
    kind = "group" if indicator in (0x44, 0xC3) else "user"
    if indicator == 0x99:
        data, expected = b"\x99abc\0", "ERROR: unsupported type: 0x99"
    elif indicator in (0x23, 0xA3, 0xC3):
        number = rng.choice((501, 0, -2, 2147483647, -2147483648))
        data = bytes([indicator]) + struct.pack("<i", number) + domain.encode() + b"\0"
        expected = f"{kind}: {number:d}@{domain}"
    else:
        name = rng.choice(("wheel", "root", "用户", "a b"))
        data = bytes([indicator]) + name.encode() + b"\0" + domain.encode() + b"\0"
        expected = f"{kind}: {name}@{domain}"
    return Piece(
        f"%{_annotate(rng, 'odtypes:mbr_details')}.*P",
        _precision_item(rng, len(data), True) + [(rng.choice((0x30, 0x32)), data, "v")],
        expected, "odtypes:mbr_details",
    )


def sid_piece(rng):
    authority = rng.choice((5, 0, 1, 0xFFFFFFFFFFFF, 1 << 32, 0x123456789A))
    subs = [rng.choice((21, 0, 0xFFFFFFFF, rng.getrandbits(32))) for _ in range(rng.choice((0, 1, 4, 15)))]
    data = bytes([1, len(subs)]) + authority.to_bytes(6, "big") + b"".join(struct.pack("<I", s) for s in subs)
    return Piece(
        f"%{_annotate(rng, 'odtypes:nt_sid_t')}.*P",
        _precision_item(rng, len(data), True) + [(rng.choice((0x30, 0x32)), data, "v")],
        "-".join(map(str, ["S-1", authority, *subs])), "odtypes:nt_sid_t",
    )


def client_manager_state(rng):
    status = rng.choice((0, 1, 2, 0xFFFFFFFF, 256))
    restricted = rng.choice((0, 1, 1))
    return struct.pack("<II", status, restricted), (
        '{"locationRestricted":' + ("true" if restricted else "false")
        + f',"locationServicesEnabledStatus":{status:d}}}'
    )


def location_manager_state(rng):
    bits = iter([rng.random() < 0.5 for _ in range(30)])
    size = rng.choice((64, 72))
    # Value names in stored order with their offset, format and version.
    layout = [
        ("distanceFilter", 0, "<d"), ("desiredAccuracy", 8, "<d"), ("updatingLocation", 16, "?"),
        ("requestingLocation", 17, "?"), ("requestingRanging", 18, "?"), ("updatingRanging", 19, "?"),
        ("updatingHeading", 20, "?"), ("headingFilter", 24, "<d"), ("allowsLocationPrompts", 32, "?"),
        ("allowsAlteredAccessoryLoctions", 33, "?"), ("dynamicAccuracyReductionEnabled", 34, "?"),
        ("previousAuthorizationStatusValid", 35, "?"), ("previousAuthorizationStatus", 36, "<I"),
        ("limitsPrecision", 40, "?"), ("activityType", 48, "<q"),
        ("pausesLocationUpdatesAutomatially", 56, "<i"), ("paused", 60, "?"),
        ("allowsBackgroundLocationUpdates", 61, "?"), ("showsBackgroundLocationIndicator", 62, "?"),
        ("allowsMapCorrection", 63, "?"),
    ]
    if size == 72:
        layout += [
            ("batchingLocation", 64, "?"), ("updatingVehicleSpeed", 65, "?"),
            ("updatingVehicleHeading", 66, "?"), ("matchInfoEnabled", 67, "?"),
            ("groundAltitudeEnabled", 68, "?"), ("fusionInfoEnabled", 69, "?"),
            ("courtesyPromptNeeded", 70, "?"), ("isAuthorizedForWidgetUpdates", 71, "?"),
        ]
    order = (
        "previousAuthorizationStatusValid paused requestingLocation updatingVehicleSpeed "
        "desiredAccuracy allowsBackgroundLocationUpdates dynamicAccuracyReductionEnabled "
        "distanceFilter allowsLocationPrompts activityType groundAltitudeEnabled "
        "pausesLocationUpdatesAutomatially fusionInfoEnabled isAuthorizedForWidgetUpdates "
        "updatingVehicleHeading batchingLocation showsBackgroundLocationIndicator updatingLocation "
        "requestingRanging updatingHeading previousAuthorizationStatus allowsMapCorrection "
        "matchInfoEnabled allowsAlteredAccessoryLoctions updatingRanging limitsPrecision "
        "courtesyPromptNeeded headingFilter"
    ).split()
    data = bytearray(size)
    shown = {}
    for name, offset, code in layout:
        if code == "?":
            value = next(bits)
            shown[name] = "true" if value else "false"
        elif code == "<d":
            value = float(rng.choice((-1, 0, 1, 100, 3000, -2, 5)))
            shown[name] = f"{int(value)}"
        else:
            top = 31 if code != "<q" else 62
            value = rng.choice((0, 1, 3, (1 << top) - 1))
            if code != "<I" and rng.random() < 0.3:
                value = -value
            shown[name] = str(value)
        struct.pack_into(code, data, offset, value)
    text = ",".join(f'"{name}":{shown[name]}' for name in order if name in shown)
    return bytes(data), "{" + text + "}"


def location_piece(rng):
    kind = rng.choice(("client", "manager", "auth", "escape"))
    if kind == "client":
        data, expected = client_manager_state(rng)
        name = "location:_CLClientManagerStateTrackerState"
    elif kind == "manager":
        data, expected = location_manager_state(rng)
        name = "location:_CLLocationManagerStateTrackerState"
    elif kind == "auth":
        value = rng.choice((0, 1, 2, 3, 4, 5, 1 << 40))
        data = struct.pack("<Q", value)
        known = TABLES["clauth"].get(value, f"<decode: unknown value: {value:d}>")
        return Piece(
            f"%{_annotate(rng, 'location:CLClientAuthorizationStatus')}lld", _inline(rng, data),
            f'"{known}"', "location:CLClientAuthorizationStatus",
        )
    else:
        value = word(rng, 0, 20)
        return Piece(
            f"%{_annotate(rng, 'location:escape_only')}s",
            [(rng.choice((0x20, 0x22)), value.encode() + (b"\0" if rng.random() < 0.7 or not value else b""), "v")],
            '"' + value.replace("/", "\\/") + '"', "location:escape_only",
        )
    return Piece(
        f"%{_annotate(rng, name)}.*P",
        _precision_item(rng, len(data), True) + [(rng.choice((0x30, 0x32)), data, "v")], expected, name,
    )


def signpost_piece(rng):
    kind = rng.choice(("attribute", "begin_time", "end_time", "number1", "number2", "number3", "string1", "string2"))
    if kind in ("begin_time", "end_time"):
        value = rng.choice((0, 2180300470618, (1 << 64) - 1, rng.getrandbits(64)))
        return Piece(
            f"%{_annotate(rng, 'signpost.description:' + kind)}llu", _inline(rng, struct.pack("<Q", value)),
            f"__##__signpost.description#____#{kind}#_##_#{value}##__##", f"signpost.{kind}",
        )
    if kind in ("string1", "string2"):
        value = word(rng, 0, 15)
        return Piece(
            f"%{_annotate(rng, 'signpost.telemetry:' + kind)}{rng.choice('s@')}",
            [(rng.choice((0x20, 0x22, 0x40, 0x42)), value.encode() + b"\0", "v")],
            f"__##__signpost.telemetry#____#{kind}#_##_#{value}##__##", f"signpost.{kind}",
        )
    name = "signpost.description:attribute" if kind == "attribute" else f"signpost.telemetry:{kind}"
    prefix = (
        "__##__signpost.description#____#attribute#_##_#" if kind == "attribute"
        else f"__##__signpost.telemetry#____#{kind}#_##_#"
    )
    choice = rng.choice(("float", "signed", "unsigned", "string"))
    if choice == "float":
        value = rng.choice((5.88671875, 6.05859375, 0.5, -1.25, 1024.0, 0.0, 3.0))
        size = rng.choice("fd")
        items, conversion, text = _inline(rng, struct.pack("<" + size, value)), rng.choice("fg"), f"{value:.9g}"
    elif choice == "signed":
        value = rng.choice((0, -1, 501, -2147483648, 2147483647))
        items, conversion, text = _inline(rng, struct.pack("<q", value)), "lld", str(value)
    elif choice == "unsigned":
        value = rng.getrandbits(32)
        conversion = rng.choice(("u", "x"))
        items, text = _inline(rng, struct.pack("<I", value)), f"{value:{conversion.replace('u', 'd')}}"
    else:
        text = word(rng, 1, 15)
        items, conversion = [(rng.choice((0x20, 0x22)), text.encode() + b"\0", "v")], rng.choice("s@")
    return Piece(
        f"%{_annotate(rng, name)}{conversion}", items, f"{prefix}{text}##__##", f"signpost.{kind}-{choice}",
    )


def unsupported_piece(rng):
    name = rng.choice(("vendor:thing", "zz.unknown", "acme:x.y"))
    return Piece(
        f"%{_annotate(rng, name)}d", _inline(rng, rng.randbytes(4)),
        f"<decode: unsupported decoder: {name}>", "unsupported-decoder",
    )


def wrong_size_piece(rng):
    """A value of a size its conversion or decoder does not support."""
    name, specifier, good = rng.choice((
        ("", "d", (1, 2, 4, 8)), ("", "u", (1, 2, 4, 8)), ("", "x", (1, 2, 4, 8)),
        ("", "f", (4, 8)), ("", "g", (4, 8)), ("", "m", (4,)), ("errno", "d", (4,)),
        ("in_addr", "d", (4,)), ("in6_addr", "P", (16,)), ("time_t", "d", (4, 8)),
        ("uuid_t", "P", (16,)), ("mdns:dns.counts", "d", (8,)), ("mdns:dnshdr", "P", (12,)),
        ("mdns:dns.idflags", "d", (8,)), ("mdns:protocol", "d", (4,)), ("mdns:rrtype", "d", (4,)),
        ("mdns:nreason", "d", (4,)), ("odtypes:ODError", "d", (4,)), ("odtypes:mbridtype", "d", (4,)),
        ("location:SqliteResult", "d", (4,)), ("signpost.description:begin_time", "d", (8,)),
        ("location:_CLClientManagerStateTrackerState", "P", (8,)),
        ("location:_CLLocationManagerStateTrackerState", "P", (64, 72)),
        ("odtypes:nt_sid_t", "P", None), ("odtypes:mbr_details", "P", None),
    ))
    if name == "odtypes:nt_sid_t":
        data = rng.choice((b"", b"\1", b"\1\4" + bytes(6), b"\1\1" + bytes(9)))
    elif name == "odtypes:mbr_details":
        data = rng.choice((b"", b"\x23\1", b"\x24abc", b"\xa3\1\0\0\0abc"))
    else:
        size = rng.choice([n for n in (0, 1, 2, 3, 5, 7, 9, 12, 15, 17, 33) if n not in good])
        data = rng.randbytes(size)
    annotation = _annotate(rng, name) if name else ""
    if specifier == "P":
        items = [(rng.choice((0x30, 0x32)), data, "v")]
        specifier = ".*P"
    else:
        items = _inline(rng, data)
    return Piece(f"%{annotation}{specifier}", items, UNSUPPORTED, "wrong-size")


def invalid_string_piece(rng):
    data = rng.choice((b"\xff\xfe\0", b"abc\xc3", b"\x80"))
    return Piece(
        f"%{_annotate(rng)}s", [(rng.choice((0x20, 0x40)), data, "v")], UNSUPPORTED, "invalid-utf8",
    )


PIECES = {
    "integer": (integer_piece, 6), "pointer": (pointer_piece, 1), "character": (character_piece, 1),
    "float": (float_piece, 4), "string": (string_piece, 4), "private-string": (private_string_piece, 2),
    "private": (private_piece, 2), "errno": (errno_piece, 2),
    "bool": (_boolean("bool", "false", "true"), 1), "BOOL": (_boolean("BOOL", "NO", "YES"), 1),
    "mdns:acceptable": (_boolean("mdns:acceptable", "unacceptable", "acceptable"), 1),
    "mdns:addrmv": (_boolean("mdns:addrmv", "rmv", "add"), 1),
    "mdns:yesno": (_boolean("mdns:yesno", "no", "yes"), 1),
    "mode": (mode_piece, 1), "in_addr": (in_addr_piece, 1), "in6_addr": (in6_addr_piece, 1),
    "sockaddr": (sockaddr_piece, 1), "time_t": (time_piece, 1), "uuid_t": (uuid_piece, 1),
    "mask.hash": (mask_hash_piece, 1), "mdns": (mdns_piece, 2),
    "sqlite": (_named_integer("location:SqliteResult", "sqlite", '"{0}"'), 1),
    "protocol": (_named_integer("mdns:protocol", "protocol"), 1),
    "reason": (_named_integer("mdns:nreason", "reason"), 1),
    "rrtype": (_named_integer("mdns:rrtype", "rrtype"), 1),
    "oderror": (_named_integer("odtypes:ODError", "oderror"), 1),
    "mbridtype": (_named_integer("odtypes:mbridtype", "mbridtype"), 1),
    "membership": (membership_piece, 1), "sid": (sid_piece, 1), "location": (location_piece, 2),
    "signpost": (signpost_piece, 3), "unsupported": (unsupported_piece, 1),
    "wrong-size": (wrong_size_piece, 3), "invalid-utf8": (invalid_string_piece, 1),
}
_NAMES = list(PIECES)
_WEIGHTS = [PIECES[name][1] for name in _NAMES]


class Message:
    """A format string with the data items of its values and its expected text."""

    def __init__(self, format_string, items, expected, labels=()):
        self.format_string = format_string
        self.items = items
        # A list of strings and tuples of alternatives.
        self.expected = expected
        self.labels = list(labels)

    def matches(self, text):
        if all(isinstance(part, str) for part in self.expected):
            return text == "".join(self.expected)
        pattern = "".join(
            re.escape(part) if isinstance(part, str)
            else "(?:" + "|".join(map(re.escape, part)) + ")"
            for part in self.expected
        )
        return re.fullmatch(pattern, text, re.DOTALL) is not None

    def text(self):
        return "".join(part if isinstance(part, str) else part[0] for part in self.expected)


def literal(rng):
    """A literal part of a format string and how it is shown."""
    choice = rng.random()
    if choice < 0.15:
        return "%%", "%"
    if choice < 0.3:
        value = rng.choice(("{", "}", "{0}", "{0:s}", "{{", "}}", "{}", "\n", "\t", "100 {", "\\n", "é✓", "\U0001f600"))
        return value, value
    value = "".join(rng.choice("abc XYZ.,:=()[]<>/'\"") for _ in range(rng.randint(1, spec.extent(rng, 10, 3000))))
    return value, value


def message(rng, names=None, number=None, missing=0.1, inline_only=False):
    """A message of a number of conversions."""
    if number is None:
        number = spec.many(rng, (0, 1, 1, 2, 2, 3, 5), 40, 0.05)
    text, items, expected, labels = [], [], [], []

    def add_literal():
        source, shown = literal(rng)
        text.append(source)
        expected.append(shown)

    if rng.random() < 0.6 or not number:
        add_literal()
    stop = number
    if number and rng.random() < missing:
        stop = rng.randrange(number)
    extra = []
    for index in range(number):
        if names:
            name = rng.choice(names)
        else:
            name = rng.choices(_NAMES, _WEIGHTS)[0]
        piece = PIECES[name][0](rng)
        text.append(piece.text)
        if index < stop:
            items.extend(piece.items)
            expected.append(piece.expected)
            labels.append(piece.label)
        else:
            expected.append(MISSING)
            labels.append("missing")
        if rng.random() < 0.7:
            add_literal()
    if stop == number and rng.random() < 0.05:
        # More data items than conversions.
        items.append((0x00, rng.randbytes(4), None))
        labels.append("extra")
    return Message("".join(text), items, expected, labels)


# Files.

# If set what the values are that have no influence on the log entries.
FILL = None


def fill(size, default=0):
    """A value of a number of bytes."""
    if FILL is None:
        return default
    return FILL.getrandbits(8 * size) if FILL.random() < 0.8 else FILL.getrandbits(5)


def fill_bytes(size):
    return bytes(size) if FILL is None else FILL.randbytes(size)


def fill_text(size, default):
    """A string in a fixed number of bytes."""
    if FILL is None:
        return default + bytes(size - len(default))
    value = word(FILL, 0, (size - 1) // 3).encode("utf-8") + b"\0"
    return value + (bytes if FILL.random() < 0.5 else FILL.randbytes)(size - len(value))


def fill_signed(default=0):
    return default if FILL is None else FILL.choice((-60, 0, 720, -(1 << 31), (1 << 31) - 1))


def uuidtext_file(ranges, image_path):
    """ranges is a list of (offset, data)."""
    data = struct.pack("<4sIII", b"\x99\x88\x77\x66", 2, 1, len(ranges))
    data += b"".join(struct.pack("<II", offset, len(string)) for offset, string in ranges)
    data += b"".join(string for _, string in ranges)
    return data + image_path.encode("utf-8") + b"\0"


def dsc_file(version, ranges, images):
    """ranges: (range offset, data, image index); images: (text offset, size, uuid, path)."""
    header = struct.pack("<4sHHII", b"hcsd", version, 0, len(ranges), len(images))
    range_size, image_size = (16, 28) if version == 1 else (24, 32)
    offset = len(header) + range_size * len(ranges) + image_size * len(images)
    body = b""
    range_data = b""
    for range_offset, data, index in ranges:
        if version == 1:
            range_data += struct.pack("<IIII", index, range_offset, offset + len(body), len(data))
        else:
            range_data += struct.pack("<QIIQ", range_offset, offset + len(body), len(data), index)
        body += data
    image_data = b""
    for text_offset, size, identifier, path in images:
        image_data += struct.pack(
            "<II" if version == 1 else "<QI", text_offset, size
        ) + identifier.bytes + struct.pack("<I", offset + len(body))
        body += path.encode("utf-8") + b"\0"
    return header + range_data + image_data + body


def boot_record(identifier, numerator, denominator, timestamp, zone=0, dst=0):
    return struct.pack(
        "<2sHI16sIIqiI", b"\xb0\xbb", 48, fill(4), identifier.bytes, numerator, denominator,
        timestamp, fill_signed(zone), fill(4, dst),
    )


def sync_record(kernel_time, timestamp, zone=0, dst=0):
    return struct.pack(
        "<2sHIQqiI", b"Ts", 32, fill(4), kernel_time, timestamp, fill_signed(zone), fill(4, dst),
    )


def chunk(tag, data, sub_tag=0, pad=True):
    result = struct.pack("<IIQ", tag, fill(4, sub_tag), len(data)) + data
    if pad:
        result += fill_bytes(-len(result) % 8)
    return result


def header_chunk(boot_identifier, numerator, denominator, timestamp, continuous_time=1000, start=2000):
    data = struct.pack(
        "<IIQiIIiII", numerator, denominator, fill(8, start), timestamp, fill(4), fill(4), fill_signed(-60),
        fill(4, 1), fill(4, 1) | 1,
    )
    data += struct.pack("<IIQ", 0x6100, fill(4, 8), fill(8, continuous_time))
    data += struct.pack("<IIII", 0x6101, fill(4, 56), fill(4), fill(4))
    data += fill_text(16, b"21G72\0") + fill_text(32, b"MacBookPro\0")
    data += struct.pack("<II16sII", 0x6102, fill(4, 24), boot_identifier.bytes, fill(4, 88), fill(4))
    data += struct.pack("<II", 0x6103, fill(4, 48))
    data += fill_text(48, b"/var/db/timezone/zoneinfo/Europe/Amsterdam\0")
    return chunk(0x1000, data, 0x11)


def catalog_chunk(uuids, strings, processes, sub_chunks, earliest=0):
    """strings is the encoded sub system strings; processes are encoded entries."""
    entries = b"".join(processes)
    sub_data = b"".join(sub_chunks)
    strings_offset = 16 * len(uuids)
    entries_offset = strings_offset + len(strings)
    data = struct.pack(
        "<HHHHH6sQ", strings_offset, entries_offset, len(processes), entries_offset + len(entries),
        len(sub_chunks), fill_bytes(6), fill(8, earliest),
    )
    data += b"".join(identifier.bytes for identifier in uuids) + strings + entries + sub_data
    return chunk(0x600B, data, 0x11)


def process_entry(index, main, dsc, proc_id, pid, euid, uuid_entries, sub_systems):
    data = struct.pack(
        "<HHhhQIIIIII", fill(2, index), fill(2), main, dsc, proc_id[0], proc_id[1], pid, fill(4, euid), fill(4),
        len(uuid_entries), fill(4),
    )
    for size, uuid_index, address in uuid_entries:
        data += struct.pack("<IIHIH", size, fill(4), uuid_index, address & 0xFFFFFFFF, address >> 32)
    data += struct.pack("<II", len(sub_systems), fill(4))
    for identifier, sub_system_offset, category_offset in sub_systems:
        data += struct.pack("<HHH", identifier, sub_system_offset, category_offset)
    return data + fill_bytes(-len(data) % 8)


def catalog_sub_chunk(start, end, size, indexes=(), offsets=()):
    if FILL is not None:
        indexes = [fill(2) for _ in range(FILL.choice((0, 1, 2, 5)))]
        offsets = [fill(2) for _ in range(FILL.choice((0, 1, 2, 5)))]
    data = struct.pack("<QQII", fill(8, start), fill(8, end), size, fill(4, 0x100))
    data += struct.pack(f"<I{len(indexes)}H", len(indexes), *indexes)
    data += struct.pack(f"<I{len(offsets)}H", len(offsets), *offsets)
    return data + fill_bytes(-len(data) % 8)


def chunk_set(chunks_data, compressed=True):
    if compressed:
        data = lz4.block.compress(chunks_data, store_size=False)
        block = struct.pack("<4sII", b"bv41", len(chunks_data), len(data)) + data
    else:
        block = struct.pack("<4sI", b"bv4-", len(chunks_data)) + chunks_data
    return chunk(0x600D, block + b"bv4$")


def tracepoint(record_type, log_type, flags, reference, thread, delta, data):
    result = struct.pack(
        "<BBHIQIHH", record_type, log_type, flags, reference, thread, delta & 0xFFFFFFFF,
        delta >> 32, len(data),
    ) + data
    return result + fill_bytes(-len(result) % 8)


def firehose_chunk(proc_id, base_time, records, private=b"", stream=0, filler=b""):
    """A firehose chunk; private data is at the end."""
    public = b"".join(records)
    virtual = 4096 - len(private)
    data = struct.pack(
        "<QIBBHHHHBBQ", proc_id[0], proc_id[1], fill(1, 14), fill(1, 1), fill(2), 16 + len(public),
        virtual, fill(2), stream, fill(1, 1), base_time,
    )
    return chunk(0x6001, data + public + filler + private)


def encode_items(rng, items, prefix=b"", private=None):
    """The data items and values data.

    Args:
      prefix: what the values data starts with.
      private: bytearray that private data is added to.
    """
    result = b""
    values = bytearray(prefix)
    for value_type, data, where in items:
        if where is None and value_type in (0x31, 0x35, 0x25, 0x45):
            result += bytes([value_type, len(data)]) + data
        elif where is None:
            result += bytes([value_type, len(data)]) + data
        else:
            target = values if where == "v" else private
            if rng.random() < 0.2:
                target += rng.randbytes(rng.randint(1, 5))
            result += struct.pack("<BBHH", value_type, 4, len(target), len(data))
            target += data
    return result, bytes(values)


class Image:
    """An image (executable or library) with a strings file."""

    def __init__(self, rng, present=True, large=False):
        self.uuid = uuid.UUID(bytes=rng.randbytes(16))
        self.path = rng.choice(
            ("/usr/libexec/", "/System/Library/é/", "/bin/", "/a/b/c.d/e f/g/h/i/j/k/l/m/")
        ) + "".join(
            rng.choice("abcdef") for _ in range(rng.randint(1, 12))
        )
        self.present = present
        bases = rng.sample(range(1, 0x7FE), rng.randint(1, 4))
        self._ranges = [[base * 0x100000 + rng.randrange(0x1000), bytearray()] for base in bases]
        if large:
            self._ranges.append([0x80000000 + rng.randrange(0x7000000), bytearray()])

    def add(self, rng, string):
        """Adds a string and returns its reference."""
        base, data = rng.choice(self._ranges)
        if not data and rng.random() < 0.5:
            data += b"first\0"
        reference = base + len(data)
        data += string.encode("utf-8") + b"\0"
        return reference

    def last(self):
        """A reference directly after the last string of a range."""
        base, data = self._ranges[0]
        return base + len(data)

    def file(self):
        return uuidtext_file([(base, bytes(data)) for base, data in self._ranges], self.path)


class Cache:
    """A shared-cache strings file."""

    def __init__(self, rng, version, present=True):
        self.uuid = uuid.UUID(bytes=rng.randbytes(16))
        self.version = version
        self.present = present
        # Images: [text offset, size, identifier, path, region].
        self.images = []
        # Ranges: [range offset, data, image index].
        self.ranges = []
        regions = (0, 0, 1) if version == 1 else (0, 0, 1, 2, 3, 0x7FFF)
        slots = rng.sample(range(1, 0x3FF), 12)
        for index in range(rng.randint(1, 4)):
            region = rng.choice(regions)
            offset = (region << 31) + slots.pop() * 0x100000
            self.images.append([
                offset, rng.randint(0x100, 0xFFFFF), uuid.UUID(bytes=rng.randbytes(16)),
                f"/System/Library/F{index}.framework/F{rng.choice('éab')}", region,
            ])
            for _ in range(rng.randint(1, 2)):
                self.ranges.append([
                    (region << 31) + 0x40000000 + slots.pop() * 0x100000 + rng.randrange(99),
                    bytearray(), index,
                ])
        rng.shuffle(self.ranges)

    def add(self, rng, string):
        """Adds a string and returns its reference and image."""
        offset, data, index = rng.choice(self.ranges)
        if not data and rng.random() < 0.5:
            data += b"0\0"
        reference = offset + len(data)
        data += string.encode("utf-8") + b"\0"
        return reference, self.images[index]

    def file(self):
        return dsc_file(
            self.version, [(o, bytes(d), i) for o, d, i in self.ranges],
            [image[:4] for image in self.images],
        )


class Process:

    def __init__(self, rng, proc_id, main, cache, libraries, sub_systems):
        self.proc_id = proc_id
        self.pid = rng.choice((0, 1, 88, 99999, 0xFFFFFFFF))
        self.main = main
        self.cache = cache
        # (address, size, image)
        self.libraries = libraries
        # identifier: (sub system, category)
        self.sub_systems = sub_systems


class World:
    """A tracev3 file, the files it refers to and the log entries of it."""

    def __init__(self, rng, make_message=None, large=True, plain=False, images=None):
        self.rng = rng
        # What is to be invalid, until it is "done".
        self.broken = None
        self.make_message = make_message or (
            lambda: message(rng, ("integer", "string", "uuid_t", "private-string", "private", "bool", "errno"))
        )
        self.labels = {}
        self.entries = []
        self.boot = uuid.UUID(bytes=rng.randbytes(16))
        self.timebase = rng.choice(((1, 1), (125, 3), (125, 3), (1000, 24)))
        self.header_seconds = rng.choice((0, 1659846550, -86400, (1 << 31) - 1))
        self.header_timebase = rng.choice(((1, 1), (125, 3)))
        self.syncs = None
        self.boot_timestamp = None
        self._timesync()
        self.images = [Image(rng, rng.random() < 0.85, rng.random() < 0.3) for _ in range(images or rng.randint(2, 5))]
        if plain:
            for image in self.images:
                image.present = True
        self.caches = [Cache(rng, rng.choice((1, 2)), plain or rng.random() < 0.85) for _ in range(rng.randint(1, 2))]
        self.plain = plain
        self._oversize_reference = 0
        self._known_oversize = []
        self._reuse = []

    def count(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    # Time.

    def _timesync(self):
        rng = self.rng
        self.timesync_files = {}
        if rng.random() < 0.2:
            self.count("without-timesync")
            return
        self.boot_timestamp = rng.choice((1659846550123456789, 1, -1000000001, 1700000000 * 10**9))
        times = sorted(rng.sample(range(1, 10**9), spec.many(rng, range(6), 200)))
        if times and rng.random() < 0.3:
            times[0] = 0
        self.syncs = [
            (time * rng.choice((1, 1, 1000)), self.boot_timestamp + rng.randint(-10**12, 10**14)) for time in times
        ]
        seen = set()
        self.syncs = [s for s in self.syncs if not (s[0] in seen or seen.add(s[0]))]
        if rng.random() < 0.5:
            rng.shuffle(self.syncs)
        data = boot_record(self.boot, *self.timebase, self.boot_timestamp)
        data += b"".join(sync_record(*sync) for sync in self.syncs)

        def other():
            result = boot_record(uuid.UUID(bytes=rng.randbytes(16)), 1, 7, 12345)
            for _ in range(spec.many(rng, range(3), 200)):
                result += sync_record(rng.getrandbits(30), rng.getrandbits(60))
            return result

        if rng.random() < 0.5:
            data = other() + data
        if rng.random() < 0.5:
            data += other()
        self.timesync_files[f"0000000000000002.{rng.choice(('timesync', 'timesync', 'TIMESYNC'))}"] = data
        for name in ("0000000000000001.timesync", "0000000000000003.TIMESYNC"):
            if rng.random() < 0.3:
                self.timesync_files[name] = other()
        if rng.random() < 0.2:
            self.timesync_files["readme.txt"] = b"not a timesync file"

    def timestamp(self, continuous_time):
        """The exact timestamp as a numerator and denominator after the base."""
        if self.boot_timestamp is not None:
            base, start = self.boot_timestamp, 0
            best = None
            for kernel_time, time in self.syncs:
                if kernel_time <= continuous_time and (best is None or kernel_time > best[0]):
                    best = (kernel_time, time)
            if best:
                start, base = best
            numerator, denominator = self.timebase
        else:
            base, start = self.header_seconds * 10**9, 0
            numerator, denominator = self.header_timebase
        return base, (continuous_time - start) * numerator, denominator

    def time_matches(self, continuous_time, value):
        base, numerator, denominator = self.timestamp(continuous_time)
        exact = base + numerator // denominator
        return isinstance(value, int) and abs(value - exact) <= 1 + (abs(numerator // denominator) >> 50)

    # Records.

    def _string(self, process, text):
        """Where a format string is stored.

        Returns a dict with flags, reference, structure values and expected values.
        """
        rng = self.rng
        kinds = ["main", "main", "identifier", "identifier"]
        if process.cache:
            kinds += ["cache", "cache", "large-cache", "large-cache"]
        if process.libraries:
            kinds += ["absolute", "absolute"]
        kind = rng.choice(kinds)
        variant = rng.choice(("string",) * 8 + ("dynamic", "unknown"))
        if self.plain:
            variant = "string"
        result = {"flags": 0, "large": None, "upper": None, "identifier": None, "shared": None}
        text_offset = 0
        if kind in ("main", "identifier", "absolute"):
            if kind == "main":
                image, result["flags"] = process.main, 0x0002
            elif kind == "identifier":
                image, result["flags"] = rng.choice(self.images), 0x000A
                result["identifier"] = image.uuid
            else:
                address, size, image = rng.choice(process.libraries)
                result["flags"] = 0x0008
                text_offset = address
            reference = None
            if variant == "string" and image.present:
                reference = image.add(rng, text)
                if kind == "absolute":
                    while reference >= 0x80000000:
                        reference = image.add(rng, text)
            elif not image.present:
                reference, variant = rng.randrange(1, 0x7FFFFFFF), "no-file"
            elif variant == "unknown" and kind != "absolute":
                # Outside of every range.
                reference = rng.choice((3, 0x7FFFFFF0))
            else:
                variant = "dynamic"
                reference = rng.randrange(1, 0x7FFFFFFF)
            large = reference >> 31
            if kind == "absolute":
                # Large offset data is not used in combination with an address.
                large = 0
            elif variant == "unknown" and rng.random() < 0.3:
                large = 0xFF97
            if large or (kind != "absolute" and rng.random() < 0.1):
                result["flags"] |= 0x0020
                result["large"] = large
            result["reference"] = reference & 0x7FFFFFFF
            result.update(sender=image.uuid, path=image.path if image.present else None, string=text)
            if variant == "dynamic":
                result["reference"] |= 0x80000000
                result["string"] = "%s"
            elif variant in ("no-file", "unknown"):
                result["string"] = None
            offset = rng.randrange(0x1000000)
            if kind == "absolute":
                offset = rng.choice((0, size - 1, rng.randrange(size)))
                result["lower"] = (text_offset + offset) & 0xFFFFFFFF
                result["upper"] = text_offset >> 32
                result["pc"] = offset
                if rng.random() < 0.1 and not self.plain:
                    # An address outside of every image.
                    result["upper"] = 0xFFFF
                    result.update(
                        sender=None, path=None, string=None, pc=(0xFFFF << 32) | result["lower"],
                        nothing=True,
                    )
                    variant = "no-image"
            else:
                result["lower"] = offset
                result["pc"] = offset | (large << 31)
                if variant == "unknown":
                    result["pc"] = offset
        else:
            cache = process.cache
            if kind == "cache":
                images = [i for i in cache.images if i[4] == 0 or True]
            reference, image = cache.add(rng, text)
            text_offset, text_size, identifier, path, region = image
            if not cache.present:
                variant = "no-file"
            result["flags"] = 0x0004 if kind == "cache" else 0x000C
            string = text
            if variant == "dynamic":
                # Note that the images of a region do not overlap.
                reference = text_offset + rng.choice((0, text_size - 1, rng.randrange(text_size)))
                string = "%s"
            elif variant == "unknown":
                reference = (region << 31) + 3
            offset = rng.randrange(0x7000000)
            address = text_offset + offset
            result["lower"] = address & 0x7FFFFFFF
            result["reference"] = reference & 0x7FFFFFFF
            if variant == "dynamic":
                result["reference"] |= 0x80000000
            pc = (region << 31 | result["lower"]) - text_offset
            result.update(sender=identifier, path=path, string=string, pc=pc)
            if variant in ("no-file", "unknown"):
                result.update(
                    sender=cache.uuid, path=None, string=None, pc=region << 31 | result["lower"],
                )
            if kind == "cache":
                if region or rng.random() < 0.1:
                    result["flags"] |= 0x0020
                    result["large"] = region
            else:
                result["shared"] = region
                if region >> 1 and rng.random() < 0.5:
                    result["flags"] |= 0x0020
                    result["large"] = region >> 1
                elif region and variant == "string" and rng.random() < 0.3 and not self.plain:
                    # An invalid shared cache code pointer offset.
                    result["flags"] |= 0x0020
                    result["large"] = 0x8008
                    result.update(sender=cache.uuid, path=("", None), pc=(0x8008 << 32) | result["lower"])
                    variant = "mismatch"
        self.count(f"strings-{kind}")
        self.count(f"strings-{variant}")
        return result

    def _common(self, where, number):
        """The part of a tracepoint that locates its strings."""
        data = struct.pack("<I", where["lower"])
        if where["flags"] & 0x20:
            data += struct.pack("<H", where["large"])
        if where["flags"] & 0xE == 0x8:
            data += struct.pack("<H", where["upper"])
        elif where["flags"] & 0xE == 0xA:
            data += where["identifier"].bytes
        elif where["flags"] & 0xE == 0xC:
            data += struct.pack("<H", where["shared"])
        return data

    def _expected_message(self, where, item):
        """Checks a message given the string that is found."""
        if where.get("nothing"):
            return ["<compose failure [missing precomposed log]>"]
        if where["string"] is None:
            return [""]
        return item.expected

    def _entry(self, process, kind, time, thread, where=None, expected=None, **values):
        entry = {
            "kind": kind, "mach_timestamp": time, "thread_identifier": thread,
            "process_image_identifier": process.main.uuid if process.main.present else None,
            "process_image_path": process.main.path if process.main.present else None,
            "expected": expected,
        }
        if where:
            entry.update(
                process_identifier=process.pid, sender_image_identifier=where["sender"],
                sender_image_path=where["path"], sender_program_counter=where["pc"],
                format_string=where["string"],
            )
        entry.update(values)
        return entry

    def firehose(self, process, number, kinds=("log",) * 6 + ("signpost", "signpost", "activity", "trace", "loss", "unused")):
        """Returns the chunks and entries of a number of tracepoints."""
        rng = self.rng
        base_time = rng.choice((0, rng.getrandbits(40), rng.getrandbits(30), rng.getrandbits(20)))
        private = bytearray()
        encoders = []
        oversize = []
        late = []
        public_size = 0
        for _ in range(number):
            kind = rng.choice(kinds)
            self.count(f"record-{kind}")
            delta = rng.choice((0, rng.getrandbits(20), rng.getrandbits(32), rng.getrandbits(40)))
            time = base_time + delta
            thread = rng.choice((0, 2490, rng.getrandbits(64)))
            if kind == "unused":
                data = rng.randbytes(rng.choice((0, 3, 8, 16)))
                encoders.append(lambda virtual, a=(0, 0, 0, 0, thread, delta, data): tracepoint(*a))
                public_size += 32 + len(data)
                continue
            if kind == "loss":
                start, count = rng.getrandbits(40), rng.choice((0, 1, 63, rng.getrandbits(64)))
                end = start + rng.getrandbits(20)
                if rng.random() < 0.2:
                    start, end = rng.choice(((0, 0), (0, end), (start, 0)))
                data = struct.pack("<QQQ", start, end, count)
                encoders.append(lambda virtual, a=(7, 0, 0, 0, thread, delta, data): tracepoint(*a))
                public_size += 32 + len(data)
                self.entries.append(self._entry(
                    process, kind, time, thread, expected=[
                        f"lost >={count:d} unreliable messages from {start:d}-{end:d} "
                        f"(Mach continuous exact start-approx. end)"
                    ], event_type="lossEvent", loss_count=count, loss_start_mach_timestamp=start,
                    loss_end_mach_timestamp=end,
                    # Note that the path is not provided for these.
                    process_image_path=(None, process.main.path if process.main.present else None),
                ))
                continue
            if kind == "trace":
                values, sizes, expected, text = b"", [], [], []
                for index in range(rng.choice((0, 1, 1, 2, 4))):
                    size = rng.choice((4, 8))
                    value = _integer_bytes(rng, size, False)
                    values += value
                    sizes.append(size)
                    text.append(rng.choice(("a=", "", "b:")) + ("%u" if size == 4 else "%llu") + " ")
                    expected.append(text[-1][:text[-1].index("%")] + str(int.from_bytes(value, "little")) + " ")
                if not sizes:
                    text, expected = ["trace point"], ["trace point"]
                image = process.main
                reference = rng.randrange(1, 0x7FFFFFF)
                string = None
                if image.present:
                    reference = image.add(rng, "".join(text))
                    while reference >= 0x80000000:
                        reference = image.add(rng, "".join(text))
                    string = "".join(text)
                lower = rng.getrandbits(32)
                count = len(sizes)
                if self.broken == "trace-size" and sizes:
                    sizes[rng.randrange(count)] = rng.choice((0, 1, 2, 3, 5, 7, 9, 16, 255))
                    self.broken = "done"
                elif self.broken == "trace-count":
                    count = rng.randint(len(values) + count + 1, 255)
                    self.broken = "done"
                data = struct.pack("<I", lower) + values + bytes(sizes) + bytes([count])
                encoders.append(lambda virtual, a=(3, 0, 2, reference, thread, delta, data): tracepoint(*a))
                public_size += 32 + len(data)
                where = {
                    "sender": image.uuid, "path": image.path if image.present else None, "pc": lower,
                    "string": string,
                }
                self.entries.append(self._entry(
                    process, kind, time, thread, where,
                    ["".join(expected)] if string is not None else [""],
                    event_type="traceEvent", message_type="Default", activity_identifier=0,
                    sub_system=None, category=None, ttl=0,
                ))
                continue
            if kind == "activity":
                log_type = rng.choice((1, 1, 3))
                text = rng.choice(("activity", "start é", "100 {done}", "%% of"))
                item = Message(text, [], [text.replace("%%", "%")])
                where = self._string(process, text)
                flags = where["flags"]
                data = b""
                current = other = new = None
                if rng.random() < 0.6:
                    flags |= 0x0001
                    current = rng.getrandbits(64)
                    data += struct.pack("<Q", current)
                if rng.random() < 0.3:
                    flags |= 0x0010
                    data += struct.pack("<Q", rng.getrandbits(30))
                if rng.random() < 0.5:
                    flags |= 0x0200
                    other = rng.getrandbits(64)
                    data += struct.pack("<Q", other)
                if rng.random() < 0.1:
                    flags |= 0x0100
                if log_type != 3:
                    new = rng.getrandbits(64)
                    data += struct.pack("<Q", new)
                data += self._common(where, 0)
                encoders.append(
                    lambda virtual, a=(2, log_type, flags, where["reference"], thread, delta, data): tracepoint(*a)
                )
                public_size += 32 + len(data)
                expected = self._expected_message(where, item)
                if where["string"] == "%s":
                    expected = [MISSING]
                values = {"creator_activity_identifier": (current or 0) if log_type == 1 else None}
                self.entries.append(self._entry(
                    process, kind, time, thread, where, expected,
                    event_type="activityCreateEvent" if log_type == 1 else "userActionEvent",
                    activity_identifier=(new or 0) & MASK63,
                    parent_activity_identifier=(other or 0) & MASK63,
                    sub_system=None, category=None, **values,
                ))
                continue
            # Log and signpost.
            if self._reuse and rng.random() < 0.2:
                item = rng.choice(self._reuse)
                self.count("message-reused")
            else:
                item = self.make_message()
                self._reuse.append(item)
            where = self._string(process, item.format_string)
            flags = where["flags"]
            items = item.items
            expected = self._expected_message(where, item)
            if where["string"] == "%s":
                # The message is a string.
                text = word(rng, 1, 9)
                items = [(rng.choice((0x20, 0x22)), text.encode() + b"\0", "v")]
                expected = [text]
            for label in item.labels:
                self.count(f"value-{label}")
            front = b""
            current = 0
            if rng.random() < 0.5:
                flags |= 0x0001
                current = rng.getrandbits(64)
                front = struct.pack("<Q", current)
            rest = self._common(where, 0)
            sub_system = category = None
            if rng.random() < 0.6:
                flags |= 0x0200
                identifier = rng.choice((*process.sub_systems, 9999))
                sub_system, category = process.sub_systems.get(identifier, (None, None))
                rest += struct.pack("<H", identifier)
            signpost_identifier = rng.choice((0, 1, rng.getrandbits(64), rng.getrandbits(64)))
            if kind == "signpost":
                rest += struct.pack("<Q", signpost_identifier)
            ttl = 0
            if rng.random() < 0.4:
                flags |= 0x0400
                ttl = rng.choice((1, 14, 255))
                rest += bytes([ttl])
            use_oversize = rng.random() < 0.15
            missing_oversize = use_oversize and rng.random() < 0.2
            reference = None
            if use_oversize:
                flags |= 0x0800
                self._oversize_reference += rng.choice((1, 1, 0x100, 0x117))
                if self._oversize_reference > 0xFFFF:
                    self._oversize_reference %= 0x40
                    self._oversize_reference += 1
                reference = self._oversize_reference
                rest += struct.pack("<H", reference)
            name = None
            if kind == "signpost" and rng.random() < 0.6:
                flags |= 0x8000
                name, lower, upper = self._signpost_name(process, where)
                rest += struct.pack("<I", lower)
                if flags & 0x20:
                    rest += struct.pack("<H", upper)
            prefix = b""
            frames = None
            if kind == "log" and rng.random() < 0.2:
                flags |= 0x1000
                prefix, frames = self._backtrace()
            if use_oversize:
                private_data = bytearray()
                encoded, values = encode_items(rng, items, prefix, private_data)
                body = bytes([rng.choice((0, 0x22)), self._item_count(items)]) + encoded + values
                data = struct.pack(
                    "<QIBBHQIHH", process.proc_id[0], process.proc_id[1], fill(1, 14), fill(1), fill(2),
                    fill(8, time), reference,
                    len(body), len(private_data),
                ) + body + bytes(private_data)
                if missing_oversize:
                    self.count("oversize-missing")
                    if rng.random() < 0.5:
                        # The data follows the entry instead of that it precedes it.
                        self.count("oversize-late")
                        late.append(chunk(0x6002, data))
                    if expected is item.expected:
                        expected = self._all_missing(item.format_string)
                    elif where["string"] == "%s":
                        expected = [MISSING]
                    if frames is not None:
                        # The backtrace is in the missing oversize data.
                        flags &= ~0x1000
                        frames = None
                else:
                    self.count("oversize")
                    oversize.append(chunk(0x6002, data))
                rest += bytes([0, 0])
                data_front, data_rest, start = front, rest, None
            else:
                private_data = bytearray()
                encoded, values = encode_items(rng, items, prefix, private_data)
                start = None
                if private_data:
                    if len(private) + len(private_data) > 4000:
                        # Too much private data for the chunk.
                        items = []
                        private_data = bytearray()
                        encoded, values = encode_items(rng, items, prefix, private_data)
                        if expected is item.expected:
                            expected = self._all_missing(item.format_string)
                        elif where["string"] == "%s":
                            expected = [MISSING]
                    else:
                        start = len(private)
                        private += private_data
                        flags |= 0x0100
                        self.count("private-data")
                elif rng.random() < 0.1:
                    start = len(private)
                    flags |= 0x0100
                rest += bytes([rng.choice((0, 0x22)), self._item_count(items)]) + encoded + values
                data_front, data_rest = front, rest
            record_type, log_type = 4, rng.choice(list(LOG_TYPES))
            if kind == "signpost":
                record_type, log_type = 6, rng.choice(SIGNPOST_TYPES)

            def encode(virtual, a=(record_type, log_type, flags, where["reference"], thread, delta),
                       first=data_front, last=data_rest, start=start, size=len(private_data)):
                middle = b""
                if start is not None:
                    middle = struct.pack("<HH", virtual + start, size)
                return tracepoint(*a, first + middle + last)

            encoders.append(encode)
            public_size += 40 + len(data_front) + len(data_rest)
            values = {
                "event_type": "logEvent" if kind == "log" else "signpostEvent",
                "activity_identifier": current & MASK63, "sub_system": sub_system, "category": category,
                "ttl": ttl, "frames": frames,
                "trace_identifier": (where["reference"] << 32) | (flags << 16) | (log_type << 8) | record_type,
            }
            if kind == "log":
                values["message_type"] = LOG_TYPES[log_type]
            else:
                values.update(
                    signpost_identifier=signpost_identifier, signpost_name=name,
                    signpost_scope=SCOPES[log_type >> 4], signpost_type=EVENTS[log_type & 15],
                )
            self.entries.append(self._entry(process, kind, time, thread, where, expected, **values))
            if public_size > 50000:
                break
        virtual = 4096 - len(private)
        records = [encode(virtual) for encode in encoders]
        chunks = oversize + [firehose_chunk(
            process.proc_id, base_time, records, bytes(private), rng.choice((0, 1, 2, 4)),
            rng.randbytes(rng.choice((0, 0, 8, 24))) if private else b"",
        )]
        return chunks + late

    @staticmethod
    def _item_count(items):
        return len(items)

    @staticmethod
    def _all_missing(format_string):
        """The message if there are no data items."""
        # Reduce conversions with the help of the documented syntax.
        result = re.sub(
            r"%%|%(?:\{[^}]*\})?[-+0 #]*(?:[0-9]+)?(?:\.(?:\*|[0-9]*))?(?:hh|ll|[hjlLtqz])?[@a-zA-Z]",
            lambda match: "%" if match.group(0) == "%%" else MISSING, format_string,
        )
        return [result]

    def _backtrace(self):
        rng = self.rng
        identifiers = [uuid.UUID(bytes=rng.randbytes(16)) for _ in range(rng.randint(0, 3))]
        number = rng.randint(1, 5)
        if rng.random() < 0.03:
            identifiers = [uuid.UUID(bytes=rng.randbytes(16)) for _ in range(rng.choice((127, 128, 200, 254, 255)))]
        frames = []
        offsets, indexes = [], []
        for _ in range(number):
            index = rng.choice((0xFF, *range(len(identifiers))))
            offset = rng.getrandbits(32)
            offsets.append(offset)
            indexes.append(index)
            frames.append((uuid.UUID(int=0) if index == 0xFF else identifiers[index], offset))
        data = struct.pack(
            "<HBBBB", fill(2, 1), fill(1, 0x12), len(identifiers), number, fill(1),
        )
        data += b"".join(i.bytes for i in identifiers)
        data += struct.pack(f"<{number}I", *offsets) + bytes(indexes)
        self.count("backtrace")
        return data, frames

    def _signpost_name(self, process, where):
        """The name string of a signpost is stored in the same strings file."""
        rng = self.rng
        name = rng.choice(("interval", "é name", "x"))
        kind = where["flags"] & 0xE
        if where.get("nothing"):
            return None, rng.randrange(1, 1000), 0
        if kind in (0x4, 0xC):
            cache = process.cache
            if not cache.present:
                return None, rng.randrange(1, 1000), where["large"] or 0
            for _ in range(20):
                reference, image = cache.add(rng, name)
                if not where["flags"] & 0x20 and image[4]:
                    continue
                if kind == 0xC and where["flags"] & 0x20 and image[4] > 0xFFFF:
                    continue
                self.count("signpost-name")
                return name, reference & 0x7FFFFFFF, reference >> 31
            return None, 1, 0
        image = None
        for candidate in self.images:
            if candidate.uuid == where["sender"]:
                image = candidate
        if image is None or not image.present:
            return None, rng.randrange(1, 1000), 0
        for _ in range(50):
            reference = image.add(rng, name)
            if reference < 0x80000000 or where["flags"] & 0x20:
                self.count("signpost-name")
                return name, reference & 0x7FFFFFFF, reference >> 31
        return None, 1, 0

    def statedump(self, process):
        rng = self.rng
        self.count("record-state")
        time = rng.getrandbits(40)
        activity = rng.getrandbits(64)
        sender = uuid.UUID(bytes=rng.randbytes(16))
        title = rng.choice(("CLClientManager", "é state", ""))
        kind = rng.choice((1, 3, 3, 3, 3))
        library, name, data = b"", b"", rng.randbytes(20)
        expected = [""]
        if kind == 3:
            choice = rng.choice(("client", "manager", "other"))
            if choice == "client":
                data, value = client_manager_state(rng)
                library, name = b"location", b"_CLClientManagerStateTrackerState"
            elif choice == "manager":
                data, value = location_manager_state(rng)
                library, name = b"location", b"_CLLocationManagerStateTrackerState"
            else:
                library, name = b"vendor", b"thing"
                value = "<decode: unsupported decoder: vendor:thing>"
            expected = [f"{title}\n{value}"]
        data_chunk = struct.pack(
            "<QIBBHQQ16sII", process.proc_id[0], process.proc_id[1], fill(1, 14), fill(1), fill(2), time, activity,
            sender.bytes, kind, len(data),
        )

        def field(value):
            value += b"\0"
            return value + (rng.randbytes(64 - len(value)) if rng.random() < 0.5 else bytes(64 - len(value)))

        encoded_title = title.encode() + b"\0"
        data_chunk += field(library) + field(name) + encoded_title + bytes(64 - len(encoded_title)) + data
        self.entries.append(self._entry(
            process, "state", time, None, expected=expected, event_type="stateEvent",
            activity_identifier=activity & MASK63, process_identifier=process.pid,
            sender_image_identifier=sender, frames=[(sender, 0)],
        ))
        return [chunk(0x6003, data_chunk)]

    def simpledump(self, process):
        rng = self.rng
        self.count("record-simple")
        time, thread, address = rng.getrandbits(40), rng.getrandbits(64), rng.getrandbits(rng.choice((40, 64)))
        sender = uuid.UUID(bytes=rng.randbytes(16))
        sub_system = rng.choice(("com.apple.x", "é", ""))
        text = word(rng, 0, 30)
        log_type = rng.choice(list(LOG_TYPES))
        sub_data, text_data = sub_system.encode() + b"\0", text.encode() + b"\0"
        data = struct.pack(
            "<QIBBHQQQ16s16sIII", process.proc_id[0], process.proc_id[1], fill(1, 14), log_type, fill(2), time,
            thread, address, sender.bytes, fill_bytes(16), fill(4, 1), len(sub_data), len(text_data),
        ) + sub_data + text_data
        self.entries.append(self._entry(
            process, "simple", time, thread, expected=[text], event_type="logEvent",
            message_type=LOG_TYPES[log_type], process_identifier=process.pid, sub_system=sub_system,
            sender_image_identifier=sender, sender_program_counter=address, frames=[(sender, address)],
        ))
        return [chunk(0x6004, data)]

    def catalog(self, number=None):
        """Returns the catalog chunk and its processes."""
        rng = self.rng
        uuids = [i.uuid for i in self.images] + [c.uuid for c in self.caches]
        extra = [uuid.UUID(bytes=rng.randbytes(16)) for _ in range(rng.randint(0, 2))]
        order = uuids + extra
        rng.shuffle(order)
        strings, offsets = b"", {}
        names = ["com.apple.é", "net", "com.apple.b", "catégory", "c", "default"]
        rng.shuffle(names)
        for name in names:
            offsets[name] = len(strings)
            strings += name.encode("utf-8") + b"\0"
        if rng.random() < 0.5:
            strings += bytes(-len(strings) % 8)
        processes, entries = [], []
        upper = rng.getrandbits(40)
        for index in range(number or spec.many(rng, range(1, 5), 60, 0.3)):
            proc_id = (upper if rng.random() < 0.5 else rng.getrandbits(64), index * 7 + rng.randrange(7))
            main = rng.choice(self.images)
            cache = rng.choice(self.caches) if rng.random() < 0.8 else None
            libraries = []
            address = rng.choice((0x100000000, 0x7FFF00001000, 0x1000))
            for _ in range(spec.many(rng, range(5), 60, 0.02)):
                size = rng.choice((0x1000, 0x10, 0x100000))
                libraries.append((address, size, rng.choice(self.images)))
                address += size + rng.choice((0, 0x1000))
            rng.shuffle(libraries)
            sub_systems = {}
            for identifier in rng.sample(range(0, 200), spec.many(rng, range(5), 100, 0.1)):
                sub_systems[identifier] = (rng.choice(names), rng.choice(names))
            process = Process(rng, proc_id, main, cache, libraries, sub_systems)
            processes.append(process)
            entries.append(process_entry(
                index, order.index(main.uuid), order.index(cache.uuid) if cache else -1, proc_id,
                process.pid, 501, [(s, order.index(i.uuid), a) for a, s, i in libraries],
                [(k, offsets[s], offsets[c]) for k, (s, c) in sub_systems.items()],
            ))
        return (order, strings, entries), processes

    def build(self, catalogs=None, sets=None, records=8, kinds=None):
        """Returns the files, the path of the tracev3 file and the entries."""
        rng = self.rng
        self.entries = []
        records = spec.extent(rng, records, 60, 1)
        if self.boot_timestamp is not None:
            text = str(self.boot).upper()
            self.entries.append({
                "kind": "boot", "event_type": "timesyncEvent", "expected": [f"=== system boot: {text}"],
                "mach_timestamp": 0, "timestamp": self.boot_timestamp,
            })
            for kernel_time, timestamp in self.syncs:
                self.entries.append({
                    "kind": "sync", "event_type": "timesyncEvent",
                    "expected": ["=== system wallclock time adjusted"],
                    "mach_timestamp": kernel_time, "timestamp": timestamp,
                })
        data = header_chunk(self.boot, *self.header_timebase, self.header_seconds)
        self.marks = [0, 16, len(data)]
        self.inner_marks = []
        for _ in range(catalogs or spec.many(rng, (1, 1, 1, 2), 6)):
            arguments, processes = self.catalog()
            body, sub_chunks, inner = b"", [], []
            for _ in range(sets or spec.many(rng, (1, 1, 2, 3), 12)):
                chunks = []
                for _ in range(spec.many(rng, (1, 1, 2, 3), 12, 0.1)):
                    process = rng.choice(processes)
                    choice = rng.random()
                    if choice < 0.75:
                        if kinds:
                            chunks += self.firehose(process, rng.randint(1, records), kinds)
                        else:
                            chunks += self.firehose(process, rng.randint(1, records))
                    elif choice < 0.88:
                        chunks += self.statedump(process)
                    else:
                        chunks += self.simpledump(process)
                compressed = rng.random() < 0.6
                self.count("compressed" if compressed else "uncompressed")
                if len(chunks) > 1:
                    self.count("several-chunks")
                joined = b"".join(chunks)
                sub_chunks.append(catalog_sub_chunk(1, 2, len(joined), (0,), (0,)))
                inner.append(len(body))
                if not compressed:
                    inner.append(len(body) + 16)
                body += chunk_set(joined, compressed)
            data += catalog_chunk(*arguments, sub_chunks)
            self.marks.append(len(data))
            self.inner_marks += [len(data) + offset for offset in inner]
            data += body
            self.marks.append(len(data))
        return self._place(data)

    def _place(self, data):
        rng = self.rng
        layout = rng.choice(("system", "archive", "live"))
        self.count(f"layout-{layout}")
        if layout == "system":
            main = f"db/diagnostics/{rng.choice(('Persist', 'Special', 'Signpost'))}/0000000000000030.tracev3"
            strings, timesync = "db/uuidtext", "db/diagnostics/timesync"
        elif layout == "archive":
            archive = rng.choice(("sys.logarchive", "sys.logarchive", "Sys.LOGARCHIVE"))
            main = f"{archive}/Persist/0000000000000030.tracev3"
            strings, timesync = archive, f"{archive}/timesync"
        else:
            archive = rng.choice(("sys.logarchive", "sys.logarchive", "Sys.LogArchive"))
            main = f"{archive}/logdata.LiveData.tracev3"
            strings, timesync = archive, f"{archive}/timesync"
        files = {main: data}
        for name, content in self.timesync_files.items():
            files[f"{timesync}/{name}"] = content
        for image in self.images:
            if image.present:
                name = image.uuid.hex.upper()
                files[f"{strings}/{name[:2]}/{name[2:]}"] = image.file()
        for cache in self.caches:
            if cache.present:
                files[f"{strings}/dsc/{cache.uuid.hex.upper()}"] = cache.file()
        return files, main


def check_entry(world, entry, got):
    """Returns a description of a difference or None."""
    if got.event_type != entry["event_type"]:
        return f"event type {got.event_type!r} instead of {entry['event_type']!r}"
    item = Message("", [], entry["expected"])
    if not item.matches(got.event_message or ""):
        return f"message {got.event_message!r} instead of {item.text()!r} (format {entry.get('format_string')!r})"
    if "timestamp" in entry:
        if got.timestamp != entry["timestamp"]:
            return f"timestamp {got.timestamp!r} instead of {entry['timestamp']!r}"
    elif not world.time_matches(entry["mach_timestamp"], got.timestamp):
        base, numerator, denominator = world.timestamp(entry["mach_timestamp"])
        return f"timestamp {got.timestamp!r} instead of {base + numerator // denominator}"
    if got.boot_identifier != world.boot:
        return f"boot identifier {got.boot_identifier}"
    for name, value in entry.items():
        if name in ("kind", "expected", "event_type", "timestamp", "frames"):
            continue
        if name == "thread_identifier" and value is None:
            continue
        actual = getattr(got, name)
        accepted = value if isinstance(value, tuple) else (value,)
        if actual not in accepted:
            return f"{name} {actual!r} instead of {value!r} ({entry['kind']})"
    for name in ("loss_start", "loss_end"):
        if f"{name}_mach_timestamp" in entry:
            if not world.time_matches(entry[f"{name}_mach_timestamp"], getattr(got, f"{name}_timestamp")):
                return f"{name}_timestamp {getattr(got, name + '_timestamp')!r}"
    if entry["kind"] in ("log", "signpost", "activity", "trace", "state", "simple"):
        frames = entry.get("frames")
        if frames is None:
            if entry["sender_image_identifier"] is None:
                frames = []
            else:
                frames = [(entry["sender_image_identifier"], entry["sender_program_counter"])]
        actual = [(f.image_identifier, f.image_offset) for f in got.backtrace_frames or []]
        if actual != frames:
            return f"backtrace frames {actual!r} instead of {frames!r}"
    return None


def write(directory, files):
    """Writes the files, replacing what is in the directory."""
    shutil.rmtree(directory, ignore_errors=True)
    for name, data in files.items():
        path = os.path.join(directory, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as handle:
            handle.write(data)
