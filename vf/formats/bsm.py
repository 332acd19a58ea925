"""BSM event auditing files."""

import json
import os

from dtformats import bsm

from vf import ref, spec
from vf.core import VERIF
from vf.fmt import Case

S = spec.Struct("bsm")

with open(
    os.path.join(VERIF, "spec", "bsm_event_types.json"), encoding="utf-8"
) as _file:
    EVENT_TYPES = {int(key): value for key, value in json.load(_file).items()}

# Structure, debug information, announced name.
TOKENS = {
    0x11: ("bsm_token_other_file32", "bsm_token_other_file32", "other_file32"),
    0x13: ("bsm_token_trailer", "bsm_token_trailer", "trailer"),
    0x14: ("bsm_token_header32", "bsm_token_header", "header32"),
    0x15: ("bsm_token_header32_ex", "bsm_token_header_ex", "header32_ex"),
    0x21: ("bsm_token_data", "bsm_token_data", "data"),
    0x22: ("bsm_token_ipc", "bsm_token_ipc", "ipc"),
    0x23: ("bsm_token_path", "bsm_token_path", "path"),
    0x24: ("bsm_token_subject32", "bsm_token_subject", "subject32"),
    0x26: ("bsm_token_subject32", "bsm_token_subject", "process32"),
    0x27: ("bsm_token_return32", "bsm_token_exit", "return32"),
    0x28: ("bsm_token_text", "bsm_token_text", "text"),
    0x29: ("bsm_token_opaque", "bsm_token_opaque", "opaque"),
    0x2A: ("bsm_token_in_addr", "bsm_token_in_addr", "in_addr"),
    0x2B: ("bsm_token_ip", "bsm_token_ip", "ip"),
    0x2C: ("bsm_token_iport", "bsm_token_iport", "iport"),
    0x2D: ("bsm_token_arg32", "bsm_token_arg", "arg32"),
    0x2F: ("bsm_token_seq", "bsm_token_seq", "seq"),
    0x32: ("bsm_token_ipc_perm", None, "ipc_perm"),
    0x34: ("bsm_token_groups", None, "groups"),
    0x3B: ("bsm_token_groups", None, "newgroups"),
    0x3C: ("bsm_token_exec_args", None, "exec_args"),
    0x3D: ("bsm_token_exec_args", None, "exec_env"),
    0x3E: ("bsm_token_attr32", "bsm_token_attr", "attr32"),
    0x52: ("bsm_token_exit", "bsm_token_exit", "exit"),
    0x60: ("bsm_token_zonename", "bsm_token_zonename", "zonename"),
    0x71: ("bsm_token_arg64", "bsm_token_arg", "arg64"),
    0x72: ("bsm_token_return64", "bsm_token_exit", "return64"),
    0x73: ("bsm_token_attr64", "bsm_token_attr", "attr64"),
    0x74: ("bsm_token_header64", "bsm_token_header", "header64"),
    0x75: ("bsm_token_subject64", "bsm_token_subject", "subject64"),
    0x77: ("bsm_token_subject64", "bsm_token_subject", "process64"),
    0x79: ("bsm_token_header64_ex", "bsm_token_header_ex", "header64_ex"),
    0x7A: ("bsm_token_subject32_ex", "bsm_token_subject_ex", "subject32_ex"),
    0x7B: ("bsm_token_subject32_ex", "bsm_token_subject_ex", "process32_ex"),
    0x7C: ("bsm_token_subject64_ex", "bsm_token_subject_ex", "subject64_ex"),
    0x7D: ("bsm_token_subject64_ex", "bsm_token_subject_ex", "process64_ex"),
    0x7E: ("bsm_token_in_addr_ex", "bsm_token_in_addr_ex", "in_addr_ex"),
    0x7F: ("bsm_token_socket_ex", "bsm_token_socket_ex", "socket_ex"),
    0x80: ("bsm_token_sockinet32", "bsm_token_sockinet32", "sockinet32"),
    0x81: ("bsm_token_sockinet64", "bsm_token_sockinet64", "sockinet64"),
    0x82: ("bsm_token_sockunix", "bsm_token_sockunix", "sockunix"),
}
HEADERS = (0x14, 0x15, 0x74, 0x79)
BODY = [token for token in TOKENS if token not in HEADERS and token != 0x13]


def address(octets):
    if len(octets) not in (4, 16):
        return ""
    return ref.ipv4(octets) if len(octets) == 4 else ref.ipv6(octets)


CUSTOM = {
    "posix_time": ref.posix_time,
    "event_type": lambda v: "0x%04x (%s)" % (v, EVENT_TYPES.get(v, "UNKNOWN")),
    "net_type": lambda v: "%d" % v,
    "ip_address": address,
    "ipv4_address": ref.ipv4,
    "ipv6_address": ref.ipv6,
}


def token_values(rng, token_type):
    name = TOKENS[token_type][0]
    definition = S.types[name]
    fields = [member["name"] for member in definition["members"]]
    overrides = {"token_type": token_type}
    octets = 4
    if "net_type" in fields:
        octets = overrides["net_type"] = rng.choice([4, 16])
    for member in definition["members"]:
        field, kind = member["name"], member.get("type")
        size = member.get("elements_data_size")
        if kind == "sequence" and field.endswith("ip_address"):
            number = size if isinstance(size, int) else octets
            overrides[field] = list(spec.random_bytes(rng, number))
        elif kind == "sequence" and field == "groups":
            number = spec.many(rng, [0, 1, 3, 16], 2000, 0.02)
            overrides["number_of_groups"] = number
            overrides[field] = [rng.getrandbits(32) for _ in range(number)]
        elif kind == "string" and size:
            text = spec.random_text(rng, 0, spec.extent(rng, 60, 20000, 0.01), 1)
            if rng.random() < 0.8 or not text:
                text += "\0"
            overrides[field] = text
            overrides[size.split(".")[1]] = len(text)
        elif kind == "string":
            overrides[field] = spec.random_text(rng, 0, 60, 1)
        elif kind == "stream" and size and not isinstance(size, int):
            length = rng.choice([1, 2, 15, 16, 17, 100, 255])
            overrides[field] = spec.random_bytes(rng, length)
            overrides[size.split(".")[1]] = length
    values = S.random(rng, name, **overrides)
    if "number_of_strings" in values:
        values["number_of_strings"] = spec.many(rng, [0, 1, 2, 6], 300, 0.05)
        values["strings"] = [
            spec.random_text(rng, 0, 20, 1) for _ in range(values["number_of_strings"])
        ]
    if "timestamp" in values:
        values["timestamp"] = rng.choice([0, 1, rng.getrandbits(31), rng.getrandbits(32)])
    if "event_type" in values and rng.random() < 0.9:
        values["event_type"] = rng.choice(list(EVENT_TYPES))
    if "format_version" in values:
        values["format_version"] = 11
    if token_type == 0x13:
        values["signature"] = 0xB105
    return values


def pack(kind, values):
    """Data of a token, followed by data of its strings."""
    return [S.pack(TOKENS[kind][0], values)] + [
        text.encode("ascii") + b"\0" for text in values.get("strings", [])
    ]


def make_record(rng, tokens=None, header=None):
    """Returns [(token type, values)]."""
    header = header or rng.choice(HEADERS)
    if tokens is None:
        tokens = [rng.choice(BODY) for _ in range(spec.many(rng, range(8), 200, 0.01))]
    record = [(kind, token_values(rng, kind)) for kind in [header, *tokens, 0x13]]
    size = sum(len(b"".join(pack(kind, values))) for kind, values in record)
    record[0][1]["record_size"] = size
    record[-1][1]["record_size"] = size
    return record


def encode(records):
    data, lines, reads, features = b"", [], [], set()
    for record in records:
        for kind, values in record:
            _, debug, label = TOKENS[kind]
            token, *strings = pack(kind, values)
            reads.append(("token type", len(data), token[:1]))
            reads.append((f"token {label}", len(data), token))
            if debug:
                lines += S.show(debug, values, CUSTOM)
            data += token
            for string in strings:
                reads.append(("string", len(data), string))
                data += string
            features.add(f"token_0x{kind:02x}")
        features.add("records")
    return data, lines, reads, features


def make(rng):
    records = [make_record(rng) for _ in range(spec.many(rng, [0, 1, 1, 2, 4], 400))]
    data, lines, reads, features = encode(records)
    return Case(bsm.BSMEventAuditingFile, data, lines, features, reads=reads)
