"""Apple System Log files."""

import struct

from dtformats import asl

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("asl")
CUSTOM = {
    "posix_time": lambda v: (
        ref.posix_time(v) if v <= ref.MAXIMUM_SECOND else "0x%08x" % v
    ),
    "record_flags": lambda v: "0x%04x" % v,
    "signature": ref.stream,
}


class Strings:
    """Strings stored in the file: text -> offset."""

    def __init__(self):
        self.offsets = {}


def reference(rng, strings, pending, position, text=None):
    """A string reference: (offset value or text to store, expected text)."""
    choice = rng.random()
    if text is None and choice < 0.2:
        return 0, None
    if text is None:
        text = spec.random_text(rng, 0, 7 if choice < 0.6 else spec.extent(rng, 60, 20000, 0.01))
    raw = text.encode("utf8")
    if len(raw) < 8 and rng.random() < 0.8:
        value = (0x80 | len(raw)) << 56
        filler = raw + rng.choice([bytes(7), rng.randbytes(7)])[: 7 - len(raw)]
        value |= int.from_bytes(filler, "big")
        return value, text
    del pending, position
    return ("stored", text), text


def make(rng):
    data = bytearray(80)
    features = {"files"}
    strings = {}
    body_lines = []
    offsets = []
    number = spec.many(rng, [0, 1, 2, 3, 6], 500)
    previous_end = 80
    links = []
    for _ in range(number):
        fields = {}
        names = (
            "hostname_string_offset sender_string_offset facility_string_offset "
            "message_string_offset"
        ).split()
        for name in names:
            fields[name] = reference(rng, strings, None, None)
        extras = []
        used = set()
        for _ in range(spec.many(rng, [0, 0, 1, 2, 4], 60, 0.03)):
            key = reference(rng, strings, None, None)
            if key[1] in used:
                continue
            used.add(key[1])
            extras.append((key, reference(rng, strings, None, None)))
        # Store what has to be stored, sharing strings stored before.
        wanted = [fields[name] for name in names]
        for key, value in extras:
            wanted += [key, value]
        for item, text in wanted:
            if isinstance(item, tuple):
                if text in strings and rng.random() < 0.7:
                    features.add("shared_strings")
                    continue
                raw = text.encode("utf8") + rng.choice([b"\0", b"\0", b"", b"\0\0"])
                unknown = rng.choice([1, rng.getrandbits(16)])
                strings[text] = (len(data), unknown, raw)
                data += struct.pack(">HI", unknown, len(raw)) + raw
                features.add("stored_strings")
        data += rng.randbytes(rng.choice([0, 0, 5]))
        start = len(data)
        offsets.append(start)

        def resolve(item):
            if isinstance(item[0], tuple):
                return strings[item[1]][0]
            return item[0]

        def lines_of(item):
            value, text = item
            if isinstance(value, tuple):
                _, unknown, raw = strings[text]
                return S.show(
                    "asl_record_string",
                    {
                        "unknown1": unknown,
                        "string_size": len(raw),
                        "string": raw.decode("utf8"),
                    },
                    CUSTOM,
                )
            if value == 0:
                features.add("absent_strings")
                return []
            features.add("inline_strings")
            if text == "":
                features.add("empty_inline_strings")
            return [
                mon.kv("Inline string flag", "0x8"),
                mon.kv("Inline string size", len(text.encode("utf8"))),
                mon.kv("Inline string", text),
            ]

        footer = rng.random() < 0.9
        extra_data = b"".join(
            struct.pack(">QQ", resolve(key), resolve(value)) for key, value in extras
        )
        if footer:
            extra_data += struct.pack(">Q", rng.getrandbits(64))
        elif len(extras) == 0:
            extra_data = b""
        values = S.random(
            rng, "asl_record", **{name: resolve(fields[name]) for name in names}
        )
        values["data_size"] = 98 - 6 + len(extra_data)
        if rng.random() < 0.6:
            values["written_time"] = rng.getrandbits(31)
        raw = S.pack("asl_record", values)
        assert len(raw) == 98
        links.append((start, values))
        record_lines = []
        for name in names:
            record_lines += lines_of(fields[name])
        record_lines += mon.dump("Record additional data", extra_data)
        if extras:
            features.add("extra_fields")
        resolved = {}
        for key, value in extras:
            record_lines += S.show(
                "asl_record_extra_field",
                {
                    "name_string_offset": resolve(key),
                    "value_string_offset": resolve(value),
                },
                CUSTOM,
            )
            record_lines += lines_of(key) + lines_of(value)
            if key[1] is not None:
                resolved[key[1]] = value[1]
        for label, name in zip(("Hostname", "Sender", "Facility", "Message"), names):
            record_lines.append(mon.kv(label, fields[name][1]))
        for key, value in resolved.items():
            record_lines.append(mon.kv(key, value))
        body_lines.append((previous_end, start, values, record_lines))
        data += raw + extra_data
        previous_end = len(data)
        data += rng.randbytes(rng.choice([0, 0, 0, 9]))
    lines = []
    for index, (end, start, values, text) in enumerate(body_lines):
        last = index + 1 == len(body_lines)
        if last:
            following = rng.choice([0, 0, len(data), len(data) + rng.getrandbits(40)])
        else:
            following = body_lines[index + 1][1]
        values["next_record_offset"] = following
        data[start : start + 98] = S.pack("asl_record", values)
        lines.append((end, start, values, text))
    header = S.random(
        rng, "asl_file_header", signature=b"ASL DB\0\0\0\0\0\0"
    )
    header["first_log_entry_offset"] = offsets[0] if offsets else 0
    if rng.random() < 0.6:
        header["creation_time"] = rng.getrandbits(31)
    data[:80] = S.pack("asl_file_header", header)
    result = S.show("asl_file_header", header, CUSTOM)
    for end, start, values, text in lines:
        # The bytes between two records are the strings of the second one.
        result += mon.dump("Record strings data", bytes(data[end:start]))
        result += S.show("asl_record", values, CUSTOM) + text
    if number > 1:
        features.add("chains")
    return Case(
        asl.AppleSystemLogFile, data, result, features, offsets=offsets, header=header
    )
