"""CUPS IPP control files."""

import struct

from dtformats import cups_ipp

from vf import mon, spec
from vf.fmt import Case

S = spec.Struct("cups_ipp")
TAGS = {
    0x01: "operation-attributes-tag",
    0x02: "job-attributes-tag",
    0x03: "end-of-attributes-tag",
    0x04: "printer-attributes-tag",
    0x05: "unsupported-attributes-tag",
    0x0F: "chunking-end-of-attributes-tag",
    0x13: "no-value",
    0x21: "integer",
    0x22: "boolean",
    0x23: "enum",
    0x30: "octetString",
    0x31: "dateTime",
    0x32: "resolution",
    0x33: "rangeOfInteger",
    0x35: "textWithLanguage",
    0x36: "nameWithLanguage",
    0x41: "textWithoutLanguage",
    0x42: "nameWithoutLanguage",
    0x44: "keyword",
    0x45: "uri",
    0x46: "uriScheme",
    0x47: "charset",
    0x48: "naturalLanguage",
    0x49: "mimeMediaType",
}
CUSTOM = {"tag_value": lambda v: "0x%02x (%s)" % (v, TAGS.get(v, "UNKNOWN"))}
CHARSETS = {
    "utf-8": ("utf-8", 4),
    "us-ascii": ("ascii", 1),
    "iso-8859-1": ("latin-1", 1),
    "utf-16be": ("utf-16-be", 3),
    "cp1252": ("cp1252", 1),
}
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def date_time(rng):
    year, month = rng.randint(1, 9999), rng.randint(1, 12)
    leap = month == 2 and (year % 4 == 0 and (year % 100 != 0 or year % 400 == 0))
    return {
        "year": year,
        "month": month,
        "day_of_month": rng.randint(1, DAYS[month - 1] + leap),
        "hours": rng.choice([0, 23, rng.randrange(24)]),
        "minutes": rng.choice([0, 59, rng.randrange(60)]),
        "seconds": rng.choice([0, 59, rng.randrange(60)]),
        "deciseconds": rng.randrange(10),
        "direction_from_utc": ord(rng.choice("+-")),
        "hours_from_utc": rng.randint(0, 13),
        "minutes_from_utc": rng.randrange(60),
    }


def show_date_time(value):
    return "%04d-%02d-%02d %02d:%02d:%02d.%d" % tuple(
        value[key]
        for key in (
            "year",
            "month",
            "day_of_month",
            "hours",
            "minutes",
            "seconds",
            "deciseconds",
        )
    )


def make_value(rng, tag, state):
    """Returns (data, shown value or None)."""
    if tag in (0x21, 0x23):
        value = spec.random_int(rng, 4, True)
        return struct.pack(">i", value), "%d" % value
    if tag == 0x22:
        value = rng.random() < 0.5
        return bytes([value]), str(value)
    if tag == 0x31:
        value = date_time(rng)
        return S.pack("cups_ipp_datetime_value", value), show_date_time(value)
    if tag in (0x41, 0x42):
        encoding, level = CHARSETS[state["charset"]]
        text = spec.random_text(rng, 0, spec.extent(rng, 40, 12000, 0.01), level)
        if state["charset"] in ("iso-8859-1", "cp1252"):
            text += rng.choice(["", "äöüéèñçøå"])
        return text.encode(encoding), text
    if tag == 0x47:
        state["charset"] = rng.choice(list(CHARSETS))
        return state["charset"].encode("ascii"), state["charset"]
    if 0x44 <= tag <= 0x49:
        text = spec.random_text(rng, 0, spec.extent(rng, 60, 32767, 0.01), 1)
        return text.encode("ascii"), text
    size = spec.many(rng, [0, 0, 1, 8, 9, 30], 32767, 0.01)
    return spec.random_bytes(rng, size), None


def make(rng, tags=None):
    state = {"charset": "us-ascii"}
    header = S.random(rng, "cups_ipp_header")
    for key, value in header.items():
        if rng.random() < 0.8:
            header[key] = abs(value) if value > -100 else 1
    data = S.pack("cups_ipp_header", header)
    reads = [("header", 0, data)]
    lines = S.show("cups_ipp_header", header)
    features = {"files"}
    if tags is None:
        tags = []
        for _ in range(spec.many(rng, [0, 1, 2, 3], 40)):
            tags.append(rng.choice([1, 2, 4, 5]))
            for _ in range(spec.many(rng, [0, 1, 3, 8], 300, 0.2)):
                tags.append(
                    rng.choice([*(tag for tag in TAGS if tag > 0x10), 0x47, 0x41, 0x42])
                    if rng.random() < 0.95
                    else rng.choice([0x10, 0x12, 0x34, 0x43, 0x4A, 0x7F])
                )
    for tag in [*tags, 3]:
        reads.append(("tag value", len(data), bytes([tag])))
        if tag < 0x10:
            data += bytes([tag])
            features.add(f"group_{tag}")
            continue
        name = spec.random_text(rng, 0, spec.extent(rng, 30, 9000, 0.01)) if rng.random() < 0.9 else ""
        value, shown = make_value(rng, tag, state)
        values = {
            "tag_value": tag,
            "name_size": len(name.encode("utf-8")),
            "name": name,
            "value_data_size": len(value),
            "value_data": value,
        }
        raw = S.pack("cups_ipp_attribute", values)
        reads.append(("attribute", len(data), raw))
        data += raw
        lines += S.show("cups_ipp_attribute", values, CUSTOM)
        if shown is not None:
            lines.append(mon.kv("Value", shown))
        features.add(f"tag_0x{tag:02x}")
        if tag in (0x41, 0x42):
            features.add(f"text_{state['charset']}")
    trailing = spec.random_bytes(rng, rng.choice([0, 0, 50]))
    return Case(
        cups_ipp.CupsIppFile,
        data + trailing,
        lines,
        features,
        reads=reads,
        size=len(data),
    )
