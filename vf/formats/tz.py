"""Time zone information files."""

import struct

from dtformats import tzif

from vf import mon, spec
from vf.fmt import Case


def count(rng):
    if getattr(rng, "large", False):
        return rng.randint(0, 3000)
    return rng.choice([0, 0, 1, 2, 5, rng.randint(0, 40)])


def block(rng, version, width, transitions=None):
    number = count(rng) if transitions is None else transitions
    local_types = count(rng)
    leaps = count(rng)
    standard = count(rng)
    utc = count(rng)
    abbreviations = spec.random_bytes(rng, count(rng))
    unknown = rng.choice([bytes(15), rng.randbytes(15)])
    size = width // 8
    times = [spec.random_int(rng, size, True) for _ in range(number)]
    indexes = [rng.getrandbits(8) for _ in range(number)]
    types = spec.random_bytes(rng, 6 * local_types)
    leap_data = spec.random_bytes(rng, (size + 4) * leaps)
    standard_data = spec.random_bytes(rng, standard)
    utc_data = spec.random_bytes(rng, utc)
    data = b"TZif" + bytes([version]) + unknown
    data += struct.pack(
        ">6I", utc, standard, leaps, number, local_types, len(abbreviations)
    )
    data += b"".join(t.to_bytes(size, "big", signed=True) for t in times)
    data += bytes(indexes) + types + abbreviations + leap_data + standard_data + utc_data
    lines = [
        mon.kv("Signature", "b'TZif'"),
        mon.kv("Format version", "0x%02x" % version),
        *mon.dump("Unknown1", unknown),
        mon.kv("Number of UTC time indicators", utc),
        mon.kv("Number of standard time indicators", standard),
        mon.kv("Number of leap seconds", leaps),
        mon.kv("Number of transition times", number),
        mon.kv("Number of local time types", local_types),
        mon.kv("Time zone abbreviation strings size", len(abbreviations)),
    ]
    for index, value in enumerate(times):
        lines.append(mon.kv(f"Transition time: {index}", value))
    for index, value in enumerate(indexes):
        lines.append(mon.kv(f"Type of local time: {index}", value))
    lines += mon.dump("Local time types table data", types)
    lines += mon.dump("Timezeone abbreviation strings data", abbreviations)
    lines += mon.dump("Leap second records data", leap_data)
    lines += mon.dump("Standard time indicators data", standard_data)
    lines += mon.dump("UTC time indicators data", utc_data)
    features = {"blocks"}
    if not number:
        features.add("blocks_without_transitions")
    if leaps:
        features.add(f"leap_seconds_{width}")
    if number:
        features.add(f"transitions_{width}")
    return data, lines, features


def make(rng, version=None):
    version = rng.choice([0, 0x32, 0x33]) if version is None else version
    data, lines, features = block(rng, version, 32)
    if version:
        more, text, extra = block(rng, version, 64)
        footer = b"\n" + spec.random_bytes(rng, rng.randint(0, spec.extent(rng, 20, 5000, 0.5))) + b"\n"
        data += more + footer
        lines += text + mon.dump("Time zone string", footer)
        features |= extra
    return Case(tzif.TimeZoneInformationFile, data, lines, features, version=version)
