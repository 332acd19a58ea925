"""Windows Task Scheduler job files."""

from dtformats import job

from vf import mon, spec
from vf.fmt import Case

S = spec.Struct("job")
STRINGS = ("application_name", "parameters", "working_directory", "author", "comment")


def show_string(value):
    return "(%d bytes) %s" % (value["number_of_characters"] * 2, value["string"].split("\0")[0])


CUSTOM = {
    "data_stream": lambda v: [line.rstrip() for line in mon.hexdump(v["stream"])],
    "date": lambda v: "%04d-%02d-%02d" % (v["year"], v["month"], v["day_of_month"]),
    "interval_in_milliseconds": lambda v: "%d milliseconds" % v,
    "interval_in_minutes": lambda v: "%d minutes" % v,
    "number_of_triggers": lambda v: "%d" % v["number_of_triggers"],
    "product_version": lambda v: "0x%04x (%d.%d)" % (v, v >> 8, v & 0xFF),
    "system_time": lambda v: "%04d-%02d-%02d %02d:%02d:%02d.%03d"
    % tuple(
        v[key]
        for key in (
            "year",
            "month",
            "day_of_month",
            "hours",
            "minutes",
            "seconds",
            "milliseconds",
        )
    ),
    "time": lambda v: "%02d:%02d" % (v["hours"], v["minutes"]),
    "string": show_string,
}


def pack_string(text):
    """MS-TSCH: number of characters, including the end-of-string character."""
    if text is None:
        return {"number_of_characters": 0, "string": b""}, ""
    raw = text.encode("utf-16-le") + b"\0\0"
    return {"number_of_characters": len(raw) // 2, "string": raw}, text


def plausible(rng, values):
    """Makes dates and times of a structure plausible."""
    for key, low, high in (
        ("year", 1601, 9999),
        ("month", 1, 12),
        ("day_of_month", 1, 31),
        ("hours", 0, 23),
        ("minutes", 0, 59),
        ("seconds", 0, 59),
        ("milliseconds", 0, 999),
    ):
        if key in values:
            values[key] = rng.randint(low, high)
    return values


def make(rng):
    fixed = S.random(rng, "job_fixed_length_data_section")
    if rng.random() < 0.8:
        plausible(rng, fixed["last_run_time"])
    fixed["product_version"] = rng.choice(
        [0x400, 0x500, 0x501, 0x600, 0x601, 0x602, 0x603, 0xA00, rng.getrandbits(16)]
    )
    fixed["format_version"] = rng.choice([1, 1, rng.getrandbits(16)])
    section = {"running_instance_count": rng.getrandbits(16)}
    shown = dict(section)
    texts = {}
    features = {"files"}
    for name in STRINGS:
        text = spec.random_text(rng, 0, spec.extent(rng, 50, 30000, 0.3)) if rng.random() < 0.8 else None
        section[name], texts[name] = pack_string(text)
        shown[name] = {
            "number_of_characters": section[name]["number_of_characters"],
            "string": texts[name],
        }
        features.add("empty_string" if text is None else "string")
    for name in ("user_data", "reserved_data"):
        size = spec.many(rng, [0, 1, 8, 16, 17, 100], 65535, 0.5)
        section[name] = {"size": size, "stream": spec.random_bytes(rng, size)}
        shown[name] = section[name]
        if size:
            features.add(name)
    triggers = []
    for _ in range(spec.many(rng, [0, 1, 1, 2, 5], 600)):
        trigger = S.random(rng, "job_trigger")
        if rng.random() < 0.8:
            for name in ("start_date", "end_date", "start_time"):
                plausible(rng, trigger[name])
        triggers.append(trigger)
    section["triggers"] = {"number_of_triggers": len(triggers), "triggers_array": triggers}
    shown["triggers"] = section["triggers"]
    features.add("triggers" if triggers else "no_triggers")
    first = S.pack("job_fixed_length_data_section", fixed)
    second = S.pack("job_variable_length_data_section", section)
    lines = S.show("job_fixed_length_data_section", fixed, CUSTOM)
    for attribute, description, form in S.debug["job_variable_length_data_section"]:
        value = shown[attribute]
        if form == "string":
            form = "custom:string"
        lines += spec.show_value(description, value, form, CUSTOM)
    for trigger in triggers:
        lines += S.show("job_trigger", trigger, CUSTOM)
    reads = [
        ("fixed-length data section", 0, first),
        ("variable-length data section", len(first), second),
    ]
    trailing = spec.random_bytes(rng, rng.choice([0, 0, 64]))
    return Case(
        job.WindowsTaskSchedulerJobFile,
        first + second + trailing,
        lines,
        features,
        reads=reads,
        size=len(first + second),
        configuration={
            **texts,
            "error_retry_count": fixed["error_retry_count"],
            "error_retry_interval": fixed["error_retry_interval"],
            "identifier": str(fixed["job_identifier"]),
            "priority": fixed["priority"],
        },
    )
