"""Login records."""

from dtformats import utmp

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("utmp", debug=False)

LINUX_TYPES = (
    "EMPTY RUN_LVL BOOT_TIME NEW_TIME OLD_TIME INIT_PROCESS LOGIN_PROCESS "
    "USER_PROCESS DEAD_PROCESS ACCOUNTING"
).split()
MACOS_TYPES = (
    "EMPTY RUN_LVL BOOT_TIME OLD_TIME NEW_TIME INIT_PROCESS LOGIN_PROCESS "
    "USER_PROCESS DEAD_PROCESS ACCOUNTING SIGNATURE SHUTDOWN_TIME"
).split()


def name(rng, size):
    """A name: (bytes, expected text)."""
    if rng.random() < 0.1:
        raw = rng.choice([b"\xff\xfe", b"caf\xe9", b"\xc3"])
        return raw, "INVALID"
    text = spec.random_text(rng, 0, size)
    if rng.random() < 0.1:
        text = "x" * size
    while len(text.encode("utf8")) > size:
        text = text[:-1]
    text = text.rstrip()
    return text.encode("utf8"), text


def login_type(rng, names, size):
    if rng.random() < 0.8:
        value = rng.randrange(len(names))
    else:
        value = spec.random_int(rng, size, True)
    text = names[value] if 0 <= value < len(names) else "UNKNOWN"
    return value, text


def linux_entry(rng):
    terminal, terminal_text = name(rng, 32)
    user, user_text = name(rng, 32)
    host, host_text = name(rng, 256)
    kind, kind_text = login_type(rng, LINUX_TYPES, 4)
    address = rng.choice([bytes(16), rng.randbytes(4) + bytes(12), rng.randbytes(16)])
    if rng.random() < 0.2:
        # A single octet decides between the two kinds of addresses.
        address = bytearray(rng.randbytes(4) + bytes(12))
        address[rng.randrange(4, 16)] = rng.randrange(1, 256)
    v = S.random(
        rng,
        "linux_libc6_utmp_entry",
        type=kind,
        terminal=terminal,
        username=user,
        hostname=host,
        ip_address=list(address),
    )
    features = {"linux_entries"}
    if any(address[4:]):
        address_text = ref.ipv6(address)
        features.add("ipv6_addresses")
    else:
        address_text = ref.ipv4(address[:4])
        features.add("ipv4_addresses")
    lines = [
        mon.kv("Type of login", "0x%08x (%s)" % (kind, kind_text)),
        mon.kv("PID", v["pid"]),
        mon.kv("Terminal", terminal_text),
        mon.kv("Terminal ID", v["terminal_identifier"]),
        mon.kv("Username", user_text),
        mon.kv("Hostname", host_text),
        mon.kv("Termination status", "0x%04x" % v["termination_status"]),
        mon.kv("Exit status", "0x%04x" % v["exit_status"]),
        mon.kv("Session", v["session"]),
        mon.kv("Timestamp", ref.posix_time(v["timestamp"])),
        mon.kv("Microseconds", v["microseconds"]),
        mon.kv("IP address", address_text),
        *mon.dump("Unknown1", v["unknown1"]),
    ]
    return S.pack("linux_libc6_utmp_entry", v), lines, features


def make_linux(rng):
    data, lines, features = b"", [], set()
    for _ in range(spec.many(rng, range(1, 7), 1200)):
        part, text, more = linux_entry(rng)
        data += part
        lines += text
        features |= more
    return Case(utmp.LinuxLibc6UtmpFile, data, lines, features)


def macos_entry(rng, header=False):
    user, user_text = name(rng, 256)
    terminal, terminal_text = name(rng, 32)
    host, host_text = name(rng, 256)
    kind, kind_text = login_type(rng, MACOS_TYPES, 2)
    if header:
        user, user_text = b"utmpx-1.00", "utmpx-1.00"
        kind, kind_text = 10, "SIGNATURE"
    v = S.random(
        rng,
        "macosx_utmpx_entry",
        type=kind,
        terminal=terminal,
        username=user,
        hostname=host,
    )
    lines = [
        mon.kv("Username", user_text),
        mon.kv("Terminal ID", v["terminal_identifier"]),
        mon.kv("Terminal", terminal_text),
        mon.kv("PID", v["pid"]),
        mon.kv("Type of login", "0x%04x (%s)" % (kind, kind_text)),
        mon.kv("Unknown1", "0x%04x" % v["unknown1"]),
        mon.kv("Timestamp", ref.posix_time(v["timestamp"])),
        mon.kv("Microseconds", v["microseconds"]),
        mon.kv("Hostname", host_text),
        *mon.dump("Unknown2", v["unknown2"]),
    ]
    return S.pack("macosx_utmpx_entry", v), lines


def make_macos(rng):
    data, lines = macos_entry(rng, header=True)
    for _ in range(spec.many(rng, range(6), 500)):
        part, text = macos_entry(rng)
        data += part
        lines += text
    return Case(utmp.MacOSXUtmpxFile, data, lines, {"macos_entries"})
