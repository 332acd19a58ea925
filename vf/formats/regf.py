"""Writer of Windows Registry (REGF) files and AMCache hives."""

import struct

from dtformats import amcache

from vf import mon, ref, spec
from vf.fmt import Case


class Key:
    def __init__(self, name, values=(), keys=()):
        self.name = name
        self.values = list(values)  # (name, type, data)
        self.keys = list(keys)


class Writer:
    """Writes a hive with all cells in one bin."""

    def __init__(self, rng):
        self.rng = rng
        self.cells = bytearray(32)  # header of the bin

    def cell(self, data):
        size = (len(data) + 4 + 7) & ~7
        offset = len(self.cells)
        self.cells += struct.pack("<i", -size) + data.ljust(size - 4, b"\0")
        if self.rng.random() < 0.1:
            # An unused cell with stale data.
            free = 8 * self.rng.randint(1, 8)
            self.cells += struct.pack("<i", free) + self.rng.randbytes(free - 4)
        return offset

    def name(self, text, flag):
        try:
            return text.encode("ascii"), flag
        except UnicodeEncodeError:
            return text.encode("utf-16-le"), 0

    def value(self, name, kind, data):
        if len(data) <= 4:
            size = len(data) | 0x80000000
            offset = struct.unpack("<I", data.ljust(4, b"\0"))[0]
        else:
            size = len(data)
            offset = self.cell(data)
        raw, flag = self.name(name, 1)
        return self.cell(
            struct.pack("<2sHIIIHH", b"vk", len(raw), size, offset, kind, flag, 0) + raw
        )

    def key(self, key, parent, root=False):
        raw, flag = self.name(key.name, 0x20)
        head = self.cell(b"nk" + bytes(74 + len(raw)))
        subs = [self.key(sub, head) for sub in key.keys]
        values = [self.value(*value) for value in key.values]
        if subs:
            list_kind = self.rng.choice([b"lf", b"lh", b"li"])
            content = list_kind + struct.pack("<H", len(subs))
            for sub, offset in zip(key.keys, subs):
                content += struct.pack("<I", offset)
                if list_kind == b"lf":
                    content += sub.name[:4].encode("latin1", "replace").ljust(4, b"\0")
                elif list_kind == b"lh":
                    number = 0
                    for char in sub.name.upper():
                        number = (number * 37 + ord(char)) & 0xFFFFFFFF
                    content += struct.pack("<I", number)
            sub_list = self.cell(content)
        else:
            sub_list = 0xFFFFFFFF
        if values:
            value_list = self.cell(struct.pack("<%dI" % len(values), *values))
        else:
            value_list = 0xFFFFFFFF
        content = struct.pack(
            "<2sHQIIIIIIIIIIIIIIIHH",
            b"nk",
            flag | (0x0C if root else 0),
            132000000000000000,
            0,
            parent,
            len(subs),
            0,
            sub_list,
            0xFFFFFFFF,
            len(values),
            value_list,
            0xFFFFFFFF,
            0xFFFFFFFF,
            0,
            0,
            0,
            0,
            0,
            len(raw),
            0,
        )
        self.cells[head + 4 : head + 4 + len(content) + len(raw)] = content + raw
        return head

    def write(self, root):
        head = self.key(root, 0xFFFFFFFF, True)
        rest = -len(self.cells) % 4096
        if rest:
            self.cells += struct.pack("<i", rest) + bytes(rest - 4)
        self.cells[:32] = struct.pack(
            "<4sII8sQI", b"hbin", 0, len(self.cells), bytes(8), 0, 0
        )
        base = bytearray(4096)
        struct.pack_into(
            "<4sIIQIIIIIII",
            base,
            0,
            b"regf",
            1,
            1,
            132000000000000000,
            1,
            self.rng.choice([3, 5]),
            0,
            1,
            head,
            len(self.cells),
            1,
        )
        checksum = 0
        for number in struct.unpack("<127I", base[:508]):
            checksum ^= number
        struct.pack_into("<I", base, 508, checksum)
        return bytes(base + self.cells)


# AMCache

FILE = {
    "0": "Product name",
    "1": "Company name",
    "3": "Language code",
    "5": "File version",
    "6": "File size",
    "7": "PE/COFF image size",
    "9": "PE/COFF checksum",
    "c": "File description",
    "d": "PE/COFF image version",
    "f": "PE/COFF compilation time",
    "11": "File modification time",
    "12": "File creation time",
    "15": "Path",
    "100": "Program identifier",
    "101": "SHA-1",
}
PROGRAM = {
    "0": "Name",
    "1": "Version",
    "2": "Publisher",
    "3": "Language code",
    "6": "Installation method",
    "7": "Uninstallation key paths",
    "a": "Installation time",
    "b": "Uninstallation time",
    "d": "Installation directories",
    "Files": "File reference key identifiers",
}
APPLICATION = {
    "ProgramId": "Program identifier",
    "ProgramInstanceId": "Program instance identifier",
}


def sz(text):
    return text.encode("utf-16-le") + b"\0\0"


def text_value(rng):
    text = spec.random_text(rng, 1, spec.extent(rng, 40, 1200))
    return rng.choice([1, 1, 1, 2, 6]), sz(text), text


def integer_value(rng, wide=None):
    if wide is None:
        wide = rng.random() < 0.4
    if wide:
        value = spec.random_int(rng, 8, False)
        return 11, struct.pack("<Q", value), value
    value = spec.random_int(rng, 4, False)
    if rng.random() < 0.2:
        return 5, struct.pack(">I", value), value
    return 4, struct.pack("<I", value), value


def any_value(rng, features):
    kind = rng.randrange(4)
    if kind == 0:
        features.add("text_value")
        return text_value(rng)
    if kind == 1:
        features.add("integer_value")
        return integer_value(rng)
    if kind == 2:
        features.add("multi_text_value")
        return multi_value(rng)
    features.add("binary_value")
    data = spec.random_bytes(rng, spec.many(rng, [4, 5, 20, 100], 3000, 0.05))
    return 3, data, data


def multi_value(rng):
    texts = [spec.random_text(rng, 1, 20) for _ in range(spec.many(rng, range(1, 5), 60, 0.03))]
    return 7, b"".join(map(sz, texts)) + b"\0\0", texts


def names(rng, known, extra):
    pool = list(known) + list(extra)
    rng.shuffle(pool)
    return pool[: rng.choice([0, 1, 4, len(pool)])]


def file_key(rng, features, used):
    while True:
        sequence = rng.choice([0, 1, 2, 9, 0x10, 0x100, 0x1000, rng.getrandbits(16)])
        entry = rng.choice([0x1605A, 5, 0x10000, 0xA00000, rng.getrandbits(20), rng.getrandbits(32)])
        if rng.random() < 0.2:
            name = rng.choice(["%04x", "%x", "fat%x"]) % rng.getrandbits(14)
            title = f"File: {name}"
            features.add("other_reference")
        else:
            name = f"{sequence:x}0000{entry:x}"
            title = f"File: {name} ({entry:d}-{sequence:d})"
            features.add("ntfs_reference")
            if sequence % 16 == 0:
                features.add("round_sequence")
        if name.lower() not in used and (title != f"File: {name}" or "0000" not in name):
            break
    used.add(name.lower())
    values, lines = [], [title]
    for value_name in names(rng, FILE, ["2", "4", "8", "a", "10", "16", "17", "zz", ""]):
        odd = rng.random() < 0.05
        if odd and value_name in ("d", "f", "11", "12", "17"):
            features.add("unexpected_type")
            kind, data, value = rng.choice([text_value, multi_value])(rng)
        elif value_name in ("d", "f"):
            kind, data, value = integer_value(rng, False)
        elif value_name in ("11", "12", "17"):
            kind, data, value = integer_value(rng, True)
        elif value_name in ("0", "1", "5", "c", "15", "100", "101"):
            kind, data, value = text_value(rng)
        else:
            kind, data, value = any_value(rng, features)
        values.append((value_name, kind, data))
        description = FILE.get(value_name, value_name)
        description = description or "(default)"
        if odd:
            pass
        elif value_name == "d":
            value = f"{value >> 16}.{value & 0xFFFF}"
        elif value_name == "f":
            value = ref.posix_time(value)
        elif value_name in ("11", "12", "17"):
            value = ref.filetime(value)
        lines.append(mon.kv(description, value))
    return Key(name, values), lines


def program_key(rng, features, used):
    while True:
        name = "%032x0000%04x" % (rng.getrandbits(128), rng.getrandbits(16))
        if name not in used:
            break
    used.add(name)
    values, lines = [], [f"Program: {name}"]
    for value_name in names(rng, PROGRAM, ["5", "f", "10", "11", "16", "17", ""]):
        odd = rng.random() < 0.05
        if odd and value_name in ("7", "d", "Files", "a", "b"):
            features.add("unexpected_type")
            kind, data, value = text_value(rng)
        elif value_name in ("7", "d", "Files"):
            kind, data, value = multi_value(rng)
        elif value_name in ("a", "b"):
            kind, data, value = integer_value(rng, True)
            value %= 253402300800
            data = struct.pack("<Q", value)
        else:
            kind, data, value = any_value(rng, features)
        values.append((value_name, kind, data))
        description = PROGRAM.get(value_name, value_name) or "(default)"
        if odd:
            lines.append(mon.kv(description, value))
        elif value_name in ("7", "d", "Files"):
            for text in value:
                lines.append(mon.kv(description, text))
                description = ""
        elif value_name in ("a", "b"):
            lines.append(mon.kv(description, ref.posix_time(value)))
        else:
            lines.append(mon.kv(description, value))
    return Key(name, values), lines


def inventory_key(rng, features, used, label, known):
    while True:
        name = "%044x" % rng.getrandbits(176)
        if name not in used:
            break
    used.add(name)
    values, lines = [], [f"{label}: {name}"]
    for value_name in names(rng, known, ["Name", "Version", "Size", "LowerCaseLongPath", "Größe", ""]):
        kind, data, value = any_value(rng, features)
        values.append((value_name, kind, data))
        lines.append(mon.kv(known.get(value_name, value_name) or "(default)", value))
    return Key(name, values), lines


def make_amcache(rng):
    features = {"hives"}
    keys = []
    sections = {}
    number = lambda: spec.many(rng, [0, 1, 2, 5, 20], 300)  # noqa: E731
    if rng.random() < 0.8:
        volumes, lines = [], []
        for index in range(rng.choice([0, 1, 1, 3])):
            used = set()
            files = []
            for _ in range(number()):
                key, more = file_key(rng, features, used)
                files.append((key, more))
            files.sort(key=lambda item: item[0].name.upper())
            for _, more in files:
                lines += more
            volumes.append(
                Key("%08x-0000-0000-0000-10000000000%d" % (index * 1000, index),
                    keys=[key for key, _ in files])
            )
        sections["File"] = lines
        keys.append(Key("File", keys=volumes))
        features.add("file_keys")
    for name, function in (
        ("Programs", program_key),
        ("InventoryApplication",
         lambda *a: inventory_key(*a, "Application", APPLICATION)),
        ("InventoryApplicationFile",
         lambda *a: inventory_key(*a, "Application File", {})),
    ):
        if rng.random() < 0.2:
            continue
        used = set()
        entries = [function(rng, features, used) for _ in range(number())]
        entries.sort(key=lambda item: item[0].name.upper())
        sections[name] = [line for _, more in entries for line in more]
        keys.append(Key(name, keys=[key for key, _ in entries]))
        features.add(name)
    if rng.random() < 0.5:
        keys.append(Key("Device", [("0", 1, sz("not reported"))]))
    keys.sort(key=lambda key: key.name.upper())
    root_name = rng.choice(
        ["{11517B7C-E79D-4e20-961B-75A811715ADD}", "{356c48f6-2fee-e7ef-2a64-39f59ec3be22}"]
    )
    tops = [Key("Root", keys=keys)]
    if rng.random() < 0.05:
        tops = []
        sections = {}
        features.add("no_root")
    if rng.random() < 0.1:
        root_name = "ROOT"
        sections = {}
        features.add("other_hive")
    data = Writer(rng).write(Key(root_name, keys=tops))
    lines = []
    for name in ("File", "Programs", "InventoryApplication", "InventoryApplicationFile"):
        lines += sections.get(name, [])
    return Case(amcache.WindowsAMCacheFile, data, lines, features, reads=[])
