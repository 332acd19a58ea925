"""systemd journal files."""

import lz4.block
import lzma

from dtformats import systemd

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("systemd")
TYPES = (
    "UNUSED DATA FIELD ENTRY DATA_HASH_TABLE FIELD_HASH_TABLE ENTRY_ARRAY TAG".split()
)


def show_items(items):
    return [
        mon.kv(f"    Entry item: {index:d} {label}", "0x%08x" % item[key])
        for index, item in enumerate(items)
        for label, key in (("object offset", "object_offset"), ("hash", "hash"))
    ] or ""


def show_offsets(offsets):
    return [
        mon.kv(f"    Entry object offset: {index:d}", "0x%08x" % offset)
        for index, offset in enumerate(offsets)
    ] or ""


def show_time(value):
    # Times after the year 9999 cannot be displayed.
    return ref.posix_micro(value) if value // 10**6 <= 253402300799 else "0x%08x" % value


CUSTOM = {
    "entry_items": show_items,
    "entry_object_offsets": show_offsets,
    "object_flags": lambda v: {
        0: "0x00",
        1: "0x01 (OBJECT_COMPRESSED_XZ)",
        2: "0x02 (OBJECT_COMPRESSED_LZ4)",
    }[v],
    "object_type": lambda v: "%d (OBJECT_%s)" % (v, TYPES[v]),
    "posix_time": show_time,
    "signature": lambda v: v.decode("ascii"),
}
DATA, ENTRY, ENTRY_ARRAY = 1, 3, 6


class Builder:
    """Places the objects of a journal; the output follows the entry arrays."""

    def __init__(self, rng):
        self.rng = rng
        self.features = {"journals"}
        self.size = rng.choice([208, 224, 240])
        self.body = bytearray(rng.randbytes(self.size))
        self.count = 0

    def place(self, raw):
        self.body += bytes(-len(self.body) % 8)
        if self.rng.random() < 0.2:
            # An object which is not reachable.
            size = self.rng.randint(16, 80)
            self.body += S.pack(
                "systemd_journal_object_header",
                {"object_type": self.rng.choice([0, 2, 4, 5, 7]), "data_size": size},
            ) + self.rng.randbytes(size - 16)
            self.body += bytes(-len(self.body) % 8)
            self.count += 1
        offset = len(self.body)
        self.body += raw
        self.count += 1
        return offset

    def shown(self, name, values):
        header = S.show("systemd_journal_object_header", values, CUSTOM)
        return header + S.show(f"{name}_values", values, CUSTOM)

    def data_object(self):
        rng = self.rng
        value = rng.choice(
            [
                lambda: b"MESSAGE=" + spec.random_text(rng, 0, 80).encode("utf8"),
                lambda: b"_PID=%d" % rng.randrange(99999),
                lambda: b"COREDUMP=" + rng.randbytes(
                    rng.randint(0, spec.extent(rng, 600, 3000000, 0.01))
                ),
                lambda: b"",
                lambda: b"PRIORITY=6" * rng.randint(1, 100),
            ]
        )()
        flags = 0
        if rng.random() < 0.3:
            flags, value = 1, lzma.compress(value)
        elif rng.random() < 0.3:
            flags, value = 2, lz4.block.compress(value)
        self.features.add(f"data_{flags}")
        values = S.random(
            rng,
            "systemd_journal_data_object",
            object_type=DATA,
            object_flags=flags,
            data_size=64 + len(value),
            data=value,
        )
        raw = S.pack("systemd_journal_data_object", values)
        lines = self.shown("systemd_journal_data_object", values)
        return self.place(raw), raw, lines

    def entry(self):
        rng = self.rng
        items, reads, lines = [], [], []
        for _ in range(spec.many(rng, [0, 1, 2, 3, 8, 20], 500, 0.02)):
            if self.known and rng.random() < 0.4:
                offset, raw, shown = rng.choice(self.known)
                self.features.add("shared_data")
            else:
                offset, raw, shown = self.data_object()
                self.known.append((offset, raw, shown))
            items.append({"object_offset": offset, "hash": spec.random_int(rng, 8, False)})
            reads.append(("data object", offset, raw))
            lines += shown
        if not items:
            self.features.add("entry_without_items")
        values = S.random(
            rng,
            "systemd_journal_entry_object",
            object_type=ENTRY,
            object_flags=0,
            data_size=64 + 16 * len(items),
            entry_items=items,
        )
        raw = S.pack("systemd_journal_entry_object", values)
        offset = self.place(raw)
        return (
            offset,
            [("entry object", offset, raw)] + reads,
            self.shown("systemd_journal_entry_object", values) + lines,
        )

    def build(self):
        rng = self.rng
        self.known = []
        entries = [self.entry() for _ in range(spec.many(rng, [0, 1, 1, 2, 5, 12], 300))]
        slots = [(offset, index) for index, (offset, _, _) in enumerate(entries)]
        if rng.random() < 0.3:
            # Entries are ordered by the entry arrays, not by their offsets.
            rng.shuffle(slots)
            self.features.add("out_of_order")
        # Unused slots of an entry array are 0.
        while rng.random() < 0.4:
            slots.insert(rng.choice([len(slots), rng.randint(0, len(slots))]), (0, None))
            self.features.add("unused_slot")
        arrays = []
        rest = list(slots)
        limit = spec.many(rng, [len(rest)], 10, 0.5)
        while rest or not arrays:
            size = rng.randint(1, min(len(rest), limit)) if rest else 0
            arrays.append(rest[:size])
            rest = rest[size:]
        if len(arrays) > 1:
            self.features.add("array_chain")
        reads, lines, self.arrays = [], [], []
        following = 0
        for number, array in reversed(list(enumerate(arrays))):
            values = S.random(
                rng,
                "systemd_journal_entry_array_object",
                object_type=ENTRY_ARRAY,
                object_flags=0,
                data_size=24 + 8 * len(array),
                next_entry_array_offset=following,
                entry_object_offsets=[offset for offset, _ in array],
            )
            raw = S.pack("systemd_journal_entry_array_object", values)
            following = self.place(raw)
            reads.insert(0, ("entry array object", following, raw))
            lines = self.shown("systemd_journal_entry_array_object", values) + lines
            self.arrays.insert(0, following)
        if not slots and rng.random() < 0.5:
            following, reads, lines = 0, [], []
            self.features.add("no_entry_array")
        for offset, index in slots:
            if offset:
                reads += entries[index][1]
                lines += entries[index][2]
                self.features.add("entries")
        header = S.random(
            rng,
            "systemd_journal_file_header",
            header_size=self.size,
            entry_array_offset=following,
            number_of_objects=self.count,
            number_of_entry_objects=len(entries),
        )
        for key in ("head_entry_real_time", "tail_entry_real_time"):
            if rng.random() < 0.7:
                header[key] = rng.randrange(0, 4_000_000_000_000_000)
        raw = S.pack("systemd_journal_file_header", header)
        self.body[: len(raw)] = raw
        self.features.add(f"header_{self.size:d}")
        reads.insert(0, ("file header", 0, raw))
        lines = S.show("systemd_journal_file_header", header, CUSTOM) + lines
        return Case(
            systemd.SystemdJournalFile,
            self.body,
            lines,
            self.features,
            reads=reads,
            arrays=self.arrays if following else [],
            version={208: None, 224: 187, 240: 189}[self.size],
        )


def make_journal(rng):
    return Builder(rng).build()
