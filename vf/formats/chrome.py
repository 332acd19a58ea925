"""Chrome cache directories."""

import datetime

from dtformats import chrome_cache

from vf import mon, spec

S = spec.Struct("chrome_cache")
FILE_TYPES = {
    0: "Separate file",
    1: "Rankings block file",
    2: "256 byte block file",
    3: "1024 byte block file",
    4: "4096 byte block file",
}
BLOCK_SIZES = {1: 36, 2: 256, 3: 1024, 4: 4096}


def super_fast_hash(key):
    """SuperFastHash by Paul Hsieh, after the C code."""
    mask = 0xFFFFFFFF
    if not key:
        return 0
    value = len(key)
    full, rest = divmod(len(key), 4)
    get16 = lambda index: key[index] | key[index + 1] << 8  # noqa: E731
    signed = lambda index: key[index] - (256 if key[index] > 127 else 0)  # noqa: E731
    for block in range(full):
        index = 4 * block
        value = (value + get16(index)) & mask
        temporary = (get16(index + 2) << 11) ^ value
        value = ((value << 16) ^ temporary) & mask
        value = (value + (value >> 11)) & mask
    index = 4 * full
    if rest == 3:
        value = (value + get16(index)) & mask
        value = (value ^ (value << 16)) & mask
        value = (value ^ (signed(index + 2) << 18)) & mask
        value = (value + (value >> 11)) & mask
    elif rest == 2:
        value = (value + get16(index)) & mask
        value = (value ^ (value << 11)) & mask
        value = (value + (value >> 17)) & mask
    elif rest == 1:
        value = (value + signed(index)) & mask
        value = (value ^ (value << 10)) & mask
        value = (value + (value >> 1)) & mask
    value = (value ^ (value << 3)) & mask
    value = (value + (value >> 5)) & mask
    value = (value ^ (value << 4)) & mask
    value = (value + (value >> 17)) & mask
    value = (value ^ (value << 25)) & mask
    return (value + (value >> 6)) & mask


def address(value):
    """Attributes that follow from the bits of a cache address.

    blocks is the value stored in the address, one less than the number of blocks.
    """
    kind = value >> 28 & 7
    result = {
        "value": value,
        "is_initialized": bool(value >> 31),
        "file_type": kind,
        "filename": None,
        "block_number": None,
        "block_offset": None,
    }
    blocks = None
    if value and kind == 0:
        result["filename"] = "f_%06x" % (value & 0x0FFFFFFF)
    elif value and kind in BLOCK_SIZES:
        result["filename"] = "data_%d" % (value >> 16 & 0xFF)
        result["block_number"] = value & 0xFFFF
        result["block_offset"] = 8192 + (value & 0xFFFF) * BLOCK_SIZES[kind]
        blocks = value >> 24 & 3
    return result, blocks


def block_sizes(value):
    """Values of the block size; the smaller one is a known finding."""
    kind = value >> 28 & 7
    if not value or kind not in BLOCK_SIZES:
        return (None, None)
    blocks = value >> 24 & 3
    return (blocks + 1) * BLOCK_SIZES[kind], blocks * BLOCK_SIZES[kind]


def show_address(value):
    if not value:
        return "0x00000000 (uninitialized)"
    fields, _ = address(value)
    text = "0x%08x (initialized: %s, file type: %s" % (
        value,
        fields["is_initialized"],
        FILE_TYPES.get(fields["file_type"], "Unknown"),
    )
    if fields["filename"]:
        text += ", filename: " + fields["filename"]
    if fields["block_number"] is not None:
        # The block size is judged by the check of the addresses.
        size = chrome_cache.CacheAddress(value).block_size
        text += ", block number: %d, block offset: 0x%08x, block size: %s" % (
            fields["block_number"],
            fields["block_offset"],
            size,
        )
    return text + ")"


def time_text(value):
    try:
        return str(datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=value))
    except OverflowError:
        return "0x%08x" % value


def show_time(value):
    text = time_text(value)
    return text if text.startswith("0x") else "%s (0x%08x)" % (text, value)


CUSTOM = {
    "array_of_decimals": lambda v: ", ".join(map(str, v)),
    "cache_address": show_address,
    "filename": lambda v: "%d (f_%06x)" % (v, v),
    "timestamp": show_time,
}


def random_time(rng):
    if rng.random() < 0.1:
        return spec.random_int(rng, 8, False)
    return rng.randrange(11644473600000000, 15000000000000000)


def random_address(rng):
    if rng.random() < 0.2:
        return 0
    kind = rng.choice([0, 1, 2, 3, 4, rng.randrange(8)])
    return (
        rng.choice([1, 1, 1, 0]) << 31
        | kind << 28
        | (rng.getrandbits(28) if kind == 0 else rng.getrandbits(26))
    )


def bitmap_lines(bitmap):
    text = "".join("{:032b}".format(word)[::-1] for word in bitmap) + "0"
    lines, position = [], 0
    while True:
        start = text.find("1", position)
        if start < 0:
            return lines
        position = text.index("0", start)
        values = (start, position, position - start)
        lines.append(mon.kv("Block range", "%d - %d (%d)" % values))


def make_bitmap(rng, features):
    bits = 0
    total = 2028 * 32
    for _ in range(rng.choice([0, 1, 3, 10])):
        start = rng.randrange(total)
        size = min(rng.choice([1, 2, 31, 32, 33, 64, 1000]), total - start)
        bits |= (1 << size) - 1 << start
    if rng.random() < 0.2:
        bits |= 15 << total - 4
        features.add("range_at_end")
    if rng.random() < 0.2:
        bits |= 7
    if rng.random() < 0.05:
        # All blocks are in use.
        bits = (1 << total) - 1
        features.add("range_at_end")
    return [bits >> 32 * index & 0xFFFFFFFF for index in range(2028)]


def make_block_header(rng, number, kind, features):
    values = S.random(
        rng,
        "chrome_cache_data_block_file_header",
        signature=0xC104CAC3,
        major_format_version=2,
        minor_format_version=rng.choice([0, 1]),
        file_number=number,
        block_size=BLOCK_SIZES[kind],
        allocation_bitmap=make_bitmap(rng, features),
    )
    raw = S.pack("chrome_cache_data_block_file_header", values)
    lines = S.show("chrome_cache_data_block_file_header", values, CUSTOM)
    return raw, values, lines + bitmap_lines(values["allocation_bitmap"])


def make_key(rng, features):
    choice = rng.random()
    if choice < 0.15:
        # Continues in the next blocks.
        features.add("key_in_multiple_blocks")
        size = rng.choice([160, 161, 200, 415, 416, 417, 600, 926])
    elif choice < 0.25:
        size = rng.choice([158, 159])
        features.add("full_key")
    else:
        size = rng.randint(0, 120)
    key = "https://" + spec.random_text(rng, size, size, level=1)
    key = key[:size]
    raw = key.encode("ascii")
    if rng.random() < 0.1 and size:
        raw = bytes(rng.randrange(0x80, 0x100) if rng.random() < 0.2 else byte for byte in raw)
        key = raw.decode("ascii", errors="replace")
        features.add("undecodable_key")
    return raw, key


def make_entry(rng, following, features):
    raw_key, key = make_key(rng, features)
    key_size, address = len(raw_key), 0
    if rng.random() < 0.05:
        # The key is stored elsewhere, hence not in this or the next blocks.
        raw_key, key = b"", ""
        key_size, address = rng.choice([927, 5000, rng.getrandbits(32)]), random_address(rng) or 1
        features.add("key_elsewhere")
    values = S.random(
        rng,
        "chrome_cache_entry",
        hash=super_fast_hash(raw_key),
        next_address=following,
        rankings_node_address=random_address(rng),
        creation_time=random_time(rng),
        key_size=key_size,
        long_key_address=address,
        data_stream_addresses=[random_address(rng) for _ in range(4)],
        key=list(raw_key[:160].ljust(160, b"\0")),
    )
    raw = S.pack("chrome_cache_entry", values) + raw_key[160:]
    if len(raw_key) >= 160:
        raw += b"\0"
    fixed = raw[:256]
    raw += rng.randbytes(-len(raw) % 256)
    lines = S.show("chrome_cache_entry", values, CUSTOM)
    for index, size in enumerate(values["data_stream_sizes"]):
        lines.append(mon.kv(f"Data stream size: {index:d}", size))
    for index, value in enumerate(values["data_stream_addresses"]):
        lines.append(mon.kv(f"Data stream address: {index:d}", show_address(value)))
    lines.append(mon.kv("Flags", "0x%08x" % values["flags"]))
    lines.append(mon.kv("Self hash", "0x%08x" % values["self_hash"]))
    lines.append(mon.kv("Key", key))
    values["key"] = key
    return raw, fixed, values, lines


class Cache:
    """A cache directory: files {name: content}."""

    def __init__(self, rng):
        self.features = features = {"caches"}
        numbers = rng.sample(range(1, 256), rng.choice([1, 1, 2, 3]))
        self.kinds = {number: rng.choice([2, 2, 2, 3, 4]) for number in numbers}
        if rng.random() < 0.5:
            self.kinds = {number: 2 for number in numbers}
        blocks, self.headers = {}, {}
        for number in numbers:
            raw, values, lines = make_block_header(rng, number, self.kinds[number], features)
            blocks[number] = bytearray(raw)
            self.headers[f"data_{number:d}"] = (raw, values, lines)
            if getattr(rng, "large", False):
                size = BLOCK_SIZES[self.kinds[number]]
                blocks[number] += bytes(size * rng.choice([0, 300, 3000, 40000][: 5 - size // 1024]))
        table_size = spec.many(rng, [1, 4, 16, 64, 256], 8192)
        table = [0] * table_size
        self.chains = {}
        for slot in rng.sample(range(table_size), spec.many(rng, range(min(table_size, 12) + 1), 200)):
            length = rng.choice([1, 1, 1, 2, 3, 8]) if rng.random() < 0.97 else 64
            if length > 1:
                features.add("chains")
            chain, following = [], 0
            for _ in range(length):
                number = rng.choice(numbers)
                raw, fixed, values, lines = make_entry(rng, following, features)
                size = BLOCK_SIZES[self.kinds[number]]
                raw += bytes(-len(raw) % size)
                while rng.random() < 0.3:
                    blocks[number] += rng.randbytes(size)
                block = (len(blocks[number]) - 8192) // size
                count = len(raw) // size
                blocks[number] += raw
                following = (
                    (0x80000000 if rng.random() < 0.9 else 0)
                    | self.kinds[number] << 28
                    | count - 1 << 24
                    | number << 16
                    | block
                )
                chain.insert(0, (following, values, fixed, lines))
            table[slot] = following
            self.chains[slot] = chain
        if any(
            address(entry[0])[0]["filename"]
            not in {address(c[0][0])[0]["filename"] for c in self.chains.values()}
            for chain in self.chains.values()
            for entry in chain
        ):
            features.add("chained_block_file")
        header = S.random(
            rng,
            "chrome_cache_index_file_header",
            signature=0xC103CAC3,
            major_format_version=2,
            minor_format_version=rng.choice([0, 1]),
            number_of_entries=sum(map(len, self.chains.values())),
            table_size=table_size,
            creation_time=random_time(rng),
        )
        lru = S.random(
            rng,
            "chrome_cache_index_file_lru_data",
            head_addresses=[random_address(rng) for _ in range(5)],
            tail_addresses=[random_address(rng) for _ in range(5)],
            transaction_address=random_address(rng),
        )
        raw_header = S.pack("chrome_cache_index_file_header", header)
        raw_lru = S.pack("chrome_cache_index_file_lru_data", lru)
        assert len(raw_header) == 256 and len(raw_lru) == 112
        self.header = header
        self.table = {slot: value for slot, value in enumerate(table) if value}
        self.files = {f"data_{number:d}": bytes(data) for number, data in blocks.items()}
        self.files["index"] = (
            raw_header + raw_lru + b"".join(value.to_bytes(4, "little") for value in table)
        )
        self.index_reads = [
            ("index file header", 0, raw_header),
            ("index file LRU", 256, raw_lru),
        ]
        lines = S.show("chrome_cache_index_file_header", header, CUSTOM)
        lines.append(mon.kv("Filled flag", "0x%08x" % lru["filled_flag"]))
        lines += [mon.kv("Size", size) for size in lru["sizes"]]
        for label in ("head", "tail"):
            for index, value in enumerate(lru[f"{label}_addresses"]):
                text = show_address(value)
                lines.append(mon.kv(f"{label.capitalize()} address: {index:d}", text))
        text = show_address(lru["transaction_address"])
        lines.append(mon.kv("Transaction address", text))
        lines.append(mon.kv("Operation", "0x%08x" % lru["operation"]))
        lines.append(mon.kv("Operation list", "0x%08x" % lru["operation_list"]))
        for slot, value in self.table.items():
            lines.append(mon.kv(f"Cache address: {slot:d}", show_address(value)))
        self.index_lines = lines

    def listing(self):
        return [
            "%s\t%s" % (time_text(values["creation_time"]), values["key"])
            for slot in sorted(self.chains)
            for _, values, _, _ in self.chains[slot]
        ]

    def write(self, ctx, name):
        for filename, content in self.files.items():
            ctx.path(f"{name}/{filename}", content)
        return ctx.path(name)
