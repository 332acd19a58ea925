"""gzip files."""

import random
import struct
import zlib

from dtformats import gzipfile

from vf import mon, ref, spec
from vf.fmt import Case

S = spec.Struct("gzipfile")
CUSTOM = {"posix_time": ref.posix_time}


def content(rng):
    if getattr(rng, "large", False) and rng.random() < 0.02:
        return rng.randbytes(rng.randint(65536, 300000))
    mode = rng.random()
    if mode < 0.25:
        return b""
    if mode < 0.5:
        return rng.randbytes(rng.randint(1, 300))
    if mode < 0.8:
        return bytes([rng.randrange(256)]) * rng.randint(1, 5000)
    return (rng.randbytes(rng.randint(1, 40)) * rng.randint(1, 200))[:6000]


def latin1(rng):
    text = spec.random_text(rng, 0, spec.extent(rng, 30, 2000), 1)
    if rng.random() < 0.3:
        text += "".join(chr(rng.randrange(0xA1, 0x100)) for _ in range(3))
    return text


def member(rng, body=None):
    body = content(rng) if body is None else body
    flags = rng.getrandbits(5) | (rng.choice([0, 0, 0, 7]) << 5)
    header = {
        "signature": 0x8B1F,
        "compression_method": 8,
        "flags": flags,
        "modification_time": spec.random_int(rng, 4, True),
        "compression_flags": rng.getrandbits(8),
        "operating_system": rng.getrandbits(8),
    }
    lines = S.show("gzip_member_header", header, CUSTOM)
    data = S.pack("gzip_member_header", header)
    features = {"members"}
    if flags & 0x04:
        extra = rng.randbytes(spec.many(rng, [0, 1, 12, 200], 65535, 0.02))
        data += struct.pack("<H", len(extra)) + extra
        features.add("extra_fields")
    if flags & 0x08:
        name = latin1(rng)
        data += name.encode("latin1") + b"\0"
        lines.append(mon.kv("Original filename", name))
        features.add("file_names")
    if flags & 0x10:
        comment = latin1(rng)
        data += comment.encode("latin1") + b"\0"
        lines.append(mon.kv("Comment", comment))
        features.add("comments")
    if flags & 0x02:
        data += struct.pack("<H", zlib.crc32(data) & 0xFFFF)
        features.add("header_checksums")
    compressor = zlib.compressobj(
        rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -15, 9, rng.choice([0, 4])
    )
    data += compressor.compress(body)
    if rng.random() < 0.3:
        data += compressor.flush(zlib.Z_SYNC_FLUSH)
    data += compressor.flush()
    footer = {
        "checksum": zlib.crc32(body),
        "uncompressed_data_size": len(body) & 0xFFFFFFFF,
    }
    if rng.random() < 0.2:
        # What is stored is reported, also when it is not right.
        footer["checksum"] = rng.getrandbits(32)
        footer["uncompressed_data_size"] = rng.getrandbits(32)
    data += S.pack("gzip_member_footer", footer)
    lines += S.show("gzip_member_footer", footer, CUSTOM)
    if not body:
        features.add("empty_members")
    return data, lines, features


def make(rng, maximum=5):
    data, lines, features = b"", [], set()
    number = spec.many(rng, range(1, maximum + 1), 400)
    for _ in range(number):
        part, text, more = member(rng)
        data += part
        lines += text
        features |= more
    if number > 1:
        features.add("multiple_members")
    return Case(gzipfile.GZipFile, data, lines, features)


def huge(rng):
    """Members larger than the read buffer, made of few random bytes."""
    block = random.Random(rng.random()).randbytes(1 << 20)
    body = block * rng.choice([17, 18]) + block[:99]
    data, lines, features = member(rng, body)
    # Stored blocks, so that the compressed data exceeds the buffer as well.
    header = {"signature": 0x8B1F, "compression_method": 8, "flags": 0}
    header.update(modification_time=1, compression_flags=0, operating_system=3)
    footer = {"checksum": zlib.crc32(body), "uncompressed_data_size": len(body)}
    compressor = zlib.compressobj(0, zlib.DEFLATED, -15)
    data += S.pack("gzip_member_header", header)
    data += compressor.compress(body) + compressor.flush()
    data += S.pack("gzip_member_footer", footer)
    lines += S.show("gzip_member_header", header, CUSTOM)
    lines += S.show("gzip_member_footer", footer, CUSTOM)
    last, text, more = member(rng)
    return Case(
        gzipfile.GZipFile, data + last, lines + text, features | more | {"huge_members"}
    )
