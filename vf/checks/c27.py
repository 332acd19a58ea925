"""C27: Spotlight stores yield every metadata item with its attributes."""

import math
import os

from dtformats import errors, spotlight_storedb

from vf import fmt, mon
from vf.core import Violation
from vf.formats import spotlight

PROPERTY = "C27"
RULE = (
    "a case is a generated store of up to 40 records with up to 8 attributes in up to 40 "
    "compressed or uncompressed pages with 5 tables stored in property pages or streams "
    "maps, a batch of variable-size integers, or a store with an invalid part; "
    "non-trivial: distinct by content"
)
REQUIRED = [
    "large_cases",
    "items",
    "attributes",
    "streams_maps",
    "remnant_data",
    "page_chain",
    "map_pages",
    "index_padding",
    "language_identifier",
    "missing_reference",
    "small_last_attribute",
    "compression_none",
    "compression_zlib",
    "compression_lz4",
    "lz4_dictionary",
    "lz4_stored_block",
    "attribute_accumulated",
    *(
        f"attribute_{kind:d}_{flags:d}"
        for kind in (0, 2, 6, 7, 8, 9, 10, 11, 12, 14, 15)
        for flags in range(4)
    ),
    "integers",
    "refused_integers",
    "refused",
    *(
        f"refused_{what:s}"
        for what in (
            "signature",
            "map_signature",
            "page_signature",
            "record_type",
            "table_type",
            "truncated",
            "loop",
            "map_size",
            "compressed",
            "used_size",
            *spotlight.BROKEN_ATTRIBUTES,
        )
    ),
    "offsets_files",
]


def plain(value):
    """A value in a form that can be compared."""
    if isinstance(value, (list, tuple)):
        return [plain(item) for item in value]
    if isinstance(value, float) and math.isnan(value):
        return "nan"
    return value


def check_items(parser, case, rng, ctx):
    records = list(case.more["records"])
    mon.check_equal(parser.number_of_metadata_items, len(records), "number of items")
    rng.shuffle(records)
    for record in records + records[:3]:
        item = parser.GetMetadataItemByIdentifier(record.identifier)
        if item is None:
            raise Violation(f"no item {record.identifier:d}", "missing-item")
        mon.check_equal(
            (
                item.identifier,
                item.item_identifier,
                item.parent_identifier,
                item.last_update_time,
            ),
            (record.identifier, record.item, record.parent, record.time),
            "item",
        )
        observed = {
            key: (
                attribute.key,
                attribute.value_type,
                attribute.property_type,
                plain(attribute.value),
            )
            for key, attribute in item.attributes.items()
        }
        expected = {
            key: (key, kind, flags, plain(value))
            for key, (kind, flags, value) in record.attributes.items()
        }
        mon.check_equal(observed, expected, "attributes")
        mon.check_equal(list(observed), list(expected), "order of attributes")
        ctx.count("attributes", len(expected))
    known = {record.identifier for record in records}
    for identifier in (0, 1, 3, rng.getrandbits(64)):
        if identifier not in known:
            mon.check_equal(
                parser.GetMetadataItemByIdentifier(identifier), None, "absent item"
            )


def write(ctx, case, name):
    directory = ctx.path(name)
    os.makedirs(directory, exist_ok=True)
    for entry in os.listdir(directory):
        os.remove(os.path.join(directory, entry))
    for entry, data in case.more["directory"].items():
        with open(os.path.join(directory, entry), "wb") as file_object:
            file_object.write(data)
    return os.path.join(name, "store.db")


def stores(rng, ctx):
    case = spotlight.make(rng)
    name = write(ctx, case, "store")
    fmt.check_case(case, ctx, "spotlight", name=name)
    parser = case.parser()
    parser.Open(ctx.path(name))
    check_items(parser, case, rng, ctx)
    parser.Close()
    if rng.random() < 0.5:
        # The same object reads another store.
        other = spotlight.make(rng)
        name = write(ctx, other, "other")
        parser.Open(ctx.path(name, other.data))
        check_items(parser, other, rng, ctx)
        parser.Close()
        ctx.count("reused_parsers")
    ctx.sample(case.lines[:5])


def integers(rng, ctx):
    parsers = [
        spotlight_storedb.SpotlightStoreDatabaseFile(),
        spotlight_storedb.SpotlightStreamsMapDataFile(0, []),
    ]
    for size in range(65):
        value = rng.getrandbits(size) | 1 << size - 1 if size else 0
        data = spotlight.random_varint(rng, value)
        following = rng.randbytes(rng.randrange(4))
        for parser in parsers:
            observed = parser._ReadVariableSizeInteger(data + following)
            mon.check_equal(
                observed, (value, len(data)), f"variable size integer {value:d}"
            )
            ctx.count("integers")
            try:
                parser._ReadVariableSizeInteger(data[: rng.randrange(len(data))])
            except errors.ParseError:
                ctx.count("refused_integers")
            else:
                raise Violation("truncated integer accepted", "integer-truncated")


def offsets(rng, ctx):
    arguments, data, ranges, tail = spotlight.make_offsets(rng)
    path = ctx.path("dbStr-1.map.offsets", data)
    parser = spotlight_storedb.SpotlightStreamsMapOffsetsFile(*arguments)
    parser.Open(path)
    parser.Close()
    mon.check_equal(parser.ranges, ranges, "ranges")
    writer = mon.Writer()
    parser = spotlight_storedb.SpotlightStreamsMapOffsetsFile(
        *arguments, debug=True, output_writer=writer
    )
    parser.Open(path)
    parser.Close()
    mon.check_equal(parser.ranges, ranges, "ranges")
    lines = mon.norm_lines(writer.text())
    shown = [line.partition(": ")[2].partition(": ")[2] for line in lines if line.startswith("Range")]
    expected = [
        f"0x{start:08x} - 0x{start + size:08x} ({size:d})" for start, size in ranges
    ]
    mon.check_equal(shown, expected, "ranges shown")
    if tail:
        mon.check_equal(lines[-3:], mon.dump("Trailing data", tail), "trailing data")
    content = rng.randbytes(arguments[0])
    path = ctx.path("dbStr-1.map.data", content)
    parser = spotlight_storedb.SpotlightStreamsMapDataFile(arguments[0], ranges)
    parser.Open(path)
    parser.Close()
    mon.check_equal(
        parser.stream_values,
        [content[start : start + size] for start, size in ranges],
        "stream values",
    )
    ctx.count("offsets_files")


def refused(rng, ctx):
    what, data = spotlight.broken(rng)
    fmt.refused(
        spotlight_storedb.SpotlightStoreDatabaseFile,
        data,
        ctx,
        f"store: {what}",
        f"accepted-{what}",
    )
    ctx.count(f"refused_{what}")


def attributes(rng, ctx):
    """An item with an attribute that is not valid is refused and not partly reported."""
    what, case = spotlight.make_broken(rng)
    name = write(ctx, case, "store")
    path = ctx.path(name, case.data)
    identifier = case.more["records"][0].identifier
    for debug in (False, True):
        parser = spotlight_storedb.SpotlightStoreDatabaseFile(
            debug=debug, output_writer=mon.NullWriter()
        )
        try:
            parser.Open(path)
            item = parser.GetMetadataItemByIdentifier(identifier)
        except errors.ParseError:
            ctx.count(f"refused_{what}")
        except Exception as exception:  # pylint: disable=broad-except
            raise Violation(
                f"{what}: {type(exception).__name__:s} {exception!s:.200}",
                f"attribute-{what}-{type(exception).__name__:s}",
            ) from exception
        else:
            values = [a.value for a in item.attributes.values()] if item else None
            raise Violation(f"{what}: reported {values!r:.300}", f"attribute-{what}")


FAMILIES = {
    "stores": (stores, 700, 8000),
    "integers": (integers, 20, 300),
    "offsets": (offsets, 40, 400),
    "refused": (refused, 400, 4000),
    "attributes": (attributes, 200, 3000),
    "large": (fmt.large(stores), 4, 60),
}
