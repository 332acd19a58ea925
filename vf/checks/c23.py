"""C23: Keychain tables, columns and records are decoded by their schema."""

from dtformats import keychain

from vf import fmt, mon
from vf.formats import keychain as kc

PROPERTY = "C23"
RULE = (
    "a case is a generated keychain of 3 to 11 tables with up to 20 columns and up to 6 "
    "records each, or one with an invalid part; non-trivial: distinct by content"
)
REQUIRED = [
    "large_cases",
    "name_from_identifier",
    *(f"kind_{kind:d}" for kind in kc.KINDS),
    "negative",
    "values_not_in_order",
    "records_not_in_order",
    "tables_not_in_order",
    "empty_slot",
    "key_data",
    "no_columns",
    "absent_value",
    "tables",
    "columns",
    "values",
    "refused",
    "refused_signature",
    "refused_truncated",
    "refused_info_offsets",
    "refused_name",
    "refused_table",
    "refused_tables",
    "refused_before",
    "refused_after",
    "refused_size",
    "refused_cut",
    *(f"refused_{what}" for what in kc.BROKEN_SCHEMAS),
]


def check_tables(parser, case, ctx):
    observed = []
    for table in parser.tables:
        columns = [
            (column.attribute_identifier, column.attribute_name, column.attribute_data_type)
            for column in table.columns
        ]
        observed.append(
            (
                table.relation_identifier,
                table.relation_name,
                columns,
                [dict(record) for record in table.records],
            )
        )
    expected = case.more["tables"]
    mon.check_equal(
        [table[:2] for table in observed], [table[:2] for table in expected], "tables"
    )
    for table, other, source in zip(observed, expected, parser.tables):
        mon.check_equal(table[2], other[2], f"columns of table 0x{table[0]:08x}", "columns")
        mon.check_equal(table[3], other[3], f"records of table 0x{table[0]:08x}", "records")
        ctx.count("tables")
        ctx.count("columns", len(table[2]))
        names = [column[1] for column in table[2]]
        for record in source.records:
            ctx.count("values", len(record))
            if table[0] > 2:
                mon.check_equal(list(record), names, "order of values in a record")
            for value in record.values():
                if isinstance(value, bool) or not isinstance(value, (int, str, type(None))):
                    mon.check_equal(type(value), int, "type of a value")


def databases(rng, ctx):
    case = kc.make(rng)
    parser = fmt.check_case(case, ctx, "keychain")
    check_tables(parser, case, ctx)
    parser = case.parser()
    parser.Open(ctx.path("keychain.bin"))
    check_tables(parser, case, ctx)
    parser.Close()
    check_tables(parser, case, ctx)
    other = kc.make(rng)
    parser.Open(ctx.path("other.bin", other.data))
    check_tables(parser, other, ctx)
    parser.Close()
    ctx.sample(case.lines[:5])


def refused(rng, ctx):
    for what, data in (kc.broken(rng), kc.broken_values(rng), kc.broken_schema(rng)):
        fmt.refused(
            keychain.KeychainDatabaseFile, data, ctx, f"keychain: {what}", f"accepted-{what}"
        )
        ctx.count(f"refused_{what}")


FAMILIES = {"databases": (databases, 400, 6000), "refused": (refused, 500, 6000),
    "large": (fmt.large(databases), 10, 120)}
