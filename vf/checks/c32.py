"""C32: CIM class definitions, instances and namespaces decode correctly."""

import logging
import os
import struct

from dtformats import errors, wmi_repository

from vf import fmt, mon
from vf.core import Violation
from vf.formats import wmi

PROPERTY = "C32"
RULE = (
    "a case is one class definition; one repository directory (2.1 or 2.2) with up to 9 "
    "class definitions in inheritance chains, 10 instances and 8 nested namespaces; one "
    "cim.rep file (2.0) with up to 25 instances in a hierarchy of up to 4 levels; or one "
    "of these with an invalid part; non-trivial: distinct by content"
)
REQUIRED = [
    "large_cases",
    "class", "class_abstract", "class_parent", "class_properties", "instance",
    "instance_inherited", "instance_properties", "namespace", "deep_namespace",
    "rep_instance", "rep_namespace", "rep_class_instance", "override_typed", "override_untyped",
    "dynamic_1", "dynamic_2", "tree_depth_1", "tree_depth_2", "node_bins", "class_list",
    "class_hierarchy", "class_instances", "no_instance", "tree_depth_0",
    "registration", "reference", "debug",
    *(f"property_{kind:d}" for kind in list(wmi.SCALARS) + [8, 0x65, 0x66, 0x2008, 0x0D]),
    *(f"qualifier_{kind:d}" for kind in wmi.SCALARS),
    "broken_parent", "broken_loop", "broken_type", "broken_offset", "broken_truncated",
    "broken_no_type", "broken_rep", "broken_kind",
]


def setup(ctx):
    logging.disable(logging.CRITICAL)


def lines_of(writer):
    return mon.norm_lines(writer.text())


def check_class(item, parser):
    mon.check_equal(parser.name, item.name, "class name")
    mon.check_equal(
        parser.super_class_name or None,
        item.parent.name if item.parent else None, "super class name",
    )
    check_values(parser.qualifiers, item.qualifiers, f"qualifiers of {item.name:s}")
    mon.check_equal(
        bool(parser.IsAbstract()), bool(item.qualifiers.get("abstract")), "abstract"
    )
    found = [
        (name, p.index, p.value_data_offset, p.value_data_type)
        for name, p in parser.properties.items()
    ]
    expected = [(p.name, p.index, p.offset, p.kind) for p in item.properties]
    mon.check_equal(found, expected, "class properties")
    for wanted in item.properties:
        check_values(
            parser.properties[wanted.name].qualifiers, wanted.qualifiers,
            f"qualifiers of property {wanted.name:s}",
        )


def same(found, expected):
    if isinstance(expected, float) and isinstance(found, float):
        return found == expected or (found != found and expected != expected)
    return type(found) is type(expected) and found == expected


def check_values(found, expected, what):
    if list(found) != list(expected):
        raise Violation(f"{what:s}: {list(found)!r}, expected {list(expected)!r}", what.split()[0])
    for name, value in expected.items():
        if not same(found[name], value):
            raise Violation(
                f"{what:s}: {name:s}: {found[name]!r}, expected {value!r}", what.split()[0]
            )


def definition(rng, ctx):
    """A class definition on its own."""
    features = set()
    parent = wmi.Class(rng, features=features) if rng.random() < 0.5 else None
    item = wmi.Class(rng, parent, features=features)
    record = wmi.class_record(rng, item)
    outputs = []
    for debug in (False, True):
        writer = mon.Writer()
        reference = wmi_repository.ClassDefinitionReference(
            debug=debug, output_writer=writer if debug else None
        )
        reference.ReadObjectRecord(record)
        mon.check_equal(bytes(reference.data), item.data, "class definition data")
        mon.check_equal(
            reference.super_class_name or "", parent.name if parent else "",
            "super class name of reference",
        )
        parser = wmi_repository.ClassDefinition(
            debug=debug, output_writer=writer if debug else None
        )
        parser.ReadClassDefinitionBlock(reference.data, record_data_offset=rng.choice([0, 40]))
        check_class(item, parser)
        if debug:
            before = len(writer.texts)
            parser.DebugPrint()
            outputs = mon.norm_lines("".join(writer.texts[before:]))
            expected = mon.norm_lines("\n".join(item.show()) + "\n\n")
            mon.check_equal(outputs, expected, "class summary")
            ctx.count("debug")
    for feature in features:
        ctx.count(feature)
    ctx.count("class")
    if item.qualifiers.get("abstract"):
        ctx.count("class_abstract")
    if parent:
        ctx.count("class_parent")
    ctx.count("class_properties", len(item.properties))
    ctx.seen(record, True)


def check_instance(item, found):
    mon.check_equal(found.class_name, item.definition.name, "class name of instance")
    order = {name: index for index, name in enumerate(item.properties)}
    properties = dict(
        sorted(found.properties.items(), key=lambda p: order.get(p[0], len(order)))
    )
    check_values(properties, item.properties, f"properties of {item.definition.name:s}")
    ancestors = item.definition.ancestors
    mon.check_equal(
        found.super_class_name or None, ancestors[0] if ancestors else None,
        "super class name of instance",
    )
    mon.check_equal(list(found.derivation), ancestors, "derivation")
    # Documented as the name of the parent class of the parent class.
    mon.check_equal(
        found.dynasty or None, ancestors[1] if len(ancestors) > 1 else None, "dynasty"
    )


def remove(directory):
    for name in os.listdir(directory):
        os.unlink(os.path.join(directory, name))
    os.rmdir(directory)


def open_repository(directory, debug):
    writer = mon.NullWriter() if debug else None
    repository = wmi_repository.CIMRepository(debug=debug, output_writer=writer)
    repository.Open(directory)
    return repository


def repository(rng, ctx):
    """Instances and namespaces of a repository directory."""
    version = rng.choice(["2.1", "2.2"])
    features = set()
    records, classes, instances, namespaces = wmi.make_records(
        rng, version, features, fake=rng.random() < 0.2
    )
    made = wmi.Repository(rng, version, records)
    directory = made.write(os.path.join(ctx.scratch, "repository"))
    debug = rng.random() < 0.15
    try:
        parser = open_repository(directory, debug)
        try:
            found = list(parser.GetInstances())
            match_instances(found, instances)
            reported = list(parser.GetNamespaces())
            names = sorted(n.namespace for n in reported)
            if names != sorted(namespaces):
                raise Violation(
                    f"namespaces {names!r}, expected {sorted(namespaces)!r}", "namespaces"
                )
            for item in reported:
                check_instance(namespaces[item.namespace], item)
            # A second enumeration reports the same.
            again = sorted(n.namespace for n in parser.GetNamespaces())
            mon.check_equal(again, names, "second enumeration of the namespaces")
            match_instances(list(parser.GetInstances()), instances)
        finally:
            parser.Close()
    finally:
        remove(directory)
    for feature in features | made.features:
        ctx.count(feature)
    for item in instances:
        ctx.count("instance")
        ctx.count("instance_properties", len(item.properties))
        if item.definition.parent:
            ctx.count("instance_inherited")
    ctx.count("namespace", len(namespaces))
    ctx.seen(made.index_data + made.objects_data, bool(instances))


def match_instances(found, expected):
    if len(found) != len(expected):
        raise Violation(
            f"{len(found):d} instances, expected {len(expected):d}", "instance-count"
        )
    found = sorted(found, key=lambda i: (i.class_name, repr(sorted(i.properties.items()))))
    expected = sorted(
        expected, key=lambda i: (i.definition.name, repr(sorted(i.properties.items())))
    )
    for one, other in zip(found, expected):
        check_instance(other, one)


def repository_file(rng, ctx):
    """Instances and namespaces of a cim.rep file."""
    features = set()
    made = wmi.make_repository_file(rng, features)
    data, instances = made.data, made.instances
    directory = os.path.join(ctx.scratch, "repository")
    os.mkdir(directory)
    path = os.path.join(directory, wmi.any_case(rng, "cim.rep"))
    with open(path, "wb") as file_object:
        file_object.write(data)
    try:
        parser = open_repository(path, rng.random() < 0.15)
        try:
            mon.check_equal(parser.format_version, "2.0", "format version")
            found = list(parser.GetInstances())
            mon.check_equal(len(found), len(instances), "number of instances")
            for one, other in zip(found, instances):
                check_instance(other, one)
            if made.namespaces_only:
                names = [n.namespace for n in parser.GetNamespaces()]
                mon.check_equal(names, made.namespaces, "namespaces")
                ctx.count("rep_namespace", len(names))
        finally:
            parser.Close()
        # The instances of the class definition hierarchy.
        debug = rng.random() < 0.3
        parser = wmi_repository.RepositoryFile(
            debug=debug, output_writer=mon.NullWriter() if debug else None
        )
        parser.Open(path)
        try:
            found = list(parser.ReadClassDefinitions())
            mon.check_equal(len(found), len(made.class_instances), "number of instances of classes")
            for one, other in zip(found, made.class_instances):
                check_instance(other, one)
            ctx.count("rep_class_instance", len(found))
        finally:
            parser.Close()
    finally:
        remove(directory)
    for feature in features:
        ctx.count(feature)
    ctx.count("rep_instance", len(instances))
    ctx.seen(data, bool(instances))


def reference(rng, ctx):
    """Instance references and registrations."""
    version = rng.choice(["2.1", "2.2"])
    features = set()
    item = wmi.Instance(rng, wmi.Class(rng, features=features))
    record = wmi.instance_record(rng, version, item)
    for debug in (False, True):
        writer = mon.Writer()
        parser = wmi_repository.InstanceReference(
            version, debug=debug, output_writer=writer if debug else None
        )
        parser.ReadObjectRecord(record)
        mon.check_equal(
            parser.class_name_hash.lower(),
            wmi.name_hash(version, item.definition.name).lower(), "class name hash",
        )
        mon.check_equal(bytes(parser.data), item.data, "instance block data")
    ctx.count("reference")
    names = [wmi.text(rng) for _ in range(4)]
    data = b"".join(
        struct.pack("<I", len(n.encode("utf-16-le")) // 2) + n.encode("utf-16-le")
        for n in names
    )
    writer = mon.Writer()
    parser = wmi_repository.Registration(debug=True, output_writer=writer)
    data += rng.randbytes(8)
    parser.ReadObjectRecord(data)
    lines = lines_of(writer)
    for label, name in zip(
        ("Name space string", "Class name string", "Instance name string", "Index key string"),
        names,
    ):
        wanted = mon.norm_lines(mon.kv(label, name) + "\n")
        if not all(line in lines for line in wanted):
            raise Violation(f"registration {label:s} {name!r} not reported", "registration")
    ctx.count("registration")
    ctx.seen(data + record, True)


def refuse(what, function):
    try:
        function()
    except errors.ParseError:
        return
    except Exception as exception:  # pylint: disable=broad-except
        raise Violation(
            f"{what:s}: {type(exception).__name__:s} {exception!s:.200}",
            f"{what:s}-{type(exception).__name__:s}",
        ) from exception
    raise Violation(f"{what:s}: accepted", what)


def read_class(data):
    wmi_repository.ClassDefinition().ReadClassDefinitionBlock(data)


def broken(rng, ctx):
    """Invalid definitions and records are refused with a ParseError."""
    kind = rng.choice(
        ["parent", "loop", "type", "offset", "truncated", "no_type", "rep", "kind"]
    )
    features = set()
    directory = os.path.join(ctx.scratch, "repository")
    if kind in ("offset", "truncated", "kind"):
        item = wmi.Class(rng, features=features)
        data = bytearray(item.data)
        if kind == "offset":
            bad = rng.choice([len(data), 0x7FFFFFFF, 0xFFFFFFFE])
            data[1:5] = struct.pack("<I", bad)
        elif kind == "truncated":
            del data[rng.randrange(len(data)) :]
        else:
            # A qualifier of an unsupported type.
            values = wmi.Values(rng)
            name = values.string(item.name)
            raw = struct.pack("<IBII", values.string("Some"), 0, rng.choice([0, 1, 7, 9, 0x200E]), 0)
            store = bytes(values.data)
            data = (
                struct.pack("<BII", 0, name, 0) + struct.pack("<I", 4)
                + struct.pack("<I", len(raw) + 4) + raw + struct.pack("<I", 0)
                + struct.pack("<I", len(store)) + store
            )
        refuse(f"class-{kind:s}", lambda: read_class(bytes(data)))
        ctx.count(f"broken_{kind:s}")
        ctx.seen(bytes(data), True)
        return
    if kind == "rep":
        data = bytearray(wmi.make_repository_file(rng, features).data)
        how = rng.choice(["cut", "cell"])
        if how == "cut":
            del data[rng.randrange(4, 40) :]
        else:
            first = struct.unpack_from("<I", data, 36)[0]
            place = 40
            while place < first:
                size = struct.unpack_from("<I", data, place)[0] & 0x7FFFFFFF
                data[place : place + 4] = struct.pack("<I", rng.choice([1, 3, 0x7FFFFFF0]))
                place += size
        os.mkdir(directory)
        path = os.path.join(directory, "cim.rep")
        with open(path, "wb") as file_object:
            file_object.write(data)

        def run():
            parser = wmi_repository.CIMRepository()
            try:
                parser.Open(path)
                list(parser.GetInstances())
                list(parser.GetNamespaces())
            finally:
                parser.Close()

        try:
            refuse(f"rep-{how:s}", run)
        finally:
            remove(directory)
        ctx.count("broken_rep")
        ctx.seen(bytes(data), True)
        return
    version = rng.choice(["2.1", "2.2"])
    base = wmi.Class(rng, name="Base_" + wmi.identifier(rng), features=features)
    child = wmi.Class(rng, base, name="Child_" + wmi.identifier(rng), features=features)
    stored = [base, child]
    if kind == "parent":
        stored = [child]
    elif kind == "loop":
        base.parent = child
        base.data = base.pack(rng)
    else:
        # The property of the instance has an unsupported or no type.
        child = wmi.Class(rng, properties=[("Some", 3)], features=features)
        child.properties[0].qualifier = (
            None if kind == "no_type" else rng.choice(["uint128", "", "sint"])
        )
        child.data = child.pack(rng)
        stored = [child]
    item = wmi.Instance(rng, child)
    root = wmi.name_hash(version, "ROOT").upper()
    records = [
        ((f"NS_{root:s}",), f"CD_{wmi.name_hash(version, c.name).upper():s}",
         wmi.class_record(rng, c))
        for c in stored
    ]
    digest = wmi.name_hash(version, child.name).upper()
    records.append(
        ((f"NS_{root:s}", f"CI_{digest:s}"), f"I_{digest:s}",
         wmi.instance_record(rng, version, item))
    )
    made = wmi.Repository(rng, version, records)
    made.write(directory)

    def read():
        parser = wmi_repository.CIMRepository()
        try:
            parser.Open(directory)
            list(parser.GetInstances())
        finally:
            parser.Close()

    try:
        refuse(f"repository-{kind:s}", read)
    finally:
        remove(directory)
    ctx.count(f"broken_{kind:s}")
    ctx.seen(made.index_data + made.objects_data, True)


FAMILIES = {
    "definition": (definition, 200, 12000),
    "repository": (repository, 100, 5000),
    "repository_file": (repository_file, 100, 5000),
    "reference": (reference, 60, 2000),
    "broken": (broken, 150, 6000),
    "large": (fmt.large(repository), 2, 40),
}
