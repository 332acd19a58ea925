"""C41: the debug output of WMI repositories reports what is stored."""

import logging
import os
import re
import struct

from dtformats import wmi_repository

from vf import mon
from vf.core import Violation
from vf.formats import wmi, wmi_debug

PROPERTY = "C41"
RULE = (
    "a case is the object record of a class definition, of an instance of it or of a "
    "registration; a repository directory (2.1 or 2.2) of which every object record is read; "
    "one of which all instances are read; or a cim.rep file (2.0) of which the instances, "
    "namespaces and class definitions are read, every field that does not affect them random; "
    "non-trivial: distinct by content"
)
REQUIRED = [
    "class", "instance", "registration", "lines", "reads", "objects", "descriptors", "segments",
    "repository-instances", "repository-classes", "repository-namespaces",
    "rep-instances", "rep-namespaces", "rep-classes", "node_bin", "last_cell",
    "depth 0", "depth 1", "depth 2", "sub class", "class name tree", "not an instance", "opened", "rep-opened",
    "name node", "unknown node 5",
    *(what for what, _ in wmi_debug.NODES.values()),
    "class definition leaf node", "instance leaf node", "dynamic_1", "dynamic_2",
    *(f"property_{kind:d}" for kind in list(wmi.SCALARS) + [8, 0x65, 0x66, 0x2008, 0x0D]),
    *(f"qualifier_{kind:d}" for kind in set(wmi.QUALIFIER_KINDS)),
]
CPU_LIMIT = 120


def setup(ctx):
    logging.disable(logging.CRITICAL)


class Output:
    """The lines written since the last time."""

    def __init__(self):
        self.writer = mon.Writer()
        self.position = 0

    def take(self):
        text = "".join(self.writer.texts[self.position:])
        self.position = len(self.writer.texts)
        return mon.norm_lines(text)


def records(rng, ctx):
    """Object records on their own."""
    features = set()
    parent = wmi.Class(rng, features=features) if rng.random() < 0.5 else None
    item = wmi.Class(rng, parent, features=features)
    record = wmi.class_record(rng, item)
    output = Output()
    reference = wmi_repository.ClassDefinitionReference(debug=True, output_writer=output.writer)
    reference.ReadObjectRecord(record)
    lines, offset, data = wmi_debug.class_record(record)
    count = wmi_debug.compare(lines, output.take(), "class definition record")
    mon.check_equal((reference.offset, bytes(reference.data)), (offset, data), "block of the record")
    place = rng.choice([offset, 0, rng.randrange(1 << 33)])
    parser = wmi_repository.ClassDefinition(debug=True, output_writer=output.writer)
    parser.ReadClassDefinitionBlock(reference.data, record_data_offset=place)
    block = wmi_debug.ClassBlock(data, place)
    count += wmi_debug.compare(block.lines, output.take(), "class definition block")
    parser.DebugPrint()
    count += wmi_debug.compare(block.summary(), output.take(), "class definition")
    ctx.count("class")

    version = rng.choice(["2.1", "2.2"])
    instance = wmi.Instance(rng, item)
    features |= instance.features
    raw = wmi.instance_record(rng, version, instance)
    reference = wmi_repository.InstanceReference(version, debug=True, output_writer=output.writer)
    reference.ReadObjectRecord(raw)
    lines, digest, data = wmi_debug.instance_record(version, raw)
    count += wmi_debug.compare(lines, output.take(), "instance record")
    mon.check_equal(bytes(reference.data), data, "block of the instance record")
    mon.check_equal(reference.offset, len(raw) - len(data), "offset of the instance block")
    definitions, blocks = [], []
    for stored in [i for i in (parent, item) if i]:
        definition = wmi_repository.ClassDefinition()
        definition.ReadClassDefinitionBlock(stored.data)
        definitions.append(definition)
        blocks.append(wmi_debug.ClassBlock(stored.data, 0))
    value_map = wmi_repository.ClassValueDataMap()
    value_map.Build(definitions)
    parser = wmi_repository.Instance(debug=True, output_writer=output.writer)
    parser.ReadInstanceBlockData(value_map, reference.data, record_data_offset=reference.offset)
    expected = wmi_debug.InstanceBlock(wmi_debug.ValueMap(blocks), data)
    count += wmi_debug.compare(expected.lines, output.take(), "instance block")
    if rng.random() < 0.5:
        parser.namespace = wmi.text(rng, 1)
    if rng.random() < 0.5:
        parser.class_name_hash = digest
    parser.DebugPrint()
    count += wmi_debug.compare(
        expected.summary(parser.namespace, parser.class_name_hash), output.take(), "instance"
    )
    ctx.count("instance")
    ctx.count("lines", count)
    for feature in features:
        ctx.count(feature)
    ctx.sample({"class": len(record), "instance": len(raw), "lines": count})
    ctx.seen(record + raw)


def registration(rng, ctx):
    """The object record of a registration."""
    data = b""
    for _ in range(4):
        name = wmi.text(rng).encode("utf-16-le")
        data += struct.pack("<I", len(name) // 2) + name
    data += rng.randbytes(rng.choice([8, 8, 30]))
    output = Output()
    parser = wmi_repository.Registration(debug=True, output_writer=output.writer)
    parser.ReadObjectRecord(data)
    ctx.count("lines", wmi_debug.compare(
        wmi_debug.registration_record(data), output.take(), "registration record"
    ))
    ctx.count("registration")
    ctx.seen(data)


def build(rng, ctx, fake):
    """Returns (repository directory, what it consists of, ...)."""
    version = rng.choice(["2.1", "2.2"])
    features = set()
    stored, classes, instances, namespaces = wmi.make_records(rng, version, features, fake=fake)
    made = wmi.Repository(rng, version, stored)
    directory = made.write(os.path.join(ctx.scratch, "repository"))
    ctx.seen(made.index_data + made.objects_data)
    return version, stored, classes, instances, namespaces, made, directory


def objects(rng, ctx):
    """What is shown of the pages an object record is stored in."""
    _, _, _, _, _, made, directory = build(rng, ctx, True)
    try:
        check_objects(rng, ctx, made, directory)
    finally:
        remove(directory)


def check_objects(rng, ctx, made, directory):
    output = Output()
    parser = wmi_repository.CIMRepository(debug=True, output_writer=output.writer)
    parser.Open(directory)
    opened = [
        line for line in output.take()
        if isinstance(line, str) and re.match("Reading: |Mapping.ver file number|Active mapping", line)
    ]
    mon.check_equal(opened, made.opened(directory), "files opened")
    ctx.count("opened", len(opened))
    data = made.objects_data
    pages = made.objects_pages
    chosen = [(key, value) for key, value in made.keys.items() if value is not None]
    for key, _ in rng.sample(chosen, min(len(chosen), 8)):
        _, mapped, identifier, size = key.rsplit(".", 3)
        mapped, identifier, size = int(mapped), int(identifier), int(size)
        if not size:
            continue
        parser.GetObjectRecordByKey(key)
        lines, reads = mon.split_reads(output.take(), keep=True)
        mon.check_reads(reads, data)
        expected, expected_reads = [], []
        left, first = size, True
        while left:
            page = pages[mapped] * wmi.PAGE
            expected.append(f"Reading objects data page at offset: {page:d} (0x{page:08x})")
            place = page
            if first:
                offset = page
                while True:
                    raw = data[offset:offset + 16]
                    expected_reads.append(("object descriptor", offset, raw))
                    if raw == bytes(16):
                        break
                    names = ("identifier", "data_offset", "data_size", "data_checksum")
                    values = dict(zip(names, struct.unpack("<IIII", raw)))
                    values["data_file_offset"] = page + values["data_offset"]
                    expected += wmi_debug.S.show("cim_object_descriptor", values, wmi_debug.CUSTOM)
                    if values["identifier"] == identifier:
                        place = page + values["data_offset"]
                    offset += 16
                    ctx.count("descriptors")
            part = min(left, page + wmi.PAGE - place)
            expected.append(f"Reading object record data segment at offset: {place:d} (0x{place:08x})")
            left -= part
            mapped += 1
            first = False
            ctx.count("segments")
        ctx.count("lines", wmi_debug.compare(expected, lines, "object record"))
        mon.check_equal(reads, expected_reads, "reads of an object record")
        ctx.count("reads", len(reads))
        ctx.count("objects")
    parser.Close()


def remove(directory):
    for name in os.listdir(directory):
        os.unlink(os.path.join(directory, name))
    os.rmdir(directory)


def within(expected, lines, index, what):
    """Checks the expected lines occur in succession; returns where they start."""
    expected = mon.text_lines(expected)
    for place in index.get(expected[1] if len(expected) > 1 else expected[0], []):
        start = place - (1 if len(expected) > 1 else 0)
        if lines[start:start + len(expected)] == expected:
            return start
    for place in index.get(expected[0], []):
        found = lines[place:place + len(expected)]
        if found[:3] == expected[:3]:
            mon.compare(found, expected, what, "debug-output")
    raise Violation(f"{what}: not reported: {expected[:6]!r}", "debug-output")


def repository(rng, ctx):
    """What is shown when all instances of a repository are read."""
    made = build(rng, ctx, False)
    try:
        check_repository(rng, ctx, made)
    finally:
        remove(made[-1])


def check_repository(rng, ctx, made):
    version, stored, classes, instances, namespaces, _, directory = made
    output = Output()
    parser = wmi_repository.CIMRepository(debug=True, output_writer=output.writer)
    parser.Open(directory)
    found = list(parser.GetInstances())
    lines = output.take()
    index = {}
    for number, line in enumerate(lines):
        index.setdefault(line, []).append(number)
    mon.check_equal(len(found), len(instances), "number of instances")
    for _, prefix, data in stored:
        if not prefix.startswith("I"):
            continue
        expected, _, block = wmi_debug.instance_record(version, data)
        head = [isinstance(line, tuple) for line in expected].index(True)
        start = within(expected[:head], lines, index, "instance record")
        size = len(mon.text_lines([line for line in expected if isinstance(line, str)])) + 2
        ctx.count("lines", wmi_debug.compare(expected, lines[start:start + size], "instance record"))
        item = next(i for i in instances if i.data == block)
        blocks = []
        definition = item.definition
        while definition:
            blocks.insert(0, wmi_debug.ClassBlock(definition.data, 0))
            definition = definition.parent
        expected = wmi_debug.InstanceBlock(wmi_debug.ValueMap(blocks), block)
        within(expected.lines, lines, index, "instance block")
        within(expected.summary(), lines, index, "instance")
        ctx.count("repository-instances")
        ctx.count("lines", len(expected.lines))
    if not instances:
        classes = []
    for item in classes:
        record = next(
            data for _, prefix, data in stored
            if prefix.startswith("CD_") and wmi_debug.class_record(data)[2] == item.data
        )
        expected, offset, block = wmi_debug.class_record(record)
        head = [isinstance(line, tuple) for line in expected].index(True)
        within(expected[:head], lines, index, "class definition record")
        class_block = wmi_debug.ClassBlock(block, offset)
        within(class_block.lines, lines, index, "class definition block")
        within(class_block.summary(), lines, index, "class definition")
        ctx.count("repository-classes")
        ctx.count("lines", len(class_block.lines))
    if rng.random() < 0.5:
        names = sorted(i.namespace for i in parser.GetNamespaces())
        mon.check_equal(names, sorted(namespaces), "namespaces")
        ctx.count("repository-namespaces")
    parser.Close()


def repository_file(rng, ctx):
    """What is shown of a cim.rep file."""
    features = set()
    made = wmi.make_repository_file(rng, features)
    path = ctx.path("cim.rep", made.data)
    walk = wmi_debug.RepositoryWalk(made.data)
    output = Output()
    if rng.random() < 0.2:
        parser = wmi_repository.CIMRepository(debug=True, output_writer=output.writer)
        parser.Open(path)
        opened = [line for line in output.take() if isinstance(line, str)]
        mon.check_equal(opened[:1], [f"Reading: {path:s}"], "file opened")
        mon.check_equal(parser.format_version, "2.0", "format version")
        parser.Close()
        ctx.count("rep-opened")
    parser = wmi_repository.RepositoryFile(debug=True, output_writer=output.writer)
    parser.Open(path)
    how = rng.sample(["instances", "namespaces", "classes"], rng.randint(1, 3))
    how += how[: rng.choice([0, 0, 1])]
    for what in ["open", *how]:
        number = None
        if what == "instances":
            walk.read_instances()
            number = len(list(parser.ReadInstances()))
        elif what == "namespaces":
            walk.read_namespaces()
            number = len(list(parser.ReadNamespaces()))
        elif what == "classes":
            walk.read_classes()
            number = len(list(parser.ReadClassDefinitions()))
        lines, reads = mon.split_reads(output.take(), keep=True)
        mon.check_reads(reads, made.data)
        ctx.count("lines", wmi_debug.compare(walk.lines, lines, f"cim.rep {what}"))
        mon.check_equal(reads, walk.reads, f"reads of cim.rep {what}")
        ctx.count("reads", len(reads))
        if number is not None:
            ctx.count(f"rep-{what}")
            if what != "namespaces":
                expected = made.instances if what == "instances" else made.class_instances
                mon.check_equal(number, len(expected), f"number of {what}")
    parser.Close()
    ctx.sample({"cim.rep": len(made.data), "cells": walk.tally})
    for label, number in walk.tally.items():
        ctx.count(label, number)
    for feature in features:
        ctx.count(feature)
    ctx.seen(made.data)


FAMILIES = {
    "records": (records, 150, 6000),
    "registration": (registration, 20, 500),
    "objects": (objects, 40, 1500),
    "repository": (repository, 40, 1500),
    "repository_file": (repository_file, 60, 2500),
}
