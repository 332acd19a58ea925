"""C08: file system helpers agree on every path."""

import argparse
import hashlib
import io
import logging
import os
import re
import shutil
import tarfile
import zipfile

from dfvfs.helpers import volume_scanner
from dfvfs.lib import definitions
from dfvfs.path import factory

from dtformats import data_format, dfvfs_helpers, errors, file_system

from vf import corpus, fat, mon, mutate
from vf.checks import c07
from vf.core import Violation

PROPERTY = "C08"
RULE = (
    "tree: a random directory tree of up to 30 files and directories as a native directory, "
    "a TAR or ZIP archive or a FAT file system image, in which every helper is asked for "
    "every file, directory and some missing paths; parser: a generated input, sometimes "
    "damaged, opened and read completely through the native and two dfVFS helpers; options: "
    "a combination of storage media image options, of which the selected back-ends and the "
    "volumes, partitions and snapshots asked of the volume scanner are observed; non-trivial: "
    "distinct trees, inputs and options"
)
FILE_KINDS = [
    kind for kind in corpus.KINDS
    if isinstance(kind.parser, type) and issubclass(kind.parser, data_format.BinaryDataFile)
]
# The WMI repository looks up its files in the native file system.
HELPER_KINDS = [
    kind for kind in corpus.KINDS
    if kind.name in c07.WITH_HELPER and not kind.name.startswith("wmi_rep")
]
HANDED_KINDS = [
    kind for kind in FILE_KINDS if kind.name not in c07.PATH_KINDS
]
SYSTEMS = ("os", "tar", "zip", "fat")
# The indicators of the types preferred, per back-end.
BACK_ENDS = {
    None: {},
    "APM": {"APM": "APM"},
    "EXT": {"EXT": "EXT"},
    "FAT": {"FAT": "FAT"},
    "GPT": {"GPT": "GPT"},
    "HFS": {"HFS": "HFS"},
    "NTFS": {"NTFS": "NTFS"},
    "TSK": {"APM": "TSK", "EXT": "TSK", "FAT": "TSK", "GPT": "TSK_PARTITION",
            "HFS": "TSK", "NTFS": "TSK"},
}
PREFERRED = ("APM", "EXT", "FAT", "GPT", "HFS", "MBR", "NTFS")
REQUIRED = (
    [f"system:{name:s}" for name in SYSTEMS]
    + ["files", "directories", "missing", "unnormalized", "links", "relative", "partial_reads",
       "parser_ok", "parser_refused", "parser_missing", "image_option",
       "option_scan", "option_invalid", "base_0", "base_1", "base_2"]
    + [f"back_end:{name!s}" for name in BACK_ENDS]
    + [f"helper:{kind.name:s}" for kind in HELPER_KINDS]
    + [f"handed:{kind.name:s}" for kind in HANDED_KINDS]
)
QUICK_BUDGET = 240


def setup(ctx):
    logging.disable(logging.CRITICAL)


# Access to the same tree in different file systems.


def write_native(files, directory):
    os.makedirs(directory, exist_ok=True)
    for name, data in files.items():
        path = os.path.join(directory, name)
        if data is None:
            os.makedirs(path, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as file_object:
            file_object.write(data)


def directories_of(files):
    result = {}
    for name, data in files.items():
        segments = name.split("/")
        for index in range(1, len(segments)):
            result["/".join(segments[:index])] = None
        if data is None:
            result[name] = None
    return list(result)


def write_tar(files, path):
    with tarfile.open(path, "w", format=tarfile.PAX_FORMAT) as archive:
        for name in directories_of(files):
            info = tarfile.TarInfo(name)
            info.type = tarfile.DIRTYPE
            archive.addfile(info)
        for name, data in files.items():
            if data is not None:
                info = tarfile.TarInfo(name)
                info.size = len(data)
                archive.addfile(info, io.BytesIO(data))


def write_zip(files, path):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as archive:
        for name in directories_of(files):
            archive.writestr(zipfile.ZipInfo(name + "/"), b"")
        for name, data in files.items():
            if data is not None:
                archive.writestr(name, data)


class Options:
    """Command line options of the tools."""

    back_end = None
    partitions = None
    snapshots = None
    volumes = None

    def __init__(self, image):
        self.image = image


def helper_of(system, files, directory, ctx):
    """Returns a dfVFS file system helper and the segments of the root."""
    if system == "os":
        native = os.path.join(directory, "native")
        helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
        helper.OpenFileSystem(
            factory.Factory.NewPathSpec(definitions.TYPE_INDICATOR_OS, location=native)
        )
        return helper, native.strip("/").split("/")
    if system == "fat":
        path = os.path.join(directory, "image.raw")
        with open(path, "wb") as file_object:
            file_object.write(fat.Image(files).write())
        ctx.count("image_option")
        helper = dfvfs_helpers.ParseDFVFSCLIArguments(Options(path))
        if helper is None:
            raise Violation("file system image not opened", "image-option")
        return helper, []
    path = os.path.join(directory, f"archive.{system:s}")
    (write_tar if system == "tar" else write_zip)(files, path)
    helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
    parent = factory.Factory.NewPathSpec(definitions.TYPE_INDICATOR_OS, location=path)
    helper.OpenFileSystem(
        factory.Factory.NewPathSpec(system.upper(), location="/", parent=parent)
    )
    return helper, []


NAMES = (
    "abcdefghijklmnopqrstuvwxyz0123456789_-+. #~$!()",
    "\u00e9\u00fc\u0142\u65e5\u672c\u0431",
)


def make_name(rng, used):
    for _ in range(100):
        characters = NAMES[0] if rng.random() < 0.8 else NAMES[0] + NAMES[1] * 4
        name = "".join(rng.choice(characters) for _ in range(rng.choice([1, 3, 8, 12, 26, 40])))
        name = name.strip(". ")
        if rng.random() < 0.4:
            name = "".join(c.upper() if rng.random() < 0.3 and c.isascii() else c for c in name)
        # A file system can disregard the case of names.
        if name and name.lower() not in used and not name.startswith("~"):
            used.add(name.lower())
            return name
    raise RuntimeError("no name")


def has_prefix(files):
    """dfVFS lists the wrong entries of a directory in an archive when its path is the
    prefix of that of another file."""
    folders = directories_of(files)
    return any(
        name.startswith(folder) and name[len(folder)] != "/"
        for folder in folders for name in [*folders, *files] if name != folder
    )


def make_tree(rng):
    files = {}
    simple = rng.random() < 0.5

    def fill(prefix, depth):
        used = set()
        for _ in range(rng.randint(0 if prefix else 1, 6)):
            if len(files) > 30:
                return
            name = make_name(rng, used)
            if simple:
                # No name is a prefix of another.
                name = f"{len(used):d}." + name
            name = prefix + name
            if depth < 4 and rng.random() < 0.35:
                before = len(files)
                fill(name + "/", depth + 1)
                if len(files) == before:
                    files[name] = None
            else:
                size = rng.choice([0, 1, 2, 100, 511, 512, 513, 1024, 5000, 70000])
                files[name] = rng.randbytes(size)

    fill("", 0)
    return files


def collapse(path):
    return re.sub(r"/+", "/", path)


def tree(rng, ctx):
    files = make_tree(rng)
    directory = os.path.join(ctx.scratch, "tree")
    native_root = os.path.join(directory, "native")
    write_native(files, native_root)
    native = file_system.NativeFileSystemHelper()
    try:
        systems = ("os", "fat") if has_prefix(files) else SYSTEMS
        for system in rng.sample(systems, 2):
            helper, prefix = helper_of(system, files, directory, ctx)
            compare_tree(rng, ctx, native, native_root, helper, prefix, system, files)
            ctx.count(f"system:{system:s}")
        native_paths(rng, ctx, native, native_root, files)
        native_links(rng, ctx, native, os.path.join(directory, "links"))
        ctx.sample(sorted((k, v if v is None else len(v)) for k, v in files.items())[:8])
        digest = hashlib.blake2b(repr(sorted(files.items())).encode(), digest_size=8)
        ctx.seen(digest.hexdigest())
    finally:
        shutil.rmtree(directory)


def expect(condition, message, mechanism):
    if not condition:
        raise Violation(message, mechanism)


def compare_tree(rng, ctx, native, native_root, helper, prefix, system, files):
    root = native_root.strip("/").split("/")
    folders = directories_of(files)
    for name in [*folders, *files]:
        segments = name.split("/")
        native_path = native.JoinPath(root + segments)
        path = helper.JoinPath(prefix + segments)
        what = f"{system:s}: {path!r:s}"
        for one, location in ((native, native_path), (helper, path)):
            who = f"{type(one).__name__:s} {location!r:s}"
            expect(one.CheckFileExistsByPath(location) is True, f"{who:s}: not found", "exists")
            base = one.BasenamePath(location)
            expect(base == segments[-1], f"{who:s}: base name {base!r:s}", "base")
            split = list(one.SplitPath(location))
            expect(
                split == (root if one is native else prefix) + segments,
                f"{who:s}: segments {split!r:s}", "split",
            )
            expect(
                one.JoinPath(split) == location,
                f"{who:s}: joined {one.JoinPath(split)!r:s}", "join",
            )
            parent = one.DirnamePath(location)
            if len(segments) > 1:
                expected = one.JoinPath((root if one is native else prefix) + segments[:-1])
                expect(parent == expected, f"{who:s}: directory {parent!r:s}", "dirname")
        if files.get(name) is None:
            ctx.count("directories")
            names = [sorted(one.ListDirectory(p)) for one, p in
                     ((native, native_path), (helper, path))]
            expected = sorted(
                {n[len(name) + 1 :].split("/")[0] for n in [*folders, *files]
                 if n.startswith(name + "/")}
            )
            expect(names[0] == expected, f"native {native_path!r:s}: {names[0]!r:s}", "list")
            expect(
                names[1] == expected,
                f"{what:s}: lists {sorted(set(names[1]) ^ set(expected))!r:s} wrong of "
                f"{len(expected):d}", "list",
            )
            continue
        ctx.count("files")
        data = files[name]
        sizes = (native.GetFileSizeByPath(native_path), helper.GetFileSizeByPath(path))
        expect(
            sizes == (len(data), len(data)), f"{what:s}: sizes {sizes!r:s} of {len(data):d}",
            "size",
        )
        first = native.OpenFileByPath(native_path)
        second = helper.OpenFileByPath(path)
        try:
            for _ in range(rng.choice([0, 1, 5])):
                offset = rng.randint(0, len(data) + 10)
                size = rng.choice([0, 1, 100, 100000])
                for file_object in (first, second):
                    file_object.seek(offset, os.SEEK_SET)
                    part = file_object.read(size)
                    expect(
                        part == data[offset : offset + size],
                        f"{what:s}: {len(part):d} bytes at {offset:d}, {size:d}", "read",
                    )
                ctx.count("partial_reads")
            for file_object in (first, second):
                file_object.seek(0)
                expect(file_object.read() == data, f"{what:s}: content", "content")
        finally:
            first.close()
            if second is not first:
                del second
    # The entries of the root.
    expected = sorted({n.split("/")[0] for n in files})
    names = sorted(helper.ListDirectory(helper.JoinPath(prefix)))
    expect(names == expected, f"{system:s}: root {names!r:s}", "list-root")
    names = sorted(native.ListDirectory(native_root))
    expect(names == expected, f"native: root {names!r:s}", "list-root")
    # Missing paths.
    for _ in range(3):
        # libfsfat reads the content of a file as a directory for a path below it.
        bases = folders if system == "fat" else [*folders, *files]
        base = rng.choice(bases).split("/") if bases and rng.random() < 0.7 else []
        segments = base + ["missing", "more"][: rng.choice([1, 2])]
        if "/".join(segments) in files or "/".join(segments) in folders:
            continue
        ctx.count("missing")
        missing(native, native.JoinPath(root + segments))
        missing(helper, helper.JoinPath(prefix + segments))


def missing(helper, path):
    who = f"{type(helper).__name__:s} {path!r:s}"
    expect(helper.CheckFileExistsByPath(path) is False, f"{who:s}: found", "missing-exists")
    try:
        size = helper.GetFileSizeByPath(path)
    except OSError:
        size = None
    expect(size is None, f"{who:s}: size {size!r:s}", "missing-size")
    try:
        file_object = helper.OpenFileByPath(path)
    except OSError:
        return
    raise Violation(f"{who:s}: opened {file_object!r:s}", "missing-open")


def native_paths(rng, ctx, native, native_root, files):
    """Relative and unnormalized paths."""
    names = [n for n in files if files[n] is not None]
    if not names:
        return
    name = rng.choice(names)
    path = os.path.join(native_root, name)
    separators = rng.choice(["//", "///", "/./"])
    strange = native_root + separators + separators.join(name.split("/"))
    expect(native.CheckFileExistsByPath(strange), f"{strange!r:s} not found", "strange")
    joined = native.JoinPath(native.SplitPath(strange))
    expect(os.path.samefile(joined, path), f"{strange!r:s}: {joined!r:s}", "strange-join")
    expect("//" not in joined, f"{strange!r:s}: {joined!r:s}", "strange-join")
    ctx.count("unnormalized")
    relative = rng.choice(["", "./", "../native/"]) + name
    before = os.getcwd()
    os.chdir(native_root)
    try:
        joined = native.JoinPath(native.SplitPath(relative))
        expect(os.path.isabs(joined), f"{relative!r:s}: {joined!r:s}", "relative")
        expect(os.path.samefile(joined, relative), f"{relative!r:s}: {joined!r:s}", "relative")
        expect(native.BasenamePath(relative) == name.split("/")[-1], "base name", "relative")
    finally:
        os.chdir(before)
    ctx.count("relative")


def native_links(rng, ctx, native, root):
    """Names with a meaning of their own and symbolic links."""
    names = rng.sample([
        ".hidden", " leading", "trailing ", "..data", "name.", "-", "~", "a\\b", "a:b", "%20",
        "*", "tab\t", "é", "e\u0301", "A", "a", " ", "$x", "new\nline",
    ], 6)
    os.makedirs(os.path.join(root, "target", "inner"))
    sizes = {}
    for name in names:
        sizes[name] = rng.choice((0, 1, rng.randrange(3000)))
        with open(os.path.join(root, name), "wb") as file_object:
            file_object.write(rng.randbytes(sizes[name]))
    with open(os.path.join(root, "target", "file"), "wb") as file_object:
        file_object.write(rng.randbytes(7000))
    links = {"link": "target/file", "folder": "target/inner", "dangling": "nothing"}
    for name, target in links.items():
        os.symlink(target, os.path.join(root, name))
    segments = root.strip("/").split("/")
    found = sorted(native.ListDirectory(root))
    expect(found == sorted([*names, *links, "target"]), f"native: lists {found!r:s}", "list-names")
    for name, size in [*sizes.items(), ("link", 7000)]:
        path = native.JoinPath(segments + [name])
        expect(native.SplitPath(path) == segments + [name], f"{path!r:s}: segments", "split-names")
        expect(native.BasenamePath(path) == name, f"{path!r:s}: base name", "split-names")
        expect(native.CheckFileExistsByPath(path) is True, f"{path!r:s}: not found", "names")
        expect(native.GetFileSizeByPath(path) == size, f"{path!r:s}: size", "link-size")
        with native.OpenFileByPath(path) as file_object:
            expect(len(file_object.read()) == size, f"{path!r:s}: data", "link-data")
    dangling = native.JoinPath(segments + ["dangling"])
    expect(not native.CheckFileExistsByPath(dangling), "target of a link is missing", "dangling")
    # The parent of a directory is the one of the target of a link.
    before = os.getcwd()
    os.chdir(root)
    try:
        for relative in ("folder/../file", f"./folder/../../{names[0]:s}"):
            joined = native.JoinPath(native.SplitPath(relative))
            expect(os.path.exists(joined), f"{relative!r:s}: {joined!r:s}", "parent-of-link")
            expect(os.path.samefile(joined, relative), f"{relative!r:s}: {joined!r:s}", "parent-of-link")
    finally:
        os.chdir(before)
    ctx.count("links")


# Parsers that read through a helper.


def outcome(function):
    try:
        return ("ok", function())
    except (errors.ParseError, OSError) as exception:
        return ("refused", "ParseError" if isinstance(exception, errors.ParseError) else "OSError")


def session(kind, sample, helper, path):
    parser = kind.create(sample, False, mon.NullWriter(), helper)

    def use():
        try:
            kind.open(parser, path)
            return kind.results(parser, list(kind.read(parser)))
        finally:
            try:
                kind.close(parser)
            except OSError:
                pass

    return outcome(use)


def parsers(kind):
    """A parser reports the same through every helper."""

    def function(rng, ctx):
        sample = kind.make(rng)
        names = sorted(sample.files)
        damaged = rng.random() < 0.3
        if damaged:
            name = sample.main or rng.choice(names)
            sample.files[name] = mutate.damage(rng, sample.files[name], sample.marks)
        folder = rng.choice(["", "", "a/b/", "Some Folder/"])
        files = {folder + name: bytes(data) for name, data in sample.files.items()}
        if folder or len(files) > 1:
            files["other file"] = b"other"
        directory = os.path.join(ctx.scratch, "input")
        native_root = os.path.join(directory, "native")
        write_native(files, native_root)
        native = file_system.NativeFileSystemHelper()
        try:
            main = (folder + sample.main).strip("/")
            expected = session(
                kind, sample, native, os.path.join(native_root, main)
            )
            ctx.count("parser_ok" if expected[0] == "ok" else "parser_refused")
            for system in rng.sample(SYSTEMS, 2):
                helper, prefix = helper_of(system, files, directory, ctx)
                path = helper.JoinPath(prefix + [s for s in main.split("/") if s])
                result = session(kind, sample, helper, path)
                if expected[0] == "refused" and result[0] == "refused":
                    continue
                if result != expected:
                    raise Violation(
                        f"{kind.name:s}: through {system:s} helper "
                        f"{difference(expected, result):.500s}",
                        f"parser-{kind.name:s}",
                    )
                if rng.random() < 0.2:
                    result = session(
                        kind, sample, helper, helper.JoinPath(prefix + ["missing"])
                    )
                    ctx.count("parser_missing")
                    expected_missing = session(
                        kind, sample, native, os.path.join(native_root, "missing")
                    )
                    if result != expected_missing:
                        raise Violation(
                            f"{kind.name:s}: missing file through {system:s} helper: "
                            f"{result!r:.100} instead of {expected_missing!r:.100}",
                            "parser-missing",
                        )
            ctx.count(f"helper:{kind.name:s}")
            ctx.seen(repr(sorted((k, hash(v)) for k, v in files.items())))
        finally:
            shutil.rmtree(directory)

    return function


def difference(first, second, where=""):
    if isinstance(first, (list, tuple)) and isinstance(second, (list, tuple)):
        if len(first) != len(second):
            return f"{where:s}: {len(first):d} and {len(second):d} items"
        for index, (one, other) in enumerate(zip(first, second)):
            if one != other:
                return difference(one, other, f"{where:s}/{index:d}")
    return f"{where:s}: {first!r:.120} and {second!r:.120}"


def handed(kind):
    """A parser reports the same of a file object of any helper."""

    def function(rng, ctx):
        sample = kind.make(rng)
        if rng.random() < 0.3:
            sample.files[sample.main] = mutate.damage(
                rng, sample.files[sample.main], sample.marks
            )
        directory = os.path.join(ctx.scratch, "input")
        native_root = os.path.join(directory, "native")
        files = {sample.main: bytes(sample.files[sample.main])}
        write_native(files, native_root)
        native = file_system.NativeFileSystemHelper()

        def use(helper, path):
            parser = kind.create(sample, False, mon.NullWriter())
            file_object = helper.OpenFileByPath(path)

            def read():
                parser.ReadFileObject(file_object)
                return corpus.value_of(parser)

            try:
                result = outcome(read)
                try:
                    parser.Close()
                except OSError:
                    pass
                return result
            finally:
                if helper is native:
                    file_object.close()

        try:
            expected = use(native, os.path.join(native_root, sample.main))
            ctx.count("parser_ok" if expected[0] == "ok" else "parser_refused")
            system = rng.choice(SYSTEMS)
            helper, prefix = helper_of(system, files, directory, ctx)
            result = use(helper, helper.JoinPath(prefix + [sample.main]))
            if not expected[0] == result[0] == "refused" and result != expected:
                raise Violation(
                    f"{kind.name:s}: file object of {system:s} helper "
                    f"{difference(expected, result):.500s}",
                    f"handed-{kind.name:s}",
                )
            ctx.count(f"handed:{kind.name:s}")
            ctx.seen(repr(sorted((k, hash(v)) for k, v in files.items())))
        finally:
            shutil.rmtree(directory)

    return function


# Options of a storage media image.


def volume_text(rng):
    """Returns a volume identifiers string and what it denotes."""
    mode = rng.randint(0, 4)
    if mode == 0:
        return None, []
    if mode == 1:
        return "all", ["all"]
    if mode == 2:
        return "none", []
    text, numbers = [], set()
    for _ in range(rng.randint(1, 4)):
        first = rng.randint(1, 40)
        if rng.random() < 0.4:
            last = first + rng.randint(1, 5)
            text.append(f"{first:d}..{last:d}")
            numbers.update(range(first, last + 1))
        else:
            text.append(f"{first:d}")
            numbers.add(first)
    return ",".join(text), sorted(numbers)


def state():
    return {name: getattr(definitions, f"PREFERRED_{name:s}_BACK_END") for name in PREFERRED}


def set_state(values):
    for name, value in values.items():
        setattr(definitions, f"PREFERRED_{name:s}_BACK_END", value)


def options(rng, ctx):
    """The options given are those the volumes are scanned with."""
    path = os.path.join(ctx.scratch, "image.raw")
    content = rng.randbytes(rng.choice([0, 1, 3000]))
    with open(path, "wb") as file_object:
        file_object.write(fat.Image({"folder/file.bin": content}).write())

    back_end = rng.choice(list(BACK_ENDS))
    arguments, wanted = [], {}
    for name in ("partitions", "snapshots", "volumes"):
        text, wanted[name] = volume_text(rng)
        if text is not None:
            arguments.append([rng.choice([f"--{name:s}", f"--{name[:-1]:s}"]), text])
            if name == "snapshots" and text == "none":
                wanted[name] = ["none"]
    if back_end:
        arguments.append([rng.choice(["--back_end", "--back-end"]), back_end])
    arguments.append(["--image", path])
    rng.shuffle(arguments)
    invalid = rng.random() < 0.05
    if invalid:
        arguments.append([rng.choice(["--partitions", "--volumes", "--snapshots"]), "x..y"])
    arguments = sum(arguments, [])
    parser = argparse.ArgumentParser()
    dfvfs_helpers.AddDFVFSCLIArguments(parser)
    parsed = parser.parse_args(arguments)

    original = volume_scanner.VolumeScanner.GetBasePathSpecs
    count = rng.choice([0, 1, 1, 1, 2])
    seen = []

    def scan(self, source_path, options=None):
        seen.append((source_path, options.partitions, options.snapshots, options.volumes,
                     state()))
        set_state(before)
        return original(self, source_path, options=options)[:1] * count

    before = state()
    volume_scanner.VolumeScanner.GetBasePathSpecs = scan
    try:
        # Any other than the selected back-ends are not touched.
        marked = {name: f"marked-{name:s}" for name in PREFERRED}
        set_state(marked)
        try:
            helper = dfvfs_helpers.ParseDFVFSCLIArguments(parsed)
        except ValueError:
            expect(invalid, f"{arguments!r}: refused", "options-refused")
            ctx.count("option_invalid")
            return
    finally:
        volume_scanner.VolumeScanner.GetBasePathSpecs = original
        set_state(before)
    expect(not invalid, f"{arguments!r}: not refused", "options-invalid")
    expected = (path, wanted["partitions"], wanted["snapshots"], wanted["volumes"],
                {**marked, **BACK_ENDS[back_end]})
    expect(
        len(seen) == 1 and (seen[0][0], *map(list, seen[0][1:4]), seen[0][4]) == expected,
        f"{arguments!r}: scanned with {seen!r} instead of {expected!r}", "options",
    )
    ctx.count("option_scan")
    ctx.count(f"back_end:{back_end!s}")
    ctx.count(f"base_{count:d}")
    ctx.seen(repr(arguments[1:]))
    if count != 1:
        expect(helper is None, f"{count:d} file systems: {helper!r}", "options-count")
        return
    expect(helper is not None, "one file system: none", "options-count")
    location = helper.JoinPath(["folder", "file.bin"])
    expect(helper.OpenFileByPath(location).read() == content, "content", "options-content")


FAMILIES = {"tree": (tree, 500, 30000), "options": (options, 400, 10000)}
for _kind in HELPER_KINDS:
    FAMILIES[f"helper-{_kind.name:s}"] = (parsers(_kind), 80, 3000)
for _kind in HANDED_KINDS:
    FAMILIES[f"handed-{_kind.name:s}"] = (handed(_kind), 16, 800)
