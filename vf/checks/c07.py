"""C07: opening and closing keeps the files of others intact."""

import errno
import hashlib
import inspect
import logging
import os
import shutil
import sys

from dtformats import data_format, errors, file_system

from vf import corpus, mon, mutate
from vf.core import Violation

PROPERTY = "C07"
RULE = (
    "a case is a random sequence of up to 12 operations (open a valid, damaged or missing "
    "file, read, hand in a file object, close, close again, open again) on one parser, "
    "with read errors and short reads injected into some of the files, while an audit "
    "hook, the table of open files of the process, a file system helper that keeps a "
    "ledger and a snapshot of the directory observe; non-trivial: distinct sequences and "
    "contents"
)
KINDS = corpus.KINDS
FILE_KINDS = [
    kind for kind in KINDS
    if isinstance(kind.parser, type) and issubclass(kind.parser, data_format.BinaryDataFile)
]
# Parsers that read other files next to the one opened.
PATH_KINDS = {"spotlight", "firefox_blocks", "wmi_repository", "wmi_rep", "chrome_cache", "tracev3"}
# Parsers without a file system helper argument always use the native one.
WITH_HELPER = {
    kind.name for kind in KINDS
    if isinstance(kind.parser, type)
    and "file_system_helper" in inspect.signature(kind.parser).parameters
}
REQUIRED = (
    [f"kind:{kind.name:s}" for kind in KINDS]
    + ["opened", "refused", "missing", "closed", "close_refused", "open_refused",
       "handed_in", "read", "faults", "short_reads", "audited_opens", "ledger_opens",
       "snapshots"]
)
QUICK_BUDGET = 200
FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
FORBIDDEN = {
    "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown",
    "os.link", "os.symlink", "os.utime", "os.setxattr", "os.removexattr", "os.lockf",
    "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.kill",
    "subprocess.Popen", "shutil.rmtree", "shutil.move", "shutil.copyfile",
    "tempfile.mkstemp", "tempfile.mkdtemp", "socket.connect",
}


class State:
    active = False
    hooked = False
    events = []
    opens = 0


def hook(event, arguments):
    if not State.active:
        return
    if event == "open":
        State.opens += 1
        path, mode, flags = (tuple(arguments) + (None, None, None))[:3]
        writes = isinstance(flags, int) and flags & FLAGS
        if writes or (isinstance(mode, str) and set(mode) & set("wax+")):
            State.events.append((event, str(path), mode, flags))
    elif event in FORBIDDEN:
        State.events.append((event, *map(str, arguments)))


def setup(ctx):
    logging.disable(logging.CRITICAL)
    if not State.hooked:
        sys.addaudithook(hook)
        State.hooked = True


class Watched:
    """A file object that may fail and whose closing is noted."""

    def __init__(self, file_object, helper):
        self._file_object = file_object
        self._helper = helper
        self.closed = False

    def read(self, *arguments):
        helper = self._helper
        if helper.fault and self._helper.reads >= helper.fault[0]:
            if helper.fault[1] == "error":
                helper.faults += 1
                raise OSError(errno.EIO, "Input/output error")
            data = self._file_object.read(*arguments)
            helper.shorts += 1
            return data[: len(data) // 2]
        helper.reads += 1
        return self._file_object.read(*arguments)

    def seek(self, *arguments):
        return self._file_object.seek(*arguments)

    def tell(self):
        return self._file_object.tell()

    def get_offset(self):
        return self._file_object.tell()

    def get_size(self):
        here = self._file_object.tell()
        size = self._file_object.seek(0, os.SEEK_END)
        self._file_object.seek(here)
        return size

    def close(self):
        if not self.closed:
            self.closed = True
            self._helper.open_files.remove(self)
        self._file_object.close()

    def readable(self):
        return True

    def seekable(self):
        return True


class LedgerHelper(file_system.NativeFileSystemHelper):
    """A file system helper that keeps a ledger of the files opened."""

    def __init__(self):
        self.open_files = []
        self.opened = 0
        self.fault = None
        self.reads = 0
        self.faults = 0
        self.shorts = 0

    def OpenFileByPath(self, path):
        watched = Watched(open(path, "rb"), self)
        self.open_files.append(watched)
        self.opened += 1
        return watched


def snapshot(directory):
    """Names, sizes, times, modes and contents of all files."""
    result = {}
    for root, names, files in os.walk(directory):
        for name in sorted(names) + sorted(files):
            path = os.path.join(root, name)
            status = os.lstat(path)
            digest = b""
            if name in files:
                with open(path, "rb") as file_object:
                    digest = hashlib.blake2b(file_object.read()).digest()
            result[path] = (
                status.st_ino, status.st_mode, status.st_size, status.st_mtime_ns,
                status.st_nlink, digest,
            )
    return result


def open_paths(directory):
    """Paths below the directory that the process has open."""
    result = []
    for name in os.listdir("/proc/self/fd"):
        try:
            path = os.readlink(f"/proc/self/fd/{name:s}")
        except OSError:
            continue
        if path.startswith(directory + os.sep):
            result.append(path)
    return result


class Observer:
    """Runs operations under observation."""

    def __init__(self, directory, helper, ctx):
        self.directory = directory
        self.helper = helper
        self.ctx = ctx
        self.before = snapshot(directory)
        ctx.count("snapshots")

    def run(self, function):
        State.events = []
        State.active = True
        try:
            return function()
        finally:
            State.active = False

    def check(self, kind, what, closed):
        if State.events:
            raise Violation(
                f"{kind.name:s}: {what:s}: {State.events[:3]!r}", f"access-{kind.name:s}"
            )
        if snapshot(self.directory) != self.before:
            raise Violation(f"{kind.name:s}: {what:s}: files changed", f"changed-{kind.name:s}")
        if closed:
            if self.helper.open_files:
                raise Violation(
                    f"{kind.name:s}: {what:s}: {len(self.helper.open_files):d} files not closed",
                    f"not-closed-{kind.name:s}",
                )
            paths = open_paths(self.directory)
            if paths:
                raise Violation(
                    f"{kind.name:s}: {what:s}: files not closed: {paths[:3]!r}",
                    f"not-closed-{kind.name:s}",
                )


def make(rng, kind):
    sample = kind.make(rng)
    damaged = rng.random() < 0.4
    if damaged:
        name = sample.main or rng.choice(sorted(sample.files))
        sample.files[name] = mutate.damage(rng, sample.files[name], sample.marks)
    if not damaged and len(sample.files) > 1 and rng.random() < 0.1:
        del sample.files[rng.choice([n for n in sorted(sample.files) if n != sample.main])]
    return sample


def inject(rng, helper):
    helper.fault = None
    helper.reads = 0
    if rng.random() < 0.3:
        helper.fault = (rng.choice([0, 1, 2, 3, 5, 10, 30]), rng.choice(["error", "short"]))


def single(kind):
    """Opens, reads and closes one input."""

    def function(rng, ctx):
        sample = make(rng, kind)
        directory = os.path.join(ctx.scratch, "input")
        path = sample.write(directory)
        helper = LedgerHelper()
        inject(rng, helper)
        try:
            observer = Observer(directory, helper, ctx)
            parser = kind.create(
                sample, rng.random() < 0.3, mon.NullWriter(),
                helper if kind.name in WITH_HELPER else None,
            )

            def use():
                try:
                    kind.open(parser, path)
                    for _ in kind.read(parser):
                        pass
                    ctx.count("opened")
                except (errors.ParseError, OSError):
                    ctx.count("refused")
                finally:
                    try:
                        kind.close(parser)
                    except OSError:
                        pass

            observer.run(use)
            observer.check(kind, "open, read and close", True)
            count(ctx, helper)
            ctx.count(f"kind:{kind.name:s}")
            ctx.seen(repr((kind.name, sorted(sample.files.items()), helper.fault)))
        finally:
            shutil.rmtree(directory)

    return function


def count(ctx, helper):
    ctx.count("ledger_opens", helper.opened)
    ctx.count("audited_opens", State.opens)
    ctx.count("faults", helper.faults)
    ctx.count("short_reads", helper.shorts)
    State.opens = 0


def sequence(rng, ctx):
    """A random sequence of operations on one parser."""
    kind = rng.choice(FILE_KINDS)
    samples = [make(rng, kind) for _ in range(3)]
    if kind.name in ("spotlight_offsets", "spotlight_values"):
        samples = [samples[0]] * 3
    directory = os.path.join(ctx.scratch, "input")
    paths = [s.write(os.path.join(directory, str(i))) for i, s in enumerate(samples)]
    helper = LedgerHelper()
    parser = kind.create(
        samples[0], rng.random() < 0.2, mon.NullWriter(),
        helper if kind.name in WITH_HELPER else None,
    )
    observer = Observer(directory, helper, ctx)
    opened = False
    done = []
    try:
        for _ in range(rng.randint(2, 12)):
            operation = rng.choice(
                ["open", "open", "open", "close", "close", "read", "missing", "hand", "hand"]
            )
            done.append(operation)
            what = ", ".join(done)
            inject(rng, helper)
            error = None
            before = (list(helper.open_files), sorted(open_paths(directory)))

            def act():
                if operation == "open":
                    parser.Open(rng.choice(paths))
                elif operation == "missing":
                    parser.Open(os.path.join(directory, "missing"))
                elif operation == "close":
                    parser.Close()
                elif operation == "read":
                    for _ in kind.read(parser):
                        pass

            if operation == "hand":
                if opened or kind.name in PATH_KINDS:
                    continue
                hand_in(rng, kind, parser, samples, paths, observer)
                ctx.count("handed_in")
                observer.check(kind, what, True)
                continue
            if operation == "read" and not opened:
                continue
            try:
                observer.run(act)
            except (errors.ParseError, OSError) as exception:
                error = exception
            if operation in ("open", "missing") and opened:
                if not isinstance(error, OSError):
                    raise Violation(
                        f"{kind.name:s}: {what:s}: second Open not refused", "second-open"
                    )
                if (helper.open_files, sorted(open_paths(directory))) != before:
                    raise Violation(
                        f"{kind.name:s}: {what:s}: refused Open changed the open files",
                        "second-open-files",
                    )
                ctx.count("open_refused")
            elif operation == "close" and not opened:
                if not isinstance(error, OSError):
                    raise Violation(
                        f"{kind.name:s}: {what:s}: Close without Open not refused",
                        "second-close",
                    )
                ctx.count("close_refused")
            elif operation == "missing":
                if not isinstance(error, OSError):
                    raise Violation(f"{kind.name:s}: {what:s}: no error", "missing")
                ctx.count("missing")
            elif operation == "open":
                opened = error is None
                ctx.count("opened" if opened else "refused")
                if opened and not open_paths(directory):
                    raise Violation(f"{kind.name:s}: {what:s}: file not open", "not-open")
            elif operation == "close":
                if error:
                    raise Violation(f"{kind.name:s}: {what:s}: {error!s}", "close-failed")
                opened = False
                ctx.count("closed")
            else:
                ctx.count("read")
            observer.check(kind, what, not opened)
        if opened:
            observer.run(parser.Close)
            observer.check(kind, ", ".join(done + ["close"]), True)
        count(ctx, helper)
        ctx.sample({"kind": kind.name, "operations": done})
        ctx.seen(repr((kind.name, done, [sorted(s.files.items()) for s in samples])))
    finally:
        shutil.rmtree(directory)


def hand_in(rng, kind, parser, samples, paths, observer):
    """A file object of the caller stays open and usable."""
    index = rng.randrange(len(paths))
    with open(paths[index], "rb") as file_object:
        try:
            observer.run(lambda: parser.ReadFileObject(file_object))
        except (errors.ParseError, OSError):
            pass
        # Some parsers keep a file object that was handed in until Close.
        try:
            observer.run(parser.Close)
        except OSError:
            pass
        if file_object.closed:
            raise Violation(f"{kind.name:s}: file object of the caller closed", "handed-in-closed")
        file_object.seek(0)
        data = samples[index].files[samples[index].main]
        if file_object.read() != data:
            raise Violation(
                f"{kind.name:s}: file object of the caller not usable", "handed-in-data"
            )


SLOW = {"wmi_repository": 0.4, "wmi_rep": 0.4}
FAMILIES = {"sequence": (sequence, 4000, 60000)}
for _kind in KINDS:
    _factor = SLOW.get(_kind.name, 1)
    FAMILIES[f"single-{_kind.name:s}"] = (
        single(_kind), int(120 * _factor), int(3000 * _factor)
    )
