"""C05: malformed input ends in a ParseError and always terminates."""

import hashlib
import logging
import os
import shutil
import time

from dtformats import errors

from vf import corpus, mon, mutate
from vf.core import Violation

PROPERTY = "C05"
RULE = (
    "a case is one generated or sample file (or directory) of one of the supported kinds "
    "of input, damaged by up to 6 truncations, bit flips, field overwrites, copies, "
    "insertions and splices (before or after compression), or garbage; opened and read "
    "completely, with and without debug output; non-trivial: distinct damaged content"
)
REQUIRED = (
    [f"refused:{kind.name:s}" for kind in corpus.KINDS
       if kind.name not in ("firefox_blocks", "spotlight_values")]
    + [f"accepted:{kind.name:s}" for kind in corpus.KINDS]
    + ["debug", "samples", "garbage", "inner"]
)
QUICK_BUDGET = 240
CPU_LIMIT = 40


def setup(ctx):
    logging.disable(logging.CRITICAL)


def run(kind, sample, path, debug, ctx):
    """Returns whether the input was accepted."""
    size = sum(map(len, sample.files.values()))
    parser = kind.create(sample, debug, mon.NullWriter())
    started = time.process_time()
    try:
        try:
            kind.open(parser, path)
            reported = []
            for item in kind.read(parser):
                reported.append(item)
            kind.results(parser, reported)
            return True
        finally:
            try:
                kind.close(parser)
            except OSError:
                # Not opened.
                pass
    except (errors.ParseError, OSError):
        return False
    except Exception as exception:  # pylint: disable=broad-except
        where = mechanism_of(exception)
        raise Violation(
            f"{kind.name:s} of {size:d} bytes: {type(exception).__name__:s}: "
            f"{exception!s:.300} in {where:s}",
            f"{type(exception).__name__:s}-{where:s}",
        ) from exception
    finally:
        elapsed = time.process_time() - started
        ctx.counters["maximum_ms"] = max(
            ctx.counters.get("maximum_ms", 0), int(elapsed * 1000)
        )
        # Observed on valid input: far below 1 ms per 50 bytes.
        if elapsed > 8 + size / 5000:
            raise Violation(
                f"{kind.name:s} of {size:d} bytes took {elapsed:.1f} s",
                f"work-{kind.name:s}",
            )


def mechanism_of(exception):
    import traceback

    frames = [
        frame
        for frame in traceback.extract_tb(exception.__traceback__)
        if "/dtformats/" in frame.filename
    ]
    if not frames:
        return "harness"
    return f"{os.path.basename(frames[-1].filename):s}-{frames[-1].name:s}"


def damaged(rng, ctx, kind):
    choice = rng.random()
    files = kind.samples() if choice < 0.12 else []
    files = [s for s in files if sum(map(len, s.files.values())) < 60000]
    if files:
        sample = rng.choice(files)
        ctx.count("samples")
    else:
        sample = kind.unusual(rng) if rng.random() < 0.1 else kind.make(rng)
    if choice > 0.985 and not kind.directory and len(sample.files) == 1:
        sample.files[sample.main] = mutate.garbage(rng)
        ctx.count("garbage")
        return sample
    other = None
    if rng.random() < 0.1:
        other = kind.make(rng)
        other = other.files.get(sample.main) or next(iter(other.files.values()))
    if sample.wrap and rng.random() < 0.8:
        inner = mutate.damage(rng, sample.inner, sample.marks, other)
        sample.files[sample.main] = sample.wrap(inner)
        ctx.count("inner")
        return sample
    names = sorted(sample.files)
    for name in rng.sample(names, min(len(names), rng.choice([1, 1, 2]))):
        if sample.main and rng.random() < 0.7:
            name = sample.main
        marks = sample.marks if name == sample.main else ()
        sample.files[name] = mutate.damage(rng, sample.files[name], marks, other)
    if len(names) > 1 and rng.random() < 0.03:
        del sample.files[rng.choice([n for n in names if n != sample.main])]
    return sample


def family(kind):
    def function(rng, ctx):
        sample = damaged(rng, ctx, kind)
        directory = os.path.join(ctx.scratch, "input")
        path = sample.write(directory)
        for name, data in sample.files.items():
            if len(data) < 200000:
                ctx.keep_input(name, data)
        try:
            debug = rng.random() < 0.35
            if debug:
                ctx.count("debug")
            accepted = run(kind, sample, path, debug, ctx)
            ctx.count(f"{'accepted' if accepted else 'refused':s}:{kind.name:s}")
            ctx.sample({
                "kind": kind.name, "sizes": [len(d) for d in sample.files.values()],
                "debug": debug, "accepted": accepted,
            })
        finally:
            shutil.rmtree(directory)
        digest = hashlib.blake2b(digest_size=8)
        for name in sorted(sample.files):
            digest.update(sample.files[name])
        ctx.seen(kind.name.encode() + digest.digest())

    return function


SLOW = {"wmi_repository": 0.2, "chrome_cache": 0.4, "spotlight": 0.5, "wmi_rep": 0.2,
        "wmi_index": 0.4, "chrome_index": 0.5, "chrome_blocks": 0.5, "wmi_class": 0.5}
FAMILIES = {
    kind.name: (
        family(kind), int(500 * SLOW.get(kind.name, 1)), int(25000 * SLOW.get(kind.name, 1))
    )
    for kind in corpus.KINDS
}
