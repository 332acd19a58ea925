"""C06: results do not depend on debug mode, history or other parsers."""

import logging
import os
import shutil

from dtformats import errors

from vf import corpus, mon, mutate
from vf.core import Violation
from vf.formats import spotlight

PROPERTY = "C06"
RULE = (
    "a case is one valid or damaged input read with and without debug output; one parser "
    "object that reads up to 5 inputs one after the other; or up to 5 parsers of the same "
    "or different kinds whose reads are interleaved in a random order, compared with "
    "reading each input with a new parser on its own; non-trivial: distinct by content"
)
REQUIRED = (
    [f"modes:{kind.name:s}" for kind in corpus.KINDS]
    + [f"history:{kind.name:s}" for kind in corpus.KINDS]
    + ["damaged", "failed_before", "interleaved", "interleaved_same_kind", "switches", "both_accepted",
       "held_results", "read_twice", "outputs_compared"]
)
QUICK_BUDGET = 200


def setup(ctx):
    logging.disable(logging.CRITICAL)


class Session:
    """One parser reading one input step by step."""

    def __init__(self, kind, sample, path, debug=False, parser=None, writer=None):
        self.kind = kind
        self.path = path
        self.writer = writer or mon.Writer()
        self.parser = parser or kind.create(sample, debug, self.writer)
        self.reported = []
        self.held = []
        self.outcome = None
        self.error = None

    def steps(self, hold=False):
        """Generator that performs one operation at a time."""
        opened = False
        try:
            self.kind.open(self.parser, self.path)
            opened = True
            yield
            for item in self.kind.items(self.parser):
                if hold:
                    self.held.append(item)
                self.reported.append(corpus.value_of(item))
                yield
            self.outcome = ("ok", self.kind.results(self.parser, self.reported))
        except (errors.ParseError, OSError) as exception:
            self.error = exception
            self.outcome = ("refused", self.reported)
        finally:
            try:
                self.kind.close(self.parser)
            except OSError:
                if opened:
                    raise

    def run(self, hold=False):
        for _ in self.steps(hold):
            pass
        return self

    @property
    def output(self):
        return self.writer.text()


def make(rng, ctx, kind, damaged):
    sample = kind.make(rng)
    if damaged:
        ctx.count("damaged")
        if kind.name == "spotlight" and rng.random() < 0.5:
            # Only the attribute of a record is invalid, its type can be undefined.
            return corpus.make_spotlight(rng, spotlight.make_broken(rng, rng.choice([None, "unknown_type"]))[1])
        if sample.wrap and rng.random() < 0.7:
            sample.files[sample.main] = sample.wrap(
                mutate.damage(rng, sample.inner, sample.marks)
            )
        else:
            name = sample.main or rng.choice(sorted(sample.files))
            sample.files[name] = mutate.damage(rng, sample.files[name], sample.marks)
    return sample


def place(ctx, sample, number):
    path = sample.write(os.path.join(ctx.scratch, f"input{number:d}"))
    for name, data in sample.files.items():
        if len(data) < 100000:
            ctx.keep_input(f"{number:d}/{name:s}", data)
    return path


def clean(ctx):
    for name in os.listdir(ctx.scratch):
        shutil.rmtree(os.path.join(ctx.scratch, name))


def difference(first, second, where=""):
    """Describes the first difference of two values."""
    if isinstance(first, (list, tuple)) and isinstance(second, (list, tuple)):
        if len(first) != len(second):
            return f"{where:s}: {len(first):d} and {len(second):d} items"
        for index, (one, other) in enumerate(zip(first, second)):
            if one != other:
                return difference(one, other, f"{where:s}/{index:d}")
    return f"{where:s}: {first!r:.120} and {second!r:.120}"


def compare(first, second, what, mechanism):
    if first != second:
        raise Violation(f"{what:s}: {difference(first, second):.600s}", mechanism)


def modes(kind):
    """The same with and without debug output."""

    def function(rng, ctx):
        damaged = rng.random() < 0.5
        sample = make(rng, ctx, kind, damaged)
        path = place(ctx, sample, 0)
        try:
            quiet = Session(kind, sample, path).run()
            ctx.sample({
                "kind": kind.name, "damaged": damaged, "outcome": quiet.outcome[0],
            })
            if quiet.output:
                raise Violation(
                    f"{kind.name:s}: output without debug: {quiet.output!r:.200}",
                    f"output-{kind.name:s}",
                )
            loud = Session(kind, sample, path, debug=True).run()
            if quiet.outcome[0] == loud.outcome[0] == "ok":
                compare(
                    quiet.outcome, loud.outcome,
                    f"{kind.name:s}: without and with debug output", f"modes-{kind.name:s}",
                )
                ctx.count("both_accepted")
            elif loud.outcome[0] == "ok" or not damaged:
                error = quiet.error or loud.error
                raise Violation(
                    f"{kind.name:s}: {quiet.outcome[0]:s} without and "
                    f"{loud.outcome[0]:s} with debug output: {error!s:.300}",
                    f"modes-outcome-{kind.name:s}",
                )
            else:
                # Debug output may stop earlier, at a structure only it shows.
                if quiet.outcome[0] == "ok":
                    ctx.count("refused_with_debug_output_only")
                number = min(len(quiet.reported), len(loud.reported))
                compare(
                    quiet.reported[:number], loud.reported[:number],
                    f"{kind.name:s}: without and with debug output", f"modes-{kind.name:s}",
                )
            if rng.random() < 0.5:
                again = Session(kind, sample, path, debug=True).run()
                compare(again.outcome, loud.outcome, f"{kind.name:s}: first and second time",
                        f"again-{kind.name:s}")
                compare(again.output, loud.output, f"{kind.name:s}: output of both times",
                        f"again-output-{kind.name:s}")
                ctx.count("outputs_compared")
            ctx.count(f"modes:{kind.name:s}")
            ctx.seen(repr((kind.name, sorted(sample.files.items()))))
        finally:
            clean(ctx)

    return function


def history(kind):
    """One parser object reads several inputs."""

    def function(rng, ctx):
        number = rng.randint(2, 5)
        samples = [make(rng, ctx, kind, rng.random() < 0.4) for _ in range(number)]
        if kind.name in ("spotlight_offsets", "spotlight_values"):
            # The expected sizes belong to the parser.
            samples = [samples[0]] * 2
        if rng.random() < 0.3:
            samples.append(samples[0])
        debug = rng.random() < 0.25
        try:
            paths = [place(ctx, s, index) for index, s in enumerate(samples)]
            writer = mon.Writer()
            parser = kind.create(samples[0], debug, writer)
            held = []
            failed = False
            for sample, path in zip(samples, paths):
                fresh = Session(kind, sample, path, debug).run()
                del writer.texts[:]
                used = Session(kind, sample, path, debug, parser, writer).run(hold=True)
                compare(
                    used.outcome, fresh.outcome, f"{kind.name:s}: used and new parser",
                    f"history-{kind.name:s}",
                )
                compare(
                    used.output, fresh.output, f"{kind.name:s}: output of used and new parser",
                    f"history-output-{kind.name:s}",
                )
                ctx.count("outputs_compared")
                if failed:
                    ctx.count("failed_before")
                failed = used.outcome[0] == "refused"
                held.append((used.held, used.reported))
            for items, values in held:
                compare(
                    [corpus.value_of(item) for item in items], values,
                    f"{kind.name:s}: results after and before reading other inputs",
                    f"held-{kind.name:s}",
                )
                ctx.count("held_results", len(items))
            ctx.count(f"history:{kind.name:s}")
            ctx.seen(repr((kind.name, [sorted(s.files.items()) for s in samples])))
        finally:
            clean(ctx)

    return function


def twice(rng, ctx):
    """Everything is read twice from the same open parser."""
    kind = rng.choice([k for k in corpus.KINDS if k._read])
    sample = make(rng, ctx, kind, rng.random() < 0.3)
    path = place(ctx, sample, 0)
    parser = kind.create(sample, False, mon.Writer())
    try:
        try:
            kind.open(parser, path)
            first = list(kind.read(parser))
            second = list(kind.read(parser))
        except (errors.ParseError, OSError):
            return
        finally:
            try:
                kind.close(parser)
            except OSError:
                pass
        compare(second, first, f"{kind.name:s}: first and second reading", f"twice-{kind.name:s}")
        ctx.count("read_twice")
        ctx.seen(repr((kind.name, sorted(sample.files.items()))))
    finally:
        clean(ctx)


def interleave(rng, ctx):
    """Several parsers read in turns."""
    number = rng.randint(2, 5)
    kinds = [rng.choice(corpus.KINDS) for _ in range(number)]
    if rng.random() < 0.5:
        pool = rng.sample(corpus.KINDS, 2)
        kinds = [rng.choice(pool) for _ in range(number)]
    if len(set(kinds)) < number:
        ctx.count("interleaved_same_kind")
    samples = [make(rng, ctx, kind, rng.random() < 0.3) for kind in kinds]
    debugs = [rng.random() < 0.4 for _ in kinds]
    try:
        paths = [place(ctx, s, index) for index, s in enumerate(samples)]
        alone = [
            Session(kind, sample, path, debug).run()
            for kind, sample, path, debug in zip(kinds, samples, paths, debugs)
        ]
        together = [
            Session(kind, sample, path, debug)
            for kind, sample, path, debug in zip(kinds, samples, paths, debugs)
        ]
        running = [session.steps() for session in together]
        active = list(range(number))
        while active:
            index = rng.choice(active)
            for _ in range(rng.choice([1, 1, 2, 5])):
                try:
                    next(running[index])
                except StopIteration:
                    active.remove(index)
                    break
            ctx.count("switches")
        for kind, one, other in zip(kinds, together, alone):
            compare(
                one.outcome, other.outcome, f"{kind.name:s}: interleaved and alone",
                f"interleaved-{kind.name:s}",
            )
            compare(
                one.output, other.output, f"{kind.name:s}: output interleaved and alone",
                f"interleaved-output-{kind.name:s}",
            )
            ctx.count("interleaved")
            ctx.count("outputs_compared")
        ctx.seen(repr([(k.name, sorted(s.files.items())) for k, s in zip(kinds, samples)]))
    finally:
        clean(ctx)


SLOW = {"wmi_repository": 0.3, "chrome_cache": 0.5, "wmi_rep": 0.4}
FAMILIES = {"interleave": (interleave, 500, 20000), "twice": (twice, 400, 20000)}
for _kind in corpus.KINDS:
    _factor = SLOW.get(_kind.name, 1)
    FAMILIES[f"modes-{_kind.name:s}"] = (modes(_kind), int(70 * _factor), int(4000 * _factor))
    FAMILIES[f"history-{_kind.name:s}"] = (
        history(_kind),
        int(40 * _factor) * (2 if _kind.name == "spotlight" else 1),
        int(1500 * _factor),
    )
