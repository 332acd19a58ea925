"""Check runner: cases, monitors' verdicts, evidence, replay files.

A check module (vf/checks/cXX.py) defines
  PROPERTY = "C01"
  RULE = "how cases are made and what makes one non-trivial"
  FAMILIES = {"name": (function(rng, ctx), quick_cases, thorough_cases), ...}
  REQUIRED = ["counter", ...]   counters that must be non-zero: further sets of
                                cases are run until they are, and a counter that
                                stays zero is a violation
A family function builds one case from `rng`, runs the real code under the
monitors and raises Violation when an oracle refutes the property.
"""

import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# Stop at the first violation (to run the checks against many changes).
FAST = bool(os.environ.get("VERIF_FAST"))
# Sets of cases until a monitor that observed nothing is a violation.
ROUNDS = 4
SCRATCH_ROOT = "/tmp"


class Violation(Exception):
    """An oracle refuted the property on an observed execution.

    mechanism identifies the failing mechanism (not the case), which is what
    the known-findings file is keyed by.
    """

    def __init__(self, message, mechanism=None, details=None):
        super().__init__(message)
        self.mechanism = mechanism
        self.details = details or {}


class CPUBudgetExceeded(BaseException):
    """A single case used more CPU time than its (very generous) budget."""


class Inconclusive(Exception):
    """The case could not be decided."""


class Context:
    """What one worker observed."""

    def __init__(self, prop, tier, seed, scratch):
        self.property = prop
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.counters = {}
        self.signatures = set()
        self.samples = []
        self.evaluations = 0
        self.inputs = {}
        self.family = None
        self.index = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def seen(self, signature, nontrivial=True):
        """Registers a case signature for the distinct count."""
        if nontrivial:
            if not isinstance(signature, (bytes, bytearray)):
                signature = repr(signature).encode("utf-8", "surrogatepass")
            self.signatures.add(hashlib.blake2b(signature, digest_size=8).digest())

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)

    def keep_input(self, name, data):
        """Keeps an input so that it is part of a replay file."""
        self.inputs[name] = data

    def path(self, name, data=None):
        """Path of a scratch file, optionally written with data."""
        path = os.path.join(self.scratch, name)
        if data is not None:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as file_object:
                file_object.write(data)
            if len(data) < 200000:
                self.inputs[name] = bytes(data)
        return path


def case_rng(prop, seed, family, index):
    return random.Random(f"{prop}/{seed}/{family}/{index}")


CPU_LIMIT = 60
# Errors of a monitor that looks at a result of the wrong kind.
RESULT_ERRORS = (
    AssertionError, AttributeError, IndexError, KeyError, StopIteration, TypeError, ValueError,
    struct.error,
)


def _on_cpu(signum, frame):
    raise CPUBudgetExceeded()


def run_case(module, ctx, family, index, seed):
    """Runs one case; returns None or a violation dictionary."""
    function = module.FAMILIES[family][0]
    rng = case_rng(module.PROPERTY, seed, family, index)
    ctx.family, ctx.index = family, index
    ctx.inputs = {}
    limit = getattr(module, "CPU_LIMIT", CPU_LIMIT)
    signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        function(rng, ctx)
        ctx.evaluations += 1
        return None
    except Violation as exception:
        ctx.evaluations += 1
        return {
            "family": family,
            "index": index,
            "message": str(exception),
            "mechanism": exception.mechanism,
            "details": exception.details,
            "inputs": {k: v.hex() for k, v in ctx.inputs.items()},
        }
    except Exception as exception:  # pylint: disable=broad-except
        # An exception of the code under test that no oracle expected.
        frames = [
            frame
            for frame in traceback.extract_tb(exception.__traceback__)
            if frame.filename.startswith(REPO + os.sep)
        ]
        if isinstance(exception, Inconclusive):
            raise
        if not frames and not isinstance(exception, RESULT_ERRORS):
            raise
        ctx.evaluations += 1
        if frames:
            where = f"{os.path.basename(frames[-1].filename)}-{frames[-1].name}"
        else:
            # What the code under test reported is not what a monitor can look at,
            # such as None for a value.
            frame = traceback.extract_tb(exception.__traceback__)[-1]
            where = f"monitor-{os.path.basename(frame.filename)}-{frame.name}"
        return {
            "family": family,
            "index": index,
            "message": f"unexpected {type(exception).__name__}: {exception!s:.600}",
            "mechanism": f"unexpected-{type(exception).__name__}-{where}",
            "details": {"traceback": traceback.format_exc()[-4000:]},
            "inputs": {k: v.hex() for k, v in ctx.inputs.items()},
        }
    except CPUBudgetExceeded:
        ctx.evaluations += 1
        return {
            "family": family,
            "index": index,
            "message": f"no result after {limit} s of CPU time on a small input",
            "mechanism": "no-termination",
            "details": {"traceback": traceback.format_exc()[-3000:]},
            "inputs": {k: v.hex() for k, v in ctx.inputs.items()},
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(module_name, tier, seed, shard, shards, budget, queue, round_number):
    import importlib

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    module = importlib.import_module(module_name)
    scratch = os.path.join(
        SCRATCH_ROOT, f"vf-{module.PROPERTY}-{os.getppid()}", str(shard)
    )
    os.makedirs(scratch, exist_ok=True)
    ctx = Context(module.PROPERTY, tier, seed, scratch)
    violations, error = [], None
    known = load_known(module.PROPERTY)
    start = time.time()
    case_seed = f"{seed}+{round_number}" if round_number else seed
    try:
        if hasattr(module, "setup"):
            module.setup(ctx)
        column = 1 if tier == "quick" else 2
        plan = []
        for family, spec in module.FAMILIES.items():
            n = spec[column]
            for index in range(n):
                # Spread the families over the time budget.
                plan.append(((index + 0.5) / n, family, index))
        plan.sort()
        mechanisms = set()
        for position, (_, family, index) in enumerate(plan):
            if position % shards != shard:
                continue
            if time.time() - start > budget:
                ctx.count("not_run_time_budget")
                continue
            violation = run_case(module, ctx, family, index, case_seed)
            ctx.count(f"family:{family}")
            if violation:
                violation["seed"] = case_seed
                key = violation["mechanism"] or violation["message"][:80]
                if key not in mechanisms and len(violations) < 40:
                    mechanisms.add(key)
                    violations.append(violation)
                if FAST and key not in known:
                    break
    except BaseException:  # pylint: disable=broad-except
        error = (
            f"harness error in family {ctx.family} case {ctx.index}:\n"
            + traceback.format_exc()
        )
    queue.put(
        {
            "counters": ctx.counters,
            "signatures": ctx.signatures,
            "samples": ctx.samples,
            "evaluations": ctx.evaluations,
            "violations": violations,
            "error": error,
        }
    )


def load_known(prop):
    """Known findings of a property: {mechanism: description}."""
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as file_object:
            for line in file_object:
                line = line.strip()
                if not line or not line.startswith("{"):
                    continue
                entry = json.loads(line)
                if entry.get("property") == prop and entry.get("status") == "known":
                    known[entry["mechanism"]] = entry["what"]
    return known


def _run(module_name, tier, seed, shards, budget, round_number):
    """Runs the cases of a round in parallel; returns the results and an error."""
    mp = multiprocessing.get_context("fork")
    queue = mp.Queue()
    processes = []
    start = time.time()
    for shard in range(shards):
        process = mp.Process(
            target=_worker,
            args=(module_name, tier, seed, shard, shards, budget, queue, round_number),
        )
        process.start()
        processes.append(process)
    results = []
    error = None
    known = load_known(module_name.rpartition(".")[2].upper())
    while len(results) < shards:
        try:
            results.append(queue.get(timeout=5))
            if FAST and any(
                (v["mechanism"] or v["message"][:80]) not in known
                for v in results[-1]["violations"]
            ):
                error = "stopped at the first violation"
                break
        except Exception:  # pylint: disable=broad-except
            dead = [p for p in processes if not p.is_alive() and p.exitcode != 0]
            if dead and time.time() - start > 5:
                error = f"worker ended with {dead[0].exitcode}"
                break
            if time.time() - start > budget + 160:
                error = "watchdog: workers did not finish"
                break
    for process in processes:
        if error:
            process.kill()
        process.join()
    return results, error


def main(argv):
    import importlib
    import shutil

    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    module_name = f"vf.checks.{prop.lower()}"
    start = time.time()

    if "--replay" in argv:
        return replay(module_name, argv[argv.index("--replay") + 1])

    module = importlib.import_module(module_name)
    shards = getattr(module, "SHARDS", 8)
    budget = (
        getattr(module, "QUICK_BUDGET", 100)
        if tier == "quick"
        else getattr(module, "THOROUGH_BUDGET", 700)
    )

    required = getattr(module, "REQUIRED", [])
    counters, signatures, samples, violations = {}, set(), [], []
    evaluations, error = 0, None
    missing = list(required)
    rounds = 0
    # What was not observed by chance is looked for in further cases.
    while not rounds or (
        missing and rounds < ROUNDS and not (violations or error)
        and not counters.get("not_run_time_budget") and time.time() - start < budget
    ):
        results, failure = _run(module_name, tier, seed, shards, budget, rounds)
        rounds += 1
        for result in results:
            for key, value in result["counters"].items():
                counters[key] = counters.get(key, 0) + value
            signatures |= result["signatures"]
            samples.extend(result["samples"])
            evaluations += result["evaluations"]
            violations.extend(result["violations"])
            error = error or result["error"]
        error = error or failure
        missing = [name for name in required if not counters.get(name)]
    shutil.rmtree(
        os.path.join(SCRATCH_ROOT, f"vf-{prop}-{os.getpid()}"), ignore_errors=True
    )

    known = load_known(prop)
    known_hits, new = {}, {}
    for violation in sorted(violations, key=lambda v: (v["family"], v["index"])):
        mechanism = violation["mechanism"] or violation["message"][:80]
        if mechanism in known:
            known_hits[mechanism] = violation
        else:
            new.setdefault(mechanism, violation)

    if missing and rounds == ROUNDS and not (new or error):
        # In none of the rounds the code under test did what the monitor waits for.
        new["never-observed"] = {
            "family": "", "index": 0, "seed": seed, "mechanism": "never-observed",
            "message": f"never observed in {evaluations:d} cases: {', '.join(missing):s}",
            "details": {}, "inputs": {},
        }

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(signatures),
            "rule": module.RULE,
            "samples": samples[:6] or ["none"],
            "observed": dict(sorted(counters.items())),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(new),
    }
    if error:
        evidence["coverage"]["error"] = error[-2000:]
    if known_hits:
        evidence["coverage"]["known_findings"] = sorted(known_hits)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(
        os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8"
    ) as file_object:
        json.dump(evidence, file_object, indent=1, default=repr)

    for mechanism in sorted(known_hits):
        print(f"KNOWN-FINDING: property={prop} {known[mechanism]}")

    if error:
        print(error)
    if new:
        directory = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(directory, exist_ok=True)
        for number, (mechanism, violation) in enumerate(new.items()):
            path = os.path.join(directory, f"{prop}-{number}.json")
            violation["property"] = prop
            with open(path, "w", encoding="utf-8") as file_object:
                json.dump(violation, file_object, indent=1, default=repr)
            print(
                f"  {violation['family']}#{violation['index']} "
                f"[{mechanism}]: {violation['message'][:1500]}"
            )
            print(f"VIOLATION property={prop} replay={path}")
        return 1

    print(
        f"{prop} {tier} seed={seed}: evaluations={evaluations} "
        f"distinct={len(signatures)} wall={evidence['wall_s']}s"
    )
    if error:
        return 2
    if missing:
        print(f"inconclusive: never observed: {', '.join(missing)}")
        return 2
    return 0


def replay(module_name, path):
    """Runs the single case of a replay file again."""
    import importlib
    import tempfile

    with open(path, encoding="utf-8") as file_object:
        violation = json.load(file_object)
    if not violation["family"]:
        print(violation["message"])
        print("not the result of a single case: run the check again")
        return 2
    module = importlib.import_module(module_name)
    with tempfile.TemporaryDirectory(dir=SCRATCH_ROOT) as scratch:
        ctx = Context(module.PROPERTY, "quick", violation["seed"], scratch)
        if hasattr(module, "setup"):
            module.setup(ctx)
        result = run_case(
            module, ctx, violation["family"], violation["index"], violation["seed"]
        )
    if result:
        print(json.dumps(result, indent=1, default=repr)[:20000])
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    print("not reproduced")
    return 0
