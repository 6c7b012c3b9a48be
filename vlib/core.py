"""Runner for the runtime monitors: units, contexts, verdicts, evidence, replays.

A check module (checks/cXX.py) exposes

    PROPERTY = "C01"
    LEVEL = "exploration"
    RULE = "how cases are made, and what makes one non-trivial"
    REQUIRED = {"monitor key": minimum number of observations}
    def units(tier, seed): -> list[(unit_name, function(ctx), args)]

Every unit runs the real code of /repo in a worker process; `ctx.check` is the only way to reach a
verdict.  Verdicts are three-valued: held (exit 0), violated (exit 1), inconclusive (exit 2 or 3).
"""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAX_VIOLATIONS_PER_UNIT = 20


class HarnessError(Exception):
    """The harness itself misbehaved: never a verdict about the code under test."""


def digest(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


def jsonable(obj, depth=0):
    import numpy as np

    if depth > 6:
        return repr(obj)[:200]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj if not isinstance(obj, str) else obj[:2000]
    if isinstance(obj, np.ndarray):
        if obj.size > 4000:
            return f"array{obj.shape}:{hashlib.sha1(np.ascontiguousarray(obj).tobytes()).hexdigest()}"
        if obj.dtype == object:
            return repr(obj)[:500]
        return np.asarray(obj).view(np.ndarray).tolist()
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(obj.items())[:100]}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(obj)[:200]]
    return repr(obj)[:300]


class Context:
    """What a unit uses to drive the code and report what its monitors saw."""

    def __init__(self, prop: str, unit: str, seed: int, tier: str) -> None:
        import numpy as np

        self.prop, self.unit, self.seed, self.tier = prop, unit, seed, tier
        word = digest((prop, unit, seed))
        self._rng = np.random.default_rng(word)
        self._pyrng = random.Random(word)
        self.randomized = False
        self.counts: dict[str, int] = {}
        self.distinct: set[int] = set()
        self.cases = 0
        self.samples: list = []
        self.violations: list[dict] = []
        self.total_violations = 0
        self.current: dict = {}

    @property
    def rng(self):
        self.randomized = True
        return self._rng

    @property
    def pyrng(self):
        self.randomized = True
        return self._pyrng

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def case(self, kind: str, nontrivial: bool = True, /, **desc) -> None:
        """Register one executed case (an input or history driven through the real code)."""
        self.cases += 1
        self.current = {"case": kind, **{k: jsonable(v) for k, v in desc.items()}}
        if nontrivial:
            self.distinct.add(digest((kind, self.current)))
        if len(self.samples) < 2:
            self.samples.append(self.current)

    def see(self, key: str, n: int = 1) -> None:
        self.counts[key] = self.counts.get(key, 0) + n

    def check(self, cond, key: str, msg: str = "", /, **witness) -> bool:
        """One observation of monitor `key`; a false condition is a violation."""
        self.counts[key] = self.counts.get(key, 0) + 1
        if not bool(cond):
            self.violate(key, msg, **witness)
            return False
        return True

    def violate(self, key: str, msg: str = "", /, **witness) -> None:
        self.total_violations += 1
        if len(self.violations) < MAX_VIOLATIONS_PER_UNIT:
            self.violations.append(
                {
                    "key": key,
                    "msg": str(msg)[:2000],
                    "unit": self.unit,
                    "seed": self.seed,
                    "case": self.current,
                    "witness": {k: jsonable(v) for k, v in witness.items()},
                }
            )

    @contextlib.contextmanager
    def guard(self, key: str, /, **witness):
        """Run library code that must not raise; an exception out of /repo is a violation of `key`."""
        self.counts[key] = self.counts.get(key, 0) + 1
        try:
            yield
        except HarnessError:
            raise
        except Exception as error:  # noqa: BLE001
            if isinstance(error, (MemoryError, ImportError)):
                raise
            self.violate(
                key,
                f"unexpected {type(error).__name__}: {error}",
                traceback=traceback.format_exc()[-1500:],
                **witness,
            )

    def raises(self, exc, key: str, func, *args, msg: str = "", **kwargs) -> bool:
        """The call must raise one of `exc` (a rejected input)."""
        self.counts[key] = self.counts.get(key, 0) + 1
        try:
            result = func(*args, **kwargs)
        except exc:
            return True
        except Exception as error:  # noqa: BLE001
            self.violate(key, f"{msg}: raised {type(error).__name__} ({error}) instead")
            return False
        self.violate(key, f"{msg}: accepted, returned {result!r:.300}")
        return False


def in_repo(error: BaseException) -> bool:
    tb = error.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def seed_globals(word: int) -> None:
    import numpy as np
    import sympy.core.random

    random.seed(word % 2**32)
    np.random.seed(word % 2**32)
    sympy.core.random.seed(word % 2**32)


_MODULE = None

# A unit uses at most about 30 s of CPU time (quick) or 600 s (thorough) on the unchanged tree.  One that uses
# this much is stuck: the code under test does not return.  CPU time, so that a loaded machine is no alarm.
STUCK_CPU_S = {"quick": 300.0, "thorough": 5000.0}


class Stuck(BaseException):
    """Raised by the CPU-time watchdog inside a unit (not an Exception: must not be handled as a rejection)."""


def _stuck(signum, frame):
    raise Stuck


def _run_unit(task):
    index, seed, tier = task
    name, func, args = _MODULE.units(tier, seed)[index]
    ctx = Context(_MODULE.PROPERTY, name, seed, tier)
    seed_globals(digest((name, seed)))
    error = None
    stuck = False
    start = time.time()
    out = io.StringIO()
    old_handler = signal.signal(signal.SIGPROF, _stuck)
    signal.setitimer(signal.ITIMER_PROF, STUCK_CPU_S[tier], 5)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            func(ctx, *args)
        signal.setitimer(signal.ITIMER_PROF, 0)
    except Stuck as exc:
        signal.setitimer(signal.ITIMER_PROF, 0)
        stuck = True
        if in_repo(exc):
            ctx.violate(
                "does-not-return",
                f"the code under test was still running after {STUCK_CPU_S[tier]:.0f} s of CPU time",
                traceback=traceback.format_exc()[-2500:],
            )
        else:
            error = traceback.format_exc()
    except HarnessError:
        error = traceback.format_exc()
    except Exception as exc:  # noqa: BLE001
        if in_repo(exc):
            ctx.violate(
                "unexpected-exception",
                f"{type(exc).__name__}: {exc}",
                traceback=traceback.format_exc()[-2500:],
            )
        elif isinstance(exc, (MemoryError, ImportError, OSError)):
            error = traceback.format_exc()
        else:
            # the oracle evaluates every result of well-formed type and shape: one that it cannot
            # even be applied to (wrong shape, type, range...) is itself a wrong result
            ctx.violate(
                "malformed-result",
                f"the oracle cannot be applied to the observed result: {type(exc).__name__}: {exc}",
                traceback=traceback.format_exc()[-2500:],
            )
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, old_handler)
    return {
        "stuck": stuck,
        "seed": seed,
        "randomized": ctx.randomized,
        "name": name,
        "index": index,
        "counts": ctx.counts,
        "distinct": ctx.distinct,
        "cases": ctx.cases,
        "samples": ctx.samples,
        "violations": ctx.violations,
        "total_violations": ctx.total_violations,
        "error": error,
        "wall": time.time() - start,
    }


def load_known(prop: str) -> list[dict]:
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as file:
        data = json.load(file)
    return [entry for entry in data.get("known", []) if entry["property"] == prop]


def run(module, argv: list[str]) -> int:
    global _MODULE
    _MODULE = module
    prop = module.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = digest(os.environ["VERIF_SEED"]) % 2**31
    only = None
    verbose = "-v" in argv
    for ii, arg in enumerate(argv):
        if arg == "--unit":
            only = argv[ii + 1]
        if arg == "--seed":
            seed = int(argv[ii + 1])
        if arg == "--tier":
            tier = argv[ii + 1]

    start = time.time()
    import qldpc

    where = os.path.abspath(qldpc.__file__)
    if not where.startswith(REPO + "/"):
        print(f"INCONCLUSIVE property={prop}: qldpc imported from {where}")
        return 2

    units = module.units(tier, seed)
    names = [unit[0] for unit in units]
    if len(set(names)) != len(names):
        print(f"INCONCLUSIVE property={prop}: duplicate unit names")
        return 2
    indices = [ii for ii, name in enumerate(names) if only is None or name.startswith(only)]
    tasks = [(ii, seed, tier) for ii in indices]
    rounds = getattr(module, "ROUNDS", {}).get(tier, 1) if only is None else 1
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "7200"))

    results = []
    total = len(tasks)
    timed_out = False
    workers = min(int(os.environ.get("VERIF_WORKERS", "8")), max(1, len(tasks)))
    if workers == 1:
        for number in range(rounds):
            again = [task for task in tasks if not number or any(res["index"] == task[0] and res["randomized"] for res in results)]
            batch = [_run_unit((ii, seed + 1_000_003 * number, tier)) for ii, *_ in again]
            total += len(batch) if number else 0
            results += batch
    else:
        # largest first where the module says so
        cost = getattr(module, "COST", {})
        tasks.sort(key=lambda t: -max([c for p, c in cost.items() if names[t[0]].startswith(p)] or [0]))
        context = multiprocessing.get_context("fork")
        with context.Pool(workers, maxtasksperchild=getattr(module, "MAX_TASKS", None)) as pool:
            try:
                for number in range(rounds):
                    # the units that draw random cases run again, every round with a seed of its own
                    if number:
                        again = {res["index"] for res in results if res["randomized"]}
                        tasks = [(ii, seed + 1_000_003 * number, tier) for ii, *_ in tasks if ii in again]
                        total += len(tasks)
                    iterator = pool.imap_unordered(_run_unit, tasks, chunksize=1)
                    for _ in tasks:
                        left = budget - (time.time() - start)
                        results.append(iterator.next(timeout=max(left, 0.1)))
                        if verbose:
                            res = results[-1]
                            print(f"  {res['wall']:7.2f}s {res['cases']:6d} cases {res['name']}", file=sys.stderr)
                        if results[-1]["violations"] and not load_known(prop):
                            budget = min(budget, time.time() - start + 60)  # a verdict is known: do not wait for everything
                        if results[-1]["stuck"]:
                            pool.terminate()  # other units may be stuck as well: report what was seen
                            break
                    if any(res["stuck"] or res["violations"] for res in results):
                        break
            except multiprocessing.TimeoutError:
                timed_out = True
                pool.terminate()

    results.sort(key=lambda res: (res["index"], res["seed"]))
    counts: dict[str, int] = {}
    distinct: set[int] = set()
    samples: list = []
    violations: list[dict] = []
    errors = []
    cases = 0
    for res in results:
        for key, val in res["counts"].items():
            counts[key] = counts.get(key, 0) + val
        distinct |= res["distinct"]
        cases += res["cases"]
        if len(samples) < 12 and res["samples"]:
            samples.append({"unit": res["name"], **res["samples"][0]})
        violations += res["violations"]
        if res["error"]:
            errors.append((res["name"], res["error"]))

    known = load_known(prop)
    hit = {}
    fresh = []
    for violation in violations:
        for entry in known:
            if entry["key"] == violation["key"]:
                hit[entry["key"]] = entry
                break
        else:
            fresh.append(violation)
    for entry in known:
        if only is None and entry["key"] in hit:
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    unseen = [entry["key"] for entry in known if entry["key"] not in hit] if only is None else []
    if unseen:
        print(f"note: listed findings not observed in this run: {unseen}")

    wall = time.time() - start
    missing = {
        key: (counts.get(key, 0), need)
        for key, need in getattr(module, "REQUIRED", {}).items()
        if counts.get(key, 0) < need
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples or [{"note": "no case completed"}],
            "monitor_observations": dict(sorted(counts.items())),
            "units_run": len(results),
            "units_total": total,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as file:
            json.dump(jsonable_evidence(evidence), file, indent=1)
        os.replace(path + ".tmp", path)

    if fresh:
        directory = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(directory, exist_ok=True)
        seen = set()
        for violation in fresh:
            if violation["key"] in seen:
                continue
            seen.add(violation["key"])
            tag = "".join(c if c.isalnum() else "-" for c in violation["key"])[:60]
            path = os.path.join(directory, f"{prop}-{tag}.json")
            with open(path, "w") as file:
                json.dump(
                    {
                        "property": prop,
                        "tier": tier,
                        "replay_cmd": f"VERIF_SEED={violation['seed']} VERIF_TIER={tier} ./check {prop} --unit '{violation['unit']}'",
                        **violation,
                    },
                    file,
                    indent=1,
                )
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  [{violation['key']}] unit={violation['unit']} {violation['msg'][:400]}")
            if verbose:
                print(json.dumps({"case": violation["case"], "witness": violation["witness"]}, indent=1)[:3000])
        return 1
    if errors:
        for name, text in errors[:3]:
            print(f"INCONCLUSIVE property={prop}: harness error in unit {name}\n{text}")
        return 2
    if timed_out:
        done = {res["name"] for res in results}
        left = [names[ii] for ii in indices if names[ii] not in done]
        print(f"INCONCLUSIVE property={prop}: time budget ended with units unfinished: {left[:8]}")
        return 3
    if only is None and missing:
        print(f"INCONCLUSIVE property={prop}: monitors under-observed (seen, needed): {missing}")
        return 2
    print(
        f"HELD property={prop} tier={tier} seed={seed} cases={cases} distinct={len(distinct)}"
        f" observations={sum(counts.values())} wall={wall:.1f}s"
    )
    return 0


def jsonable_evidence(evidence: dict) -> dict:
    return json.loads(json.dumps(evidence, default=jsonable))
