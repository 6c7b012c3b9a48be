import copy
import itertools
import json
import os
import signal
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

PROPERTY = "C23"
ROUNDS = {"quick": 2}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: random call histories on real on-disk caches (processes, threads, kills at injected points, eviction) checked online against the unwrapped functions and a log of executed computations"
RULE = "one case per call history, schedule of processes or threads, or crash point; non-trivial when at least one cached answer is served"
REQUIRED = {"value": 2000, "type": 2000, "recompute": 1500, "hit": 900, "exception": 100, "exception-recompute": 100, "reopen": 40, "names": 60, "evicted": 100,
            "process-value": 1000, "process-exit": 15, "process-recompute": 30, "thread-value": 400, "crash-value": 300, "crash-killed": 15, "crash-recompute": 15,
            "mutation": 30, "wraps": 20, "key-func": 200, "library": 30, "default-dir": 2, "fresh-process": 20, "dict": 30}
COST = {"crash": 3, "process": 3, "fresh": 5, "library": 4}


class Log:
    """Which computations were really executed, by any process."""

    def __init__(self, directory):
        self.path = os.path.join(directory, "log")
        self.position = 0

    def add(self, text):
        fd = os.open(self.path, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
        os.write(fd, (text + "\n").encode())
        os.close(fd)

    def take(self):
        try:
            with open(self.path) as file:
                file.seek(self.position)
                out = file.read().splitlines()
                self.position = file.tell()
                return out
        except FileNotFoundError:
            return []


class Trouble(Exception):
    pass


RESULTS = [None, 0, 1, -1, True, False, "", "x", [], (), [[(0, 1), (2, 3)]], {"a": [1, (2,)]}, 1.5, float("inf"), b"bytes", 2**70, ("nested", (None, [False])), "ü\n€", ((),), frozenset({1}), 3 + 4j]


def describe(name, args, kwargs):
    return f"{name}({args!r}, {sorted(kwargs.items())!r})"


def outcome(text):
    """What the plain functions return: a function of everything that was passed, with its types."""
    import zlib

    word = zlib.crc32(text.encode())
    if word % 11 == 0:
        return [text] * 2000  # stored in a file of its own
    return (copy.deepcopy(RESULTS[word % len(RESULTS)]), text)


def outcome_bare(text):
    import zlib

    return copy.deepcopy(RESULTS[zlib.crc32(text.encode()) % len(RESULTS)])


def make_functions(log):
    """Plain functions with various signatures; each call is logged."""

    def body(name, args, kwargs, bare=False):
        text = describe(name, args, kwargs)
        log.add(text)
        if "boom" in text:
            raise Trouble(text)
        return outcome_bare(text) if bare else outcome(text)

    def one(a):
        return body("one", (a,), {})

    def two(a, b):
        return body("two", (a, b), {})

    def default(a, b=2, c="z"):
        return body("default", (a, b, c), {})

    def keyword(a, *, b=1, c=None):
        return body("keyword", (a,), {"b": b, "c": c})

    def many(*args):
        return body("many", args, {})

    def mixed(a, *args, **kwargs):
        return body("mixed", (a, *args), kwargs)

    def options(**kwargs):
        return body("options", (), kwargs)

    def nothing():
        return body("nothing", (), {})

    def bare(a, b=0):
        return body("bare", (a, b), {}, True)

    def posonly(a, b, /, c=3):
        return body("posonly", (a, b, c), {})

    def keyed(a, b=2):
        return body("keyed", (a, b), {})

    keyed.key = lambda a, b=2: (a, b)  # an own key function, as fine as the default one

    return {f.__name__: f for f in (one, two, default, keyword, many, mixed, options, nothing, bare, posonly, keyed)}


POOL = [0, 1, 2, 3, -1, "a", "b", "c", "1", "", None, True, False, 1.0, 2.5, (), ("a", 1), ("b", 2), (("a", 1),), ("a", 1, "b", 2), (1,), (1, 2), ((1, 2),), "boom", b"a", ("**kwargs",), "**kwargs", ("a",), "('a', 1)", -2, 2**61 - 1, 2**61, -(2**61), "A", "a ",
        ("kwargs", ("a", 1)), (("a", 1), ("b", 2))]


def random_call(rng, name):
    """Arguments for a function: (canonical description, args, kwargs)."""
    def pick(n):
        return [POOL[i] for i in rng.integers(0, len(POOL), n)]

    if name == "nothing":
        return (), {}, (), {}
    if name == "options":
        keys = [k for k in "abc" if rng.random() < 0.5]
        kw = dict(zip(keys, pick(3)))
        return (), kw, (), kw
    if name in ("many", "mixed"):
        vals = pick(int(rng.integers(1 if name == "mixed" else 0, 4)))
        kw = {}
        if name == "mixed":
            keys = [k for k in "bcd" if rng.random() < 0.4]
            kw = dict(zip(keys, pick(3)))
        return tuple(vals), kw, tuple(vals), kw
    names = {"one": "a", "two": "ab", "default": "abc", "keyword": "a", "bare": "ab", "posonly": "abc", "keyed": "ab"}[name]
    defaults = {"default": {"b": 2, "c": "z"}, "bare": {"b": 0}, "posonly": {"c": 3}, "keyed": {"b": 2}}.get(name, {})
    vals = pick(len(names))
    for i, letter in enumerate(names):
        if letter in defaults and rng.random() < 0.4:
            vals[i] = defaults[letter]
    # spelling: a positional prefix, the rest by keyword; defaults are sometimes left out
    least = 2 if name == "posonly" else 0
    cut = int(rng.integers(least, len(names) + 1))
    args = vals[:cut]
    rest = [(k, v) for k, v in zip(names[cut:], vals[cut:]) if not (k in defaults and v is defaults[k] and rng.random() < 0.7)]
    if cut == len(names):
        while args and names[len(args) - 1] in defaults and args[-1] is defaults[names[len(args) - 1]] and rng.random() < 0.5:
            args.pop()
    rest = [rest[i] for i in rng.permutation(len(rest))]
    kwargs = dict(rest)
    full_kw = {}
    if name == "keyword":
        full_kw = {"b": 1, "c": None}
        for k in ("c", "b") if rng.random() < 0.5 else ("b", "c"):
            if rng.random() < 0.6:
                v = pick(1)[0]
                kwargs[k] = full_kw[k] = v
    return tuple(args), kwargs, tuple(vals), full_kw


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b) and (isinstance(a, frozenset) or a == b)


def decorate(function, name, directory, **options):
    from qldpc import cache

    if hasattr(function, "key"):
        options.setdefault("key_func", function.key)
    return cache.use_disk_cache(name, cache_dir=directory, **options)(function)


def run_history(ctx, num, steps):
    for _ in range(num):
        with tempfile.TemporaryDirectory() as top:
            log = Log(top)
            plain = make_functions(log)
            dirs = [os.path.join(top, d) for d in ("one", "two")]
            slots = {}
            for key in plain:
                slots[key] = (plain[key], decorate(plain[key], key, dirs[0]))
                ctx.check(slots[key][1].__name__ == key and slots[key][1].__wrapped__ is plain[key] if hasattr(slots[key][1], "__wrapped__") else False, "wraps", "the wrapper hides the function")
            done = {}
            history = []
            hits = 0
            for _ in range(steps):
                key = list(plain)[ctx.rng.integers(len(plain))]
                if ctx.rng.random() < 0.03:  # as after a restart: decorate again, on the same disk
                    slots[key] = (plain[key], decorate(plain[key], key, dirs[0]))
                    ctx.see("reopen")
                if history and ctx.rng.random() < 0.45:
                    key, given = history[ctx.rng.integers(len(history))]
                    args, kwargs, canon, full = given
                    if kwargs and ctx.rng.random() < 0.5:
                        order = list(kwargs)[::-1]
                        kwargs = {k: kwargs[k] for k in order}
                else:
                    args, kwargs, canon, full = random_call(ctx.rng, key)
                history.append((key, (args, kwargs, canon, full)))
                text = describe(key, canon, full)
                log.take()
                try:
                    got = slots[key][1](*args, **kwargs)
                except Trouble as error:
                    ctx.check("boom" in text and str(error) == text, "exception", f"{text} raises {error}")
                    ctx.check(log.take() == [text], "exception-recompute", "an exception is cached or the function is called more than once")
                    continue
                ran = log.take()
                want = outcome_bare(text) if key == "bare" else outcome(text)
                ctx.check("boom" not in text, "exception", "an exception is swallowed")
                ctx.check(same(got, want), "value", f"{key}(*{args!r}, **{kwargs!r}) gives {got!r:.200}, should be {want!r:.200}")
                ctx.check(type(got) is type(want), "type", f"{type(got)} instead of {type(want)}")
                if text in done:
                    hits += 1
                    ctx.see("hit")
                    ctx.check(not ran, "recompute", f"{key}(*{args!r}, **{kwargs!r}) is computed again: {ran}")
                else:
                    ctx.check(ran == [text], "recompute", f"first call of {text} executes {ran}")
                done[text] = True
                # what the caller does with a result does not matter later
                if isinstance(got, list) and ctx.rng.random() < 0.5:
                    got.append("changed by the caller")
                    again = slots[key][1](*args, **kwargs)
                    ctx.check(same(again, want), "mutation", "a change made by the caller shows up later")
            ctx.case("history", hits > 0, steps=steps, distinct=len(done), first=[repr(h)[:80] for h in history[:5]])


def run_confusable(ctx, num):
    """Calls with the same values in other places (by position, by keyword, inside a tuple, as text) never share an entry."""
    for _ in range(num):
        with tempfile.TemporaryDirectory() as top:
            log = Log(top)
            plain = make_functions(log)
            cached = {key: decorate(plain[key], key, top) for key in ("mixed", "many", "options", "keyword", "one")}
            vals = [POOL[i] for i in ctx.rng.integers(0, len(POOL), 3) if not (isinstance(POOL[i], (str, tuple)) and "boom" in POOL[i])] + [7, "v"]
            x, y = vals[0], vals[1]
            calls = []
            for pack in (lambda *a: a, lambda *a: (a,), lambda *a: ("**kwargs", *a), lambda *a: (("**kwargs", *a),), lambda *a: ("kwargs", *a),
                         lambda *a: (tuple(a), ()), lambda *a: ((), a), lambda *a: (a[:1], a[1:]), lambda *a: (None, *a), lambda *a: (*a, None), lambda *a: (repr(a),)):
                for inner in ((("b", y),), (("c", y),), ("b", y), ((("b", y),),), (y,), ("b=" + repr(y),), (("b", y), ("c", x))):
                    calls += [("mixed", (x, *pack(*inner)), {}), ("many", (x, *pack(*inner)), {}), ("many", pack(x, *inner), {}), ("many", pack((x,), inner), {}),
                              ("mixed", pack((x,), inner), {}), ("one", (pack(x, *inner),), {})]
            for kw in ({"b": y}, {"c": y}, {"b": y, "c": x}, {"b": x, "c": y}, {"args": y}, {"kwargs": y}, {"d": (("b", y),)}, {}):
                calls += [("mixed", (x,), kw), ("mixed", (x, y), kw), ("mixed", ((x,),), kw), ("options", (), kw)]
            for kw in ({"b": y}, {"c": y}, {"b": y, "c": x}, {"b": x, "c": y}, {}):
                calls.append(("keyword", (x,), kw))
            calls = [calls[i] for i in ctx.rng.permutation(len(calls))]
            ctx.case("confusable", True, x=x, y=y)
            done = set()
            for key, args, kwargs in calls:
                canon = {"b": 1, "c": None, **kwargs} if key == "keyword" else kwargs
                text = describe(key, args, canon)
                if "boom" in text:
                    continue
                log.take()
                got = cached[key](*args, **kwargs)
                ran = log.take()
                ctx.check(same(got, outcome(text)), "confusable", f"{key}(*{args!r}, **{kwargs!r}) gives {got!r:.200}, should be {outcome(text)!r:.200}")
                ctx.check(ran == ([] if text in done else [text]), "confusable", f"{text} executes {ran}")
                done.add(text)


def run_names(ctx, num):
    """Distinct names and directories never share entries; the same ones persist."""
    from qldpc import cache

    families = [["n", "N", "n ", " n", "n_", "_n", "n2", "n02", "nn", "n.n", "n-n"], ["a b", "a_b", "A b", "a  b", "a-b", "ab", "a.b", "a\tb", "a+b", "a%20b"],
                ["ümlaut", "u\u0308mlaut", "umlaut", "Ümlaut", "mlaut", "?mlaut"], ["x" * k for k in (8, 16, 31, 32, 33, 60, 63, 64, 65, 99, 100, 127, 128, 129, 200)],
                [".hidden", "hidden", "..hidden"], ["codes", "code", "codes.db", "cache", "group_generators", "groupgenerators", "group-generators"],
                ["1", "01", "1.0", "True", "None", "one"], ["cache-a", "cache.a", "cache:a", "cache~a", "cache a", "cache=a", "cache@a"]]
    with tempfile.TemporaryDirectory() as top:
        for _ in range(num):
            base = tempfile.mkdtemp(dir=top)
            dirs = [os.path.join(base, "d1"), os.path.join(base, "d2"), os.path.join(base, "d1", "deep")]
            funcs = {}
            calls = []
            family = families[_ % len(families)]
            other = families[ctx.rng.integers(len(families))]
            for d, n in {(d, n): None for d, n in itertools.product(dirs, list(ctx.rng.permutation(family)[:4]) + list(ctx.rng.permutation(other)[:1]))}:
                def function(x, tag=(d, str(n))):
                    calls.append((tag, x))
                    return [tag, x]
                # the tag is a default argument, and so part of the key: bind it otherwise
                def wrapped(x, function=function):
                    return function(x)
                funcs[d, str(n)] = decorate(lambda x, f=None, g=function: g(x), str(n), d, key_func=lambda x: x)
            order = list(funcs) * 2
            for i in ctx.rng.permutation(len(order)):
                tag = order[i]
                x = ["k", 1, ("k",)][ctx.rng.integers(3)]
                got = funcs[tag](x)
                ctx.check(list(got) == [tag, x], "names", f"cache {tag} answers {got}")
            ctx.check(len(calls) == len(set(calls)), "recompute", "computed again")
            ctx.case("names", True, n=len(funcs))
        # the cache object itself behaves like a dictionary on disk
        for trial in range(num):
            base = tempfile.mkdtemp(dir=top)
            model = {}
            for step in range(15):
                store = cache.get_disk_cache("dict", cache_dir=base)
                key = [k for k in POOL if type(k) in (int, str, tuple)][ctx.rng.integers(20)]
                if ctx.rng.random() < 0.5:
                    store[key] = model[repr(key)] = copy.deepcopy(RESULTS[ctx.rng.integers(len(RESULTS))])
                else:
                    got, want = store.get(key, "absent"), model.get(repr(key), "absent")
                    ctx.check(same(got, want), "dict", f"entry {key!r}: {got!r}, should be {want!r}")
                store.close()
            ctx.case("dict", True, n=len(model))
    # without a directory, the cache lives in the user's cache directory
    with tempfile.TemporaryDirectory() as top:
        old = os.environ.get("XDG_CACHE_HOME")
        try:
            for which in ("p", "q"):
                os.environ["XDG_CACHE_HOME"] = os.path.join(top, which)
                ran = []
                function = cache.use_disk_cache("place")(lambda x: ran.append(x) or [which, x])
                ctx.check(function(1) == [which, 1] and function(1) == [which, 1] and ran == [1], "default-dir", "default directory")
                files = [os.path.join(r, f) for r, _, fs in os.walk(os.path.join(top, which)) for f in fs]
                ctx.check(bool(files) and all("place" in f for f in files), "default-dir", f"files {files}")
        finally:
            os.environ["XDG_CACHE_HOME"] = old


def run_key_func(ctx, num):
    """A given key function decides which calls are the same."""
    with tempfile.TemporaryDirectory() as top:
        for trial in range(num):
            base = tempfile.mkdtemp(dir=top)
            ran = []
            mod = int(ctx.rng.integers(2, 6))
            keys = [lambda x, y=0: None, lambda x, y=0: (x % mod,), lambda x, y=0: x % mod, lambda x, y=0: f"{x % mod}", lambda x, y=0: (x, y), lambda x, y=0: ((x,), (y,)), lambda x, y=0: True if x % 2 else False,
                    lambda x, y=0: x, lambda x, y=0: (x,), lambda x, y=0: str(x), lambda x, y=0: (x, (y, None)), lambda x, y=0: frozenset([x]) and x - y]
            key = keys[trial % len(keys)]

            def function(x, y=0):
                ran.append((x, y))
                return [x, y, None]

            wrapped = decorate(function, "k", base, key_func=key)
            model = {}
            for _ in range(25):
                values = list(range(-3, 8)) + [2**61 - 1, 2**61, -(2**61), 2**62 - 2]
                x, y = (values[i] for i in (ctx.rng.integers(3, 11, 2) if trial % 2 else ctx.rng.integers(0, len(values), 2)))
                args, kwargs = [((x, y), {}), ((x,), {"y": y}), ((), {"y": y, "x": x}), ((x,), {})][ctx.rng.integers(4)]
                y = y if len(args) + len(kwargs) == 2 else 0
                k = repr(key(x, y))
                before = len(ran)
                got = wrapped(*args, **kwargs)
                want = model.setdefault(k, [x, y, None])
                ctx.check(got == want, "key-func", f"({x}, {y}) with key {k} gives {got}, should be {want}")
                ctx.check((len(ran) > before) == (want is model[k] and want == [x, y, None] and before == len(model) - 1 and len(ran) == len(model)) or len(ran) == len(model), "key-func", "recomputed")
            ctx.case("key-func", True, mod=mod, which=trial % len(keys))


def run_evicted(ctx, num):
    """Another process may drop entries at any time: calls still return the right value."""
    import diskcache

    original = {name: getattr(diskcache.Cache, name) for name in ("__contains__", "get", "__getitem__", "set")}
    for trial in range(num):
        with tempfile.TemporaryDirectory() as top:
            log = Log(top)
            plain = make_functions(log)
            wrapped = {k: decorate(f, k, top) for k, f in plain.items()}
            rng = np.random.default_rng(int(ctx.rng.integers(2**31)))
            dropped = []

            def after(name, before):
                def method(self, *args, **kwargs):
                    if before and rng.random() < 0.3:
                        dropped.append(name)
                        self.clear()
                    result = original[name](self, *args, **kwargs)
                    if not before and rng.random() < 0.3:
                        dropped.append(name)
                        self.clear()
                    return result
                return method

            try:
                for name in original:
                    setattr(diskcache.Cache, name, after(name, bool(rng.integers(2))))
                calls = []
                for _ in range(25):
                    if calls and ctx.rng.random() < 0.6:
                        key, given = calls[ctx.rng.integers(len(calls))]
                    else:
                        key = ["one", "bare", "two", "default"][ctx.rng.integers(4)]
                        given = random_call(ctx.rng, key)
                    args, kwargs, canon, full = given
                    text = describe(key, canon, full)
                    if "boom" in text:
                        continue
                    calls.append((key, given))
                    with ctx.guard("evicted"):
                        got = wrapped[key](*args, **kwargs)
                        want = outcome_bare(text) if key == "bare" else outcome(text)
                        ctx.check(same(got, want), "evicted", f"{text} gives {got!r:.100}")
            finally:
                for name, method in original.items():
                    setattr(diskcache.Cache, name, method)
            ctx.case("evicted", bool(dropped), dropped=len(dropped))


def child(function):
    """Fork, run the function, leave; returns the process id."""
    sys.stdout.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 99
    try:
        function()
        code = 0
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc(file=sys.__stderr__)
        code = 1
    finally:
        os._exit(code)


def wait(pid, limit=120):
    end = time.time() + limit
    while time.time() < end:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return status
        time.sleep(0.002)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None


def run_processes(ctx, num, workers):
    """Several processes use the same cache at the same time."""
    for trial in range(num):
        with tempfile.TemporaryDirectory() as top:
            log = Log(top)
            plain = make_functions(log)
            calls = []
            while len(calls) < 12:
                key = ["one", "two", "default", "bare", "keyword", "many"][ctx.rng.integers(6)]
                given = random_call(ctx.rng, key)
                if "boom" not in describe(key, given[2], given[3]):
                    calls.append((key, given))
            evict = trial % 3 == 2
            pids = []
            for w in range(workers):
                order = [int(i) for i in ctx.rng.integers(0, len(calls), 25)]
                delays = ctx.rng.random(25) * 0.002

                def work(order=order, delays=delays, w=w):
                    out = []
                    wrapped = {k: decorate(f, k, top) for k, f in plain.items()}
                    for i, d in zip(order, delays):
                        key, (args, kwargs, canon, full) = calls[i]
                        if d > 0.001:
                            time.sleep(d)
                        try:
                            got = wrapped[key](*args, **kwargs)
                            text = describe(key, canon, full)
                            want = outcome_bare(text) if key == "bare" else outcome(text)
                            out.append([i, same(got, want), repr(got)[:80]])
                        except Exception as error:  # noqa: BLE001
                            out.append([i, False, f"{type(error).__name__}: {error}"])
                    with open(os.path.join(top, f"out{w}"), "w") as file:
                        json.dump(out, file)

                pids.append(child(work))
            if evict:
                def drop():
                    from qldpc import cache

                    for _ in range(30):
                        for key in ("one", "two", "bare"):
                            store = cache.get_disk_cache(key, cache_dir=top)
                            store.clear()
                            store.close()
                        time.sleep(0.002)
                pids.append(child(drop))
            codes = [wait(pid) for pid in pids]
            ctx.check(all(c == 0 for c in codes), "process-exit", f"exit statuses {codes}")
            answered = 0
            for w in range(workers):
                try:
                    with open(os.path.join(top, f"out{w}")) as file:
                        out = json.load(file)
                except FileNotFoundError:
                    continue
                for i, fine, text in out:
                    answered += 1
                    ctx.check(fine, "process-value", f"call {calls[i]!r:.100} gives {text}")
            ran = log.take()
            known = {describe(k, g[2], g[3]) for k, g in calls}
            ctx.check(set(ran) <= known, "process-recompute", f"unexpected computations {set(ran) - known}")
            # every process computes a result at most once
            ctx.check(evict or all(ran.count(t) <= workers for t in known), "process-recompute", "computed too often")
            if not evict:
                wrapped = {k: decorate(f, k, top) for k, f in plain.items()}
                for text in set(ran):
                    key, (args, kwargs, canon, full) = next(c for c in calls if describe(c[0], c[1][2], c[1][3]) == text)
                    wrapped[key](*args, **kwargs)
                ctx.check(log.take() == [], "process-recompute", "results of the other processes are computed again")
            ctx.case("processes", answered > len(known), workers=workers, evict=evict, calls=len(known), computed=len(ran))


def run_threads(ctx, num):
    for trial in range(num):
        with tempfile.TemporaryDirectory() as top:
            log = Log(top)
            plain = make_functions(log)
            wrapped = {k: decorate(f, k, top) for k, f in plain.items()}
            calls = []
            while len(calls) < 8:
                key = ["one", "two", "default", "bare"][ctx.rng.integers(4)]
                given = random_call(ctx.rng, key)
                if "boom" not in describe(key, given[2], given[3]):
                    calls.append((key, given))
            results = []

            def work(order):
                for i in order:
                    key, (args, kwargs, canon, full) = calls[i]
                    text = describe(key, canon, full)
                    try:
                        got = wrapped[key](*args, **kwargs)
                        want = outcome_bare(text) if key == "bare" else outcome(text)
                        results.append((same(got, want), f"{text}: {got!r:.80}"))
                    except Exception as error:  # noqa: BLE001
                        results.append((False, f"{text}: {type(error).__name__} {error}"))

            threads = [threading.Thread(target=work, args=([int(i) for i in ctx.rng.integers(0, len(calls), 15)],)) for _ in range(5)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
            for fine, text in results:
                ctx.check(fine, "thread-value", text)
            ctx.case("threads", True, calls=len(calls))


def run_crash(ctx, num):
    """A process is killed during a call: later calls return the right values, and nothing half-done is served."""
    import diskcache

    points = ["inside", "before-store", "after-store", "before-write", "any", "any", "row"]
    for trial in range(num):
        with tempfile.TemporaryDirectory() as top:
            log = Log(top)
            plain = make_functions(log)
            point = points[trial % len(points)]
            calls = []
            while len(calls) < 10:
                key = ["one", "two", "default", "bare", "keyword"][ctx.rng.integers(5)]
                given = random_call(ctx.rng, key)
                text = describe(key, given[2], given[3])
                if "boom" not in text:
                    calls.append((key, given, text))
            victim = int(ctx.rng.integers(2, 8))

            def work():
                import diskcache

                def die(*_, **__):
                    os.kill(os.getpid(), signal.SIGKILL)
                    time.sleep(10)

                for step, (key, (args, kwargs, canon, full), text) in enumerate(calls * (200 if point == "any" else 1)):
                    function = plain[key]
                    if step == victim and point == "inside":
                        inner = function

                        def wrapper(*a, **k):
                            inner(*a, **k)
                            die()
                        import functools

                        function = functools.wraps(inner)(wrapper)
                    if step == victim and point == "before-store":
                        diskcache.Disk.store = die
                    if step == victim and point == "after-store":
                        store = diskcache.Disk.store

                        def stored(self, *a, **k):
                            store(self, *a, **k)
                            die()
                        diskcache.Disk.store = stored
                    if step == victim and point == "before-write":
                        diskcache.Cache._row_insert = die
                    if step == victim and point == "row":
                        insert = diskcache.Cache._row_insert

                        def inserted(self, *a, **k):
                            insert(self, *a, **k)
                            die()
                        diskcache.Cache._row_insert = inserted
                    decorate(function, key if point != "any" else f"{key}-{step // 10}", top)(*args, **kwargs)

            pid = child(work)
            if point == "any":
                time.sleep(0.01 + 0.15 * ctx.rng.random())
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            status = wait(pid)
            killed = status is not None and os.WIFSIGNALED(status)
            if killed:
                ctx.see("crash-killed")
            elif status != 0:
                ctx.violate("crash-exit", f"status {status} at {point}")
            finished = log.take()
            names = sorted(d for d in os.listdir(top) if os.path.isdir(os.path.join(top, d)))
            rounds = [""] if point != "any" else sorted({"-" + d.split("-")[1] for d in names} | {"-0"}, key=lambda s: int(s[1:]))[-3:]
            for suffix in rounds:
                wrapped = {k: decorate(f, k + suffix, top) for k, f in plain.items()}
                for repeat in range(2):
                    for key, (args, kwargs, canon, full), text in calls:
                        got = wrapped[key](*args, **kwargs)
                        want = outcome_bare(text) if key == "bare" else outcome(text)
                        ctx.check(same(got, want), "crash-value", f"after a kill at {point}: {text} gives {got!r:.100}")
                    ran = log.take()
                    if repeat:
                        ctx.check(ran == [], "crash-recompute", f"after the recovery, computed again: {ran}")
                    elif point != "any":
                        # the calls that were complete before the kill are not computed again
                        before = {text for _, _, text in calls[:victim]}
                        ctx.check(not (before & set(ran)), "crash-recompute", f"lost results: {before & set(ran)}")
            ctx.case("crash", killed, point=point, victim=victim, finished=len(finished))


FRESH = r"""
import json, os, sys
sys.path.insert(0, sys.argv[1])
from checks import c23
top, spec = sys.argv[2], json.loads(sys.argv[3])
log = c23.Log(top)
plain = c23.make_functions(log)
import numpy as np
rng = np.random.default_rng(spec["seed"])
out = []
for _ in range(spec["num"]):
    key = ["one", "two", "default", "bare", "keyword", "options", "keyed", "keyed"][rng.integers(8)]
    args, kwargs, canon, full = c23.random_call(rng, key)
    text = c23.describe(key, canon, full)
    try:
        out.append([text, repr(c23.decorate(plain[key], key, top)(*args, **kwargs))])
    except c23.Trouble as error:
        out.append([text, "boom"])
print(json.dumps(out))
"""


def run_fresh(ctx, num):
    """Results survive a restart (with another hash seed), and keys do not depend on the process."""
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for trial in range(num):
        with tempfile.TemporaryDirectory() as top:
            spec = {"seed": int(ctx.rng.integers(2**31)), "num": 25}
            log = Log(top)
            seen = []
            for hashseed in ("0", str(int(ctx.rng.integers(1, 2**31)))):
                env = {**os.environ, "PYTHONHASHSEED": hashseed}
                res = subprocess.run([sys.executable, "-c", FRESH, verif, top, json.dumps(spec)], capture_output=True, text=True, env=env, timeout=300)
                if res.returncode:
                    ctx.violate("fresh-process", f"call in a fresh process fails: {res.stderr[-600:]}")
                    return
                out = json.loads(res.stdout.splitlines()[-1])
                ran = log.take()
                for text, value in out:
                    want = "boom" if "boom" in text else repr(outcome_bare(text) if text.startswith("bare") else outcome(text))
                    ctx.check(value == want, "fresh-process", f"{text} gives {value:.100}")
                seen.append(ran)
            ctx.check(all("boom" in t for t in seen[1]), "fresh-process", f"computed again after a restart: {[t for t in seen[1] if 'boom' not in t]}")
            ctx.case("fresh", True, **spec)
    code = "import sys, pytest; import qldpc.cache as c; f = lambda x: x; assert c.use_disk_cache('a')(f) is f and c.get_disk_cache('a') == {}"
    res = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True)
    if "No module named 'pytest'" not in res.stderr:
        ctx.check(res.returncode == 0, "fresh-process", f"under pytest the cache is off: {res.stderr[-300:]}")


def run_library(ctx, num):
    """The library's own cached searches: a warm cache, shared by distinct codes and gate sets, answers as an empty one."""
    from checks import c20
    from qldpc import circuits, codes
    from vlib import qcodes

    c20.use_standin()
    sets = [("SWAP",), ("H",), ("S", "SWAP"), ("H", "SWAP"), (), ("S", "H")]
    old = os.environ.get("XDG_CACHE_HOME")
    with tempfile.TemporaryDirectory() as top:
        try:
            pool = [codes.FiveQubitCode(), codes.C4Code(), codes.SurfaceCode(2)]
            while len(pool) < 8:
                _, n, checks = qcodes.random_checks(ctx.rng, 2, "stabilizer", min_n=3, max_n=5)
                if np.linalg.matrix_rank(checks) >= n - 1:
                    pool.append(codes.QuditCode(checks, 2))

            def members(where, i, j):
                os.environ["XDG_CACHE_HOME"] = where
                group = circuits.get_transversal_automorphism_group(pool[i], sets[j])
                return {tuple(tuple(c) for c in g.cyclic_form) for g in group.generate()}

            known = {}
            for step in range(num):
                i, j = int(ctx.rng.integers(len(pool))), int(ctx.rng.integers(len(sets)))
                if len(pool[i]) >= 5 and j == 5:
                    continue
                got = members(os.path.join(top, "shared"), i, j)
                if (i, j) not in known:
                    known[i, j] = members(tempfile.mkdtemp(dir=top), i, j)
                ctx.check(got == known[i, j], "library", f"{len(got)} members from a warm cache, {len(known[i, j])} without")
                ctx.case("library", len(got) > 1, i=i, gates=sets[j], step=step)
        finally:
            os.environ["XDG_CACHE_HOME"] = old


def units(tier, seed):
    big = tier == "thorough"
    out = []
    for i in range(8 if not big else 24):
        out.append((f"confusable-{i}", run_confusable, (2 if not big else 20,)))
        out.append((f"history-{i}", run_history, (5 if not big else 40, 80 if not big else 200)))
    for i in range(4 if not big else 16):
        out.append((f"processes-{i}", run_processes, (6 if not big else 40, 3 + i % 4)))
    for i in range(4 if not big else 16):
        out.append((f"crash-{i}", run_crash, (14 if not big else 140,)))
    for i in range(2 if not big else 6):
        out.append((f"evicted-{i}", run_evicted, (12 if not big else 100,)))
        out.append((f"threads-{i}", run_threads, (8 if not big else 60,)))
    out += [("names", run_names, (8 if not big else 60,)), ("key-func", run_key_func, (28 if not big else 280,)), ("fresh", run_fresh, (3 if not big else 12,)), ("library", run_library, (60 if not big else 400,))]
    return out
