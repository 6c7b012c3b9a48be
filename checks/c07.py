import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF

PROPERTY = "C07"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: every bound observed under random decoders/seeds/cutoffs is compared with the enumerated weights of code words, cosets and logical operators"
RULE = ("one case per code (classical or CSS, stabilizer or subsystem, GF(q)) x decoder option x call history; non-trivial when the code has "
        "logical degrees of freedom and more than one possible weight")
REQUIRED = {"classical-one": 250, "classical-vector": 400, "css-one": 400, "css-bound": 250, "exact-after": 120, "trials": 200, "failing-decoder": 60,
            "random-logical": 200}


class Failing:
    """A decoder that often answers wrongly; bounds must survive it."""

    def __init__(self, matrix, rng, inner):
        self.matrix, self.rng, self.inner = matrix, rng, inner

    def decode(self, syndrome):
        n = self.matrix.shape[1]
        roll = self.rng.random()
        if roll < 0.35:
            return np.zeros(n, dtype=int)
        if roll < 0.6:
            out = np.zeros(n, dtype=int)
            out[self.rng.integers(n)] = 1
            return out
        return np.asarray(self.inner.decode(syndrome), dtype=int)


def options(ctx, q, n, *matrices):
    from qldpc import decoders

    out = [{}, {}]
    if q**n <= 800:
        out.append({"with_lookup": True, "max_weight": n})
    out.append({"with_GUF": True})
    if n <= 6:
        out.append({"with_GUF": True, "max_weight": int(ctx.rng.integers(1, n + 1))})
    if q == 2:
        out.append({"with_ILP": True})
        out.append({"with_BP_OSD": True, "osd_order": 0})
        if all(mat.any(axis=0).all() for mat in matrices):
            out.append({"with_BP_LSD": True})
            out.append({"with_BF": True, "uf_method": "inversion"})
    out.append({"decoder_constructor": lambda matrix, **_: Failing(matrix, ctx.rng, decoders.get_decoder(matrix))})
    return out


def spread(words):
    return sorted({int(x) for x in np.count_nonzero(words, axis=1)})


class Stuck(Exception):
    pass


def limited(seconds):
    """Give up on decoders that never succeed (allowed: the bound algorithm retries for ever)."""
    import contextlib
    import signal

    @contextlib.contextmanager
    def manager():
        def handler(*_):
            raise Stuck

        old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    return manager()


def classical(ctx, q, count, max_n):
    from qldpc import codes

    f = GF(q)
    done = 0
    while done < count:
        kind, mat = mats.random_matrix(ctx.rng, q, None, max_n=max_n, min_n=2)
        n = mat.shape[1]
        basis = f.null_space(mat)
        if not len(basis) or q ** len(basis) > 3000:
            continue
        done += 1
        words = f.words(basis)
        weights = [w for w in spread(words) if w]
        true = weights[0]
        for opts in options(ctx, q, n, mat):
            ctx.case("classical", len(weights) > 1, q=q, matrix=mat, options=sorted(opts), history=int(ctx.rng.integers(10**9)))
            failing = "decoder_constructor" in opts
            code = codes.ClassicalCode(mat, q)
            exact = "with_ILP" in opts or "with_lookup" in opts
            for _ in range(2):
                vec = f.random(ctx.rng, (n,)) if ctx.rng.random() < 0.8 else words[ctx.rng.integers(len(words))]
                coset = spread(f.sub(words, vec[None, :]))
                given = [vec, vec.tolist(), code.field(vec)][int(ctx.rng.integers(3))]
                try:
                    with limited(5):
                        got = [
                            lambda: code.get_one_distance_bound(vector=given, **opts),
                            lambda: code.get_distance_bound(vector=given, num_trials=3, **opts),
                            lambda: code.get_distance(bound=2, vector=given, **opts),
                        ][int(ctx.rng.integers(3))]()
                except Stuck:
                    ctx.see("gave-up")
                    continue
                ctx.check(int(got) in coset, "classical-vector", f"bound {got} on the distance of a vector is not a coset weight {coset}",
                          vector=vec)
                if exact:
                    ctx.check(int(got) == coset[0], "classical-vector-exact", f"bound {got} with an exact decoder, true {coset[0]}", vector=vec)
                if failing:
                    ctx.see("failing-decoder")
            for _ in range(2):
                try:
                    with limited(5):
                        got = code.get_one_distance_bound(**opts)
                except Stuck:
                    ctx.see("gave-up")
                    continue
                ctx.check(int(got) in weights, "classical-one", f"one-shot bound {got}, nonzero words have weights {weights}")
            try:
                with limited(5):
                    cutoff = [None, int(ctx.rng.integers(0, n + 1))][int(ctx.rng.integers(2))]
                    got = code.get_distance_bound(int(ctx.rng.integers(1, 4)), cutoff=cutoff, **opts)
                    ctx.check(got in [*weights, n], "classical-bound", f"bound {got}, nonzero words have weights {weights}")
                    got = code.get_distance(bound=int(ctx.rng.integers(1, 4)), **opts)
                ctx.check(got in weights, "classical-bound", f"bound {got}, nonzero words have weights {weights}")
            except Stuck:
                ctx.see("gave-up")
            got = code.get_distance()
            ctx.check(got == true, "exact-after", f"exact distance {got} after bounds, true {true}")
            got = code.get_distance(bound=1)
            ctx.check(true <= got <= n, "bound-after", f"bound {got} after the exact distance {true}")


def css(ctx, q, count, max_n, subsystem):
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(q)
    done = 0
    while done < count:
        mx, mz = qcodes.random_css(ctx.rng, q, max_n=max_n, subsystem=subsystem)
        truth = qcodes.CSSTruth(q, mx, mz)
        n = truth.n
        if not truth.k or q ** (max(len(truth.gauge["x"]), len(truth.gauge["z"])) + truth.k) > 3000:
            continue
        done += 1
        want, weights = {}, {}
        for pauli, sector in [(Pauli.X, "x"), (Pauli.Z, "z")]:
            want[pauli] = truth.distance(sector)
            bare = f.words(truth.bare[sector])
            trivial = {tuple(w) for w in f.words(truth.gauge[sector]).tolist()} if len(truth.gauge[sector]) else {(0,) * n}
            dressed = f.words(np.vstack([truth.bare[sector], truth.gauge[sector]]))
            weights[pauli] = sorted({int(np.count_nonzero(w)) for w in dressed if tuple(w) not in trivial})
            assert weights[pauli][0] == want[pauli]
            del bare
        want[None] = min(want.values())
        weights[None] = sorted(set(weights[Pauli.X]) | set(weights[Pauli.Z]))
        for opts in options(ctx, q, n, mx, mz):
            ctx.case("css", len(weights[None]) > 1, q=q, mx=mx, mz=mz, options=sorted(opts), history=int(ctx.rng.integers(10**9)))
            code = codes.CSSCode(mx, mz, q)
            for pauli in (Pauli.X, Pauli.Z, None):
                try:
                    with limited(5):
                        got = code.get_one_distance_bound(pauli, **opts)
                        ctx.check(int(got) in weights[pauli], "css-one",
                                  f"one-shot bound({pauli}) {got}; nontrivial logical operators have weights {weights[pauli]}")
                        cutoff = [None, int(ctx.rng.integers(0, n + 1))][int(ctx.rng.integers(2))]
                        trials = int([1, 2, 3, 12, 25][int(ctx.rng.integers(5))])
                        got = code.get_distance_bound(trials, pauli, cutoff=cutoff, **opts)
                        ctx.check(want[pauli] <= got <= n and got in [*weights[pauli], n], "css-bound", f"bound({pauli}) {got}, true {want[pauli]}")
                        got = code.get_distance(pauli, bound=True, **opts)
                        ctx.check(want[pauli] <= got <= n, "css-bound", f"get_distance({pauli}, bound) {got}, true {want[pauli]}")
                except Stuck:
                    ctx.see("gave-up")
                if "decoder_constructor" in opts:
                    ctx.see("failing-decoder")
            for idx in ctx.rng.permutation(3):
                pauli = [None, Pauli.X, Pauli.Z][idx]
                got = code.get_distance(pauli)
                ctx.check(got == want[pauli], "exact-after", f"exact distance({pauli}) {got} after bounds, true {want[pauli]}")
            got = code.get_code_params(bound=2)
            ctx.check(tuple(got[:2]) == (n, truth.k) and want[None] <= got[2] <= n, "params-bound", f"parameters {got}")
        # random logical operators, the source of the bounds
        code = codes.CSSCode(mx, mz, q)
        for pauli, sector in [(Pauli.X, "x"), (Pauli.Z, "z")]:
            for _ in range(6):
                op = mats.to_int(code.get_random_logical_op(pauli, ensure_nontrivial=True))
                ctx.check(f.in_span(op, np.vstack([truth.bare[sector], truth.stab[sector]]))
                          and not f.in_span(op, truth.gauge[sector]), "random-logical", "not a nontrivial logical operator", op=op)


def trials(ctx):
    """The loop over trials, with scripted one-shot bounds."""
    from qldpc import codes
    from qldpc.objects import Pauli

    rng = ctx.rng

    def scripted(base, args, values, log):
        class Scripted(base):
            def get_one_distance_bound(self, *aa, **kw):
                log.append((aa, kw))
                return values[len(log) - 1]

        return Scripted(*args)

    for _ in range(200 if not ctx.thorough else 2000):
        values = [int(v) for v in rng.integers(2, 12, 8)]
        num = int(rng.integers(0, 7))
        cutoff = None if rng.random() < 0.3 else int(rng.integers(0, 12))
        log = []
        quantum = rng.random() < 0.5
        kwargs = {} if rng.random() < 0.5 else {"osd_order": 0}
        if quantum:
            code = scripted(codes.CSSCode, ([[1] * 8], [[1] * 8]), values, log)
            pauli = [None, Pauli.X, Pauli.Z][int(rng.integers(3))]
            run = lambda: code.get_distance_bound(num, pauli, cutoff=cutoff, **kwargs)  # noqa: E731
        else:
            code = scripted(codes.ClassicalCode, ([[1] * 8],), values, log)
            vector = None if rng.random() < 0.5 else [1, 0, 1, 0, 0, 0, 0, 1]
            run = lambda: code.get_distance_bound(num, cutoff=cutoff, vector=vector, **kwargs)  # noqa: E731
        ctx.case("trials", num > 0, values=values, num=num, cutoff=cutoff, quantum=quantum)
        got = run()
        best, used = 8, 0
        for value in values[:num]:
            if cutoff and best <= cutoff:
                break
            best, used = min(best, value), used + 1
        ctx.check(got == best, "trials", f"bound {got}, minimum of trials {best}")
        if num and rng.random() < 0.5:  # a second run starts afresh: nothing of the first is remembered
            del log[:]
            again = run()
            ctx.check(again == got and len(log) == used, "trials-again", f"a second run gives {again} instead of {got}, with {len(log)} trials")
        if quantum:
            for other in rng.permutation(3):
                exact = code.get_distance([None, Pauli.X, Pauli.Z][other])
                ctx.check(exact == 2, "exact-after", f"exact distance {exact} after a bound with cutoff {cutoff}, should be 2")
        else:
            ctx.check(code.get_distance() == 2, "exact-after", f"exact distance {code.get_distance()} after a bound with cutoff {cutoff}")
        ctx.check(len(log) == used, "trials-stop", f"{len(log)} trials were run, {used} needed")
        ctx.check(all(kw.get("osd_order") == kwargs.get("osd_order") for _, kw in log), "trials-options", "decoder options were lost")
        if quantum:
            ctx.check(all(pauli in (*aa, *kw.values()) for aa, kw in log), "trials-pauli", "the Pauli type was lost")
        else:
            ctx.check(all(kw.get("vector") is vector for _, kw in log), "trials-vector", "the vector was lost")


def undefined(ctx):
    from qldpc import codes

    for q in (2, 3, 4):
        code = codes.ClassicalCode(np.eye(4, dtype=int), q)
        ctx.case("undefined", False, q=q)
        got = code.get_distance(bound=3)
        ctx.check(got != got, "undefined", f"bound {got} for a code without words")
        for vec in ([0, 0, 0, 0], [1, 0, 1, 1]):
            ctx.check(code.get_distance(bound=2, vector=vec) == sum(vec), "undefined-vector", "distance of a vector from the zero code")
        code = codes.CSSCode([[1, 1]], [[1, 1]] if q in (2, 4) else [[1, q - 1]], q)
        got = code.get_distance(bound=3)
        ctx.check(got != got, "undefined", f"bound {got} for a code without logical operators")


def units(tier, seed):
    big = 8 if tier == "thorough" else 1
    out = [("trials", trials, ()), ("undefined", undefined, ())]
    for q, count, max_n in [(2, 16, 9), (3, 10, 6), (4, 7, 5), (5, 7, 5), (7, 5, 4), (9, 5, 4)]:
        for part in range(big):
            out.append((f"classical-{q}-{part}", classical, (q, count, max_n)))
    for q, count, max_n in [(2, 12, 8), (3, 8, 5), (4, 5, 4), (5, 5, 4)]:
        for sub in (False, True):
            for part in range(big):
                out.append((f"css-{q}-{sub}-{part}", css, (q, count, max_n, sub)))
    return out
