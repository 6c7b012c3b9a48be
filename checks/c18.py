import itertools
import math
import random

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF

PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: exact failure probabilities by enumerating every error through the same decoder, compared with the reported "
             "estimates, their spread over repeated runs, and the log of sampled errors")
RULE = ("one case per (code, decoder, bias, maximum rate, sample budget); exact truth from all q^n (or q^2n) errors; repeated runs for mean and spread; "
        "non-trivial when some sampled error is not corrected")
REQUIRED = {"exact": 150, "zero": 100, "rejected": 100, "mean": 60, "spread": 15, "vector": 50, "reproducible": 50, "log-uniform": 3,
            "bounded": 180, "bias": 15}


def binom(n, k, p):
    return math.comb(n, k) * p**k * (1 - p) ** (n - k)


def bracket(n, fail, p, top):
    """Interval of the failure probability when nothing is known about errors of weight > top."""
    low = sum(binom(n, k, p) * fail[k] for k in range(top + 1))
    return low, low + sum(binom(n, k, p) for k in range(top + 1, n + 1))


def sampled_top(n, num_samples, max_rate):
    """Errors up to this weight are expected at least once among the samples at the maximum rate."""
    top = 0
    peak = max(range(n + 1), key=lambda k: binom(n, k, max_rate))
    for k in range(1, n + 1):
        if k <= peak or binom(n, k, max_rate) * num_samples >= 1:
            top = k
    return top


class TableDecoder:
    """Lightest error for each syndrome, first in lexicographic order."""

    def __init__(self, matrix, log=None):
        q = type(matrix).order
        f = GF(q)
        mat = mats.to_int(matrix)
        n = mat.shape[1]
        errors = np.array(sorted(itertools.product(range(q), repeat=n), key=lambda e: (sum(map(bool, e)), e)), dtype=int)
        self.table = {}
        self.log = log
        for error, syndrome in zip(errors, f.matmul(errors, mat.T).tolist() if len(mat) else [[]] * len(errors)):
            self.table.setdefault(tuple(syndrome), error)

    def decode(self, syndrome):
        return self.table[tuple(int(x) for x in np.asarray(syndrome).view(np.ndarray))].copy()


def table_decoder(ctx, f, mat):
    """A constructor of logging decoders (direct or indirect), and the log."""
    from qldpc import decoders

    log = []
    direct = ctx.rng.random() < 0.6

    def make(matrix, **kwargs):
        inner = TableDecoder(matrix)
        if not direct:
            return inner
        mat = mats.to_int(matrix)

        def decode(word):
            word = np.asarray(word).view(np.ndarray).astype(int)
            log.append(word.copy())
            syndrome = f.matmul(mat, word[:, None])[:, 0] if len(mat) else np.zeros(0, dtype=int)
            return f.sub(word, inner.decode(syndrome))

        return decoders.DirectDecoder(decode)

    return make, log if direct else None


def residuals(f, mat, decoder_of, n, q):
    """For every error vector: weight, and the residual after decoding (keyed by the error)."""
    decoder = decoder_of()
    known = {}
    out = {}
    for error in itertools.product(range(q), repeat=n):
        vec = np.array(error, dtype=int)
        syndrome = f.matmul(mat, vec[:, None])[:, 0] if len(mat) else np.zeros(0, dtype=int)
        key = tuple(syndrome.tolist())
        if key not in known:
            known[key] = mats.to_int(decoder.decode(syndrome.astype(int)))
        out[error] = f.sub(vec, known[key])
    return out


def judge(ctx, n, fail, func, rates, max_rate, num_samples, what):
    """Deterministic relations of one estimate."""
    top = sampled_top(n, num_samples, max_rate)
    low = [0.0 if 1e-12 > f else 1.0 if f > 1 - 1e-12 else None for f in fail]
    for p in rates:
        value, error = func(p)
        value, error = float(value), float(error)
        ctx.check(-1e-9 <= value <= 1 + 1e-9 and error >= 0 and math.isfinite(error), "bounded", f"estimate {value} with standard error {error}")
        # weights that are always or never corrected contribute exactly
        sure = sum(binom(n, k, p) for k in range(top + 1) if low[k] == 1.0)
        maybe = sure + sum(binom(n, k, p) for k in range(n + 1) if k > top or low[k] is None)
        ctx.check(sure - 1e-9 <= value <= maybe + 1e-9, "exact", f"{what}: estimate {value} at rate {p} outside of [{sure}, {maybe}], "
                  "which holds whatever errors were sampled", fail=fail)
        spread = math.sqrt(sum(binom(n, k, p) ** 2 / 4 for k in range(n + 1) if low[k] is None))
        ctx.check(error <= spread + 1e-9, "exact", f"{what}: standard error {error} at rate {p}, although it cannot exceed {spread}")
    value, error = func(0)
    ctx.check(float(value) == 0 and float(error) == 0, "zero", f"estimate {value} +- {error} at zero error rate")
    value, error = func(0.0)
    ctx.check(float(value) == 0 and float(error) == 0, "zero", f"estimate {value} +- {error} at zero error rate")
    if max_rate < 1:
        over = min(1.0, max_rate * (1 + float(ctx.rng.choice([1e-6, 0.2, 2.0]))))
        ctx.raises(ValueError, "rejected", func, over, msg="rate beyond the maximum")
        ctx.raises(ValueError, "rejected", func, [0.0, max_rate / 2, over], msg="rate beyond the maximum")
        ctx.raises(ValueError, "rejected", func, 1.0, msg="rate beyond the maximum")
    values, errors = func(np.array(rates))
    again = [func(p) for p in rates]
    good = len(values) == len(errors) == len(rates) and all(
        math.isclose(float(v), float(a[0]), abs_tol=1e-12) and math.isclose(float(e), float(a[1]), abs_tol=1e-12) for v, e, a in zip(values, errors, again))
    ctx.check(good, "vector", "estimates for several rates differ from those for each rate")


def repeated(ctx, n, fail, make, rates, max_rate, num_samples, repeats, what):
    """Mean and spread over repeated runs."""
    top = sampled_top(n, num_samples, max_rate)
    values = np.zeros((repeats, len(rates)))
    errors = np.zeros((repeats, len(rates)))
    for index in range(repeats):
        func = make()
        for col, p in enumerate(rates):
            values[index, col], errors[index, col] = func(p)
    for col, p in enumerate(rates):
        low, high = bracket(n, fail, p, top)
        mean, deviation = values[:, col].mean(), values[:, col].std(ddof=1)
        # the spread estimated from the truth, in case that no failure was seen
        least = math.sqrt(max(sum(binom(n, k, p) ** 2 * fail[k] * (1 - fail[k]) for k in range(n + 1)) / num_samples, 0))
        slack = 6 * max(deviation, least) / math.sqrt(repeats) + 1e-9
        ctx.check(low - slack <= mean <= high + slack, "mean", f"{what}: mean estimate {mean:.5f} at rate {p}, true value in [{low:.5f}, {high:.5f}] "
                  f"(allowing {slack:.5f})", fail=fail)
        variance = (errors[:, col] ** 2).mean()
        if repeats >= 100 and deviation > 1e-6:
            ratio = deviation**2 / variance if variance else math.inf
            ctx.check(0.4 < ratio < 2.0, "spread", f"{what}: variance of the estimates is {ratio:.2f} times the reported squared error at rate {p}",
                      deviation=deviation, reported=math.sqrt(variance))


def uniform(ctx, counts, key, msg):
    """Chi-square test of uniform counts, far in the tail."""
    counts = np.asarray(counts, dtype=float)
    total, cells = counts.sum(), len(counts)
    if total < 30 * cells or cells < 2:
        return
    chi2 = ((counts - total / cells) ** 2 / (total / cells)).sum()
    dof = cells - 1
    # Wilson-Hilferty: about a 6.5 sigma deviation
    z = ((chi2 / dof) ** (1 / 3) - (1 - 2 / (9 * dof))) / math.sqrt(2 / (9 * dof))
    ctx.check(z < 6.5, key, f"{msg}: counts {counts.astype(int).tolist()}", z=z)


def reproducible(ctx, make, rates):
    word = int(ctx.rng.integers(2**31))

    def run():
        random.seed(word)
        np.random.seed(word)
        return [tuple(map(float, make()(p))) for p in rates]

    first = run()
    random.random(), np.random.rand(3), make()
    ctx.check(run() == first, "reproducible", "the same seed gives a different estimate")


def classical(ctx, q, count, repeats, samples):
    from qldpc import codes, decoders

    f = GF(q)
    for index in range(count):
        special = index % 3 == 0
        if special:
            n = int(ctx.rng.choice([3, 5, 7] if q == 2 else [3, 4]))
            mat = mats.to_int(codes.RepetitionCode(n, q).matrix)
        else:
            kind, mat = mats.random_matrix(ctx.rng, q, max_n=6 if q == 2 else 4, min_n=2)
        n = mat.shape[1]
        code = codes.ClassicalCode(mat, q)
        max_rate = float(ctx.rng.choice([0.1, 0.3, 0.5, 0.9, 1.0]))
        roll = int(ctx.rng.integers(3))
        log = None
        if roll == 0:
            make_decoder, log = table_decoder(ctx, f, mat)
            args = {"decoder_constructor": make_decoder}
            decoder_of = lambda: TableDecoder(code.matrix)  # noqa: E731
        elif roll == 1:
            args = {"with_lookup": True, "max_weight": int(ctx.rng.integers(1, 3))}
            decoder_of = lambda: decoders.get_decoder(code.matrix, **dict(args))  # noqa: E731
        else:
            args = {"with_GUF": True}
            decoder_of = lambda: decoders.get_decoder(code.matrix, **dict(args))  # noqa: E731
        rest = residuals(f, mat, decoder_of, n, q)
        fails, totals = np.zeros(n + 1), np.zeros(n + 1)
        for error, residual in rest.items():
            weight = sum(map(bool, error))
            totals[weight] += 1
            fails[weight] += residual.any()
        fail = (fails / totals).tolist()
        ctx.case("classical", any(fail), q=q, matrix=mat, decoder=str(sorted(args)), max_rate=max_rate, fail=fail)
        rates = sorted({max_rate, max_rate * 0.5, max_rate * float(ctx.rng.random()), 1e-3 * max_rate})

        def make():
            return code.get_logical_error_rate_func(samples, max_rate, **dict(args))

        func = make()
        judge(ctx, n, fail, func, rates, max_rate, samples, "classical code")
        if log is not None:
            words = np.array(log)
            ctx.check(samples * 0.9 <= len(words) <= samples * 1.1 + n, "log-count", f"{len(words)} errors sampled instead of about {samples}")
            for weight in range(1, n + 1):
                some = words[(words != 0).sum(axis=1) == weight]
                if weight < n:
                    uniform(ctx, (some != 0).sum(axis=0), "log-uniform", f"errors of weight {weight} are not spread evenly over bits")
                uniform(ctx, [(some == v).sum() for v in range(1, q)], "log-uniform", f"errors of weight {weight} do not take all values evenly")
        repeated(ctx, n, fail, make, rates[-2:], max_rate, samples, repeats, "classical code")
        reproducible(ctx, make, rates[-2:])


def css(ctx, q, count, repeats, samples):
    from qldpc import codes, decoders

    f = GF(q)
    for index in range(count):
        roll = index % 4
        if roll == 0:
            # protects against one type of error only
            n = 3 if q == 2 or ctx.rng.random() < 0.5 else 4
            rep, none = mats.to_int(codes.RepetitionCode(n, q).matrix), np.zeros((1, n), dtype=int)
            mx, mz = (rep, none) if ctx.rng.random() < 0.5 else (none, rep)
        elif roll == 1 and q == 2:
            mx, mz = (mats.to_int(m) for m in (codes.SteaneCode().matrix_x, codes.SteaneCode().matrix_z)) if index % 8 == 1 else (
                mats.to_int(m) for m in (codes.C4Code().matrix_x, codes.C4Code().matrix_z))
        else:
            mx, mz = qcodes.random_css(ctx.rng, q, n=int(ctx.rng.integers(2, 6 if q == 2 else 4)), subsystem=roll == 3)
        n = mx.shape[1]
        truth = qcodes.CSSTruth(q, mx, mz)
        code = codes.CSSCode(mx, mz, q)
        stab = {"x": code.field(mats.to_int(code.get_stabilizer_ops(codes.common.Pauli.X))), "z": code.field(mats.to_int(code.get_stabilizer_ops(codes.common.Pauli.Z)))}
        max_rate = float(ctx.rng.choice([0.1, 0.3, 0.5, 0.9]))
        bias = [None, (1, 0, 0), (0, 0, 1), (0, 1, 0), (1, 1, 1), (3, 1, 0), (0.1, 0.2, 0.7), (10, 5, 85)][ctx.rng.integers(8)]
        if ctx.rng.random() < 0.5:
            args = {"with_lookup": True, "max_weight": n}
        else:
            args = {"with_GUF": True} if ctx.rng.random() < 0.5 or q > 2 else {}
        log = None
        if ctx.rng.random() < 0.4:
            make_decoder, log = table_decoder(ctx, f, None)
            args = {"decoder_constructor": make_decoder}
            decoder_of = lambda mat: TableDecoder(mat)  # noqa: E731
        else:
            decoder_of = lambda mat: decoders.get_decoder(mat, **dict(args))  # noqa: E731
        bad = {}
        for sector, other in (("z", "x"), ("x", "z")):
            # errors of one type are detected by stabilizers of the other type
            mat = stab[other]
            rest = residuals(f, mats.to_int(mat), lambda: decoder_of(mat), n, q)  # noqa: B023
            logical = mats.to_int(code.get_logical_ops(codes.common.Pauli.X if other == "x" else codes.common.Pauli.Z))
            if len(rest) and truth.k:
                grid = np.array(list(rest.values()))
                values = f.matmul(grid, logical.T).any(axis=1)
            else:
                values = np.zeros(len(rest), dtype=bool)
            for (error, residual), value in zip(rest.items(), values):
                syndrome = f.matmul(mats.to_int(mat), residual[:, None]) if len(mat) else np.zeros(0)
                if not syndrome.any():
                    ctx.check(bool(value) == (not f.in_span(residual[None, :], truth.gauge[sector])), "truth", "logical operators do not detect a logical error")
            bad[sector] = dict(zip(rest, map(bool, values)))
        weights = np.array(bias if bias is not None else (1, 1, 1), dtype=float)
        weights /= weights.sum()
        # probability that a weight-k error fails: sum over supports, Pauli types and values
        single = {}
        for support in itertools.product((0, 1), repeat=n):
            for sector in "xz":
                opts = [e for e in itertools.product(*[range(1, q) if s else (0,) for s in support])]
                single[sector, support] = float(np.mean([bad[sector][e] for e in opts]))
        fails = np.zeros(n + 1)
        for types in itertools.product(range(4), repeat=n):  # none, X, Y, Z
            weight = sum(map(bool, types))
            prob = float(np.prod([weights[t - 1] for t in types if t]))
            if prob:
                px = single["x", tuple(int(t in (1, 2)) for t in types)]
                pz = single["z", tuple(int(t in (2, 3)) for t in types)]
                fails[weight] += prob * (1 - (1 - px) * (1 - pz))
        fail = [min(1.0, fails[k] / math.comb(n, k)) for k in range(n + 1)]
        fail = [0.0 if v < 1e-12 else 1.0 if v > 1 - 1e-12 else v for v in fail]
        ctx.case("css", any(fail), q=q, mx=mx, mz=mz, bias=bias, decoder=str(sorted(args)), max_rate=max_rate, fail=fail)
        rates = sorted({max_rate, max_rate * 0.5, max_rate * float(ctx.rng.random()), 1e-3 * max_rate})
        keyword = {} if bias is None else {"pauli_bias": [tuple, list, np.array][ctx.rng.integers(3)](bias)}

        def make():
            return code.get_logical_error_rate_func(samples, max_rate, **keyword, **dict(args))

        func = make()
        if bias is not None:
            ctx.check(np.array_equal(np.asarray(keyword["pauli_bias"]), bias), "bias", "the bias was modified")
        judge(ctx, n, fail, func, rates, max_rate, samples, f"CSS code with bias {bias}")
        if log is not None:
            words = np.array(log)
            for weight in range(1, n):
                some = words[(words != 0).sum(axis=1) == weight]
                uniform(ctx, (some != 0).sum(axis=0), "log-uniform", f"errors of weight {weight} are not spread evenly over qudits")
        repeated(ctx, n, fail, make, rates[-2:], max_rate, samples, repeats, f"CSS code with bias {bias}")
        reproducible(ctx, make, rates[-2:])


def budgets(ctx):
    """Extreme sample budgets and maximum rates: the exact parts must still hold."""
    from qldpc import codes

    for n in (3, 5, 9, 21, 51):
        code = codes.RepetitionCode(n)
        fail = [float(k > n / 2) for k in range(n + 1)]
        for samples in (1, 3, 40, 2000):
            for max_rate in (1e-3, 0.05, 0.3, 0.5, 1.0):
                ctx.case("budget", True, n=n, samples=samples, max_rate=max_rate)

                class Majority:
                    def decode(self, word):
                        return np.full(len(word), int(2 * np.sum(word) > len(word)))

                from qldpc import decoders

                func = code.get_logical_error_rate_func(samples, max_rate, static_decoder=decoders.DirectDecoder(Majority().decode))
                top = sampled_top(n, samples, max_rate) if samples >= 40 else 0
                for p in (max_rate, max_rate / 3, max_rate / 100):
                    value, error = map(float, func(p))
                    low, high = bracket(n, fail, p, top)
                    ctx.check(low - 1e-9 <= value <= high + 1e-9, "exact", f"estimate {value} at rate {p}, true value in [{low}, {high}]",
                              n=n, samples=samples, max_rate=max_rate)
                    ctx.check(error == 0, "exact", f"standard error {error} although every weight is either always or never corrected")
                ctx.check(tuple(map(float, func(0))) == (0, 0), "zero", "nonzero estimate at zero error rate")


def units(tier, seed):
    deep = 6 if tier == "thorough" else 1
    out = [("budgets", budgets, ())]
    for part in range(4):
        out.append((f"classical-2-{part}", classical, (2, 3 * deep, 16, 400)))
        out.append((f"css-2-{part}", css, (2, 4 * deep, 16, 300)))
    for q in (3, 4, 5):
        out.append((f"classical-{q}", classical, (q, 3 * deep, 16, 300)))
    out.append(("css-3", css, (3, 4 * deep, 14, 250)))
    for part in range(3):
        out.append((f"spread-classical-{part}", classical, (2, 4 * deep, 140, 80)))
        out.append((f"spread-css-{part}", css, (2, 4 * deep, 140, 60)))
    return out
