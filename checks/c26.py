import itertools

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF

PROPERTY = "C26"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: exhaustive and random Pauli, qudit-operator and symplectic-vector arithmetic compared with matrix representations and an independent finite-field model"
RULE = "one case per operator, pair of operators, or array of symplectic vectors (field x shape x memory layout); non-trivial when not the identity or zero"
REQUIRED = {"pauli-string": 8, "pauli-product": 16, "pauli-invert": 4, "pauli-index": 4, "pauli-commute": 16, "pauli-reject": 25, "qudit-string": 400, "qudit-invert": 300,
            "qudit-neg": 300, "qudit-reject": 40, "qudit-eq": 300, "conjugate": 300, "conjugate-form": 300, "conjugate-twice": 300, "conjugate-input": 300,
            "string": 300, "string-commute": 200, "first-cols": 150, "log-choose": 300, "code-strings": 100, "code-ops": 25, "odd-length": 10, "form-matrix": 50}

MATRICES = {"I": np.eye(2, dtype=complex), "X": np.array([[0, 1], [1, 0]], dtype=complex), "Z": np.diag([1, -1]).astype(complex)}
MATRICES["Y"] = 1j * MATRICES["X"] @ MATRICES["Z"]


def proportional(a, b):
    return abs(abs(np.vdot(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-9


def run_pauli(ctx):
    from qldpc.objects import PAULIS_XZ, Pauli

    letters = {p: str(p) for p in Pauli}
    ctx.check(set(letters.values()) == set("IXYZ") and len(letters) == 4, "pauli-string", "four Paulis with four names")
    had = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    for p in Pauli:
        ctx.case("pauli", str(p) != "I", pauli=str(p))
        ctx.check(Pauli.from_string(str(p)) is p, "pauli-string", "string round trip")
        x, z = p.value
        mat = np.linalg.matrix_power(MATRICES["X"], x) @ np.linalg.matrix_power(MATRICES["Z"], z)
        ctx.check(proportional(mat, MATRICES[str(p)]), "pauli-string", f"{p} has value {p.value}")
        ctx.check(Pauli(p.value) is p and Pauli((np.int64(x), np.int8(z))) is p, "pauli-string", "value round trip")
        ctx.check(proportional(had @ MATRICES[str(p)] @ had, MATRICES[str(~p)]) and ~~p is p, "pauli-invert", f"Hadamard transform of {p} is {~p}")
        if str(p) in "XZ":
            ctx.check(p.index == "XZ".index(str(p)) == int(np.arange(2)[p]) and PAULIS_XZ[p] is p, "pauli-index", f"index of {p}")
        else:
            ctx.raises(AttributeError, "pauli-index", lambda p=p: p.index, msg=f"index of {p}")
        for r in Pauli:
            prod = p * r
            ctx.check(proportional(MATRICES[str(p)] @ MATRICES[str(r)], MATRICES[str(prod)]), "pauli-product", f"{p} * {r} = {prod}")
            sign = (p.value[0] * r.value[1] + p.value[1] * r.value[0]) % 2
            a, b = MATRICES[str(p)], MATRICES[str(r)]
            ctx.check(np.allclose(a @ b, (-1) ** sign * b @ a), "pauli-commute", f"commutation of {p} and {r}")
            ctx.check((p == r) == (str(p) == str(r)) and (p != r or hash(p) == hash(r)), "pauli-product", "equality")
    for bad in ["", "x", "W", "XX", " X", "X ", "1", "i", "y", "XZ", "I ", "+X", "-Z", "II", "_"]:
        ctx.raises(ValueError, "pauli-reject", Pauli.from_string, bad, msg=f"Pauli from {bad!r}")
    for bad in [(2, 0), (0, 2), (1, 3), (-1, 0), (0,), (1, 0, 0), "X", 1, None, ("1", "0"), (1.5, 0), (0, -1), (2, 2), [1], ()]:
        ctx.raises((ValueError, TypeError), "pauli-reject", Pauli, bad, msg=f"Pauli from {bad!r}")


def clock_shift(q):
    x = np.roll(np.eye(q), 1, axis=0)
    z = np.diag(np.exp(2j * np.pi * np.arange(q) / q))
    return x, z


def run_qudit(ctx, num):
    from qldpc.objects import QuditOperator

    values = list(itertools.product(range(14), repeat=2)) + [tuple(int(v) for v in ctx.rng.integers(0, 10**int(ctx.rng.integers(1, 6)), 2)) for _ in range(num)]
    for val in values:
        ctx.case("qudit", any(val), value=val)
        op = QuditOperator(val)
        x, z = val
        text = str(op)
        # the documented notation
        want = "I" if not x and not z else f"Y({z})" if x == z else "*".join(([f"X({x})"] if x else []) + ([f"Z({z})"] if z else []))
        ctx.check(text == want, "qudit-string", f"string of {val} is {text}")
        back = QuditOperator.from_string(text)
        ctx.check(back == op and tuple(back.value) == val and all(type(v) is int for v in back.value), "qudit-string", f"string round trip of {val} gives {back.value}")
        if x and z:
            for alt in (f"X({x})*Z({z})", f"Z({z})*X({x})"):
                ctx.check(tuple(QuditOperator.from_string(alt).value) == val, "qudit-string", f"value of {alt}")
        neg = -op
        ctx.check(tuple(neg.value) == (-x, -z) and -neg == op and tuple(op.value) == val, "qudit-neg", f"negation of {val}")
        inv = ~op
        ctx.check(sorted(map(abs, inv.value)) == sorted(val) and abs(inv.value[0]) == z and abs(inv.value[1]) == x and tuple(op.value) == val, "qudit-invert", f"Fourier transform of {val} is {inv.value}")
        other = values[ctx.rng.integers(len(values))]
        ctx.check((op == QuditOperator(other)) == (val == other) and op == QuditOperator(val), "qudit-eq", "equality")
    ctx.check(QuditOperator() == QuditOperator((0, 0)) and str(QuditOperator()) == "I", "qudit-string", "default operator")
    for bad in ["", "X", "X()", "X(a)", "X(-1)", "W(1)", "X(1)Z(2)", "X(1)*Z(2)*Y(1)", "X(1", "X1", "X[1]", "(1)", "X(1.5)", "x(1)", "XX(1)", "X (1)", "X(1 )", "II", "0", "X(1)*", "*Z(1)", "I*X(1)", "X(1)*I"]:
        ctx.raises((ValueError, IndexError), "qudit-reject", QuditOperator.from_string, bad, msg=f"qudit operator from {bad!r}")
    for _ in range(60):
        junk = "".join(ctx.pyrng.choice("XYZIW()*12 ") for _ in range(int(ctx.rng.integers(1, 9))))
        try:
            value = QuditOperator.from_string(junk).value
        except (ValueError, IndexError):
            ctx.see("qudit-reject")
            continue
        # whatever is accepted has at most two factors of the documented form
        import re

        ctx.check(junk == "I" or re.fullmatch(r"[XYZ]\(\d+\)(\*[XYZ]\(\d+\))?", junk) is not None, "qudit-reject", f"{junk!r} is accepted as {value}")


def layouts(ctx, arr):
    """The same array in a random memory layout."""
    how = int(ctx.rng.integers(4))
    if how == 0:
        return arr
    if how == 1:
        return np.asfortranarray(arr)
    if how == 2:
        big = np.zeros(tuple(2 * s for s in arr.shape), dtype=arr.dtype)
        big[tuple(slice(None, None, 2) for _ in arr.shape)] = arr
        return big[tuple(slice(None, None, 2) for _ in arr.shape)]
    return np.ascontiguousarray(arr[..., ::-1])[..., ::-1]


def run_conjugate(ctx, q, num):
    import galois

    from qldpc.math import symplectic_conjugate

    f = GF(q)
    field = galois.GF(q)
    for trial in range(num):
        n = int(ctx.rng.integers(1, 8))
        dims = int(ctx.rng.integers(1, 4))
        shape = tuple(int(s) for s in ctx.rng.integers(1, 5, dims - 1)) + (2 * n,)
        vec = f.random(ctx.rng, shape)
        raw = trial % 3 == 0
        given = layouts(ctx, vec).view(np.ndarray) if raw else layouts(ctx, vec.astype(field.dtypes[-1])).view(field)
        ctx.case("conjugate", bool(vec.any()), q=q, shape=shape, raw=raw)
        before = np.array(given)
        got = symplectic_conjugate(given)
        want = np.concatenate([f.neg(vec[..., n:]), vec[..., :n]], axis=-1)
        ctx.check(type(got) is type(given) and got.shape == shape, "conjugate", f"type {type(got).__name__}, shape {got.shape}")
        values = np.asarray(got).view(np.ndarray).astype(int)
        if raw:
            want = np.concatenate([-vec[..., n:], vec[..., :n]], axis=-1)
        ctx.check(np.array_equal(values, want), "conjugate", "the conjugate is not [-z|x]")
        ctx.check(np.array_equal(np.array(given), before) and not np.shares_memory(got, given), "conjugate-input", "the input is modified or shared")
        twice = symplectic_conjugate(got)
        if not raw:
            ctx.check(np.array_equal(mats.to_int(twice), f.neg(vec)), "conjugate-twice", "twice the conjugate is the negative")
            other = f.random(ctx.rng, (2 * n,))
            ours = mats.to_int(symplectic_conjugate(given) @ other.view(field) if given.ndim == 1 else symplectic_conjugate(given) @ field(other))
            ref = f.sform(vec.reshape(-1, 2 * n), other[None])[:, 0].reshape(shape[:-1])
            # <P,Q> = P_x.Q_z - P_z.Q_x
            ctx.check(np.array_equal(ours, ref), "conjugate-form", "symplectic inner product")
        else:
            ctx.check(np.array_equal(np.asarray(twice), -vec) , "conjugate-twice", "twice the conjugate is the negative")
            other = ctx.rng.integers(-3, 4, 2 * n)
            ours = np.asarray(got) @ other
            ref = vec[..., :n] @ other[n:] - vec[..., n:] @ other[:n]
            ctx.check(np.array_equal(ours, ref), "conjugate-form", "symplectic inner product over the integers")
        if vec.size and n > 1:
            bad = vec[..., :-1]
            ctx.raises(Exception, "odd-length", symplectic_conjugate, bad if raw else bad.view(field), msg="odd length")

    # the symplectic form is the commutator of the generalized Pauli operators
    if f.m == 1 and q <= 7:
        x, z = clock_shift(q)
        for a in itertools.product(range(q), repeat=2):
            b = tuple(int(v) for v in ctx.rng.integers(0, q, 2))
            p = np.linalg.matrix_power(x, a[0]) @ np.linalg.matrix_power(z, a[1])
            r = np.linalg.matrix_power(x, b[0]) @ np.linalg.matrix_power(z, b[1])
            form = int(field(symplectic_conjugate(field(a))) @ field(b))
            # XZ = w^-1 ZX with X|j> = |j+1>, Z|j> = w^j |j>
            phase = np.exp(-2j * np.pi * form / q)
            ctx.check(np.allclose(p @ r, phase * r @ p), "form-matrix", f"commutation of {a} and {b} over GF({q})")


def run_strings(ctx, num):
    import galois
    import stim

    from qldpc.math import op_to_string
    from qldpc.objects import Pauli

    field = galois.GF(2)
    for trial in range(num):
        n = int(ctx.rng.integers(1, 14 if trial % 5 else 120))
        op = ctx.rng.integers(0, 2, 2 * n) * (ctx.rng.random(2 * n) < ctx.rng.choice([0.3, 1]))
        given = [op, op.astype(np.uint8).view(field), op.astype(bool), op.tolist(), layouts(ctx, op), op.astype(np.int8)][trial % 6]
        ctx.case("string", bool(op.any()), op=op)
        got = op_to_string(given)
        want = "".join("IZXY"[2 * int(op[i]) + int(op[i + n])] for i in range(n))
        ctx.check(isinstance(got, stim.PauliString) and len(got) == n and str(got) == "+" + want.replace("I", "_"), "string", f"{got} should be {want}")
        ctx.check(all(str(Pauli((int(op[i]), int(op[i + n])))) == want[i] for i in range(n)), "string", "per-qubit operators")
        xs, zs = got.to_numpy()
        ctx.check(np.array_equal(np.concatenate([xs, zs]).astype(int), op), "string", "vector round trip")
        other = ctx.rng.integers(0, 2, 2 * n)
        form = int(op[:n] @ other[n:] + op[n:] @ other[:n]) % 2
        ctx.check(got.commutes(op_to_string(other)) == (not form), "string-commute", "commutation of the strings")
    for bad in ([0, 2], [1, 0, 3, 0], [-1, 0]):
        ctx.raises(Exception, "string-reject", op_to_string, np.array(bad), msg="not a qubit operator")
    ctx.raises(ValueError, "string-reject", op_to_string, np.array([1, 0, 1]), msg="odd length")


def run_tools(ctx, num):
    import math

    from qldpc.math import first_nonzero_cols, log_choose

    import galois

    for _ in range(num):
        q = int(ctx.rng.choice([2, 3, 4, 9]))
        m, n = int(ctx.rng.integers(0, 6)), int(ctx.rng.integers(1, 8))
        mat = GF(q).random(ctx.rng, (m, n)) * (ctx.rng.random((m, n)) < ctx.rng.choice([0.3, 0.8]))
        if m:
            keep = mat.any(axis=1)
            mat[~keep, int(ctx.rng.integers(n))] = 1
        ctx.case("first-cols", bool(m), mat=mat)
        given = galois.GF(q)(mat) if ctx.rng.random() < 0.6 else layouts(ctx, mat)
        got = first_nonzero_cols(given)
        want = [next(j for j in range(n) if row[j]) for row in mat]
        ctx.check(len(got) == m and [int(x) for x in got] == want, "first-cols", f"{list(got)} should be {want}")
    for n in list(range(0, 31)) + [60, 100, 250, 1000]:
        for k in sorted({0, 1, n // 2, n // 3, n - 1, n} | set(range(0, min(n, 20) + 1))):
            if 0 <= k <= n:
                want = math.log(math.comb(n, k))
                got = float(log_choose(n, k))
                ctx.check(abs(got - want) < 1e-8 * max(1, abs(want)) + 1e-9, "log-choose", f"log_choose({n}, {k}) = {got}")
                ctx.check(abs(float(log_choose(n, n - k)) - got) < 1e-7, "log-choose", "symmetry")


def run_codes(ctx, num):
    """Operators as the codes show them: strings and weights of checks, commutation of logical operators."""
    from qldpc import codes
    from qldpc.objects import Pauli, QuditOperator

    for trial in range(num):
        q = int(ctx.rng.choice([2, 2, 3, 4, 5]))
        f = GF(q)
        kind, n, checks = qcodes.random_checks(ctx.rng, q, max_n=4)
        code = codes.QuditCode(checks, q)
        ctx.case("code", bool(checks.any()), q=q, kind=kind, checks=checks)
        got = code.get_strings()
        ctx.check(len(got) == len(checks), "code-strings", "number of strings")
        parse = Pauli.from_string if q == 2 else QuditOperator.from_string
        for line, row in zip(got, checks):
            ops = line.split()
            values = [tuple(parse(op).value) for op in ops]
            ctx.check(values == [(int(row[i]), int(row[i + n])) for i in range(n)], "code-strings", f"{line} does not describe {row}")
        logical = mats.to_int(code.get_logical_ops())
        if len(logical) and q == 2:
            from qldpc.math import op_to_string

            strings = [op_to_string(op) for op in logical]
            form = f.sform(logical, logical)
            ctx.check(all(strings[i].commutes(strings[j]) == (not form[i, j]) for i in range(len(strings)) for j in range(i)), "code-ops", "commutation of logical operators")
        elif len(logical):
            import galois

            from qldpc.math import symplectic_conjugate

            form = mats.to_int(symplectic_conjugate(galois.GF(q)(logical)) @ galois.GF(q)(logical).T)
            ctx.check(np.array_equal(form, f.sform(logical, logical)), "code-ops", "symplectic form of logical operators")


def units(tier, seed):
    big = tier == "thorough"
    out = [("pauli", run_pauli, ()), ("qudit", run_qudit, (5000 if big else 400,)), ("strings", run_strings, (5000 if big else 400,)),
           ("tools", run_tools, (5000 if big else 300,)), ("codes", run_codes, (800 if big else 120,))]
    for q in (2, 3, 4, 5, 7, 8, 9, 16, 25, 27):
        out.append((f"conjugate-{q}", run_conjugate, (q, 800 if big else 80)))
    return out
