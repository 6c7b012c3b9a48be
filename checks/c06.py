import contextlib
import importlib
import itertools

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF, coset_min_weight, min_weight

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: exhaustive enumeration of code words / dressed logical operators as the oracle of every reported distance"
RULE = ("one case per code (classical, CSS, general qudit; stabilizer and subsystem; GF(q)) or per packed-word stress input with planted "
        "minimum weight; non-trivial when the code has logical degrees of freedom")
REQUIRED = {"classical": 200, "classical-vector": 500, "qudit": 150, "css": 300, "direct-classical": 60, "direct-quantum": 100,
            "wide-classical": 20, "wide-quantum": 15, "undefined": 40, "cached": 300, "params": 200, "bound": 60, "bound-refused": 30}


def same(got, want):
    if want is None:
        return isinstance(got, float) and got != got
    return isinstance(got, (int, np.integer)) and not isinstance(got, bool) and int(got) == want


def classical(ctx, q, count, max_n):
    from qldpc import codes

    f = GF(q)
    for ii in range(count):
        kind, mat = mats.random_matrix(ctx.rng, q, mats.KINDS[ii % len(mats.KINDS)], max_n=max_n)
        n = mat.shape[1]
        basis = f.null_space(mat)
        if q ** len(basis) > 5000:
            continue
        ctx.case("classical", bool(len(basis)), q=q, kind=kind, matrix=mat)
        words = f.words(basis) if len(basis) else np.zeros((1, n), dtype=int)
        want = min_weight(words)
        code = codes.ClassicalCode(mat, q)
        if ctx.rng.random() < 0.3 and len(basis):
            code.set_generator(f.matmul(mats.random_invertible(ctx.rng, q, len(basis)), basis))

        def vectors():
            for jj in range(5):
                vec = f.random(ctx.rng, (n,)) if jj else words[ctx.rng.integers(len(words))]
                true = int(np.count_nonzero(f.sub(words, vec[None, :]), axis=1).min())
                given = [vec, vec.tolist(), code.field(vec)][int(ctx.rng.integers(3))]
                got = code.get_distance(vector=given) if ctx.rng.random() < 0.5 else code.get_distance_exact(vector=given)
                ctx.check(same(got, true), "classical-vector", f"distance of a vector to the code: {got}, true {true}", vector=vec)

        if ctx.rng.random() < 0.5:
            vectors()
        got = code.get_distance()
        ctx.check(same(got, want), "undefined" if want is None else "classical", f"distance {got}, true {want}")
        if ctx.rng.random() < 0.5:
            vectors()
        for call in (code.get_distance, code.get_distance_exact, code.get_distance_if_known,
                     codes.ClassicalCode(code).get_distance, lambda: code.get_code_params()[2]):
            got = call()
            ctx.check(same(got, want), "cached", f"repeated query gives {got}, true {want}")
        ctx.check(tuple(code.get_code_params()[:2]) == (n, len(basis)), "params", "wrong code parameters")
        dual = ~code
        true = min_weight(f.words(mat)) if f.rank(mat) and q ** f.rank(mat) <= 5000 else (None if not f.rank(mat) else -1)
        if true != -1:
            got = dual.get_distance()
            ctx.check(same(got, true), "classical", f"distance of the dual {got}, true {true}")


def qudit(ctx, q, count, max_n):
    from qldpc import codes

    for ii in range(count):
        kind, n, checks = qcodes.random_checks(ctx.rng, q, qcodes.KINDS[ii % len(qcodes.KINDS)], max_n=max_n)
        truth = qcodes.Truth(q, checks, n)
        if q ** (truth.r + 2 * truth.k) > 70000:
            continue
        ctx.case("qudit", truth.k > 0, q=q, kind=kind, checks=checks)
        want = truth.distance()
        code = codes.QuditCode(checks, q)
        steps = list(ctx.rng.permutation(3))
        for step in steps:  # other queries before or after
            if step == 0:
                got = code.get_distance() if ctx.rng.random() < 0.5 else code.get_distance_exact()
                ctx.check(same(got, want), "undefined" if want is None else "qudit", f"distance {got}, true {want}")
            elif step == 1:
                code.get_logical_ops()
            else:
                code.get_stabilizer_ops(canonicalized=True)
        got = code.get_distance_if_known()
        ctx.check(same(got, want), "cached", f"known distance {got}, true {want}")
        got = codes.QuditCode(code).get_distance()
        ctx.check(same(got, want), "cached", f"distance of a copy {got}, true {want}")
        params = code.get_code_params()
        ctx.check(tuple(params[:2]) == (n, truth.k) and same(params[2], want), "params", f"code parameters {params}", want=(n, truth.k, want))
        if truth.k:
            # any other logical basis gives the same distance
            other = codes.QuditCode(checks, q)
            mix = qcodes.random_symplectic(ctx.rng, q, truth.k)
            f = truth.f
            ops = f.matmul(mix, mats.to_int(code.get_logical_ops()))
            ops = f.add(ops, f.matmul(f.random(ctx.rng, (2 * truth.k, truth.s)), truth.stab)) if truth.s else ops
            with ctx.guard("accepts-basis", ops=ops):
                other.set_logical_ops(ops)
                got = other.get_distance()
                ctx.check(same(got, want), "qudit", f"distance with another logical basis {got}, true {want}")


def css(ctx, q, count, max_n, subsystem):
    from qldpc import codes
    from qldpc.objects import Pauli

    for _ in range(count):
        mx, mz = qcodes.random_css(ctx.rng, q, max_n=max_n, subsystem=subsystem)
        if ctx.rng.random() < 0.15:
            mz = mx
        truth = qcodes.CSSTruth(q, mx, mz)
        n = truth.n
        cost = max(len(truth.gauge["x"]), len(truth.gauge["z"])) + truth.k
        if q**cost > 40000:
            continue
        ctx.case("css", truth.k > 0, q=q, mx=mx, mz=mz)
        want = {Pauli.X: truth.distance("x"), Pauli.Z: truth.distance("z")}
        want[None] = None if not truth.k else min(want[Pauli.X], want[Pauli.Z])
        code = codes.CSSCode(mx, mz, q)
        queries = [None, Pauli.X, Pauli.Z]
        for idx in ctx.rng.permutation(3):
            pauli = queries[idx]
            got = code.get_distance(pauli) if ctx.rng.random() < 0.5 else code.get_distance_exact(pauli)
            ctx.check(same(got, want[pauli]), "undefined" if not truth.k else "css", f"distance({pauli}) = {got}, true {want[pauli]}")
        for pauli in queries:
            for got in (code.get_distance_if_known(pauli), code.get_distance(pauli)):
                ctx.check(same(got, want[pauli]), "cached", f"second query of distance({pauli}): {got}, true {want[pauli]}")
        params = code.get_code_params()
        ctx.check(tuple(params[:2]) == (n, truth.k) and same(params[2], want[None]), "params", f"code parameters {params}")
        quantum = codes.QuditCode(code)
        got = quantum.get_distance()
        ctx.check(same(got, want[None]), "css-as-qudit", f"distance as a QuditCode {got}, true {want[None]}")
        if truth.full.n <= 5 and q ** (truth.full.r + 2 * truth.k) <= 70000:
            got = codes.QuditCode(mats.to_int(code.matrix), q).get_distance()
            ctx.check(same(got, want[None]), "css-as-qudit", f"distance of the same checks as a QuditCode {got}, true {want[None]}")


@contextlib.contextmanager
def old_numpy(on):
    """Hide numpy's population count, as in numpy < 2, for which the code has its own."""
    if not on or not hasattr(np, "bitwise_count"):
        yield
        return
    from qldpc.codes import distance

    kept = np.bitwise_count
    del np.bitwise_count
    try:
        importlib.reload(distance)  # whether numpy's version is looked at on import or on use
        yield
    finally:
        np.bitwise_count = kept
        importlib.reload(distance)


def direct(ctx, numba, old=False):
    """The enumeration routines themselves, with every split between vectorised and looped generators."""
    with old_numpy(old):
        enumerate_direct(ctx, numba, old)


def enumerate_direct(ctx, numba, old):
    from qldpc.codes.distance import get_distance_classical, get_distance_quantum

    f = GF(2)
    for _ in range(60 if not ctx.thorough else 500):
        k = int(ctx.rng.integers(1, 8))
        n = int(ctx.rng.integers(k, 14)) if ctx.rng.random() < 0.7 else int(ctx.rng.integers(60, 70))
        gen = f.random_full_rank(ctx.rng, k, n)
        want = min_weight(f.words(gen))
        block = int(ctx.rng.integers(0, 12))
        ctx.case("direct-classical", True, generators=gen, block_size=block, numba=numba, old_numpy=old)
        got = get_distance_classical(gen if ctx.rng.random() < 0.5 else gen.tolist(), block_size=block, use_numba=numba)
        ctx.check(got == want, "direct-classical", f"distance {got}, true {want}")
    for _ in range(60 if not ctx.thorough else 500):
        homogeneous = bool(ctx.rng.random() < 0.5)
        n = int(ctx.rng.integers(2, 9)) if ctx.rng.random() < 0.7 else int(ctx.rng.integers(30, 36))
        width = n if homogeneous else 2 * n
        total = int(ctx.rng.integers(1, min(width, 9) + 1))
        basis = f.random_full_rank(ctx.rng, total, width)
        if ctx.rng.random() < 0.5:
            basis = basis * (ctx.rng.random(basis.shape) < 0.5)
            basis = f.rref(basis)[0]
            total = len(basis)
            if not total:
                continue
        s = int(ctx.rng.integers(0, total))
        logical, stab = basis[s:], basis[:s]
        want = coset_min_weight(f, logical, stab, "hamming" if homogeneous else "symplectic")
        block = int(ctx.rng.integers(0, 12))
        ctx.case("direct-quantum", True, logical=logical, stabilizers=stab, block_size=block, homogeneous=homogeneous, numba=numba, old_numpy=old)
        keep = logical.copy(), stab.copy()
        got = get_distance_quantum(logical, stab if len(stab) else (stab if ctx.rng.random() < 0.5 and homogeneous else stab),
                                   block_size=block, homogeneous=homogeneous, use_numba=numba)
        ctx.check(got == want, "direct-quantum", f"distance {got}, true {want}")
        ctx.check(np.array_equal(keep[0], logical) and np.array_equal(keep[1], stab), "inputs-kept", "inputs were modified")


def wide(ctx, lengths, old=False):
    """Long words: weights near and beyond the capacity of packed counters, minima in any machine word."""
    with old_numpy(old):
        enumerate_wide(ctx, lengths)


def enumerate_wide(ctx, lengths):
    from qldpc import codes

    f = GF(2)
    for n in lengths:
        for rep in range(2):
            k = int(ctx.rng.integers(1, 7))
            gen = f.random(ctx.rng, (k, n)) if ctx.rng.random() < 0.6 else (ctx.rng.random((k, n)) < 0.97).astype(int)
            if rep and k > 1:
                gen[0] = 1  # a heavy word; light words are sums of heavy ones
                spot = int(ctx.rng.integers(0, n))
                gen[1] = 1
                gen[1, spot : spot + int(ctx.rng.integers(1, 4))] = 0
            if f.rank(gen) < k:
                continue
            words = f.words(gen)
            want = min_weight(words)
            ctx.case("wide-classical", True, n=n, generators=gen)
            code = codes.ClassicalCode.from_generator(gen)
            code.set_generator(gen)
            got = code.get_distance()
            ctx.check(same(got, want), "wide-classical", f"distance {got}, true {want} (length {n})")
        # a CSS-like quantum input: stabilizers and logicals given directly
        from qldpc.codes.distance import get_distance_quantum

        total = int(ctx.rng.integers(2, 8))
        basis = f.random(ctx.rng, (total, 2 * n))
        if ctx.rng.random() < 0.5:
            basis[0] = 1
            basis[1] = 1
            basis[1, n - 3 : n] = 0
            basis[1, 2 * n - 3 :] = 0
        if f.rank(basis) == total:
            s = int(ctx.rng.integers(0, total))
            want = coset_min_weight(f, basis[s:], basis[:s], "symplectic")
            ctx.case("wide-quantum", True, n=n, basis=basis, s=s)
            got = get_distance_quantum(basis[s:], basis[:s], homogeneous=False)
            ctx.check(got == want, "wide-quantum", f"distance {got}, true {want} (length {n})")
            want = coset_min_weight(f, basis[s:], basis[:s], "hamming")
            got = get_distance_quantum(basis[s:], basis[:s], homogeneous=True)
            ctx.check(got == want, "wide-quantum", f"homogeneous distance {got}, true {want} (length {2 * n})")


def bounds(ctx):
    """Codes without a Monte Carlo bound: a known distance answers the query, an unknown one is refused (never guessed)."""
    from qldpc import codes

    for ii in range(60 if not ctx.thorough else 300):
        q = [2, 2, 3, 4, 5][ii % 5]
        kind, n, checks = qcodes.random_checks(ctx.rng, q, qcodes.KINDS[ii % len(qcodes.KINDS)], max_n=4 if q == 2 else 3)
        truth = qcodes.Truth(q, checks, n)
        if q ** (truth.r + 2 * truth.k) > 20000:
            continue
        ctx.case("qudit", truth.k > 0, q=q, kind=kind, checks=checks, bounds=True)
        want = truth.distance()
        code = codes.QuditCode(checks, q)
        known = ctx.rng.random() < 0.5
        if known:
            code.get_distance()
        if want is not None and not known:
            for call in (lambda: code.get_distance(bound=3), lambda: code.get_distance_bound(2), lambda: code.get_code_params(bound=True)):
                try:
                    got = call()
                except NotImplementedError:
                    ctx.check(True, "bound-refused")
                    continue
                got = got[2] if isinstance(got, tuple) else got
                ctx.check(isinstance(got, (int, np.integer)) and int(got) >= want, "bound", f"upper bound {got} below the distance {want}")
        else:
            for call in (lambda: code.get_distance(bound=3), lambda: code.get_distance_bound(2), lambda: code.get_distance_bound(2, cutoff=n),
                         lambda: code.get_code_params(bound=5)[2]):
                got = call()
                ctx.check(same(got, want), "bound", f"bound {got} for a code of known distance {want}")
        got = code.get_distance()
        ctx.check(same(got, want), "qudit", f"distance {got}, true {want}")


def named(ctx):
    """Known codes at sizes where the generic enumeration is slow, with textbook distances."""
    from qldpc import codes
    from qldpc.objects import Pauli

    golay = [0b110001110101]
    rows = [[(golay[0] >> b) & 1 for b in range(11, -1, -1)] + [0] * 11]
    gen = np.array([np.roll(rows[0], s) for s in range(12)])
    for code, want in [
        (codes.ClassicalCode.from_generator(gen), (23, 12, 7)),
        (codes.ClassicalCode(codes.HammingCode(4).matrix), (15, 11, 3)),
        (codes.ClassicalCode([[1, 1, 1, 1, 1, 1, 1, 1]]), (8, 7, 2)),
    ]:
        ctx.case("named", True, name=str(want))
        ctx.check(tuple(code.get_code_params()) == want, "named", f"parameters {code.get_code_params()}, textbook {want}")
    code = codes.CSSCode(codes.HammingCode(4).matrix, codes.HammingCode(4).matrix)
    ctx.case("named", True, name="[[15,7,3]]")
    ctx.check(tuple(code.get_code_params()) == (15, 7, 3), "named", f"parameters {code.get_code_params()}")
    checks = ["X Z Z X I", "I X Z Z X", "X I X Z Z", "Z X I X Z"]
    ctx.check(codes.QuditCode.from_strings(*checks).get_distance() == 3, "named", "five-qubit code")
    shor_x = np.kron([[1, 1, 0], [0, 1, 1]], [[1, 1, 1]])
    shor_z = np.kron(np.eye(3, dtype=int), [[1, 1, 0], [0, 1, 1]])
    code = codes.CSSCode(shor_x, shor_z)
    ctx.check([code.get_distance(p) for p in (Pauli.X, Pauli.Z, None)] == [3, 3, 3], "named", "Shor code")
    long_x = np.kron([[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1]], [[1, 1, 1]])
    long_z = np.kron(np.eye(4, dtype=int), [[1, 1, 0], [0, 1, 1]])
    code = codes.CSSCode(long_x, long_z)
    ctx.check([code.get_distance(p) for p in (Pauli.Z, None, Pauli.X)] == [4, 3, 3], "named", "generalised Shor code")


def units(tier, seed):
    big = 10 if tier == "thorough" else 1
    out = []
    for q, count, max_n in [(2, 104, 10), (3, 65, 6), (4, 39, 5), (5, 39, 5), (7, 26, 4), (8, 26, 4), (9, 26, 4)]:
        out.append((f"classical-{q}", classical, (q, count * big, max_n)))
    for q, count, max_n in [(2, 72, 6), (3, 48, 3), (4, 36, 3), (5, 36, 3), (7, 24, 2), (8, 24, 2), (9, 24, 2)]:
        for part in range(big):
            out.append((f"qudit-{q}-{part}", qudit, (q, count, max_n)))
    for q, count, max_n in [(2, 50, 9), (3, 30, 5), (4, 20, 4), (5, 20, 4), (9, 16, 3)]:
        for sub in (False, True):
            out.append((f"css-{q}-{sub}", css, (q, count * big, max_n, sub)))
    out.append(("direct", direct, (False,)))
    out.append(("direct-numba", direct, (True,)))
    out.append(("direct-old-numpy", direct, (False, True)))
    widths = [31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 200, 255, 256, 257, 300, 511, 512, 600, 1100]
    for ii in range(4):
        out.append((f"wide-{ii}", wide, (widths[ii::4] * (big if big == 1 else 4),)))
    out.append(("wide-old-numpy", wide, ([31, 32, 33, 63, 64, 65, 128, 129, 256, 512] * (1 if big == 1 else 4), True)))
    out.append(("bounds", bounds, ()))
    out.append(("named", named, ()))
    return out
