import numpy as np

from vlib import mats, qcodes, quantinv
from vlib.gf import GF

PROPERTY = "C14"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference symplectic actions (Fourier transforms, Clifford gates, direct sums, encodings) as the oracle of transformed codes and carried logical operators"
RULE = ("one case per code(s) x transformation (qudit subset, random Clifford circuit, stack, wiring of a concatenation) x logical history; "
        "non-trivial when the code has checks and the transformation is not the identity")
REQUIRED = {"conjugated": 200, "conjugated-logical": 70, "deformed": 250, "deformed-logical": 60, "preserve": 80, "stacked": 120, "stacked-logical": 40,
            "concatenated": 120, "stacked-distance": 150, "concatenated-logical": 40, "inputs-kept": 500, "preserve-rejected": 10}


class Kept:
    """Defining data of the input codes, and the logical operators they report, before and after."""

    def __init__(self, ctx, *codes):
        self.ctx, self.codes = ctx, codes
        for code in codes:
            if ctx.rng.random() < 0.5:
                quantinv.warm(ctx.rng, code)
        self.before = [mats.to_int(code.matrix) for code in codes]
        self.asked = [ctx.rng.random() < 0.5 for _ in codes]
        self.logical = [mats.to_int(code.get_logical_ops()) if asked else None for code, asked in zip(codes, self.asked)]

    def verify(self):
        for code, matrix, logical in zip(self.codes, self.before, self.logical):
            self.ctx.check(np.array_equal(mats.to_int(code.matrix), matrix), "inputs-kept", "an input code changed")
            if logical is not None:
                self.ctx.check(np.array_equal(mats.to_int(code.get_logical_ops()), logical), "inputs-kept",
                               "the logical operators of an input code changed", before=logical, after=code.get_logical_ops())


def check_code(ctx, code, checks, q, n, key, exact=True):
    """The code has exactly these checks (or the same group), and is internally consistent."""
    f = GF(q)
    truth = qcodes.Truth(q, checks, n)
    got = mats.to_int(code.matrix).reshape(-1, 2 * n)
    if exact:
        ctx.check(np.array_equal(got, checks), key, "the check matrix is not the transformed one", got=got, want=checks)
    else:
        ctx.check(got.shape[1] == 2 * n and f.same_span(got, checks), key, "the check group is not the expected one", got=got, want=checks)
    ctx.check(code.is_subsystem_code == truth.subsystem, key, f"is_subsystem_code = {code.is_subsystem_code}")
    ctx.check(code.field.order == q and len(code) == n and code.dimension == truth.k, key, f"dimension {code.dimension}, expected {truth.k}")
    bad = truth.logical_problems(mats.to_int(code.get_logical_ops()))
    ctx.check(not bad, key + "-valid", f"logical operators: {bad[:2]}", ops=code.get_logical_ops())
    if ctx.rng.random() < 0.7:
        quantinv.audit(ctx, code, q, checks, key)
    return truth


def random_code(ctx, q, max_n, min_n=1, kind=None, logical=None):
    """A random QuditCode or CSSCode, sometimes with user-set logical operators."""
    from qldpc import codes

    kind, n, checks = qcodes.random_checks(ctx.rng, q, kind, max_n=max_n, min_n=min_n)
    truth = qcodes.Truth(q, checks, n)
    if kind in ("css", "css-subsystem") and ctx.rng.random() < 0.8:
        split = checks[:, n:].any(axis=1)
        mx = checks[~split][:, :n] if (~split).any() else np.zeros((1, n), dtype=int)
        mz = checks[split][:, n:] if split.any() else np.zeros((1, n), dtype=int)
        code = codes.CSSCode(mx, mz, q)
    else:
        code = codes.QuditCode(checks, q)
    if truth.k and ctx.rng.random() < 0.5 and logical is not False:
        f = truth.f
        ops = mats.to_int(code.get_logical_ops())
        if hasattr(code, "matrix_x"):
            mix = mats.random_invertible(ctx.rng, q, truth.k)
            ops = np.vstack([f.matmul(mix, ops[: truth.k]), f.matmul(f.inverse(mix).T, ops[truth.k :])])
        else:
            ops = f.matmul(qcodes.random_symplectic(ctx.rng, q, truth.k), ops)
        code.set_logical_ops(ops)
    return code, n, truth


def same_sectors(ctx, q, max_n):
    from qldpc import codes

    f = GF(q)
    while True:
        n = int(ctx.rng.integers(1, max_n + 1))
        _, mat = mats.random_matrix(ctx.rng, q, max_n=n, min_n=n, max_m=n)
        if ctx.rng.random() < 0.5:
            mat = mat[:1]
        if len(mat):
            break
    code = codes.CSSCode(mat, mat, q)
    return code, n, qcodes.Truth(q, np.vstack([np.hstack([mat, 0 * mat]), np.hstack([0 * mat, mat])]), n)


def fourier(f, n, ops, subset, sign):
    out = ops.copy()
    for j in subset:
        x, z = ops[:, j], ops[:, n + j]
        out[:, j] = f.neg(z) if sign < 0 else z
        out[:, n + j] = x if sign < 0 else f.neg(x)
    return out


def conjugated(ctx, q, count, max_n):
    f = GF(q)
    for _ in range(count):
        code, n, truth = random_code(ctx, q, max_n)
        size = int(ctx.rng.integers(0, n + 1))
        subset = sorted(int(j) for j in ctx.rng.choice(n, size, replace=False))
        kept = Kept(ctx, code)
        how = int(ctx.rng.integers(4))
        if how == 0:
            start, step = int(ctx.rng.integers(0, n)), int(ctx.rng.integers(1, 3))
            given = slice(start, None, step)
            subset = list(range(n))[given]
        elif how == 1:
            given = tuple(subset)
        elif how == 2:
            given = subset[::-1]
        else:
            given = np.array(subset, dtype=int)
        checks = mats.to_int(code.matrix)
        ctx.case("conjugated", bool(subset) and truth.r > 0, q=q, checks=checks, subset=subset, how=how)
        known = getattr(code, "_logical_ops", None) is not None
        before = mats.to_int(code.get_logical_ops()) if known else None
        new = code.conjugated(given)
        got = mats.to_int(new.matrix).reshape(-1, 2 * n)
        options = [fourier(f, n, checks, subset, sign) for sign in (-1, 1)]
        spans = [f.same_span(got, opt) for opt in options]
        if not ctx.check(any(spans), "conjugated", "not the Fourier transform of the code", got=got, want=options[0]):
            continue
        check_code(ctx, new, got, q, n, "conjugated")
        ctx.check((new.dimension, new.gauge_dimension) == (truth.k, truth.g), "conjugated", "conjugation changed the code parameters")
        if known:
            ops = mats.to_int(new.get_logical_ops())
            ok = any(span and np.array_equal(ops, fourier(f, n, before, subset, sign)) for span, sign in zip(spans, (-1, 1)))
            ctx.check(ok, "conjugated-logical", "the logical operators are not the transformed originals", before=before, after=ops)
        back = new.conjugated(given)
        ctx.check(f.same_span(mats.to_int(back.matrix), checks) or any(f.same_span(mats.to_int(back.matrix), fourier(f, n, fourier(f, n, checks, subset, s), subset, s)) for s in (1, -1)),
                  "conjugated-twice", "conjugating twice")
        kept.verify()
        plain = code.conjugated()
        if not hasattr(code, "_default_conjugate"):
            ctx.check(np.array_equal(mats.to_int(plain.matrix).reshape(-1, 2 * n), checks), "conjugated-default", "the default conjugation is not trivial")


def _swap(x, z, a):
    x[:, a], z[:, a] = z[:, a].copy(), x[:, a].copy()


def _addto(p, a, r, b):
    p[:, a] ^= r[:, b]


def apply_gate(name, x, z, *t):
    """The action of a Clifford gate on Pauli supports, from its defining conjugations."""
    if name in ("X", "Y", "Z"):
        return
    if len(t) == 1:
        a = t[0]
        if name in ("H", "SQRT_Y", "SQRT_Y_DAG"):
            _swap(x, z, a)
        elif name in ("S", "S_DAG"):
            _addto(z, a, x, a)  # X -> Y
        elif name in ("SQRT_X", "SQRT_X_DAG"):
            _addto(x, a, z, a)  # Z -> Y
        elif name == "C_XYZ":  # X -> Y -> Z -> X
            nx, nz = x[:, a] ^ z[:, a], x[:, a].copy()
            x[:, a], z[:, a] = nx, nz
        elif name == "C_ZYX":  # Z -> Y -> X -> Z
            nx, nz = z[:, a].copy(), x[:, a] ^ z[:, a]
            x[:, a], z[:, a] = nx, nz
        else:
            raise AssertionError(name)
        return
    a, b = t
    if name == "CX":
        _addto(x, b, x, a)
        _addto(z, a, z, b)
    elif name == "CZ":
        _addto(z, b, x, a)
        _addto(z, a, x, b)
    elif name == "SWAP":
        for p in (x, z):
            p[:, [a, b]] = p[:, [b, a]]
    elif name == "CY":
        apply_gate("S_DAG", x, z, b)
        apply_gate("CX", x, z, a, b)
        apply_gate("S", x, z, b)
    elif name == "ISWAP":
        apply_gate("SWAP", x, z, a, b)
        apply_gate("CZ", x, z, a, b)
        apply_gate("S", x, z, a)
        apply_gate("S", x, z, b)
    else:
        raise AssertionError(name)


ONE = ["H", "S", "S_DAG", "SQRT_X", "SQRT_X_DAG", "SQRT_Y", "SQRT_Y_DAG", "C_XYZ", "C_ZYX", "X", "Y", "Z"]
TWO = ["CX", "CZ", "SWAP", "CY", "ISWAP"]


def random_circuit(ctx, n, depth):
    gates = []
    for _ in range(depth):
        if n > 1 and ctx.rng.random() < 0.5:
            gates.append((TWO[int(ctx.rng.integers(len(TWO)))], *(int(j) for j in ctx.rng.choice(n, 2, replace=False))))
        else:
            gates.append((ONE[int(ctx.rng.integers(len(ONE)))], int(ctx.rng.integers(n))))
    return gates


def act(gates, ops, n):
    ops = ops.reshape(-1, 2 * n).copy()
    x, z = ops[:, :n].copy(), ops[:, n:].copy()
    for name, *targets in gates:
        apply_gate(name, x, z, *targets)
    return np.hstack([x, z])


def deformed(ctx, count, max_n):
    import stim

    f = GF(2)
    for _ in range(count):
        code, n, truth = random_code(ctx, 2, max_n)
        kept = Kept(ctx, code)
        gates = random_circuit(ctx, n, int(ctx.rng.integers(0, 14)))
        text = "\n".join(f"{name} {' '.join(map(str, t))}" for name, *t in gates)
        circuit = text if ctx.rng.random() < 0.5 else stim.Circuit(text)
        checks = mats.to_int(code.matrix)
        ctx.case("deformed", bool(gates) and truth.r > 0, checks=checks, circuit=text)
        known = getattr(code, "_logical_ops", None) is not None
        before = mats.to_int(code.get_logical_ops()) if known else None
        new = code.deformed(circuit)
        want = act(gates, checks, n)
        new_truth = check_code(ctx, new, want, 2, n, "deformed")
        if known:
            ctx.check(np.array_equal(mats.to_int(new.get_logical_ops()), act(gates, before, n)), "deformed-logical",
                      "the logical operators are not the transformed originals")
        original = mats.to_int(code.get_logical_ops())
        ok = not new_truth.logical_problems(original)
        if ok:
            with ctx.guard("preserve"):
                same = code.deformed(circuit, preserve_logicals=True)
                ctx.check(np.array_equal(mats.to_int(same.get_logical_ops()), original), "preserve", "the logical operators were not preserved")
                ctx.check(np.array_equal(mats.to_int(same.matrix).reshape(-1, 2 * n), want), "preserve", "wrong checks")
        else:
            ctx.raises(ValueError, "preserve-rejected", code.deformed, circuit, preserve_logicals=True, msg="invalid logical operators preserved")
        kept.verify()
    for _ in range(count // 4):  # deformations that fix the logical operators: products of stabilizer-like phases
        n = int(ctx.rng.integers(2, max_n + 1))
        from qldpc import codes

        mx, mz = qcodes.random_css(ctx.rng, 2, n=n)
        code = codes.CSSCode(mx, mz)
        original = mats.to_int(code.get_logical_ops())
        gates = [("X", 0), ("Z", n - 1)] + [("SWAP", 0, 1), ("SWAP", 0, 1)] * int(ctx.rng.integers(2))
        text = "\n".join(f"{name} {' '.join(map(str, t))}" for name, *t in gates)
        ctx.case("preserved", True, mx=mx, mz=mz, circuit=text)
        same = code.deformed(text, preserve_logicals=True)
        ctx.check(np.array_equal(mats.to_int(same.get_logical_ops()), original) and f.same_span(mats.to_int(same.matrix), mats.to_int(code.matrix)),
                  "preserve", "a trivial deformation changed the code")
    code, n, truth = random_code(ctx, 3, 3)
    ctx.raises(ValueError, "deformed-qudits", code.deformed, "H 0", msg="deformation of a qudit code")


def stacked(ctx, q, count, max_n):
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(q)
    for _ in range(count):
        css = ctx.rng.random() < 0.4
        parts = []
        for _ in range(int(ctx.rng.integers(1, 4))):
            if css:
                while True:
                    if ctx.rng.random() < 0.2:  # equal X and Z distances, which the code knows
                        part = same_sectors(ctx, q, max_n)
                        break
                    part = random_code(ctx, q, max_n, kind=("css", "css-subsystem")[int(ctx.rng.integers(2))])
                    if isinstance(part[0], codes.CSSCode):
                        break
            else:
                part = random_code(ctx, q, max_n)
            parts.append(part)
        if ctx.rng.random() < 0.3:
            parts.append(parts[0])
        members = [p[0] for p in parts]
        kept = Kept(ctx, *members)
        inherit = bool(ctx.rng.random() < 0.75)
        ctx.case("stacked", len(parts) > 1, q=q, css=css, inherit=inherit, checks=[mats.to_int(m.matrix) for m in members])
        stack = codes.CSSCode.stack if css else codes.QuditCode.stack
        new = stack(*members) if inherit else stack(*members, inherit_logicals=False)
        total = sum(p[1] for p in parts)
        rows, logical_x, logical_z = [], [], []
        offset = 0
        for code, n, truth in parts:
            for source, dest in ((mats.to_int(code.matrix), rows),):
                block = np.zeros((len(source), 2 * total), dtype=int)
                block[:, offset : offset + n] = source[:, :n]
                block[:, total + offset : total + offset + n] = source[:, n:]
                dest.append(block)
            ops = mats.to_int(code.get_logical_ops())
            block = np.zeros((len(ops), 2 * total), dtype=int)
            block[:, offset : offset + n] = ops[:, :n]
            block[:, total + offset : total + offset + n] = ops[:, n:]
            logical_x.append(block[: truth.k])
            logical_z.append(block[truth.k :])
            offset += n
        want = np.vstack(rows)
        check_code(ctx, new, mats.to_int(new.matrix).reshape(-1, 2 * total), q, total, "stacked")
        ctx.check(f.same_span(mats.to_int(new.matrix), want), "stacked", "the stacked code is not the direct sum", got=new.matrix, want=want)
        ctx.check(new.dimension == sum(p[2].k for p in parts) and new.gauge_dimension == sum(p[2].g for p in parts), "stacked", "parameters do not add up")
        ctx.check(isinstance(new, codes.CSSCode) == css, "stacked", "wrong kind of code")
        if inherit:
            ctx.check(np.array_equal(mats.to_int(new.get_logical_ops()), np.vstack(logical_x + logical_z)), "stacked-logical",
                      "the logical operators are not those of the parts")
        if total <= 8 and q == 2 and new.dimension:
            true = [p[2].distance() for p in parts if p[2].k]
            want = {None: min(true)}
            if css:
                split = [qcodes.CSSTruth(q, mats.to_int(p[0].matrix_x), mats.to_int(p[0].matrix_z)) for p in parts if p[2].k]
                want |= {pauli: min(t.distance(sector) for t in split) for pauli, sector in ((Pauli.X, "x"), (Pauli.Z, "z"))}
            for index in ctx.rng.permutation(len(want)):
                pauli = list(want)[index]
                got = new.get_distance(pauli) if css else new.get_distance()
                ctx.check(got == want[pauli], "stacked-distance", f"distance ({pauli}) {got} is not the minimum over the parts {want}")
        kept.verify()


def stacked_distances(ctx, count):
    """Stacks of codes with equal X and Z distances and codes with unequal ones: each distance is the smallest of the parts."""
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(2)

    def equal():
        makers = [lambda: codes.HGPCode([[1, 1]]), lambda: codes.SurfaceCode(3), lambda: codes.SurfaceCode(2, rotated=False), lambda: codes.BaconShorCode(2),
                  lambda: codes.CSSCode([[1, 1, 1, 1]], [[1, 1, 1, 1]]), lambda: codes.ToricCode(2), lambda: same_sectors(ctx, 2, 6)[0]]
        return makers[ctx.rng.integers(len(makers))]()

    def unequal():
        if ctx.rng.random() < 0.5:
            rows, cols = (int(x) for x in ctx.rng.choice([1, 2, 3, 4], 2, replace=False))
            return [codes.SurfaceCode, codes.BaconShorCode][ctx.rng.integers(2)](rows, cols)
        while True:
            mx, mz = qcodes.random_css(ctx.rng, 2, max_n=6, subsystem=ctx.rng.random() < 0.4)
            truth = qcodes.CSSTruth(2, mx, mz)
            if truth.k and truth.distance("x") != truth.distance("z"):
                return codes.CSSCode(mx, mz)

    done = 0
    while done < count:
        parts = [equal(), unequal()] + [[equal, unequal][ctx.rng.integers(2)]() for _ in range(int(ctx.rng.integers(2)))]
        parts = [parts[i] for i in ctx.rng.permutation(len(parts))]
        truths = [qcodes.CSSTruth(2, mats.to_int(p.matrix_x), mats.to_int(p.matrix_z)) for p in parts]
        if sum(len(p) for p in parts) > 26:
            continue
        alone = [{Pauli.X: t.distance("x"), Pauli.Z: t.distance("z")} for t in truths if t.k]
        want = {p: min(a[p] for a in alone) for p in (Pauli.X, Pauli.Z)}
        want[None] = min(want.values())
        done += 1
        ctx.case("stacked distances", want[Pauli.X] != want[Pauli.Z], matrices=[mats.to_int(p.matrix) for p in parts])
        if ctx.rng.random() < 0.4:
            for part in parts:  # the parts may or may not know their distances
                if part.dimension:
                    part.get_distance([None, Pauli.X, Pauli.Z][ctx.rng.integers(3)])
        new = codes.CSSCode.stack(*parts, inherit_logicals=bool(ctx.rng.integers(2)))
        for index in ctx.rng.permutation(3):
            pauli = list(want)[index]
            got = new.get_distance(pauli)
            ctx.check(got == want[pauli], "stacked-distance", f"distance ({pauli}) {got} is not the smallest of the parts, {want[pauli]}")


def concatenated(ctx, q, count, max_inner, max_outer):
    from qldpc import codes

    f = GF(q)
    done = 0
    while done < count:
        css = ctx.rng.random() < 0.45
        kind = (lambda: ("css", "css-subsystem")[int(ctx.rng.integers(2))]) if css else (lambda: None)
        inner, n_in, t_in = random_code(ctx, q, max_inner, kind=kind())
        outer, n_out, t_out = random_code(ctx, q, max_outer, kind=kind())
        if not t_in.k or (css and not (isinstance(inner, codes.CSSCode) and isinstance(outer, codes.CSSCode))):
            continue
        done += 1
        kept = Kept(ctx, inner, outer)
        lcm = np.lcm(t_in.k, n_out)
        if ctx.rng.random() < 0.3:
            total, given = n_out * t_in.k, None
            wiring = [p * t_in.k + b for b in range(t_in.k) for p in range(n_out)]
        else:
            total = int(lcm * ctx.rng.integers(1, 3)) if lcm <= 4 else int(lcm)
            wiring = [int(w) for w in ctx.rng.permutation(total)]
            given = [wiring, tuple(wiring), dict(enumerate(wiring)), np.array(wiring),
                     {int(k): wiring[k] for k in ctx.rng.permutation(total)}][int(ctx.rng.integers(5))]
        if total > 12:
            done -= 1
            continue
        blocks_in, blocks_out = total // t_in.k, total // n_out
        inherit = bool(ctx.rng.random() < 0.75)
        ctx.case("concatenated", t_in.r > 0 and t_out.r > 0, q=q, css=css, inner=mats.to_int(inner.matrix), outer=mats.to_int(outer.matrix),
                 wiring=wiring, default=given is None, inherit=inherit)
        concatenate = codes.CSSCode.concatenate if css else codes.QuditCode.concatenate
        new = concatenate(inner, outer, given, inherit_logicals=inherit) if given is not None else concatenate(inner, outer, inherit_logicals=inherit)
        n = n_in * blocks_in

        def place(ops, width, block, blocks):
            out = np.zeros((len(ops), 2 * width * blocks), dtype=int)
            out[:, block * width : (block + 1) * width] = ops[:, :width]
            out[:, (blocks + block) * width : (blocks + block + 1) * width] = ops[:, width:]
            return out

        in_ops = mats.to_int(inner.get_logical_ops())
        enc_x = np.vstack([place(in_ops[: t_in.k], n_in, b, blocks_in) for b in range(blocks_in)])
        enc_z = np.vstack([place(in_ops[t_in.k :], n_in, b, blocks_in) for b in range(blocks_in)])

        def encode(ops):
            return f.add(f.matmul(ops[:, :total], enc_x[wiring]), f.matmul(ops[:, total:], enc_z[wiring]))

        out_checks = np.vstack([place(mats.to_int(outer.matrix), n_out, b, blocks_out) for b in range(blocks_out)])
        out_ops = mats.to_int(outer.get_logical_ops())
        out_x = np.vstack([place(out_ops[: t_out.k], n_out, b, blocks_out) for b in range(blocks_out)])
        out_z = np.vstack([place(out_ops[t_out.k :], n_out, b, blocks_out) for b in range(blocks_out)])
        want = np.vstack([place(mats.to_int(inner.matrix), n_in, b, blocks_in) for b in range(blocks_in)] + [encode(out_checks)])
        truth = check_code(ctx, new, want, q, n, "concatenated", exact=False)
        ctx.check(truth.k == t_out.k * blocks_out == new.dimension, "concatenated", f"dimension {new.dimension}, expected {t_out.k * blocks_out}")
        ctx.check(isinstance(new, codes.CSSCode) == css, "concatenated", "wrong kind of code")
        if inherit:
            ctx.check(np.array_equal(mats.to_int(new.get_logical_ops()), encode(np.vstack([out_x, out_z]))), "concatenated-logical",
                      "the logical operators are not the encoded outer ones")
        kept.verify()
        ctx.check(inner.dimension == t_in.k and outer.dimension == t_out.k, "inputs-kept", "the dimension of an input code changed")


def misuse(ctx):
    from qldpc import codes

    steane = codes.SteaneCode()
    five = codes.FiveQubitCode()
    ctx.case("misuse", True)
    ctx.raises(TypeError, "css-only", codes.CSSCode.stack, steane, five, msg="CSS stack of a non-CSS code")
    ctx.raises(TypeError, "css-only", codes.CSSCode.concatenate, steane, five, msg="CSS concatenation of a non-CSS code")
    ctx.raises(ValueError, "fields", codes.QuditCode.concatenate, five, codes.QuditCode([[1, 0], [0, 1]], 3), msg="different fields")
    c4 = codes.C4Code()
    ctx.raises(ValueError, "wiring-size", codes.QuditCode.concatenate, c4, five, [0, 1, 2, 3, 4], msg="wiring of the wrong size")
    ctx.raises(ValueError, "wiring-size", codes.QuditCode.concatenate, c4, steane, list(range(12)), msg="wiring of the wrong size")


def units(tier, seed):
    big = 10 if tier == "thorough" else 1
    out = [("misuse", misuse, ())]
    for q, count, max_n in [(2, 60, 6), (3, 50, 5), (4, 24, 4), (5, 30, 4), (7, 16, 3), (9, 16, 3)]:
        for part in range(big):
            out.append((f"conjugated-{q}-{part}", conjugated, (q, count, max_n)))
    for part in range(2 * big):
        out.append((f"deformed-{part}", deformed, (100, 6)))
    for q, count, max_n in [(2, 40, 4), (3, 24, 3), (4, 12, 3), (5, 12, 3), (9, 8, 2)]:
        for part in range(big):
            out.append((f"stacked-{q}-{part}", stacked, (q, count, max_n)))
            out.append((f"concatenated-{q}-{part}", concatenated, (q, count, max_n, max_n)))
    for part in range(2 * big):
        out.append((f"stacked-distances-{part}", stacked_distances, (30,)))
    return out
