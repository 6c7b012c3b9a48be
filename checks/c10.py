import itertools

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF

PROPERTY = "C10"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: group-theoretic oracle (radical, complements, pairing) over stabilizer, gauge and dual-code queries"
RULE = ("one case per check matrix (12 structural kinds over GF(q), all subspaces for tiny sizes) x query order; "
        "non-trivial when the gauge group is neither trivial nor the whole Pauli group")
REQUIRED = {"stabilizers": 500, "canonical-stabilizers": 400, "gauge-ops": 400, "gauge-pairing": 400, "count": 400, "kind": 400, "dual": 250,
            "dual-dual": 100, "tiny": 250, "family": 120, "css-stabilizers": 150, "css-gauge": 150}


def stabilizers(ctx, code, truth):
    from qldpc.objects import Pauli

    f, n = truth.f, truth.n
    roll = int(ctx.rng.integers(4))
    if roll == 0:
        ops, canonical = code.get_stabilizer_ops(), False
    elif roll == 1:
        ops, canonical = code.get_stabilizer_ops(canonicalized=True), True
    elif roll == 2:
        ops, canonical = code.get_stabilizer_ops(recompute=True), False
    else:
        ops, canonical = code.get_stabilizer_ops(recompute=True, canonicalized=True), True
    ctx.check(type(ops) is code.field, "field", "stabilizers over the wrong field")
    ops = mats.to_int(ops)
    good = ops.ndim == 2 and ops.shape[1] == 2 * n and f.same_span(ops, truth.stab)
    ctx.check(good, "stabilizers", "the stabilizer operators do not span the centre of the check group", ops=ops, want=truth.stab)
    if canonical:
        ctx.check(len(ops) == truth.s and f.independent(ops), "canonical-stabilizers", "canonicalized stabilizers are not independent", ops=ops)
    if ctx.rng.random() < 0.4:
        px = mats.to_int(code.get_stabilizer_ops(Pauli.X, **({"symplectic": True} if hasattr(code, "matrix_x") else {})))
        pz = mats.to_int(code.get_stabilizer_ops(Pauli.Z, **({"symplectic": True} if hasattr(code, "matrix_x") else {})))
        ctx.check(f.same_span(np.vstack([px, pz]).reshape(-1, 2 * n), truth.stab), "stabilizers-by-type", "stabilizers by type do not span the centre")
        ctx.check(not pz[:, :n].any(), "stabilizers-by-type", "Z-type stabilizers have X support")


def gauge(ctx, code, truth):
    from qldpc.objects import Pauli

    f, n, g = truth.f, truth.n, truth.g
    ops = code.get_gauge_ops()
    ctx.check(type(ops) is code.field, "field", "gauge operators over the wrong field")
    ops = mats.to_int(ops)
    if not ctx.check(ops.shape == (2 * g, 2 * n), "gauge-ops", f"gauge operators have shape {ops.shape}, expected {(2 * g, 2 * n)}"):
        return
    both = np.vstack([ops, truth.stab])
    ctx.check(f.same_span(both, truth.gauge) if len(both) else not len(truth.gauge), "gauge-ops",
              "gauge operators and stabilizers do not span the check group", ops=ops)
    form = f.sform(ops, ops) if g else np.zeros((0, 0), dtype=int)
    want = np.zeros((2 * g, 2 * g), dtype=int)
    want[:g, g:] = np.eye(g, dtype=int)
    want[g:, :g] = f.neg(np.eye(g, dtype=int))
    ctx.check(np.array_equal(form, want), "gauge-pairing", "gauge operators do not pair up canonically", ops=ops)
    if g and truth.k:
        logical = mats.to_int(code.get_logical_ops())
        ctx.check(not f.sform(ops, logical).any(), "gauge-logical", "gauge operators do not commute with the logical operators")
    if not hasattr(code, "matrix_x"):
        px, pz = mats.to_int(code.get_gauge_ops(Pauli.X)), mats.to_int(code.get_gauge_ops(Pauli.Z))
        ctx.check(np.array_equal(np.vstack([px, pz]).reshape(-1, 2 * n), ops), "gauge-by-type", "gauge operators by type differ")


def counts(ctx, code, truth):
    ctx.check(code.dimension == truth.k, "count", f"dimension {code.dimension}, true {truth.k}")
    ctx.check(code.gauge_dimension == truth.g, "count", f"gauge dimension {code.gauge_dimension}, true {truth.g}")
    ctx.check(code.rank == truth.r, "count", f"rank {code.rank}, true {truth.r}")
    total = code.dimension + code.gauge_dimension + len(code.get_stabilizer_ops(canonicalized=True))
    ctx.check(total == truth.n == len(code) == code.num_qudits, "count", f"logical + gauge + stabilizers = {total}, qudits {truth.n}")


def dual(ctx, code, truth, depth=0):
    f, n = truth.f, truth.n
    other = code.get_dual_subsystem_code()
    ctx.check(type(code.field) is type(other.field) and other.field is code.field, "field", "the dual subsystem code is over another field")
    checks = mats.to_int(other.matrix).reshape(-1, 2 * n)
    # the gauge group of the dual: stabilizers and bare logical operators of the original
    logical = mats.to_int(code.get_logical_ops())
    ctx.check(f.same_span(checks, np.vstack([truth.stab, logical])), "dual", "the dual's checks are not the stabilizers and logical operators")
    ctx.check((other.dimension, other.gauge_dimension) == (truth.g, truth.k), "dual",
              f"dual has (logical, gauge) = {(other.dimension, other.gauge_dimension)}, expected {(truth.g, truth.k)}")
    ctx.check(other.is_subsystem_code == (truth.k > 0), "dual", "the dual is of the wrong kind")
    reference = qcodes.Truth(f.q, checks, n)
    bad = reference.logical_problems(mats.to_int(other.get_logical_ops()))
    ctx.check(not bad, "dual-logical", f"logical operators of the dual: {bad[:2]}")
    ctx.check(f.same_span(mats.to_int(other.get_stabilizer_ops()).reshape(-1, 2 * n), truth.stab), "dual", "the dual has other stabilizers")
    back = other.get_dual_subsystem_code()
    ctx.check((back.dimension, back.gauge_dimension) == (truth.k, truth.g)
              and f.same_span(mats.to_int(back.matrix).reshape(-1, 2 * n), truth.gauge), "dual-dual", "the dual of the dual has another gauge group")


def observe(ctx, code, truth):
    for step in ctx.rng.permutation([0, 0, 1, 2, 3, 0]):
        if step == 0:
            stabilizers(ctx, code, truth)
        elif step == 1:
            gauge(ctx, code, truth)
        elif step == 2:
            counts(ctx, code, truth)
        else:
            dual(ctx, code, truth)
    gauge(ctx, code, truth)
    stabilizers(ctx, code, truth)


def qudit(ctx, q, count, max_n):
    from qldpc import codes

    for ii in range(count):
        kind, n, checks = qcodes.random_checks(ctx.rng, q, qcodes.KINDS[ii % len(qcodes.KINDS)], max_n=max_n)
        truth = qcodes.Truth(q, checks, n)
        ctx.case("qudit", 0 < truth.r < 2 * n, q=q, kind=kind, checks=checks)
        code = codes.QuditCode(mats.as_input(ctx.rng, checks, q)[1], q)
        ctx.check(code.is_subsystem_code is truth.subsystem, "kind", f"is_subsystem_code = {code.is_subsystem_code}", truth=truth.subsystem)
        observe(ctx, code, truth)
        canon = code.canonicalized
        ctx.check(np.array_equal(mats.to_int(canon.matrix).reshape(-1, 2 * n), truth.gauge) and canon.is_subsystem_code is truth.subsystem,
                  "canonical", "canonicalized code is not the reduced row echelon form")
        ctx.check(code.num_checks == len(checks), "num-checks", "wrong number of checks")
        weights = np.count_nonzero(checks[:, :n] | checks[:, n:], axis=1)
        ctx.check(int(code.get_weight()) == int(weights.max(initial=0)), "weight", f"weight {code.get_weight()}, true {weights.max(initial=0)}")
        copy = codes.QuditCode(code)
        observe(ctx, copy, truth)


def css(ctx, q, count, max_n, subsystem):
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(q)
    for _ in range(count):
        mx, mz = qcodes.random_css(ctx.rng, q, max_n=max_n, subsystem=subsystem)
        truth = qcodes.CSSTruth(q, mx, mz)
        n = truth.n
        ctx.case("css", truth.k + truth.g > 0, q=q, mx=mx, mz=mz)
        code = codes.CSSCode(mx, mz, q)
        ctx.check(code.is_subsystem_code is truth.subsystem, "kind", f"is_subsystem_code = {code.is_subsystem_code}", truth=truth.subsystem)
        observe(ctx, code, truth.full)
        for pauli, sector in [(Pauli.X, "x"), (Pauli.Z, "z")]:
            ops = mats.to_int(code.get_stabilizer_ops(pauli, canonicalized=True))
            ctx.check(ops.shape == truth.stab[sector].shape and f.same_span(ops, truth.stab[sector]), "css-stabilizers",
                      f"{pauli}-type stabilizers do not span the {pauli}-type centre", ops=ops)
            gops = mats.to_int(code.get_gauge_ops(pauli))
            ctx.check(gops.shape == (truth.g, n) and f.same_span(np.vstack([gops, truth.stab[sector]]), truth.gauge[sector])
                      if truth.g else gops.shape == (0, n), "css-gauge", f"{pauli}-type gauge operators", ops=gops)
        if truth.g:
            gx, gz = mats.to_int(code.get_gauge_ops(Pauli.X)), mats.to_int(code.get_gauge_ops(Pauli.Z))
            ctx.check(np.array_equal(f.matmul(gx, gz.T), np.eye(truth.g, dtype=int)), "css-gauge", "gauge operators do not pair up canonically")
        observe(ctx, codes.QuditCode(code), truth.full)


def families(ctx, q, count):
    """Codes whose constructors fix the stabilizers, the kind or the dimension in advance, from seeds with redundant checks."""
    from qldpc import codes
    from qldpc.objects import Pauli

    def seed(max_n=4, max_m=4):
        while True:
            _, mat = mats.random_matrix(ctx.rng, q, max_n=max_n, max_m=max_m)
            if mat.size:
                if ctx.rng.random() < 0.4:
                    mat = np.vstack([mat, mat[ctx.rng.integers(len(mat))]])
                return codes.ClassicalCode(mat, q)

    def hgp():
        return codes.HGPCode(seed(3, 2), seed(3, 2))

    def shp():
        return codes.SHPCode(seed(), seed(), set_logicals=bool(ctx.rng.integers(2)))

    def shp_one():
        return codes.SHPCode(seed(3, 3), set_logicals=False)

    def bacon_shor():
        return codes.BaconShorCode(*map(int, ctx.rng.integers(1, 5, 2)), field=q)

    def stack():
        kinds = [lambda: codes.SHPCode(seed(2, 2), seed(2, 2), set_logicals=False), lambda: codes.FiveQubitCode() if q == 2 else codes.QuditCode(
            qcodes.random_checks(ctx.rng, q, max_n=3)[2], q), lambda: codes.BaconShorCode(2, 2, field=q)]
        return codes.QuditCode.stack(*[kinds[ctx.rng.integers(3)]() for _ in range(2)])

    def conjugate():
        code = [shp, bacon_shor, hgp][ctx.rng.integers(3)]()
        return code.conjugated([int(x) for x in ctx.rng.permutation(len(code))[: ctx.rng.integers(len(code) + 1)]])

    makers = [hgp, shp, shp, shp_one, bacon_shor, stack, conjugate]
    for ii in range(count):
        maker = makers[ii % len(makers)]
        code = maker()
        while len(code) > 18:
            code = maker()
        n = len(code)
        truth = qcodes.Truth(q, mats.to_int(code.matrix).reshape(-1, 2 * n), n)
        ctx.case("family", truth.k + truth.g > 0, q=q, maker=maker.__name__, checks=mats.to_int(code.matrix))
        ctx.see("family")
        if truth.subsystem:
            ctx.check(code.is_subsystem_code is True, "kind", "a code with checks that do not commute is not called a subsystem code")
        first = int(ctx.rng.integers(3))
        if first == 0:
            counts(ctx, code, truth)
        elif first == 1:
            ctx.check(code.gauge_dimension == truth.g, "count", f"gauge dimension {code.gauge_dimension}, true {truth.g}")
        observe(ctx, code, truth)
        observe(ctx, codes.QuditCode(code), truth)
        if isinstance(code, codes.CSSCode):
            for pauli in (Pauli.X, Pauli.Z):
                ops = mats.to_int(code.get_stabilizer_ops(pauli, canonicalized=True, symplectic=True)).reshape(-1, 2 * n)
                sector = slice(n, 2 * n) if pauli is Pauli.X else slice(0, n)
                mine = truth.stab[~truth.stab[:, sector].any(axis=1)] if truth.s else truth.stab
                ctx.check(len(ops) == len(mine) and truth.f.independent(ops) and truth.f.same_span(ops, mine), "css-stabilizers",
                          f"{pauli}-type stabilizers do not span the {pauli}-type centre", ops=ops)


def tiny(ctx, q, n, stride, offset):
    from qldpc import codes

    for mat in itertools.islice(qcodes.subspaces(q, 2 * n), offset, None, stride):
        checks = mat if len(mat) else np.zeros((1, 2 * n), dtype=int)
        truth = qcodes.Truth(q, checks, n)
        ctx.case("tiny", 0 < truth.r < 2 * n, q=q, checks=checks)
        ctx.see("tiny")
        code = codes.QuditCode(checks, q)
        ctx.check(code.is_subsystem_code is truth.subsystem, "kind", "wrong kind of code")
        gauge(ctx, code, truth)
        stabilizers(ctx, code, truth)
        counts(ctx, code, truth)
        dual(ctx, code, truth)


def units(tier, seed):
    big = 10 if tier == "thorough" else 1
    out = []
    for q, count, max_n in [(2, 96, 6), (3, 60, 5), (4, 36, 4), (5, 36, 4), (7, 24, 3), (8, 24, 3), (9, 24, 3)]:
        for part in range(big):
            out.append((f"qudit-{q}-{part}", qudit, (q, count, max_n)))
    for q, count, max_n in [(2, 40, 9), (3, 26, 7), (4, 16, 5), (5, 16, 5), (9, 12, 4)]:
        for sub in (False, True):
            for part in range(big):
                out.append((f"css-{q}-{sub}-{part}", css, (q, count, max_n, sub)))
    for q, count in [(2, 70), (3, 42), (4, 21), (5, 14)]:
        for part in range(big):
            out.append((f"families-{q}-{part}", families, (q, count)))
    out += [("tiny-2-1", tiny, (2, 1, 1, 0)), ("tiny-2-2", tiny, (2, 2, 1, 0)), ("tiny-3-2", tiny, (3, 2, 1, 0)), ("tiny-4-1", tiny, (4, 1, 1, 0))]
    if tier == "thorough":
        out += [(f"tiny-2-3-{i}", tiny, (2, 3, 32, 2 * i)) for i in range(16)] + [("tiny-5-2", tiny, (5, 2, 1, 0))]
    else:
        out += [(f"tiny-2-3-{i}", tiny, (2, 3, 61, (31 * i + seed) % 61)) for i in range(2)]
    return out
