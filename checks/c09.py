import itertools

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF

PROPERTY = "C09"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: a symplectic-geometry oracle (complements, pairing matrix, dimension) over every logical basis the code returns or accepts"
RULE = ("one case per check matrix (12 structural kinds over GF(q), all subspaces for tiny sizes) x query history; "
        "non-trivial when the code has logical qudits and checks")
REQUIRED = {"basis": 400, "css-basis": 150, "recompute": 300, "recompute-set": 300, "by-type": 300, "dimension": 400, "set-accept": 150, "set-reject": 400,
            "tiny": 250, "standard-form": 80, "standard-form-subsystem": 100, "standard-form-css": 100}


def verify(ctx, truth, ops, key, msg="", **witness):
    bad = truth.logical_problems(mats.to_int(ops))
    return ctx.check(not bad, key, f"{msg} {bad[:2]}", ops=ops, **witness)


def queries(ctx, code, truth, rounds=4):
    """Interleave queries of every kind; the basis must stay one valid basis."""
    from qldpc.objects import Pauli

    n, k = truth.n, truth.k
    first = None
    for _ in range(rounds):
        roll = int(ctx.rng.integers(6))
        if roll == 0:
            ops = mats.to_int(code.get_logical_ops())
            verify(ctx, truth, ops, "basis")
            if first is not None:
                ctx.check(np.array_equal(first, ops), "stable", "logical operators changed between queries")
            first = ops
        elif roll == 1:
            ops = mats.to_int(code.get_logical_ops(recompute=True))
            verify(ctx, truth, ops, "recompute")
            ctx.check(np.array_equal(ops, mats.to_int(code.get_logical_ops())), "recompute", "recomputed operators are not the ones in use")
            first = ops
        elif roll == 2:
            ctx.check(code.dimension == k, "dimension", f"dimension {code.dimension}, true {k}")
        elif roll == 3:
            code.get_stabilizer_ops(canonicalized=bool(ctx.rng.integers(2)))
        elif roll == 4:
            code.get_gauge_ops()
        else:
            px, pz = code.get_logical_ops(Pauli.X), code.get_logical_ops(Pauli.Z)
            ops = mats.to_int(code.get_logical_ops())
            px, pz = mats.to_int(px), mats.to_int(pz)
            if px.shape[1:] == (n,) and ops.shape[1] == 2 * n and hasattr(code, "matrix_x"):
                px, pz = np.hstack([px, 0 * px]), np.hstack([0 * pz, pz])
            ctx.check(np.array_equal(ops, np.vstack([px, pz]).reshape(-1, 2 * n)), "by-type", "queries by type differ from the full basis")
            if first is not None:
                ctx.check(np.array_equal(first, ops), "stable", "logical operators changed between queries")
            first = ops
    ops = code.get_logical_ops()
    ctx.check(type(ops) is code.field, "field", f"logical operators are a {type(ops)}")
    verify(ctx, truth, ops, "basis")
    ctx.check(code.dimension == k and code.num_qudits == n, "dimension", f"dimension {code.dimension}, true {k}")
    return mats.to_int(ops)


def qudit(ctx, q, count, max_n):
    from qldpc import codes
    from qldpc.objects import Pauli

    for ii in range(count):
        kind, n, checks = qcodes.random_checks(ctx.rng, q, qcodes.KINDS[ii % len(qcodes.KINDS)], max_n=max_n)
        truth = qcodes.Truth(q, checks, n)
        f = truth.f
        how, given = mats.as_input(ctx.rng, checks, q)
        flags = {}
        if ctx.rng.random() < 0.3:
            flags = {"is_subsystem_code": True if ctx.rng.random() < 0.3 else truth.subsystem}
        ctx.case("qudit", truth.k > 0 and truth.r > 0, q=q, kind=kind, checks=checks, flags=flags)
        code = codes.QuditCode(given, q, **flags)
        ops = queries(ctx, code, truth)
        if not truth.subsystem and not flags.get("is_subsystem_code"):
            again = mats.to_int(code.get_logical_ops(Pauli.Z, recompute=True)).reshape(-1, 2 * n)
            ctx.check(not again[:, :n].any(), "z-type", "logical Z operators of a stabilizer code have X support")
            standard_form(ctx, code, truth)
        elif truth.subsystem and f.rank(truth.gauge[:, :n]) == (f.rank(truth.stab[:, :n]) if truth.s else 0) + truth.g:
            standard_form(ctx, code, truth)  # gauge operators come in X-type and Z-type pairs, as the form requires
        copy = codes.QuditCode(code)
        verify(ctx, truth, copy.get_logical_ops(), "copy")
        ctx.check(copy.dimension == truth.k, "copy", "the copy has another dimension")
        if truth.k and f.q <= 9:
            accept_reject(ctx, codes.QuditCode(checks, q), truth, ops)


def standard_form(ctx, code, truth):
    """The standard form: identity blocks, and the same row span after undoing the qudit permutation."""
    f, n = truth.f, truth.n
    matrix, locs, rows, cols = code.get_standard_form_data()
    matrix = mats.to_int(matrix).reshape(-1, 2, n)
    (rsx, rgx, rsz, rgz), (csx, cgx, clx, csz, cgz, clz) = rows, cols
    key = "standard-form-subsystem" if truth.subsystem else "standard-form"
    back = matrix[:, :, np.argsort(locs)].reshape(-1, 2 * n)
    ctx.check(f.same_span(back, truth.gauge), key, "the standard form is another code", matrix=matrix, locs=locs)
    blocks = [(0, rsx, csx, "S_X"), (1, rsz, csz, "S_Z")]
    if truth.subsystem:
        blocks += [(0, rgx, cgx, "G_X"), (1, rgz, cgz, "G_Z")]
    for xz, rr, cc, name in blocks:
        block = matrix[rr, xz, :][:, cc]
        ctx.check(np.array_equal(block, np.eye(len(block), dtype=int)), key, f"the {name} block is not an identity matrix")
    ctx.check(not matrix[rsz, 0, :].any() and not matrix[rgz, 0, :].any(), key, "Z-type rows have X support")
    ctx.check(sorted(map(int, locs)) == list(range(n)), "standard-form", "qudit locations are not a permutation")
    size = lambda c: len(np.arange(n)[c])  # noqa: E731
    ctx.check(size(clx) == size(clz) == truth.k, "standard-form", "wrong number of logical columns")


def accept_reject(ctx, code, truth, ops, fast=False):
    """User-supplied logical operators: accepted exactly when they are a symplectic basis."""
    from qldpc.objects import Pauli

    f, n, k = truth.f, truth.n, truth.k
    rng = ctx.rng
    mix = qcodes.random_symplectic(rng, f.q, k)
    good = f.matmul(mix, ops)
    if truth.s:
        good = f.add(good, f.matmul(f.random(rng, (2 * k, truth.s)), truth.stab))
    if rng.random() < 0.5:
        code.get_logical_ops()
    with ctx.guard("set-accept", ops=good):
        code.set_logical_ops(good.tolist() if rng.random() < 0.5 else good)
        ctx.check(np.array_equal(mats.to_int(code.get_logical_ops()), good), "set-kept", "the logical operators in use are not the given ones")
        ctx.check(code.dimension == k, "set-dimension", "setting logical operators changed the dimension")
    kept = mats.to_int(code.get_logical_ops())
    cands = []
    for _ in range(4):  # one perturbed operator
        bad = good.copy()
        row = int(rng.integers(2 * k))
        bad[row] = f.add(bad[row], f.random(rng, (2 * n,)) * (rng.random(2 * n) < 0.4))
        cands.append(("perturbed", bad))
    if k > 1:
        bad = good.copy()  # shear inside the X (or Z) block: same-type operators stop commuting
        i, j = rng.choice(k, 2, replace=False)
        off = 0 if rng.random() < 0.5 else k
        bad[off + i] = f.add(bad[off + i], f.mul(int(rng.integers(1, f.q)), bad[(k + j) if not off else j]))
        cands.append(("shear", bad))
        bad = good.copy()
        bad[[0, 1]] = bad[[1, 0]]
        cands.append(("swapped", bad))
        cands.append(("too few", np.vstack([good[: k - 1], good[k : 2 * k - 1]])))
        bad = good.copy()
        bad[i] = f.add(bad[i], bad[j])
        cands.append(("mixed", bad))
    cands.append(("conjugate", np.vstack([good[k:], good[:k]])))
    cands.append(("doubled", np.vstack([good[:k], good[:1], good[k:], good[k : k + 1]])))
    cands.append(("odd", good[:-1]))
    if f.q > 2:
        bad = good.copy()
        bad[0] = f.mul(int(rng.integers(2, f.q)), bad[0])
        cands.append(("scaled", bad))
    if truth.g:
        bad = good.copy()
        bad[int(rng.integers(2 * k))] = f.add(bad[0], truth.gauge[int(rng.integers(len(truth.gauge)))])
        cands.append(("dressed", bad))
    bad = good.copy()
    bad[-1] = 0
    cands.append(("zero", bad))
    for name, cand in cands:
        if len(cand) % 2 == 0 and not truth.logical_problems(cand):
            with ctx.guard("set-accept", ops=cand):
                code.set_logical_ops(cand)
            kept = mats.to_int(code.get_logical_ops())
            ctx.check(np.array_equal(kept, cand), "set-kept", "the logical operators in use are not the given ones")
        else:
            ctx.raises(ValueError, "set-reject", code.set_logical_ops, cand, msg=f"invalid logical operators ({name}) {cand.tolist()}")
            ctx.check(np.array_equal(mats.to_int(code.get_logical_ops()), kept) and code.dimension == k, "reject-keeps",
                      "rejected logical operators are in use")
    with ctx.guard("unvalidated"):
        code.set_logical_ops(good, validate=False)
        ctx.check(np.array_equal(mats.to_int(code.get_logical_ops()), good), "set-kept", "unvalidated logical operators are not in use")
    verify(ctx, truth, code.get_logical_ops(recompute=True), "recompute")
    fresh = mats.to_int(code.get_logical_ops())
    code.set_logical_ops(good)
    half = mats.to_int(code.get_logical_ops(Pauli.X, recompute=True)).reshape(k, -1)
    ctx.check(np.array_equal(half, fresh[:k, : half.shape[1]]) and np.array_equal(mats.to_int(code.get_logical_ops()), fresh), "recompute-set",
              "operators recomputed for one Pauli type are not those recomputed for both", ops=good)


def css(ctx, q, count, max_n, subsystem):
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(q)
    for _ in range(count):
        mx, mz = qcodes.random_css(ctx.rng, q, max_n=max_n, subsystem=subsystem)
        truth = qcodes.CSSTruth(q, mx, mz)
        n, k = truth.n, truth.k
        flags = {}
        if ctx.rng.random() < 0.25:
            flags = {"is_subsystem_code": True if ctx.rng.random() < 0.4 else truth.subsystem}
        ctx.case("css", k > 0, q=q, mx=mx, mz=mz, flags=flags)
        code = codes.CSSCode(mats.as_input(ctx.rng, mx, q)[1] if q > 2 else mx, mz, q, **flags)
        ops = queries(ctx, code, truth.full)
        ctx.check(not ops[:k, n:].any() and not ops[k:, :n].any(), "css-basis", "logical operators of a CSS code are not of X and Z type", ops=ops)
        lx, lz = mats.to_int(code.get_logical_ops(Pauli.X)), mats.to_int(code.get_logical_ops(Pauli.Z))
        ctx.check(lx.shape == lz.shape == (k, n) and np.array_equal(f.matmul(lx, lz.T), np.eye(k, dtype=int)), "css-basis", "X and Z bases are not dual")
        sx, sz = code.get_logical_ops(Pauli.X, symplectic=True), code.get_logical_ops(Pauli.Z, symplectic=True)
        ctx.check(np.array_equal(np.vstack([mats.to_int(sx), mats.to_int(sz)]).reshape(-1, 2 * n), ops), "css-symplectic",
                  "symplectic queries differ from the full basis")
        again = mats.to_int(code.get_logical_ops(Pauli.X, recompute=True))
        ctx.check(again.shape == (k, n) and f.same_span(np.vstack([again, truth.stab["x"]]), np.vstack([truth.bare["x"], truth.stab["x"]])), "css-basis",
                  "X operators and stabilizers do not span everything that commutes with the checks")
        if not flags.get("is_subsystem_code") or truth.subsystem:
            standard_form_css(ctx, code, truth)
        if k:
            target = codes.CSSCode(mx, mz, q)
            mix = mats.random_invertible(ctx.rng, q, k)
            inv = f.inverse(mix).T
            gx, gz = f.matmul(mix, lx), f.matmul(inv, lz)
            with ctx.guard("set-accept", x=gx, z=gz):
                target.set_logical_ops_xz(gx, gz)
                ctx.check(np.array_equal(mats.to_int(target.get_logical_ops(Pauli.X)), gx)
                          and np.array_equal(mats.to_int(target.get_logical_ops(Pauli.Z)), gz), "set-kept", "the logical operators in use are not the given ones")
            fresh = codes.CSSCode(mx, mz, q, **flags)
            for pauli in (None, Pauli.X, Pauli.Z):  # each way of asking to recompute drops the operators that were set
                target.set_logical_ops_xz(gx, gz)
                sector = mats.to_int(target.get_logical_ops(pauli, recompute=True))
                ctx.check(np.array_equal(sector, mats.to_int(fresh.get_logical_ops(pauli))), "recompute-set",
                          f"recomputed operators ({pauli}) are not those of a fresh code", x=gx, z=gz)
                ctx.check(np.array_equal(mats.to_int(target.get_logical_ops()), mats.to_int(fresh.get_logical_ops())), "recompute-set",
                          f"recomputed operators ({pauli}) are not in use afterwards", x=gx, z=gz)
            target.set_logical_ops_xz(gx, gz)
            wrong = gx.copy()
            wrong[0] = f.add(wrong[0], f.random(ctx.rng, (n,)))
            if truth.full.logical_problems(np.vstack([np.hstack([wrong, 0 * wrong]), np.hstack([0 * gz, gz])])):
                ctx.raises(ValueError, "set-reject", target.set_logical_ops_xz, wrong, gz, msg="invalid X operators")
            if k > 1:
                ctx.raises(ValueError, "set-reject", target.set_logical_ops_xz, gx[:-1], gz[:-1], msg="too few operators")
                ctx.raises(ValueError, "set-reject", target.set_logical_ops_xz, gx[::-1], gz, msg="unpaired operators")
            # and general (non-CSS) changes of basis are valid too
            accept_reject(ctx, codes.CSSCode(mx, mz, q), truth.full, np.vstack([np.hstack([lx, 0 * lx]), np.hstack([0 * lz, lz])]))
        general = codes.QuditCode(truth.full.checks, q)
        verify(ctx, truth.full, general.get_logical_ops(), "basis", "as a QuditCode:")
        lifted = codes.QuditCode(code)
        verify(ctx, truth.full, lifted.get_logical_ops(recompute=bool(ctx.rng.integers(2))), "basis", "copied into a QuditCode:")


def standard_form_css(ctx, code, truth):
    f, n = truth.f, truth.n
    mx, mz, locs, rows, cols = code.get_standard_form_data_xz()
    mx, mz = mats.to_int(mx).reshape(-1, n), mats.to_int(mz).reshape(-1, n)
    (rsx, rgx, rsz, rgz), (csx, cgx, clx, csz, cgz, clz) = rows, cols
    back = np.argsort(locs)
    ctx.check(f.same_span(mx[:, back], truth.mx) and f.same_span(mz[:, back], truth.mz), "standard-form-css", "the standard form is another code")
    sectors = [(mx, rsx, csx, "S_X"), (mz, rsz, csz, "S_Z")]
    if truth.subsystem:
        sectors += [(mx, rgx, cgx, "G_X"), (mz, rgz, cgz, "G_Z")]
    for mat, rr, cc, name in sectors:
        block = mat[rr][:, cc]
        ctx.check(np.array_equal(block, np.eye(len(block), dtype=int)), "standard-form-css", f"the {name} block is not an identity matrix", block=block)
    ctx.check(f.same_span(mx[rsx][:, back], truth.stab["x"]) and f.same_span(mz[rsz][:, back], truth.stab["z"]), "standard-form-css",
              "the stabilizer rows do not span the stabilizers")
    size = lambda c: len(np.arange(n)[c])  # noqa: E731
    ctx.check(size(clx) == size(clz) == truth.k, "standard-form-css", "wrong number of logical columns")


def tiny(ctx, q, n, stride, offset):
    """Every subspace of GF(q)^(2n) as a gauge group."""
    from qldpc import codes

    for mat in itertools.islice(qcodes.subspaces(q, 2 * n), offset, None, stride):
        checks = mat if len(mat) else np.zeros((1, 2 * n), dtype=int)
        truth = qcodes.Truth(q, checks, n)
        ctx.case("tiny", truth.k > 0 and truth.r > 0, q=q, checks=checks)
        code = codes.QuditCode(checks, q)
        ctx.check(code.is_subsystem_code == truth.subsystem, "subsystem", "wrong kind of code")
        if ctx.rng.random() < 0.5:
            ctx.check(code.dimension == truth.k, "dimension", f"dimension {code.dimension}, true {truth.k}")
        verify(ctx, truth, code.get_logical_ops(), "tiny")
        ctx.check(code.dimension == truth.k, "dimension", f"dimension {code.dimension}, true {truth.k}")


def larger(ctx, q, sizes):
    """Longer random codes, where pivots are spread over many columns."""
    from qldpc import codes

    for n in sizes:
        for kind in ("stabilizer", "subsystem", "css", "css-subsystem", "stabilizer-sparse"):
            _, n, checks = qcodes.random_checks(ctx.rng, q, kind, max_n=n, min_n=n)
            truth = qcodes.Truth(q, checks, n)
            ctx.case("larger", truth.k > 0, q=q, kind=kind, n=n, checks=checks)
            code = codes.QuditCode(checks, q)
            verify(ctx, truth, code.get_logical_ops(), "basis")
            ctx.check(code.dimension == truth.k, "dimension", f"dimension {code.dimension}, true {truth.k}")
            if kind.startswith("css"):
                split = checks[:, n:].any(axis=1)
                css_code = codes.CSSCode(checks[~split][:, :n], checks[split][:, n:], q) if split.any() and (~split).any() else None
                if css_code is not None:
                    verify(ctx, truth, css_code.get_logical_ops(), "css-basis")


def units(tier, seed):
    big = 10 if tier == "thorough" else 1
    out = []
    for q, count, max_n in [(2, 144, 7), (3, 96, 5), (4, 48, 4), (5, 48, 4), (7, 24, 3), (8, 24, 3), (9, 24, 3)]:
        for part in range(big):
            out.append((f"qudit-{q}-{part}", qudit, (q, count, max_n)))
    for q, count, max_n in [(2, 36, 9), (3, 26, 7), (4, 16, 6), (5, 16, 6), (9, 12, 5)]:
        for sub in (False, True):
            for part in range(big):
                out.append((f"css-{q}-{sub}-{part}", css, (q, count, max_n, sub)))
    out.append(("tiny-2-1", tiny, (2, 1, 1, 0)))
    out.append(("tiny-2-2", tiny, (2, 2, 1, 0)))
    out.append(("tiny-3-2", tiny, (3, 2, 1, 0)))
    out.append(("tiny-4-1", tiny, (4, 1, 1, 0)))
    if tier == "thorough":
        out += [(f"tiny-2-3-{i}", tiny, (2, 3, 16, i)) for i in range(16)] + [("tiny-4-2", tiny, (4, 2, 1, 0)), ("tiny-5-2", tiny, (5, 2, 1, 0))]
    else:
        out += [(f"tiny-2-3-{i}", tiny, (2, 3, 19, (5 * i + seed) % 19)) for i in range(2)]
    out.append(("larger-2", larger, (2, [12, 16, 20, 30, 40] * big)))
    out.append(("larger-3", larger, (3, [10, 14] * big)))
    return out
