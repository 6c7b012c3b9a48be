import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF, coset_min_weight

PROPERTY = "C11"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: sector views against block decomposition of the symplectic views, and invariants (coset, pairing, weight) over reduction histories"
RULE = ("one case per CSS code (stabilizer/subsystem, GF(q)) x reduction history (decoder, order, copies, user-set bases); "
        "non-trivial when the code has logical qudits")
REQUIRED = {"views": 500, "stabilizer-views": 500, "canonical-views": 300, "logical-views": 300, "random-logical": 1000, "random-nontrivial": 500,
            "reduce-weight": 500, "reduce-coset": 500, "reduce-basis": 250, "reduce-isolated": 150, "reduce-exact": 100, "reject": 100, "sizes": 40}


def build(ctx, q, max_n, subsystem):
    from qldpc import codes

    mx, mz = qcodes.random_css(ctx.rng, q, max_n=max_n, subsystem=subsystem)
    truth = qcodes.CSSTruth(q, mx, mz)
    code = codes.CSSCode(mats.as_input(ctx.rng, mx, q)[1], mz, q) if q > 2 else codes.CSSCode(codes.ClassicalCode(mx), mz)
    return mx, mz, truth, code


def views(ctx, q, count, max_n, subsystem):
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(q)
    for _ in range(count):
        mx, mz, truth, code = build(ctx, q, max_n, subsystem)
        n, k = truth.n, truth.k
        ctx.case("views", k > 0, q=q, mx=mx, mz=mz)
        full = truth.full.checks
        for step in ctx.rng.permutation(4):
            if step == 0:
                ctx.check(np.array_equal(mats.to_int(code.matrix), full) and type(code.matrix) is code.field, "views", "the full check matrix is not block diagonal")
                ctx.check(np.array_equal(mats.to_int(code.matrix_x), mx) and np.array_equal(mats.to_int(code.matrix_z), mz), "views", "X/Z check matrices")
                for pauli, mat, sub in [(Pauli.X, mx, code.code_x), (Pauli.Z, mz, code.code_z)]:
                    ctx.check(np.array_equal(mats.to_int(code.get_matrix(pauli)), mat) and code.get_code(pauli) == sub
                              and np.array_equal(mats.to_int(sub.matrix), mat), "views", "checks of one type")
                ctx.check((code.num_checks_x, code.num_checks_z, code.num_checks) == (len(mx), len(mz), len(mx) + len(mz)), "views", "numbers of checks")
                ctx.check(len(code) == code.num_qudits == n and code.rank == f.rank(mx) + f.rank(mz) == truth.full.r, "views", "length or rank")
                weight = max(np.count_nonzero(mx, axis=1).max(initial=0), np.count_nonzero(mz, axis=1).max(initial=0))
                ctx.check(int(code.get_weight()) == int(weight), "views", f"weight {code.get_weight()}, true {weight}")
                canon = code.canonicalized
                ctx.check(f.same_span(canon.matrix_x, mx) and f.same_span(canon.matrix_z, mz) and len(canon.matrix_x) == f.rank(mx)
                          and len(canon.matrix_z) == f.rank(mz) and canon.is_subsystem_code is truth.subsystem, "views", "canonicalized code")
            elif step == 1:
                for pauli, sector in [(Pauli.X, "x"), (Pauli.Z, "z")]:
                    for canonical in ctx.rng.permutation([True, False]):
                        for sym in (True, False):
                            ops = mats.to_int(code.get_stabilizer_ops(pauli, canonicalized=bool(canonical), symplectic=sym))
                            if sym:
                                other = ops[:, n:] if sector == "x" else ops[:, :n]
                                ctx.check(not other.any() and ops.shape[1] == 2 * n, "stabilizer-views", "a stabilizer of one type has the other type")
                                ops = ops[:, :n] if sector == "x" else ops[:, n:]
                            ctx.check(ops.shape[1] == n and f.same_span(ops, truth.stab[sector]), "stabilizer-views",
                                      f"{pauli} stabilizers (canonicalized={canonical}, symplectic={sym})", ops=ops)
                            if canonical:
                                ctx.check(len(ops) == len(truth.stab[sector]), "canonical-views", "canonicalized stabilizers are not independent", ops=ops)
                everything = mats.to_int(code.get_stabilizer_ops(canonicalized=bool(ctx.rng.integers(2))))
                ctx.check(f.same_span(everything, truth.full.stab), "stabilizer-views", "all stabilizers")
                ctx.check(not (everything[:, :n].any(axis=1) & everything[:, n:].any(axis=1)).any(), "stabilizer-views", "stabilizers mix X and Z")
            elif step == 2:
                everything = mats.to_int(code.get_logical_ops())
                for pauli, rows, cols in [(Pauli.X, slice(0, k), slice(0, n)), (Pauli.Z, slice(k, 2 * k), slice(n, 2 * n))]:
                    part = mats.to_int(code.get_logical_ops(pauli))
                    ctx.check(np.array_equal(part, everything[rows, cols]), "logical-views", f"{pauli} logical operators differ from the full view")
                    part = mats.to_int(code.get_logical_ops(pauli, symplectic=True))
                    ctx.check(np.array_equal(part, everything[rows]), "logical-views", f"symplectic {pauli} logical operators differ from the full view")
            else:
                everything = mats.to_int(code.get_gauge_ops())
                g = truth.g
                for pauli, rows, cols in [(Pauli.X, slice(0, g), slice(0, n)), (Pauli.Z, slice(g, 2 * g), slice(n, 2 * n))]:
                    part = mats.to_int(code.get_gauge_ops(pauli))
                    ctx.check(np.array_equal(part, everything[rows, cols]), "gauge-views", f"{pauli} gauge operators differ from the full view")
                    part = mats.to_int(code.get_gauge_ops(pauli, symplectic=True))
                    ctx.check(np.array_equal(part, everything[rows]), "gauge-views", f"symplectic {pauli} gauge operators differ from the full view")
        # random logical operators
        for pauli, sector in [(Pauli.X, "x"), (Pauli.Z, "z")]:
            seen = set()
            logical = np.vstack([truth.bare[sector], truth.stab[sector]])
            dual = mats.to_int(code.get_logical_ops(Pauli.Z if sector == "x" else Pauli.X))
            for _ in range(12):
                op = mats.to_int(code.get_random_logical_op(pauli))
                ctx.check(op.shape == (n,) and f.in_span(op, logical), "random-logical", "a random logical operator is not one", op=op)
                if k:
                    seed = int(ctx.rng.integers(2**31))
                    op = mats.to_int(code.get_random_logical_op(pauli, ensure_nontrivial=True, seed=seed))
                    ctx.check(f.in_span(op, logical) and not f.in_span(op, truth.gauge[sector]), "random-nontrivial", "not a nontrivial logical operator", op=op)
                    seen.add(tuple(f.matmul(dual, op).tolist()))
                    again = mats.to_int(code.get_random_logical_op(pauli, ensure_nontrivial=True, seed=seed))
                    ctx.check(np.array_equal(op, again), "random-seed", "same seed, different operator")
            if k and q**k > 4:
                ctx.check(len(seen) > 1, "random-varies", "random nontrivial operators have one class only")
        if k and q**k <= 9:
            dual = mats.to_int(code.get_logical_ops(Pauli.Z))
            classes = {tuple(f.matmul(dual, mats.to_int(code.get_random_logical_op(Pauli.X, seed=s))).tolist()) for s in range(30 * q**k)}
            ctx.check(len(classes) == q**k, "random-covers", f"random operators only cover {len(classes)} of {q**k} logical classes")


def reduce(ctx, q, count, max_n, subsystem):
    from qldpc import codes
    from qldpc.objects import Pauli

    f = GF(q)
    done = 0
    while done < count:
        mx, mz, truth, code = build(ctx, q, max_n, subsystem)
        n, k = truth.n, truth.k
        if not k:
            continue
        done += 1
        opts = [{}, {}]
        if q == 2:
            opts += [{"with_ILP": True}, {"with_BP_OSD": True, "osd_order": 0}]
        else:
            opts += [{"with_GUF": True}]
        if q**n <= 800:
            opts += [{"with_lookup": True, "max_weight": n}]
        opts = opts[int(ctx.rng.integers(len(opts)))]
        exact = "with_ILP" in opts or "with_lookup" in opts
        ctx.case("reduce", True, q=q, mx=mx, mz=mz, options=sorted(opts), history=int(ctx.rng.integers(10**9)))
        # a heavy, possibly user-set starting basis
        lx, lz = mats.to_int(code.get_logical_ops(Pauli.X)), mats.to_int(code.get_logical_ops(Pauli.Z))
        mine = None
        if ctx.rng.random() < 0.7:
            if len(truth.stab["x"]):
                lx = f.add(lx, f.matmul(f.random(ctx.rng, (k, len(truth.stab["x"]))), truth.stab["x"]))
            if len(truth.stab["z"]):
                lz = f.add(lz, f.matmul(f.random(ctx.rng, (k, len(truth.stab["z"]))), truth.stab["z"]))
            mine = np.vstack([np.hstack([lx, 0 * lx]), np.hstack([0 * lz, lz])])
            if ctx.rng.random() < 0.3:
                mine = np.asfortranarray(mine)
            code.set_logical_ops(code.field(mine) if ctx.rng.random() < 0.4 else mine)
        start = mats.to_int(code.get_logical_ops())
        given = mine.copy() if mine is not None else None
        twin = codes.QuditCode(code)
        held = code.get_logical_ops()
        held_values = mats.to_int(held)
        before = start
        steps = [("x", i) for i in range(k)] + [("z", i) for i in range(k)]
        history = [steps[i] for i in ctx.rng.integers(0, len(steps), 3)] + ["all", "type", "again"]
        for step in history:
            try:
                if step in ("all", "again"):
                    code.reduce_logical_ops(**dict(opts))
                    touched = steps
                elif step == "type":
                    sector = "xz"[int(ctx.rng.integers(2))]
                    code.reduce_logical_ops(Pauli.X if sector == "x" else Pauli.Z, **dict(opts))
                    touched = [s for s in steps if s[0] == sector]
                else:
                    code.reduce_logical_op(Pauli.X if step[0] == "x" else Pauli.Z, step[1], **dict(opts))
                    touched = [step]
            except Exception as error:  # noqa: BLE001
                ctx.violate("reduce-raises", f"{type(error).__name__}: {error}")
                break
            after = mats.to_int(code.get_logical_ops())
            bad = truth.full.logical_problems(after)
            ctx.check(not bad and not after[:k, n:].any() and not after[k:, :n].any(), "reduce-basis", f"after reduction: {bad[:2]}", ops=after)
            for sector, i in steps:
                row = i if sector == "x" else k + i
                cols = slice(0, n) if sector == "x" else slice(n, 2 * n)
                old, new = before[row, cols], after[row, cols]
                if (sector, i) not in touched:
                    ctx.check(np.array_equal(old, new), "reduce-others", "an operator that was not to be reduced changed")
                    continue
                ctx.check(np.count_nonzero(new) <= np.count_nonzero(old), "reduce-weight",
                          f"weight grew from {np.count_nonzero(old)} to {np.count_nonzero(new)}", before=old, after=new)
                ctx.check(f.in_span(f.sub(new, old), truth.stab[sector]) if len(truth.stab[sector]) else np.array_equal(new, old), "reduce-coset",
                          "a reduced operator acts differently on the logical qudits", before=old, after=new)
                if exact:
                    coset = f.add(f.words(truth.stab[sector]), old[None, :]) if len(truth.stab[sector]) else old[None, :]
                    true = int(np.count_nonzero(coset, axis=1).min())
                    ctx.check(np.count_nonzero(new) == true, "reduce-exact", f"weight {np.count_nonzero(new)} with an exact decoder, minimum {true}")
            before = after
        ctx.check(code.dimension == k, "reduce-dimension", "the dimension changed")
        ctx.check(np.array_equal(mats.to_int(twin.get_logical_ops()), start), "reduce-isolated", "reducing a code changed a copy of it")
        ctx.check(np.array_equal(held_values, mats.to_int(held)), "reduce-isolated", "reducing a code changed an array returned earlier")
        if mine is not None:
            ctx.check(np.array_equal(mine, given), "reduce-isolated", "reducing a code changed the caller's array")


def reject(ctx, count):
    """Sectors that do not fit together, and questions about qubits put to codes of qudits."""
    from qldpc import codes

    for _ in range(count):
        q, other = (int(v) for v in ctx.rng.permutation([2, 3, 4, 5])[:2])
        n = int(ctx.rng.integers(1, 6))
        f, g = GF(q), GF(other)
        zeros = [np.zeros((1, n + d), dtype=int) for d in (0, 1)]
        ctx.case("reject", True, q=q, other=other, n=n)
        for one, two in ([(zeros[0], zeros[1]), (zeros[1], zeros[0])] + [(f.random(ctx.rng, (2, n)), zeros[1])]):
            ctx.raises(ValueError, "reject", codes.CSSCode, one, two, q, msg="sectors of different lengths")
            ctx.raises(ValueError, "reject", codes.CSSCode, codes.ClassicalCode(one, q), codes.ClassicalCode(two, q), msg="sectors of different lengths")
        ctx.raises(ValueError, "reject", codes.CSSCode, codes.ClassicalCode(zeros[0], q), codes.ClassicalCode(zeros[0], other), msg="sectors over different fields")
        for code in (codes.CSSCode(zeros[0], zeros[0], q), codes.QuditCode(np.zeros((1, 2 * n), dtype=int), q)):
            ctx.check(code.num_qudits == len(code) == n, "sizes", "wrong number of qudits")
            if q == 2:
                ctx.check(code.num_qubits == n, "sizes", "wrong number of qubits")
            else:
                ctx.raises(ValueError, "reject", lambda: code.num_qubits, msg="the number of qubits of a code of qudits")


def units(tier, seed):
    big = 10 if tier == "thorough" else 1
    out = []
    for q, count, max_n in [(2, 30, 9), (3, 20, 6), (4, 12, 5), (5, 12, 5), (9, 8, 4)]:
        for sub in (False, True):
            for part in range(big):
                out.append((f"views-{q}-{sub}-{part}", views, (q, count, max_n, sub)))
    for q, count, max_n in [(2, 30, 9), (3, 16, 6), (4, 8, 5), (5, 8, 5), (7, 6, 4)]:
        for sub in (False, True):
            for part in range(big):
                out.append((f"reduce-{q}-{sub}-{part}", reduce, (q, count, max_n, sub)))
    out.append(("reject", reject, (20 * big,)))
    return out
