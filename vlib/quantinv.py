"""Everything a QuditCode answers about itself, against the structure derived from its checks."""

import copy
import warnings

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF


def warm(rng, code, probability=0.6):
    """Ask a code a few things (which it may remember) before it is used for something else."""
    asks = [
        lambda: code.get_logical_ops(), lambda: code.dimension, lambda: code.gauge_dimension, lambda: code.canonicalized,
        lambda: code.get_stabilizer_ops(), lambda: code.get_stabilizer_ops(canonicalized=True), lambda: code.get_gauge_ops(),
        lambda: code.rank, lambda: code.get_distance_if_known(), lambda: code.get_weight(), lambda: code.graph, lambda: code.get_strings(),
        lambda: code.num_checks,
    ]
    if hasattr(code, "matrix_x"):
        asks += [lambda: code.code_x.generator, lambda: code.code_z.rank, lambda: code.num_checks_x, lambda: code.matrix]
    for step in rng.permutation(len(asks)):
        if rng.random() < probability / 2:
            asks[step]()


def audit(ctx, code, q, checks, what, *, name="audit", limit=20_000, flag=True, parts=None):
    """`checks`: the parity checks that the code should have (as a set of generators of its gauge group).

    Queries are made in a random order.  `flag`: whether is_subsystem_code is required to be exact.
    """
    from qldpc import codes
    from qldpc.objects import Pauli

    f, rng = GF(q), ctx.rng
    checks = np.asarray(checks, dtype=int)
    n = checks.shape[1] // 2
    truth = qcodes.Truth(q, checks, n)
    css = hasattr(code, "matrix_x")
    sectors = {}
    if css:
        mx, mz = mats.to_int(code.matrix_x), mats.to_int(code.matrix_z)
        sectors = {Pauli.X: mx, Pauli.Z: mz}

    def say(cond, text, **witness):
        return ctx.check(cond, name, f"{what}: {text}", **witness)

    def true_distance():
        return truth.distance(limit) if q ** (truth.r + 2 * truth.k) <= limit else None

    def true_distance_of(sector):
        sub = qcodes.CSSTruth(q, mx, mz)
        return sub.distance(sector, limit) if q ** (len(sub.gauge[sector]) + sub.k) <= limit else None

    def wide(ops):
        return mats.to_int(ops).reshape(-1, 2 * n)

    def span(ops, want):
        ops = wide(ops)
        return f.same_span(ops, want) if len(ops) and len(want) else not ops.any() and not np.any(want)

    def sizes():
        say(len(code) == code.num_qudits == n and code.field.order == q, f"length {len(code)} or field, should be {n}, GF({q})")
        if q == 2:
            say(code.num_qubits == n, "number of qubits")

    def matrix():
        say(type(code.matrix) is code.field and span(code.matrix, checks), "the checks span another group", got=code.matrix, want=checks)
        say(code.num_checks == len(code.matrix), f"{code.num_checks} checks")
        rows = wide(code.matrix)
        weights = ((rows[:, :n] != 0) | (rows[:, n:] != 0)).sum(axis=1)
        say(code.get_weight() == max(weights, default=0), f"weight {code.get_weight()}")
        if css:
            say(np.array_equal(rows, np.vstack([np.hstack([mx, 0 * mx]), np.hstack([0 * mz, mz])])), "sector matrices do not make up the matrix")
            say((code.num_checks_x, code.num_checks_z) == (len(mx), len(mz)), "numbers of checks by type")

    def counts():
        say(code.dimension == truth.k, f"dimension {code.dimension}, true {truth.k}")
        say(code.gauge_dimension == truth.g, f"gauge dimension {code.gauge_dimension}, true {truth.g}")
        say(code.rank == truth.r, f"rank {code.rank}, true {truth.r}")
        if flag:
            say(code.is_subsystem_code == truth.subsystem, f"is_subsystem_code is {code.is_subsystem_code}")

    def stabilizers():
        canonical = bool(rng.integers(2))
        ops = code.get_stabilizer_ops(canonicalized=canonical)
        say(type(ops) is code.field and span(ops, truth.stab), "the stabilizers are not the centre of the check group", got=ops, want=truth.stab)
        if canonical:
            say(len(ops) == truth.s, f"{len(ops)} canonical stabilizers, should be {truth.s}")
        if css:
            for pauli, offset in [(Pauli.X, 0), (Pauli.Z, n)]:
                want = [row for row in qcodes.CSSTruth(q, mx, mz).stab["x" if pauli is Pauli.X else "z"]]
                got = mats.to_int(code.get_stabilizer_ops(pauli, canonicalized=canonical)).reshape(-1, n)
                say(f.same_span(got, np.array(want)) if len(got) and len(want) else not got.any() and not np.any(want), f"stabilizers of type {pauli}", got=got)

    def gauge():
        ops = wide(code.get_gauge_ops())
        if not say(len(ops) == 2 * truth.g, f"{len(ops)} gauge operators, should be {2 * truth.g}"):
            return
        say(span(np.vstack([ops, truth.stab]), truth.gauge), "gauge operators and stabilizers do not span the check group", got=ops)
        if len(ops):
            eye, zero = np.eye(truth.g, dtype=int), np.zeros((truth.g, truth.g), dtype=int)
            say(np.array_equal(f.sform(ops, ops), np.block([[zero, eye], [f.neg(eye), zero]])), "the gauge operators do not pair up", got=ops)
            if truth.k:
                say(not f.sform(ops, wide(code.get_logical_ops())).any(), "gauge and logical operators do not commute")

    def logical():
        ops = wide(code.get_logical_ops())
        bad = truth.logical_problems(ops)
        if say(not bad, f"logical operators: {bad[:2]}", got=ops) and truth.k:
            if css:
                x, z = (mats.to_int(code.get_logical_ops(pauli)) for pauli in (Pauli.X, Pauli.Z))
                say(np.array_equal(x, ops[: truth.k, :n]) and np.array_equal(z, ops[truth.k :, n:]), "logical operators by type")
            else:
                x, z = (mats.to_int(code.get_logical_ops(pauli)) for pauli in (Pauli.X, Pauli.Z))
                say(np.array_equal(np.vstack([x, z]), ops), "logical operators by type")
            fresh = codes.QuditCode(mats.to_int(code.matrix), q)
            with ctx.guard(name, what=what):
                fresh.set_logical_ops(code.get_logical_ops())

    def known():
        got = code.get_distance_if_known()
        if truth.k == 0:
            say(got is not None and got != got, f"distance of a code without logical qudits is {got}")
        elif got is not None:
            want = true_distance()
            say(want is None or got == want, f"known distance {got}, true {want}")
        if css and truth.k:
            for pauli in (Pauli.X, Pauli.Z):
                got = code.get_distance_if_known(pauli)
                if got is not None:
                    want = true_distance_of("x" if pauli is Pauli.X else "z")
                    say(want is None or got == want, f"known distance {got} of type {pauli}, true {want}")

    def distances():
        if not truth.k or q ** (truth.r + 2 * truth.k) > limit / 10:
            return
        want = truth.distance(limit)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if want is not None and (q == 2 or q ** (truth.r + 2 * truth.k) < 600):
                got = code.get_distance()
                say(got == want, f"distance {got}, true {want}")
                say(code.get_code_params() == (n, truth.k, want), f"parameters {code.get_code_params()}")

    def views():
        fresh = codes.QuditCode.from_strings(*code.get_strings(), field=q) if code.num_checks else code
        say(np.array_equal(wide(fresh.matrix), wide(code.matrix)), "strings", got=code.get_strings())
        again = codes.QuditCode.graph_to_matrix(code.graph)
        say(np.array_equal(wide(again), wide(code.matrix)) and type(again) is code.field, "Tanner graph")
        canon = code.canonicalized
        say(span(canon.matrix, checks) and len(canon.matrix) >= truth.r, "the canonicalized code is another code")
        say(canon.dimension == truth.k, "dimension of the canonicalized code")
        twin = copy.deepcopy(code) if rng.random() < 0.5 else copy.copy(code)
        say(twin == code and np.array_equal(wide(twin.matrix), wide(code.matrix)), "a copy differs")
        if css:
            for pauli, mat in sectors.items():
                sub = code.get_code(pauli)
                say(np.array_equal(mats.to_int(sub.matrix), mat) and np.array_equal(mats.to_int(code.get_matrix(pauli)), mat), "sector code")

    def dual():
        other = code.get_dual_subsystem_code()
        want = np.vstack([truth.stab, wide(code.get_logical_ops())])
        say(span(other.matrix, want) and other.dimension == truth.g and other.gauge_dimension == truth.k, "dual subsystem code", got=other.matrix)

    def error_types():
        rows = wide(code.matrix)
        if len(rows) and truth.k:
            pick = rng.integers(len(rows))
            say(not f.sform(rows[pick : pick + 1], wide(code.get_logical_ops())).any(), "a check does not commute with the logical operators")

    todo = [sizes, matrix, counts, stabilizers, gauge, logical, known, distances, views, dual, error_types]
    for step in rng.permutation(len(todo)):
        if parts is None or todo[step].__name__ in parts:
            todo[step]()
    if rng.random() < 0.5:  # once more, with everything remembered
        for func in (logical, counts, known, stabilizers):
            if parts is None or func.__name__ in parts:
                func()
    return truth
