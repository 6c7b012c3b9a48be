"""C25: results depend only on inputs and seeds; queries and inputs are pure.

Four monitors over the real code:
  seeds      every seeded construction, called again with the same seed on the same and on a fresh object, in
             the middle of unrelated random work, is compared by digest; many seeds give many results; unseeded
             calls vary; seeded array constructions leave numpy's global state alone;
  processes  a table of ~330 named constructions is digested in processes with different string-hash seeds,
             orders and disturbances, and compared across processes;
  histories  random query histories (with copies, repeated queries, seeded and unseeded random queries) on one
             object, every answer compared with that of a fresh object asked nothing else, the defining data
             digested after every step;
  inputs     the arguments of public calls are digested before and after.
"""

from __future__ import annotations

import copy
import json
import os
import random
import subprocess
import sys

import numpy as np

from vlib import core, digests, grp, mats, probe25, qcodes

PROPERTY = "C25"
ROUNDS = {"quick": 2}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: digests of answers across repeated, reordered and copied query histories, fresh objects, and processes "
             "with different hash seeds; snapshots of defining data and of caller-owned arguments around every call")
RULE = ("one case per (construction, seed), per process run, per (object, query history) and per (call, arguments); a history is "
        "non-trivial when it has at least two different queries on an object that is not degenerate")
REQUIRED = {"seed-repeat": 400, "seed-varies": 30, "unseeded-varies": 6, "numpy-state": 350, "process": 600, "query": 1700, "defining": 1900,
            "copy": 60, "inputs": 350, "history": 120, "inputs-value": 180, "process-values": 300}


def disturb(rng):
    """Unrelated work on the global generators."""
    import sympy.core.random

    roll = int(rng.integers(5))
    if roll == 0:
        np.random.seed(int(rng.integers(2**31)))
    elif roll == 1:
        np.random.random(int(rng.integers(1, 50)))
    elif roll == 2:
        random.seed(int(rng.integers(2**31)))
    elif roll == 3:
        sympy.core.random.seed(int(rng.integers(2**31)))
    else:
        sympy.core.random.random()


# ------------------------------------------------------------------------------------------------ seeds


def constructions():
    """(name, fresh object builder or None, call(object, seed), enough outcomes for different seeds to differ)."""
    import galois

    from qldpc import abstract, codes
    from qldpc.codes.common import get_random_array
    from qldpc.objects import Pauli

    out = []
    for q in (2, 3, 4, 8, 9):
        out.append((f"ClassicalCode.random/{q}", None, lambda _, s, q=q: codes.ClassicalCode.random(7, 4, field=q, seed=s), True))
        out.append((f"get_random_array/{q}", None, lambda _, s, q=q: get_random_array(galois.GF(q), (4, 5), seed=s), True))
        out.append((f"get_random_array-satisfy/{q}", None, lambda _, s, q=q: get_random_array(
            galois.GF(q), (3,), satisfy=lambda a: np.count_nonzero(a) == 3, seed=s), q > 2))
        out.append((f"get_random_word/{q}", lambda q=q: codes.HammingCode(3 if q == 2 else 2, q), lambda c, s: c.get_random_word(seed=s), True))
    for name, build in {
        "toric": lambda: codes.ToricCode(4, rotated=True), "surface3": lambda: codes.SurfaceCode(3, rotated=False, field=3),
        "iceberg": lambda: codes.IcebergCode(4), "bacon": lambda: codes.BaconShorCode(3), "hgp4": lambda: codes.HGPCode(codes.RepetitionCode(3, field=4)),
    }.items():
        for pauli in (Pauli.X, Pauli.Z):
            for flag in (False, True):
                out.append((f"get_random_logical_op/{name}/{pauli}/{flag}", build,
                            lambda c, s, pauli=pauli, flag=flag: c.get_random_logical_op(pauli, ensure_nontrivial=flag, seed=s), True))
    groups = {
        "C30": lambda: abstract.CyclicGroup(30), "D12": lambda: abstract.DihedralGroup(12), "S5": lambda: abstract.SymmetricGroup(5),
        "A7": lambda: abstract.AlternatingGroup(7), "S8": lambda: abstract.SymmetricGroup(8), "Q8": abstract.QuaternionGroup,
        "C5xS3": lambda: abstract.CyclicGroup(5) * abstract.SymmetricGroup(3), "SL23": lambda: abstract.SL(2, 3), "PSL25": lambda: abstract.PSL(2, 5),
        "custom": lambda: abstract.Group(abstract.GroupMember([1, 2, 3, 4, 0, 5, 6, 7]), abstract.GroupMember([0, 1, 2, 3, 4, 6, 7, 5])),
        "S4-table": lambda: abstract.Group.from_table(abstract.SymmetricGroup(4).table),
    }
    for name, build in groups.items():
        out.append((f"Group.random/{name}", build, lambda g, s: g.random(seed=s), True))
        out.append((f"random_symmetric_subset/{name}", build, lambda g, s: g.random_symmetric_subset(4, seed=s), name not in ("Q8", "SL23")))
        out.append((f"random_symmetric_subset-noid/{name}", build, lambda g, s: g.random_symmetric_subset(
            3 if g.order % 2 == 0 else 2, exclude_identity=True, seed=s), name not in ("Q8", "SL23")))
    out.append(("TrivialGroup.random", abstract.TrivialGroup, lambda g, s: g.random(seed=s), False))
    for name, build in {"C12": lambda: abstract.CyclicGroup(12), "D6": lambda: abstract.DihedralGroup(6), "C15": lambda: abstract.CyclicGroup(15)}.items():
        sub = 4 if name != "C15" else 3
        out.append((f"QTCode.random/{name}", build, lambda g, s, sub=sub: codes.QTCode.random(g, codes.RepetitionCode(sub), seed=s), True))
        out.append((f"QTCode.random-one/{name}", build, lambda g, s, sub=sub: codes.QTCode.random(
            g, codes.RepetitionCode(sub, field=3), one_subset=True, seed=s), True))
        out.append((f"QTCode.random-bipartite/{name}", build, lambda g, s: codes.QTCode.random(
            g, codes.RepetitionCode(2), codes.RepetitionCode(2), bipartite=True, seed=s), False))
    return out


def seeds(ctx, part, parts):
    table = constructions()[part::parts]
    fixed = [0, 1, 2**31 - 1, np.int64(12345), 2**32 - 1]
    for name, build, call, many in table:
        obj = build() if build else None
        first = {}
        pool = fixed + [int(ctx.rng.integers(2**31)) for _ in range(12 if ctx.thorough else 4)]
        if "Group" in name or "subset" in name or "QTCode" in name:
            pool = [int(s) for s in pool]
        plan = list(pool) + list(pool) + ([pool[0]] * 2)
        order = ctx.rng.permutation(len(plan))
        ctx.case("seeds", many, construction=name, seeds=[int(s) for s in pool])
        for index in order:
            seed = plan[index]
            target = obj
            if build and ctx.rng.random() < 0.4:
                target = build()
                ctx.see("fresh")
            if ctx.rng.random() < 0.7:
                disturb(ctx.rng)
            before = digests.of([str(x) for x in np.random.get_state()])
            got = digests.outcome(call, target, seed)
            if "Group" not in name and "subset" not in name and "QTCode" not in name:
                ctx.check(before == digests.of([str(x) for x in np.random.get_state()]), "numpy-state",
                          f"{name}: a seeded construction changed numpy's global random state")
            key = int(seed)
            if key in first:
                ctx.check(got == first[key], "seed-repeat", f"{name}: seed {key} gave two different results", first=first[key], second=got)
            first.setdefault(key, got)
        if many:
            ctx.check(len({json.dumps(v) for v in first.values()}) >= 2, "seed-varies", f"{name}: every seed gives the same result", results=list(first.values())[:3])


def unseeded(ctx):
    import galois

    from qldpc import abstract, codes
    from qldpc.codes.common import get_random_array
    from qldpc.objects import Pauli

    calls = {
        "ClassicalCode.random": lambda: codes.ClassicalCode.random(16, 8),
        "ClassicalCode.random/4": lambda: codes.ClassicalCode.random(8, 5, field=4),
        "get_random_array": lambda: get_random_array(galois.GF(3), (6, 6)),
        "get_random_word": lambda: codes.HammingCode(4).get_random_word(),
        "get_random_logical_op": lambda: codes.ToricCode(4).get_random_logical_op(Pauli.X),
        "Group.random": lambda: abstract.SymmetricGroup(8).random(),
        "random_symmetric_subset": lambda: abstract.CyclicGroup(60).random_symmetric_subset(8),
        "QTCode.random": lambda: codes.QTCode.random(abstract.CyclicGroup(30), codes.RepetitionCode(3), one_subset=True),
    }
    for name, call in calls.items():
        ctx.case("unseeded", True, construction=name)
        got = {json.dumps(digests.outcome(call)) for _ in range(6)}
        ctx.check(len(got) >= 2, "unseeded-varies", f"{name}: six unseeded calls gave one result")
    # a seeded call must not make later unseeded array constructions repeat
    for q in (2, 3, 4):
        ctx.case("unseeded-after-seeded", True, field=q)
        got = set()
        for _ in range(4):
            codes.ClassicalCode.random(8, 4, field=q, seed=5)
            got.add(digests.of(codes.ClassicalCode.random(20, 12, field=q)))
        ctx.check(len(got) >= 2, "unseeded-varies", "unseeded random codes repeat after a seeded construction")


# ------------------------------------------------------------------------------------------------ processes


def run_probe(hashseed, order, disturbance):
    env = {**os.environ, "PYTHONHASHSEED": str(hashseed), "PYTHONPATH": core.VERIF + ":" + core.REPO}
    proc = subprocess.run([sys.executable, "-W", "ignore", "-m", "vlib.probe25", order, str(disturbance)], env=env, cwd=core.VERIF,
                          capture_output=True, text=True, timeout=600)
    for line in proc.stdout.splitlines():
        if line.startswith("PROBES "):
            return json.loads(line[7:])
    raise core.HarnessError(f"probe process failed ({proc.returncode}): {proc.stderr[-1500:]}")


def processes(ctx, runs):
    import concurrent.futures

    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        tables = list(pool.map(lambda run: run_probe(*run), runs))
    base = tables[0]
    for run, table in zip(runs[1:], tables[1:]):
        ctx.case("process", True, hashseed=run[0], order=run[1], disturbance=run[2], probes=len(table))
        for name, got in table.items():
            ctx.check(got == base[name], "process", f"{name} differs between processes (hash seed {runs[0][0]} and {run[0]})", first=base[name], second=got)
    ctx.see("process-values", sum(got[0] == "value" for got in base.values()))


# ------------------------------------------------------------------------------------------------ histories


def classical_queries(code, rng):
    n, q = len(code), code.field.order
    vec = rng.integers(0, q, n)
    bits = [int(b) for b in rng.permutation(n)[: max(1, n // 3)]]
    out = {
        "matrix": lambda c: c.matrix, "generator": lambda c: c.generator, "rank": lambda c: c.rank, "dimension": lambda c: c.dimension,
        "len": len, "num_checks": lambda c: c.num_checks, "weight": lambda c: c.get_weight(), "canonicalized": lambda c: c.canonicalized,
        "dual": lambda c: c.dual(), "invert": lambda c: ~c, "graph": lambda c: c.graph, "str": str, "dual-dual": lambda c: c.dual().dual().generator,
        "contains": lambda c: np.array(vec) in c, "word": lambda c: c.get_random_word(seed=4), "stack": lambda c: type(c).stack(c, c),
        "tensor": lambda c: type(c).tensor_product(c, c) if len(c) <= 5 else 0, "equal": lambda c: [c == c.canonicalized, c == c],
        "equiv": lambda c: [c.equiv(c.canonicalized) if len(c.canonicalized.matrix) else 0, type(c).equiv(c, c)],
        "puncture": lambda c: c.puncture(*bits) if len(bits) < len(c) else 0, "shorten": lambda c: c.shorten(*bits) if len(bits) < len(c) else 0,
        "distance": lambda c: c.get_distance(), "distance-exact": lambda c: c.get_distance_exact(), "params": lambda c: c.get_code_params(),
        "distance-vector": lambda c: c.get_distance_exact(vector=vec), "words": lambda c: [w for _, w in zip(range(40), c.iter_words())],
        "words-nonzero": lambda c: [w for _, w in zip(range(40), c.iter_words(skip_zero=True))], "name": lambda c: [c.name, c.field_name],
        "field": lambda c: c.field.order,
    }
    noise = {
        "random-word": lambda c: c.get_random_word(), "bound": lambda c: c.get_distance_bound(2) if c.dimension else 0,
        "known": lambda c: c.get_distance_if_known(), "params-bound": lambda c: c.get_code_params(bound=2) if c.dimension else 0,
        "bound-vector": lambda c: c.get_distance_bound(2, vector=vec) if c.dimension else 0,
    }
    if q == 2:
        noise["rate"] = lambda c: c.get_logical_error_rate_func(10, 0.3)(0.1) if len(c) <= 12 else 0
    return out, noise


def qudit_queries(code, rng, css):
    from qldpc import circuits, codes
    from qldpc.objects import PAULIS_XZ, Pauli

    n, q = len(code), code.field.order
    spots = [int(b) for b in rng.permutation(n)[: max(1, n // 2)]]
    out = {
        "matrix": lambda c: c.matrix, "rank": lambda c: c.rank, "dimension": lambda c: c.dimension, "gauge-dimension": lambda c: c.gauge_dimension,
        "len": lambda c: [len(c), c.num_qudits, c.num_checks], "weight": lambda c: c.get_weight(), "canonicalized": lambda c: c.canonicalized,
        "graph": lambda c: c.graph, "str": str, "strings": lambda c: c.get_strings(), "subsystem": lambda c: c.is_subsystem_code,
        "logical": lambda c: c.get_logical_ops(), "logical-x": lambda c: c.get_logical_ops(Pauli.X), "logical-z": lambda c: c.get_logical_ops(Pauli.Z),
        "stabs": lambda c: c.get_stabilizer_ops(), "stabs-canonical": lambda c: c.get_stabilizer_ops(canonicalized=True),
        "stabs-x": lambda c: c.get_stabilizer_ops(Pauli.X), "stabs-z": lambda c: c.get_stabilizer_ops(Pauli.Z),
        "stabs-x-canonical": lambda c: c.get_stabilizer_ops(Pauli.X, canonicalized=True),
        "gauge": lambda c: c.get_gauge_ops(), "gauge-x": lambda c: c.get_gauge_ops(Pauli.X), "gauge-z": lambda c: c.get_gauge_ops(Pauli.Z),
        "dual": lambda c: c.get_dual_subsystem_code(), "dual-ops": lambda c: c.get_dual_subsystem_code().get_logical_ops(),
        "conjugated": lambda c: c.conjugated(spots), "conjugated-all": lambda c: c.conjugated(),
        "equal": lambda c: [c == c, c == c.canonicalized], "equiv": lambda c: c.equiv(c, c.canonicalized) if c.rank else 0,
        "stack": lambda c: (lambda d: [d, d.get_logical_ops()])(codes.QuditCode.stack(c, c)),
        "stack-fresh": lambda c: codes.QuditCode.stack(c, c, inherit_logicals=False).get_logical_ops(), "name": lambda c: [c.name, c.field_name],
        "as-qudit": lambda c: (lambda d: [d, d.get_logical_ops(), d.get_stabilizer_ops()])(codes.QuditCode(c)) if not css else 0,
        "dimension-args": lambda c: [c.dimension, c.gauge_dimension, c.rank],
    }
    noise = {"known": lambda c: c.get_distance_if_known()}
    if n <= (6 if q == 2 else 3):
        out["distance"] = lambda c: c.get_distance_exact()
        out["get-distance"] = lambda c: c.get_distance()
        out["params"] = lambda c: c.get_code_params()
    if q == 2:
        out["encoder"] = lambda c: str(circuits.get_encoding_tableau(c))
        out["num-qubits"] = lambda c: c.num_qubits
        gate = ["H", "S", "SQRT_X", "C_XYZ"][int(rng.integers(4))]
        out["deformed"] = lambda c: c.deformed(f"{gate} {spots[0]}")
    if css:
        out |= {
            "mx": lambda c: [c.matrix_x, c.num_checks_x, c.get_matrix(Pauli.X)], "mz": lambda c: [c.matrix_z, c.num_checks_z, c.get_matrix(Pauli.Z)],
            "code-x": lambda c: [c.code_x, c.get_code(Pauli.X).rank], "code-z": lambda c: [c.code_z, c.get_code(Pauli.Z).generator],
            "logical-xs": lambda c: c.get_logical_ops(Pauli.X, symplectic=True), "stabs-zs": lambda c: c.get_stabilizer_ops(Pauli.Z, symplectic=True),
            "gauge-xs": lambda c: c.get_gauge_ops(Pauli.X, symplectic=True),
            "random-logical": lambda c: c.get_random_logical_op(Pauli.X, seed=3) if c.dimension else 0,
            "random-nontrivial": lambda c: c.get_random_logical_op(Pauli.Z, ensure_nontrivial=True, seed=8) if c.dimension else 0,
        }
        if q**n <= 5000:
            for p in PAULIS_XZ:
                out[f"distance-{p}"] = lambda c, p=p: c.get_distance_exact(p)
            out["get-distance"] = lambda c: [c.get_distance(), c.get_distance(Pauli.X)]
            out["params"] = lambda c: c.get_code_params()
        noise |= {
            "bound": lambda c: c.get_distance_bound(2) if c.dimension and q == 2 else 0,
            "bound-x": lambda c: c.get_distance_bound(2, Pauli.X) if c.dimension and q == 2 else 0,
            "random-logical-free": lambda c: c.get_random_logical_op(Pauli.X) if c.dimension else 0,
        }
        if q == 2 and n <= 10:
            noise["rate"] = lambda c: c.get_logical_error_rate_func(10, 0.3)(0.1) if c.dimension else 0
    else:
        out["stabs-z2"] = lambda c: c.get_stabilizer_ops(Pauli.Z, canonicalized=True)
    return out, noise


def group_queries(group, rng):
    from qldpc import abstract

    members = list(group.generate())
    a, b = (members[int(rng.integers(len(members)))] for _ in range(2))
    other = abstract.CyclicGroup(3)
    ring = abstract.GroupRing(group, field=3)
    out = {
        "order": lambda g: g.order, "abelian": lambda g: g.is_abelian, "generators": lambda g: list(g.generators), "members": lambda g: list(g.generate()),
        "identity": lambda g: g.identity, "index": lambda g: [g.index(a), g.index(b)], "contains": lambda g: [a in g, ~b in g],
        "table": lambda g: g.table if len(members) <= 24 else 0, "lift": lambda g: g.lift(a), "lift-dim": lambda g: g.lift_dim,
        "regular": lambda g: g.regular_lift(b), "name": lambda g: [g.name, str(g)], "hash": hash, "equal": lambda g: [g == group, g == other],
        "product": lambda g: g * other, "power": lambda g: (g**2).order if len(members) <= 12 else 0, "random": lambda g: g.random(seed=9),
        "subset": lambda g: g.random_symmetric_subset(2, seed=9) if len(members) > 3 else 0, "hashable": lambda g: g.hashable_generators(),
        "sympy": lambda g: [list(x) for x in g.to_sympy().generators], "ring": lambda g: [abstract.GroupRing(g, field=3) == ring, str(abstract.GroupRing(g))],
        "gap": lambda g: g.to_gap_group(), "sum": lambda g: (abstract.RingMember(abstract.GroupRing(g, field=3), a, b) ** 2).to_vector(),
    }
    noise = {"random-free": lambda g: g.random(), "subset-free": lambda g: g.random_symmetric_subset(2) if len(members) > 3 else 0}
    return out, noise


def ring_queries(array, rng):
    from qldpc import abstract

    ring = array.ring
    scalar = int(rng.integers(1, ring.field.order))
    member = abstract.RingMember(ring, ring.group.identity, *ring.group.generators)
    out = {
        "vector": lambda a: a.to_field_array(), "lift": lambda a: a.lift(), "regular": lambda a: a.regular_lift(), "T": lambda a: a.T, "TT": lambda a: a.T.T,
        "invert": lambda a: ~a, "null": lambda a: a.null_space(), "reduce": lambda a: a.row_reduce(), "gram": lambda a: a @ a.T, "sum": lambda a: a + a,
        "scale": lambda a: a * scalar, "member": lambda a: member * a[0, 0], "negative": lambda a: [-x for x in a.ravel()],
        "inverse": lambda a: [x.inverse() for x in a.ravel()], "power": lambda a: a[0, 0] ** 3, "transpose-entry": lambda a: a[0, -1].T,
        "rmul": lambda a: scalar * a[0, 0], "add-one": lambda a: a[0, 0] + 1, "minus": lambda a: a[0, 0] - a[-1, -1], "copy": lambda a: a[0, 0].copy(),
        "bool": lambda a: [bool(x) for x in a.ravel()], "equal": lambda a: [bool(x == y) for x in a.ravel() for y in a.ravel()],
        "field-vector": lambda a: a[0].to_field_vector(), "slice": lambda a: [a[:, :1], a[::-1]], "meta": lambda a: [a.field.order, str(a.group), str(a.ring)],
        "left": lambda a: a.T @ a,
    }
    if not ring.group.is_abelian:
        out.pop("left")
    return out, {}


def chain_queries(chain, rng):
    from qldpc.objects import ChainComplex

    return {
        "ops": lambda c: list(c.ops), "links": lambda c: c.num_links, "dims": lambda c: [c.dim(d) for d in range(-1, c.num_links + 2)],
        "op": lambda c: [c.op(d) for d in range(0, c.num_links + 2)], "T": lambda c: c.T, "TT": lambda c: c.T.T, "field": lambda c: c.field.order,
        "square": lambda c: ChainComplex.tensor_product(c, c), "cosquare": lambda c: ChainComplex.tensor_product(c, c.T),
        "group": lambda c: str(c.group),
    }, {}


def cayley_queries(cayplex, rng):
    from qldpc import codes
    from qldpc.objects import CayleyComplex

    code = codes.RepetitionCode(len(cayplex.subset_b))
    return {
        "a": lambda c: c.cover_subset_a, "b": lambda c: c.cover_subset_b, "graph": lambda c: c.graph, "sets": lambda c: [c.subset_a, c.subset_b, c.bipartite],
        "subgraphs": lambda c: list(codes.QTCode.get_subgraphs(c)),
        "tnc": lambda c: CayleyComplex.satisfies_total_no_conjugacy(c.cover_subset_a, c.cover_subset_b),
        "subcodes": lambda c: list(codes.QTCode.get_subcodes(c, codes.RepetitionCode(len(c.subset_a)), code)),
    }, {}


def builders(ctx):
    """(kind, build, queries): build() gives equal fresh objects."""
    import sympy

    from qldpc import abstract, codes
    from qldpc.objects import CayleyComplex, ChainComplex, Pauli

    rng = ctx.rng
    out = []

    def classical(name, build):
        out.append((f"classical/{name}", build, classical_queries))

    def qudit(name, build):
        out.append((f"qudit/{name}", build, lambda c, r: qudit_queries(c, r, False)))

    def css(name, build):
        out.append((f"css/{name}", build, lambda c, r: qudit_queries(c, r, True)))

    for _ in range(10):
        q = int(rng.choice([2, 2, 3, 4]))
        kind, mat = mats.random_matrix(rng, q, max_n=7, max_m=5)
        classical(f"{kind}/{q}", lambda mat=mat, q=q: codes.ClassicalCode(mat.copy(), q))
        if rng.random() < 0.5:
            classical(f"{kind}/{q}/with-generator", lambda mat=mat, q=q: with_generator(codes.ClassicalCode(mat.copy(), q)))
    classical("hamming", lambda: codes.HammingCode(3))
    classical("hamming3", lambda: codes.HammingCode(2, 3))
    classical("rm", lambda: codes.ReedMullerCode(1, 3))
    classical("simplex", lambda: codes.SimplexCode(3))
    classical("ring", lambda: codes.RingCode(5, 3))
    classical("rs", lambda: codes.ReedSolomonCode(7, 3))
    classical("tanner", lambda: codes.TannerCode(probe25.tanner_graph(), codes.RepetitionCode(3)))
    classical("copy", lambda: codes.ClassicalCode(codes.HammingCode(3)))
    classical("generated", lambda: codes.ClassicalCode.from_generator([[1, 1, 0, 2], [0, 1, 1, 1]], 3))
    for _ in range(12):
        q = int(rng.choice([2, 2, 2, 3, 4]))
        kind, n, checks = qcodes.random_checks(rng, q, max_n=4)
        qudit(f"{kind}/{q}", lambda checks=checks, q=q: codes.QuditCode(checks.copy(), q))
        if rng.random() < 0.5:
            qudit(f"{kind}/{q}/set-logicals", lambda checks=checks, q=q: with_logicals(codes.QuditCode(checks.copy(), q)))
    qudit("five", codes.FiveQubitCode)
    qudit("strings", lambda: codes.QuditCode.from_strings("X(1) Z(2) I", "I X(1) Z(2)", field=3))
    qudit("conjugated", lambda: codes.SteaneCode().conjugated([0, 2]))
    qudit("stacked", lambda: codes.QuditCode.stack(codes.FiveQubitCode(), codes.QuditCode.from_strings("X X", "Z Z")))
    for _ in range(10):
        q = int(rng.choice([2, 2, 3, 4]))
        mx, mz = qcodes.random_css(rng, q, max_n=6, subsystem=bool(rng.random() < 0.5))
        css(f"random/{q}", lambda mx=mx, mz=mz, q=q: codes.CSSCode(mx.copy(), mz.copy(), q))
        if rng.random() < 0.4:
            css(f"random/{q}/set-logicals", lambda mx=mx, mz=mz, q=q: with_logicals(codes.CSSCode(mx.copy(), mz.copy(), q)))
    x, y = sympy.symbols("x y")
    named = {
        "steane": codes.SteaneCode, "c6": codes.C6Code, "iceberg": lambda: codes.IcebergCode(3), "bacon": lambda: codes.BaconShorCode(2, 3),
        "bacon3": lambda: codes.BaconShorCode(2, field=3), "surface": lambda: codes.SurfaceCode(2, 3), "surface-plain": lambda: codes.SurfaceCode(2, rotated=False),
        "toric": lambda: codes.ToricCode(2, rotated=True),
        "toric-plain": lambda: codes.ToricCode(2, rotated=False), "hgp": lambda: codes.HGPCode(codes.RepetitionCode(2), codes.RingCode(3)),
        "hgp3": lambda: codes.HGPCode(codes.RepetitionCode(2, field=3)), "shp": lambda: codes.SHPCode(codes.RepetitionCode(3), codes.RepetitionCode(2)),
        "shp-hamming": lambda: codes.SHPCode(codes.ClassicalCode([[1, 1, 0], [0, 1, 1], [1, 0, 1]]), codes.ClassicalCode([[1, 1, 1], [1, 1, 1]])),
        "shp4": lambda: codes.SHPCode(codes.ClassicalCode([[1, 2, 3]], 4), codes.ClassicalCode([[1, 1]], 4)),
        "gsurface": lambda: codes.GeneralizedSurfaceCode(2, 2), "bb": lambda: codes.BBCode({x: 2, y: 2}, 1 + x, 1 + y),
        "tb": lambda: codes.TBCode(np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]]), np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]])),
        "concat": lambda: codes.CSSCode.concatenate(codes.C4Code(), codes.C4Code()), "set": lambda: with_logicals(codes.C4Code()),
        "lp": lambda: codes.LPCode([[1 + member(abstract.CyclicGroup(3))]]), "slp": lambda: codes.SLPCode([[1 + member(abstract.CyclicGroup(2))]]),
        "dual": lambda: codes.BaconShorCode(2).get_dual_subsystem_code(), "copy": lambda: codes.CSSCode(codes.C6Code().code_x, codes.C6Code().code_z),
    }
    for name, build in named.items():
        css(name, build)
    groups = {
        "C5": lambda: abstract.CyclicGroup(5), "D4": lambda: abstract.DihedralGroup(4), "Q8": abstract.QuaternionGroup, "S4": lambda: abstract.SymmetricGroup(4),
        "A4": lambda: abstract.AlternatingGroup(4), "AB": lambda: abstract.AbelianGroup(2, 2, 3), "AB-direct": lambda: abstract.AbelianGroup(2, 3, direct_sum=True),
        "SL": lambda: abstract.SL(2, 3), "PSL": lambda: abstract.PSL(2, 3), "prod": lambda: abstract.CyclicGroup(2) * abstract.SymmetricGroup(3),
        "table": lambda: abstract.Group.from_table(abstract.DihedralGroup(3).table), "mats": lambda: abstract.Group.from_generating_mats([[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]]),
        "C1": lambda: abstract.CyclicGroup(1), "S8-sub": lambda: abstract.Group(abstract.GroupMember([1, 2, 0, 4, 3]), abstract.GroupMember([1, 0, 2, 3, 4])),
    }
    for name, build in groups.items():
        out.append((f"group/{name}", build, group_queries))
    for name in ("C5", "D4", "AB", "Q8"):
        for q in (2, 3, 4):
            shape = (int(rng.integers(1, 4)), int(rng.integers(1, 4)))
            order = groups[name]().order
            data = rng.integers(0, q, (*shape, order)) * (rng.random((*shape, order)) < 0.6)
            out.append((f"ring/{name}/{q}", lambda name=name, q=q, data=data: abstract.RingArray.from_field_array(
                abstract.GroupRing(groups[name](), field=q), data.copy()), ring_queries))
    for q in (2, 3, 4):
        a, b = mats.random_matrix(rng, q, max_n=4)[1], mats.random_matrix(rng, q, max_n=4)[1]
        out.append((f"chain/{q}", lambda a=a, b=b, q=q: ChainComplex.tensor_product(ChainComplex(a.copy(), field=q), ChainComplex(b.copy(), field=q)), chain_queries))
    out.append(("chain/ring", lambda: ChainComplex.tensor_product(*[ChainComplex(ring_row(abstract)) for _ in range(2)]), chain_queries))
    out.append(("chain/toric", lambda: ChainComplex.tensor_product(ChainComplex(codes.RingCode(3).matrix), ChainComplex(codes.RingCode(2).matrix).T), chain_queries))
    for bip in (False, True):
        out.append((f"cayley/C9/{bip}", lambda bip=bip: CayleyComplex(*probe25.subsets(abstract.CyclicGroup(9)), bipartite=False), cayley_queries))
        out.append((f"cayley/D4/{bip}", lambda bip=bip: CayleyComplex(*probe25.subsets(abstract.DihedralGroup(4))), cayley_queries))
    return out


def with_generator(code):
    mat = code.generator
    code.set_generator(np.asarray(mat).view(np.ndarray)[::-1].copy())
    return code


def with_logicals(code):
    """Set logical operators other than the default ones: qudits relabelled, signs by stabilizers left alone."""
    ops = np.asarray(code.get_logical_ops()).view(np.ndarray)
    k = len(ops) // 2
    if k:
        code.set_logical_ops(np.vstack([ops[:k][::-1], ops[k:][::-1]]))
    return code


def member(group):
    from qldpc import abstract

    return abstract.RingMember(abstract.GroupRing(group), group.generators[0])


def ring_row(abstract):
    group = abstract.CyclicGroup(3)
    ring = abstract.GroupRing(group)
    gen = abstract.RingMember(ring, group.generators[0])
    return abstract.RingArray.build([[gen + 1, gen]], ring)


def defining(obj):
    """Digest of the data that defines the object."""
    if hasattr(obj, "matrix_x") and hasattr(obj, "matrix_z"):
        return digests.of([obj.matrix_x, obj.matrix_z, obj.matrix])
    if hasattr(obj, "num_checks"):
        return digests.of([obj.matrix])
    if hasattr(obj, "hashable_generators"):
        return digests.of(obj.hashable_generators())
    if hasattr(obj, "cover_subset_a"):
        return digests.of([obj.subset_a, obj.subset_b, obj.bipartite])
    return digests.of(obj)


def copies(obj, rng, shallow):
    """Copies; sympy's permutation groups cannot be deep-copied, so objects that hold one are copied shallowly."""
    if shallow:
        return (obj.copy() if isinstance(obj, np.ndarray) else copy.copy(obj)), "copy"
    roll = int(rng.integers(3))
    if roll == 0:
        return copy.deepcopy(obj), "deepcopy"
    if roll == 1:
        return copy.copy(obj), "copy"
    return copy.deepcopy(copy.copy(obj)), "copies"


def history(ctx, kind, build, queries):
    rng = ctx.rng
    obj = build()
    table, noise = queries(build(), rng)
    names = list(table)
    base = {}

    def expected(name):
        if name not in base:
            base[name] = digests.outcome(table[name], build())
        return base[name]

    start = defining(obj)
    others = []
    length = int(rng.integers(6, 26))
    steps = []
    ctx.see("history")
    for _ in range(length):
        target, where = obj, "object"
        if rng.random() < 0.12 and len(others) < 2:
            others.append(copies(obj, rng, kind.startswith(("group", "ring", "chain/ring"))))
            ctx.check(defining(others[-1][0]) == start, "copy", f"{kind}: a {others[-1][1]} has other defining data")
        if others and rng.random() < 0.3:
            target, where = others[int(rng.integers(len(others)))]
        if noise and rng.random() < 0.15:
            name = list(noise)[int(rng.integers(len(noise)))]
            steps.append(f"{where}:{name}*")
            noisy(ctx, noise[name], target, kind, name)
        else:
            name = names[int(rng.integers(len(names)))]
            if steps and rng.random() < 0.15 and not steps[-1].endswith("*"):
                name = steps[-1].split(":", 1)[1]
            steps.append(f"{where}:{name}")
            got = digests.outcome(table[name], target)
            ctx.check(got == expected(name), "query", f"{kind}: query {name!r} on the {where} answers differently after {steps[:-1]}", got=got, want=expected(name))
        ctx.check(defining(target) == start, "defining", f"{kind}: {steps[-1]} changed the defining data")
    for target, where in [(obj, "object"), *others]:
        ctx.check(defining(target) == start, "defining", f"{kind}: the defining data of the {where} changed during {steps}")
    ctx.case("history", len(set(steps)) > 1, kind=kind, steps=steps)


def noisy(ctx, func, target, kind, name):
    try:
        func(target)
    except Exception as error:  # noqa: BLE001 - random queries are only a disturbance here
        ctx.see(f"noise-{type(error).__name__}")


def histories(ctx, rounds, part, parts):
    for _ in range(rounds):
        for kind, build, queries in builders(ctx)[part::parts]:
            history(ctx, kind, build, queries)


# ------------------------------------------------------------------------------------------------ inputs


def inputs(ctx, rounds):
    """Arguments are snapshotted around public calls; the caller keeps (and owns) every one of them."""
    import galois
    import networkx as nx
    import stim
    import sympy

    from qldpc import abstract, circuits, codes, decoders, math, objects

    rng = ctx.rng
    x, y, z = sympy.symbols("x y z")
    for _ in range(rounds):
        q = int(rng.choice([2, 2, 3, 4]))
        kind, mat = mats.random_matrix(rng, q, max_n=6, max_m=4)
        field = galois.GF(q)
        farr = field(mat)
        n = mat.shape[1]
        mx, mz = qcodes.random_css(rng, q, n=4)
        _, nq, checks = qcodes.random_checks(rng, q, max_n=4)
        group = abstract.DihedralGroup(4)
        gens = [g for s in group.generators for g in (s, ~s)]
        subset = set(gens)
        code = codes.ClassicalCode(mat, q)
        wires = {0: 1, 1: 2, 2: 3, 3: 0}
        graph = code.graph
        orders = {x: 4, y: 3}
        poly_a, poly_b = x + y, 1 + x * y
        chain_mats = [codes.RingCode(3).matrix.copy()]
        two = codes.ClassicalCode.random(4, 2, field=q, seed=3)
        err = (rng.random(n) < 0.3) * rng.integers(1, q, n)
        syndrome = np.asarray(farr @ field(err.astype(int))).view(np.ndarray).copy()
        ints = rng.integers(0, 2, (2, 6))
        calls = [
            ("ClassicalCode(int)", (mat,), lambda a: full(codes.ClassicalCode(a, q))),
            ("ClassicalCode(list)", (mat.tolist(),), lambda a: full(codes.ClassicalCode(a, q))),
            ("ClassicalCode(field)", (farr,), lambda a: full(codes.ClassicalCode(a))),
            ("ClassicalCode(code)", (code,), lambda a: full(codes.ClassicalCode(a))),
            ("from_generator", (mat,), lambda a: full(codes.ClassicalCode.from_generator(a, q))),
            ("contains", (code, err.astype(int)), lambda c, w: w in c),
            ("graph_to_matrix", (graph,), codes.ClassicalCode.graph_to_matrix),
            ("matrix_to_graph", (mat,), codes.ClassicalCode.matrix_to_graph),
            ("stack", (code, two), codes.ClassicalCode.stack),
            ("tensor", (code, two), codes.ClassicalCode.tensor_product),
            ("equiv", (code, two), codes.ClassicalCode.equiv),
            ("distance-vector", (code, err.astype(int)), lambda c, v: c.get_distance_exact(vector=v)),
            ("distance-bound-vector", (codes.HammingCode(3), np.array([1, 0, 0, 1, 1, 0, 1])), lambda c, v: c.get_distance_bound(2, vector=v)),
            ("QuditCode", (checks,), lambda a: quantum(codes.QuditCode(a, q))),
            ("QuditCode-list", (checks.tolist(),), lambda a: quantum(codes.QuditCode(a, q))),
            ("QuditCode(field)", (field(checks),), lambda a: quantum(codes.QuditCode(a))),
            ("QuditCode.stack", (codes.QuditCode(checks, q), codes.CSSCode(mx, mz, q)), lambda *c: quantum(codes.QuditCode.stack(*c))),
            ("CSSCode", (mx, mz), lambda a, b: quantum(codes.CSSCode(a, b, q))),
            ("CSSCode(field)", (field(mx), field(mz)), lambda a, b: quantum(codes.CSSCode(a, b))),
            ("CSSCode(codes)", (codes.ClassicalCode(mx, q), codes.ClassicalCode(mz, q)), lambda a, b: quantum(codes.CSSCode(a, b))),
            ("concatenate", (codes.C4Code(), codes.C4Code(), wires), lambda a, b, w: quantum(codes.CSSCode.concatenate(a, b, w))),
            ("concatenate-list", (codes.C4Code(), codes.FiveQubitCode(), list(range(10))[::-1]),
             lambda a, b, w: codes.QuditCode.concatenate(a, b, w).matrix),
            ("conjugated", (codes.CSSCode(mx, mz, q), [0, 2]), lambda c, s: quantum(c.conjugated(s))),
            ("conjugated-array", (codes.FiveQubitCode(), np.array([1, 3])), lambda c, s: quantum(c.conjugated(s))),
            ("deformed", (codes.FiveQubitCode(), stim.Circuit("H 0\nCX 1 2\nS 3")), lambda c, s: quantum(c.deformed(s))),
            ("set_logical_ops", (np.array(codes.SteaneCode().get_logical_ops()).view(np.ndarray),), lambda o: quantum(setter(codes.SteaneCode(), o))),
            ("set_generator", (np.array(codes.HammingCode(3).generator).view(np.ndarray),), lambda g: full(generator(codes.HammingCode(3), g))),
            ("HGP", (code, two), lambda a, b: quantum(codes.HGPCode(a, b, set_logicals=True))),
            ("HGP-arrays", (mat, np.array([[1, 1, 0], [0, 1, 1]])), lambda a, b: quantum(codes.HGPCode(a, b, q))),
            ("HGP-graphs", (code.graph, two.graph), codes.HGPCode.get_graph_product),
            ("SHP", (two, two), lambda a, b: quantum(codes.SHPCode(a, b))),
            ("TB", (np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]]), np.array([[1, 0, 1], [1, 1, 0], [0, 1, 1]])), lambda a, b: quantum(codes.TBCode(a, b, q))),
            ("BB", (orders, poly_a, poly_b), lambda o, a, b: bb(codes.BBCode(o, a, b))),
            ("QC", ([3, 2], poly_a, poly_b), lambda o, a, b: quantum(codes.QCCode(o, a, b, q))),
            ("LP", (np.array([[1, 1], [0, 1]]),), lambda a: quantum(codes.LPCode(abstract.TrivialGroup.to_ring_array(a)))),
            ("Tanner", (probe25.tanner_graph(), codes.RepetitionCode(3)), lambda g, c: full(codes.TannerCode(g, c))),
            ("QT", (subset, gens, codes.RepetitionCode(len(subset)), codes.RepetitionCode(len(subset))),
             lambda a, b, c, d: codes.QTCode(a, b, c, d).matrix_x if len(set(gens)) == len(subset) else 0),
            ("Cayley", (subset, list(gens)), lambda a, b: objects.CayleyComplex(a, b).graph),
            ("Group", (gens,), lambda g: abstract.Group(*g).order),
            ("from_table", (abstract.DihedralGroup(3).table,), lambda t: abstract.Group.from_table(t).order),
            ("from_table-list", (abstract.DihedralGroup(3).table.tolist(),), lambda t: abstract.Group.from_table(t).order),
            ("generating_mats", (np.array([[0, 1], [1, 0]]), [[-1, 0], [0, 1]]), lambda a, b: abstract.Group.from_generating_mats(a, b).order),
            ("RingArray.build", ([[1, 0], [gens[0], 1]],), lambda d: abstract.RingArray.build(d, abstract.GroupRing(group, field=q)).lift()),
            ("from_field_array", (rng.integers(0, q, (2, 2, 8)),), lambda d: abstract.RingArray.from_field_array(abstract.GroupRing(group, field=q), d).null_space()),
            ("from_vector", (rng.integers(0, q, 8),), lambda v: abstract.RingMember.from_vector(abstract.GroupRing(group, field=q), v).inverse()),
            ("Chain", (chain_mats,), lambda m: objects.ChainComplex.tensor_product(objects.ChainComplex(*m), objects.ChainComplex(*m).T)),
            ("Chain-list", (mat.tolist(),), lambda m: objects.ChainComplex(m, field=q).T),
            ("conjugate", (ints,), math.symplectic_conjugate), ("conjugate-field", (field(checks),), math.symplectic_conjugate),
            ("op_to_string", (ints[0],), math.op_to_string), ("first_nonzero", (ints,), math.first_nonzero_cols),
            ("get_symplectic_weight", (ints[0],), decoders.get_symplectic_weight),
            ("transversal-gates", (codes.FiveQubitCode(), ["H", "S"]), lambda c, g: circuits.get_encoding_tableau(c)),
            ("logical_tableau", (codes.C4Code(), stim.Circuit("H 0 1 2 3\nSWAP 1 2")), circuits.get_logical_tableau),
            ("decode-ILP", (farr, syndrome), lambda m, s: decoders.decode(m, s, with_ILP=True)),
            ("decode-GUF", (farr, syndrome), lambda m, s: decoders.decode(m, s, with_GUF=True)),
            ("decode-lookup", (farr, syndrome), lambda m, s: decoders.decode(m, s, with_lookup=True, max_weight=1)),
            ("decode-args", (codes.HammingCode(3).matrix, np.array([1, 0, 1]), {"with_BP_OSD": True, "max_iter": 3}), lambda m, s, d: decoders.decode(m, s, **d)),
            ("random_symmetric_subset", (group,), lambda g: g.random_symmetric_subset(2)),
            ("change-basis", (orders, poly_a, poly_b), lambda o, a, b: codes.BBCode(o, a, b).get_equivalent_toric_layout_code_data()),
            ("reduce-ops", (codes.SteaneCode().get_logical_ops(),), lambda o: reduce(codes, o)),
            ("graph-code", (nx.DiGraph(codes.FiveQubitCode().graph),), codes.QuditCode.graph_to_matrix),
            ("wide-int", (mat.astype(np.int8),), lambda a: full(codes.ClassicalCode(a, q))),
        ]
        for name, args, call in calls:
            before = [digests.of(a) for a in args]
            flags = [a.flags.writeable if isinstance(a, np.ndarray) else None for a in args]
            ctx.case("inputs", True, call=name, field=q, args=[repr(a)[:200] for a in args])
            outcome = digests.outcome(call, *args)
            ctx.see(f"inputs-{outcome[0]}")
            ctx.check(before == [digests.of(a) for a in args], "inputs", f"{name} modified its arguments", outcome=outcome)
            ctx.check(flags == [a.flags.writeable if isinstance(a, np.ndarray) else None for a in args], "inputs", f"{name} changed the flags of its arguments")
        ctx.check(poly_a == x + y and poly_b == 1 + x * y and list(orders) == [x, y], "inputs", "polynomials or orders were modified")


def full(code):
    out = [code.generator, code.rank, code.canonicalized, code.dual(), code.graph, code.get_weight(), str(code)]
    if code.dimension and code.field.order**code.dimension <= 3000:
        out.append(code.get_distance())
    if len(code) > 2:
        out += [code.puncture(0), code.shorten(1), code.stack(code, code)]
    return out


def quantum(code):
    out = [code.get_logical_ops(), code.get_stabilizer_ops(), code.get_stabilizer_ops(canonicalized=True), code.get_gauge_ops(), code.dimension, code.graph,
           code.get_strings(), code.canonicalized, code.conjugated()]
    if code.field.order == 2 and len(code) <= 7:
        out.append(code.get_distance())
    return out


def bb(code):
    from qldpc.objects import Node

    return [quantum(code), code.get_node_label(Node(0)), code.get_qubit_pos(Node(0))]


def setter(code, ops):
    code.set_logical_ops(ops)
    return code


def generator(code, mat):
    code.set_generator(mat)
    return code


def reduce(codes, ops):
    code = codes.SteaneCode()
    code.set_logical_ops(ops)
    code.reduce_logical_ops()
    return code.get_logical_ops()


def units(tier, seed):
    deep = tier == "thorough"
    out = [(f"seeds/{i}", seeds, (i, 6)) for i in range(6)]
    out.append(("unseeded", unseeded, ()))
    rng = np.random.default_rng(seed)
    hashes = [int(h) for h in rng.integers(1, 2**32, 12)]
    runs = [(0, "table", 0), (hashes[0], "shuffled", hashes[1] % 10**6), (hashes[2], "reversed", 0)]
    out.append(("processes", processes, (runs,)))
    if deep:
        for i in range(4):
            out.append((f"processes/{i}", processes, ([(0, "table", 0)] + [(hashes[3 + 2 * i], "shuffled", hashes[4 + 2 * i] % 10**6), (hashes[4 + 2 * i], "shuffled", i)],)))
    for rep in range(12 if deep else 1):
        out += [(f"histories/{rep}/{i}", histories, (2, i, 14)) for i in range(14)]
        out += [(f"inputs/{rep}/{i}", inputs, (2,)) for i in range(3)]
    return out


COST = {"processes": 100, "seeds": 20}
