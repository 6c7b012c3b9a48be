import itertools

import networkx as nx
import numpy as np

from vlib import mats, quantinv
from vlib.gf import GF
from vlib.grp import closure, compose, invert, tup

PROPERTY = "C22"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: Cayley graphs, incidence graphs and quantum Tanner codes compared with a permutation-tuple reference model of the covered group"
RULE = ("one case per group x pair of symmetric subsets x covering (double, quadruple) x pair of seed codes; non-trivial when a "
        "subset has more than one member")
REQUIRED = {"symmetric": 60, "tnc": 80, "tnc-true": 10, "tnc-false": 50, "graph-nodes": 90, "graph-edges": 90, "edge-type": 90, "cover": 180, "face": 7000,
            "incidence": 60, "v0": 60, "qt-structure": 40, "qt-x": 40, "qt-z": 40, "qt-commute": 40, "qt-default": 15, "qt-reject": 60, "qt-random": 60,
            "one-sided": 30, "bipartite-reject": 10, "audit": 100}


def small_groups(abstract):
    C, D, S, A = abstract.CyclicGroup, abstract.DihedralGroup, abstract.SymmetricGroup, abstract.AlternatingGroup
    return {
        "C1": lambda: abstract.TrivialGroup(), "C2": lambda: C(2), "C3": lambda: C(3), "C4": lambda: C(4), "C5": lambda: C(5), "C6": lambda: C(6), "C7": lambda: C(7), "C8": lambda: C(8),
        "C2xC2": lambda: C(2) * C(2), "C2xC4": lambda: C(2) * C(4), "C3xC3": lambda: C(3) * C(3), "C2^3": lambda: abstract.AbelianGroup(2, 2, 2),
        "D3": lambda: D(3), "D4": lambda: D(4), "D5": lambda: D(5), "D6": lambda: D(6), "Q8": abstract.QuaternionGroup,
        "A4": lambda: A(4), "S4": lambda: S(4), "C3xD3": lambda: C(3) * D(3), "PSL(2,5)": lambda: abstract.PSL(2, 5), "SL(2,3)": lambda: abstract.SL(2, 3, linear_rep=False),
    }


def symmetric_subset(ctx, members, size=None):
    """A set of members closed under inversion (own construction, not the library's)."""
    classes = list({frozenset([m, ~m]) for m in members})
    classes.sort(key=lambda c: sorted(tup(m) for m in c))
    order = ctx.rng.permutation(len(classes))
    if size is None:
        size = int(ctx.rng.integers(1, 5))
    out = set()
    for idx in order:
        if len(out) + len(classes[idx]) <= size:
            out |= classes[idx]
    return out


class Reference:
    """The covered complex on permutation tuples: component of the identity."""

    def __init__(self, subset_a, subset_b, bipartite):
        self.a0, self.b0 = {tup(m) for m in subset_a}, {tup(m) for m in subset_b}
        self.n = len(next(iter(self.a0)))
        n = self.n
        flip1, same1 = (n + 1, n), (n, n + 1)
        if bipartite:
            self.A = sorted(a + flip1 for a in self.a0)
            self.B = sorted(b + flip1 for b in self.b0)
            self.degree = n + 2
        else:
            self.A = sorted(a + flip1 + (n + 2, n + 3) for a in self.a0)
            self.B = sorted(b + same1 + (n + 3, n + 2) for b in self.b0)
            self.degree = n + 4
        self.identity = tuple(range(self.degree))
        seen, todo = {self.identity}, [self.identity]
        self.parity = {self.identity: 0}
        self.bipartite_ok = True
        self.left, self.right = set(), set()
        while todo:
            g = todo.pop()
            for kind, nbrs in ((0, [compose(a, g) for a in self.A]), (1, [compose(g, b) for b in self.B])):
                for h in nbrs:
                    (self.left, self.right)[kind].add(frozenset([g, h]))
                    if h not in seen:
                        seen.add(h)
                        todo.append(h)
                        self.parity[h] = 1 - self.parity[g]
                    elif self.parity[h] == self.parity[g]:
                        self.bipartite_ok = False
        self.nodes = seen
        self.faces = {}
        for g in seen:
            for a, b in itertools.product(self.A, self.B):
                self.face(g, a, b)

    def face(self, g, a, b):
        ag = compose(a, g)
        f = frozenset([g, ag, compose(g, b), compose(ag, b)])
        self.faces.setdefault(f, set()).add((g, a, b))
        return f


def no_conjugacy(a, b, n):
    group = closure(list(a) + list(b), n)
    return all(compose(x, g) != compose(g, y) for g in group for x in a for y in b)


def check_complex(ctx, cplx, subset_a, subset_b, bipartite):
    from qldpc import codes

    ref = Reference(subset_a, subset_b, bipartite)
    ctx.check(cplx.subset_a == set(subset_a) and cplx.subset_b == set(subset_b) and cplx.bipartite == bipartite, "cover", "stored subsets")
    got_a, got_b = {tup(m) for m in cplx.cover_subset_a}, {tup(m) for m in cplx.cover_subset_b}
    ctx.check(got_a == set(ref.A) and got_b == set(ref.B), "cover", "covered subsets", got=[sorted(got_a), sorted(got_b)])

    nodes = [tup(m) for m in cplx.graph.nodes]
    ctx.check(len(nodes) == len(set(nodes)) and set(nodes) == ref.nodes, "graph-nodes", "nodes of the Cayley graph", got=len(nodes), want=len(ref.nodes))
    edges = [(frozenset([tup(u), tup(v)]), data) for u, v, data in cplx.graph.edges(data=True)]
    ctx.check({e for e, _ in edges} == ref.left | ref.right, "graph-edges", "edges of the Cayley graph")
    if not ref.left & ref.right:
        ctx.check(all((data["type"] == "L") == (e in ref.left) and data["type"] in "LR" for e, data in edges), "edge-type", "types of the edges")
    ctx.check(ref.bipartite_ok, "ref-bipartite", "the covered graph is bipartite")

    sub_x, sub_z = codes.QTCode.get_subgraphs(cplx)
    v0 = {g for g, par in ref.parity.items() if par == 0}
    for name, graph, sources in (("x", sub_x, v0), ("z", sub_z, ref.nodes - v0)):
        got_sources = [m for m in graph if graph.in_degree(m) == 0]
        sinks = [m for m in graph if graph.out_degree(m) == 0]
        ctx.check({tup(m) for m in got_sources} == sources and len(got_sources) == len(sources), "v0", f"source vertices of subgraph_{name}")
        faces = {frozenset(tup(m) for m in face): face for face in sinks}
        ctx.check(len(faces) == len(sinks) and set(faces) == set(ref.faces), "incidence", f"faces of subgraph_{name}")
        for face, labels in ref.faces.items():
            if face not in faces:
                break
            want = {(g, a, b) for g, a, b in labels if g in sources}
            got = {(tup(g), tup(data["sort"][0]), tup(data["sort"][1])) for g, _, data in graph.in_edges(faces[face], data=True)}
            ctx.check(got == want and len(face) == 4 and len(want) == 2, "face", f"face incidence in subgraph_{name}", got=sorted(got), want=sorted(want))
    return ref


def run_complex(ctx, names, num):
    from qldpc import abstract, objects

    for name in names:
        group = small_groups(abstract)[name]()
        members = list(group.generate())
        for trial in range(num):
            subset_a = symmetric_subset(ctx, members)
            subset_b = symmetric_subset(ctx, members) if trial % 4 else set(subset_a)
            if not subset_a or not subset_b:
                continue
            ta, tb = {tup(m) for m in subset_a}, {tup(m) for m in subset_b}
            ctx.case("complex", len(ta) > 1 or len(tb) > 1, group=name, a=sorted(ta), b=sorted(tb))
            free = no_conjugacy(ta, tb, len(next(iter(ta))))
            ctx.check(objects.CayleyComplex.satisfies_total_no_conjugacy(subset_a, subset_b) == free, "tnc", f"total no-conjugacy should be {free}")
            ctx.see("tnc-true" if free else "tnc-false")
            kind = (set, list, tuple)[trial % 3]
            if not trial % 4 and trial % 8:
                cplx = objects.CayleyComplex(kind(subset_a))
            else:
                cplx = objects.CayleyComplex(kind(subset_a), kind(subset_b))
            check_complex(ctx, cplx, subset_a, subset_b, False)
            if free:
                cplx = objects.CayleyComplex(subset_a, subset_b, bipartite=True)
                check_complex(ctx, cplx, subset_a, subset_b, True)
            else:
                ctx.raises(ValueError, "bipartite-reject", objects.CayleyComplex, subset_a, subset_b, bipartite=True, msg="no total no-conjugacy")

            # one-sided Cayley graphs
            graph = objects.CayleyComplex.build_cayley_graph(subset_a)
            comp = closure(list(ta), len(next(iter(ta))))
            ctx.check({tup(m) for m in graph.nodes} == comp, "one-sided", "nodes of the Cayley graph of one subset")
            want = {frozenset([g, compose(a, g)]) for g in comp for a in ta}
            ctx.check({frozenset([tup(u), tup(v)]) for u, v in graph.edges} == want, "one-sided", "edges of the Cayley graph of one subset")

            # subsets that are not closed under inversion
            broken = [m for m in subset_a if m != ~m]
            if broken:
                bad = set(subset_a) - {broken[0]}
                ctx.raises(ValueError, "symmetric", objects.CayleyComplex, bad, subset_b, msg="asymmetric subset_a")
                ctx.raises(ValueError, "symmetric", objects.CayleyComplex, subset_b, bad, msg="asymmetric subset_b")


def run_symmetric(ctx, names, num):
    """Only subsets that are closed under inversion are accepted, however large, and whichever member lacks its inverse."""
    from qldpc import abstract, objects

    for name in names:
        members = list(small_groups(abstract)[name]().generate())
        for trial in range(num):
            size = int(ctx.rng.integers(min(6, len(members)), len(members) + 1))
            big = symmetric_subset(ctx, members, size)
            other = symmetric_subset(ctx, members, 2) or set(big)
            ctx.case("symmetric", len(big) > 4, group=name, subset=sorted(tup(m) for m in big))
            order = sorted(big, key=tup)
            order = [order[i] for i in ctx.rng.permutation(len(order))]
            for pair in ((order, other), (other, order)):
                with ctx.guard("symmetric-accept"):
                    cplx = objects.CayleyComplex(*pair)
                    ctx.check((cplx.subset_a, cplx.subset_b) == tuple(map(set, pair)), "symmetric-accept", "subsets of an accepted pair")
            lone = [m for m in order if m != ~m]
            for m in lone[:: max(1, len(lone) // 4)]:
                bad = [o for o in order if o != m]
                ctx.raises(ValueError, "symmetric", objects.CayleyComplex, bad, other, msg="large asymmetric subset_a")
                ctx.raises(ValueError, "symmetric", objects.CayleyComplex, set(bad), msg="large asymmetric subset_a and subset_b")
                ctx.raises(ValueError, "symmetric", objects.CayleyComplex, other, bad, msg="large asymmetric subset_b")


def column_structure(probe, num_labels):
    """Columns by (block of checks, label position), from a code whose checks are unit vectors."""
    mat = mats.to_int(probe.matrix)
    if mat.shape[0] % num_labels or not (np.sum(mat != 0, axis=1) == 1).all():
        return None
    return [[int(np.argmax(row)) for row in mat[s : s + num_labels]] for s in range(0, len(mat), num_labels)]


def match(ref, cols_x, cols_z, num_cols):
    """Find columns <-> faces and blocks <-> vertices consistent with the complex; None if impossible."""
    labels = list(itertools.product(ref.A, ref.B))
    where_x, where_z = {}, {}
    for table, where in ((cols_x, where_x), (cols_z, where_z)):
        for s, cols in enumerate(table):
            if len(set(cols)) != len(cols):
                return None
            for pos, col in enumerate(cols):
                where.setdefault(col, []).append((s, pos))
    if set(where_x) != set(range(num_cols)) or set(where_z) != set(range(num_cols)):
        return None
    v0 = sorted(g for g, par in ref.parity.items() if par == 0)
    for g0 in v0:
        vertex, todo, column, fine = {0: g0}, [0], {}, True
        while todo and fine:
            s = todo.pop()
            g = vertex[s]
            for pos, col in enumerate(cols_x[s]):
                a, b = labels[pos]
                face = ref.face(g, a, b)
                if column.setdefault(col, face) != face:
                    fine = False
                    break
                agb = compose(compose(a, g), b)
                other = labels.index((invert(a), invert(b)))
                ends = [t for t, p in where_x[col] if p == other and (t != s or agb == g)]
                if len(where_x[col]) != 2 or not ends:
                    fine = False
                    break
                t = ends[0]
                if t not in vertex:
                    vertex[t] = agb
                    todo.append(t)
                elif vertex[t] != agb:
                    fine = False
                    break
        if not fine or len(vertex) != len(cols_x) or set(vertex.values()) != set(v0):
            continue
        if len(column) != num_cols or len(set(column.values())) != num_cols:
            continue
        # the z sectors: the block of vertex h has the column of face f(h, a, b) at label (a, b)
        graph = nx.Graph()
        for s, cols in enumerate(cols_z):
            options = set.intersection(*[{h for h, x, y in ref.faces[column[col]] if (x, y) == labels[pos]} for pos, col in enumerate(cols)])
            graph.add_edges_from((s, h) for h in options - set(v0))
        blocks = set(range(len(cols_z)))
        odd = ref.nodes - set(v0)
        if len(odd) == len(blocks) and set(graph) == odd | blocks and len(nx.bipartite.hopcroft_karp_matching(graph, blocks)) == 2 * len(odd):
            return vertex, column
    return None


def seed_code(ctx, q, n):
    """Parity checks of a seed code of the given length."""
    f = GF(q)
    rows = int(ctx.rng.integers(0, n + 1))
    mat = f.random(ctx.rng, (rows, n))
    if rows and ctx.rng.random() < 0.3:
        mat = np.vstack([mat, mat[:1]])
    return mat


def check_code(ctx, code, subset_a, subset_b, bipartite, q, mat_a, mat_b):
    from qldpc import codes

    f = GF(q)
    ref = Reference(subset_a, subset_b, bipartite)
    sub_x, sub_z = codes.QTCode.get_subgraphs(code.complex)
    num_labels = len(ref.A) * len(ref.B)
    unit = codes.ClassicalCode(np.eye(num_labels, dtype=int), q)
    cols_x = column_structure(codes.TannerCode(sub_x, unit), num_labels)
    cols_z = column_structure(codes.TannerCode(sub_z, unit), num_labels)
    mx, mz = mats.to_int(code.matrix_x), mats.to_int(code.matrix_z)
    n = len(ref.faces)
    if not ctx.check(mx.shape[1] == mz.shape[1] == n == len(code) and code.field.order == q, "qt-structure", f"{len(code)} qudits for {n} faces"):
        return
    found = cols_x is not None and cols_z is not None and match(ref, cols_x, cols_z, n)
    if not ctx.check(bool(found), "qt-structure", "columns and check blocks do not match the faces and vertices of the complex"):
        return
    gen_a, gen_b = f.null_space(mat_a) if len(mat_a) else np.eye(mat_a.shape[1], dtype=int), f.null_space(mat_b) if len(mat_b) else np.eye(mat_b.shape[1], dtype=int)

    def kron(a, b):
        return f.mul(a[:, None, :, None], b[None, :, None, :]).reshape(len(a) * len(b), a.shape[1] * b.shape[1])

    for sector, mat, local, cols in (("x", mx, kron(gen_a, gen_b), cols_x), ("z", mz, kron(mat_a, mat_b), cols_z)):
        want = np.zeros((len(local) * len(cols), n), dtype=int)
        for s, block in enumerate(cols):
            want[s * len(local) : (s + 1) * len(local), block] = local
        ctx.check(f.same_span(mat, want), f"qt-{sector}", f"{sector} checks do not span the local tensor-product checks", rank=f.rank(want))
        # low density: every check lives on the faces of one vertex
        supports = [set(block) for block in cols]
        ctx.check(all(any(set(np.nonzero(row)[0]) <= sup for sup in supports) for row in mat), f"qt-{sector}", "a check reaches beyond the faces of one vertex")
    ctx.check(not np.any(f.matmul(mx, mz.T)) and not code.is_subsystem_code, "qt-commute", "the checks do not commute")
    k = n - f.rank(mx) - f.rank(mz)
    ctx.check(code.dimension == k, "qt-commute", f"dimension {code.dimension}, expected {k}")
    if n <= 64 and ctx.rng.random() < 0.4:
        both = np.vstack([np.hstack([mx, 0 * mx]), np.hstack([0 * mz, mz])])
        quantinv.audit(ctx, code, q, both, "quantum Tanner code", limit=4000)


def run_codes(ctx, names, num, limit):
    import galois

    from qldpc import abstract, codes

    for name in names:
        group = small_groups(abstract)[name]()
        members = list(group.generate())
        done = attempts = 0
        while done < num and attempts < 20 * num:
            attempts += 1
            q = int(ctx.rng.choice([2, 2, 3, 4, 5]))
            subset_a = symmetric_subset(ctx, members, int(ctx.rng.integers(1, 5)))
            subset_b = symmetric_subset(ctx, members, int(ctx.rng.integers(1, 5)))
            if not subset_a or not subset_b:
                continue
            ta, tb = {tup(m) for m in subset_a}, {tup(m) for m in subset_b}
            free = no_conjugacy(ta, tb, len(next(iter(ta))))
            bipartite = free and bool(ctx.rng.random() < 0.7)
            cover = len(Reference(subset_a, subset_b, bipartite).faces)
            if cover > limit:
                continue
            done += 1
            mat_a, mat_b = seed_code(ctx, q, len(ta)), seed_code(ctx, q, len(tb))
            ctx.case("qtcode", len(ta) > 1 or len(tb) > 1, group=name, a=sorted(ta), b=sorted(tb), q=q, mat_a=mat_a, mat_b=mat_b, bipartite=bipartite)
            code_a, code_b = codes.ClassicalCode(mat_a, q), codes.ClassicalCode(mat_b, q)
            how = done % 4
            if how == 0:
                code = codes.QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
            elif how == 1:
                code = codes.QTCode(list(subset_a), tuple(subset_b), galois.GF(q)(mat_a), galois.GF(q)(mat_b), bipartite=bipartite)
            elif how == 2:
                code = codes.QTCode(subset_a, subset_b, mat_a, mat_b, q, bipartite=bipartite)
            else:
                code = codes.QTCode(subset_a, subset_b, code_a, code_b, q, bipartite=bipartite)
            check_code(ctx, code, subset_a, subset_b, bipartite, q, mat_a, mat_b)
            f = GF(q)
            ctx.check(np.array_equal(mats.to_int(code.code_a.matrix), mat_a) and np.array_equal(mats.to_int(code.code_b.matrix), mat_b), "qt-structure", "stored seed codes")
            if len(ta) == len(tb):
                code = codes.QTCode(subset_a, subset_b, code_a, bipartite=bipartite)
                dual = mats.to_int(code.code_b.matrix)
                gen = f.null_space(mat_a) if len(mat_a) else np.eye(len(ta), dtype=int)
                ctx.check(f.same_span(dual, gen), "qt-default", "the default second code is the dual of the first")
                check_code(ctx, code, subset_a, subset_b, bipartite, q, mat_a, dual)
            else:
                ctx.raises(ValueError, "qt-reject", codes.QTCode, subset_a, subset_b, code_a, msg="second code missing")
            # wrong block lengths and mixed fields
            longer = codes.ClassicalCode(np.ones((1, len(tb) + 1), dtype=int), q)
            ctx.raises(Exception, "qt-reject", codes.QTCode, subset_a, subset_b, code_a, longer, bipartite=bipartite, msg="wrong block length")
            other = codes.ClassicalCode(np.ones((1, len(tb)), dtype=int), 3 if q != 3 else 2)
            ctx.raises(ValueError, "qt-reject", codes.QTCode, subset_a, subset_b, code_a, other, bipartite=bipartite, msg="different fields")
            if not free:
                ctx.raises(ValueError, "qt-reject", codes.QTCode, subset_a, subset_b, code_a, code_b, bipartite=True, msg="no total no-conjugacy")


def run_random(ctx, names, num):
    from qldpc import abstract, codes

    for name in names:
        group = small_groups(abstract)[name]()
        members = {tup(m) for m in group.generate()}
        for trial in range(num):
            q = int(ctx.rng.choice([2, 2, 3]))
            na, nb = int(ctx.rng.integers(1, 4)), int(ctx.rng.integers(1, 4))
            if max(na, nb) > group.order:
                continue
            mat_a, mat_b = seed_code(ctx, q, na), seed_code(ctx, q, nb)
            code_a, code_b = codes.ClassicalCode(mat_a, q), codes.ClassicalCode(mat_b, q)
            seed = int(ctx.rng.integers(1000))
            one, default = bool(trial % 2), trial % 3 == 0
            if default or one:
                nb, mat_b, code_b = na, None, None
            ctx.case("random", na > 1, group=name, q=q, mat_a=mat_a, mat_b=mat_b, seed=seed, one_subset=one)
            code = codes.QTCode.random(group, code_a, code_b, one_subset=one, seed=seed)
            subset_a, subset_b = code.complex.subset_a, code.complex.subset_b
            ctx.check(len(subset_a) == na and len(subset_b) == nb, "qt-random", "sizes of the random subsets")
            for sub in (subset_a, subset_b):
                ts = {tup(m) for m in sub}
                ctx.check(ts <= members and {invert(t) for t in ts} == ts, "qt-random", "random subsets are symmetric sets of group members")
            ctx.check(not one or subset_a == subset_b, "qt-random", "one_subset uses the same subset twice")
            again = codes.QTCode.random(group, code_a, code_b, one_subset=one, seed=seed)
            ctx.check(again == code and np.array_equal(mats.to_int(again.matrix_x), mats.to_int(code.matrix_x))
                      and np.array_equal(mats.to_int(again.matrix_z), mats.to_int(code.matrix_z)), "qt-random", "same seed, different code")
            check_code(ctx, code, subset_a, subset_b, False, q, mat_a, mats.to_int(code.code_b.matrix))


def units(tier, seed):
    from qldpc import abstract

    big = tier == "thorough"
    names = list(small_groups(abstract))
    heavy = {"PSL(2,5)", "S4", "SL(2,3)"}
    out = []
    for name in names:
        num = 3 if name in heavy else 8
        out.append((f"complex-{name}", run_complex, ([name], num * (4 if big else 1))))
        out.append((f"codes-{name}", run_codes, ([name], (3 if name in heavy else 6) * (6 if big else 1), 1200 if big else 200)))
    for part in (["C7", "C8", "D6", "C3xC3"], ["A4", "SL(2,3)"], ["S4"], ["C2xC4", "D5", "C3xD3"]):
        out.append((f"symmetric-{part[0]}", run_symmetric, (part, 12 if big else 4)))
    out.append(("random-small", run_random, (["C4", "C6", "D3", "C2xC2"], 24 if big else 6)))
    out.append(("random-large", run_random, (["D4", "Q8", "A4"], 20 if big else 4)))
    return out


COST = {"complex-PSL": 10, "complex-S4": 9, "complex-SL": 8, "codes-": 3}
