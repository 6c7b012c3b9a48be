import itertools

import numpy as np

from vlib import classinv, mats
from vlib.gf import GF, min_weight

PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: family members compared with their textbook definition, word sets and distances by brute force"
RULE = ("one case per family member (family, parameters, field), all admissible parameters up to the bounds in units(); Tanner codes on "
        "random regular graphs, directed and undirected, with and without edge orderings; non-trivial when the dimension is positive")
REQUIRED = {"words": 90, "advertised-distance": 60, "dimension": 120, "tanner-words": 25, "inadmissible": 15, "mds": 15, "bch": 15}


def describe(ctx, code, kind, **args):
    ctx.case(kind, True, **args)
    return GF(code.field.order), mats.to_int(code.matrix), len(code)


def true_distance(f, gen, limit=300_000):
    """Minimum distance: by enumeration of words, or by weight-ordered search of the dual description."""
    if not len(gen):
        return None
    if f.q ** len(gen) <= limit:
        return min_weight(f.words(gen, limit))
    checks = f.null_space(gen)
    return low_weight_distance(f, checks, 4)


def low_weight_distance(f, checks, limit):
    """Smallest w <= limit such that w columns of checks are dependent (None if larger)."""
    n = checks.shape[1]
    cols = checks.T
    for w in range(1, limit + 1):
        for pos in itertools.combinations(range(n), w):
            sub = cols[list(pos)]
            if not checks.shape[0] or f.rank(sub) < w:
                return w
    return None


def verdict(ctx, code, gen, dim, dist, tag):
    """gen: reference generator (or None); dim, dist: textbook parameters."""
    from qldpc import codes

    f = GF(code.field.order)
    mat, n = mats.to_int(code.matrix), len(code)
    null = f.null_space(mat) if len(mat) else np.eye(n, dtype=int)
    ctx.check(code.dimension == dim == len(null), "dimension", f"{tag}: dimension {code.dimension}, by checks {len(null)}, textbook {dim}")
    ctx.check(code.rank == n - dim, "rank", f"{tag}: rank {code.rank}")
    ctx.check(f.same_span(mats.to_int(code.generator).reshape(-1, n), null), "generator", f"{tag}: generator")
    if gen is not None:
        ctx.check(f.same_span(null.reshape(-1, n), gen.reshape(-1, n)), "words", f"{tag}: not the code words of the definition")
    if n <= 40:
        classinv.audit(ctx, code, f.q, null.reshape(-1, n), tag, max_words=4096)
    known = code.get_distance_if_known()
    if dim == 0:
        ctx.check(np.isnan(code.get_distance()), "trivial-distance", f"{tag}: distance {code.get_distance()} of a code of dimension 0")
        return
    true = true_distance(f, null)
    if dist is not None:
        ctx.check(true == dist or true is None, "textbook-distance", f"{tag}: true distance {true}, textbook {dist}")
    if known is not None:
        ctx.check(true is None or known == true, "advertised-distance", f"{tag}: advertises {known}, true {true}")
        ctx.check(code.get_code_params() == (n, dim, known), "params", f"{tag}: get_code_params {code.get_code_params()}")
    if f.q**dim <= 5000:
        ctx.check(code.get_distance() == true, "distance", f"{tag}: reports distance {code.get_distance()}, true {true}")
        fresh = codes.ClassicalCode(mat, f.q)
        ctx.check(fresh.get_distance() == true, "recomputed-distance", f"{tag}: recomputed {fresh.get_distance()}, true {true}")


def repetition(ctx, big):
    from qldpc import codes

    for q in (2, 3, 4, 5, 7, 8, 9):
        for n in range(1, 14 if not big else 40):
            ones = np.ones((1, n), dtype=int)
            for cls in (codes.RepetitionCode, codes.RingCode):
                code = cls(n, q) if q != 2 or n % 2 else cls(n)
                describe(ctx, code, cls.__name__, n=n, q=q)
                ctx.check(len(code) == n and code.field.order == q, "length", f"{cls.__name__}({n})")
                ctx.check(code.num_checks == (n if cls is codes.RingCode else n - 1), "checks", f"{cls.__name__}({n}): number of checks")
                if n > 2:
                    ctx.check(code.get_weight() == 2, "check-weight", f"{cls.__name__}({n}): check weight")
                verdict(ctx, code, ones, 1, n, f"{cls.__name__}({n}, {q})")


def hamming(ctx, big):
    from qldpc import codes

    for q, top in ((2, 5), (3, 4), (4, 3), (5, 3), (7, 2), (8, 2), (9, 2)):
        for r in range(1, top + 1 + big):
            code = codes.HammingCode(r, q) if q != 2 or r % 2 else codes.HammingCode(r)
            f, mat, n = describe(ctx, code, "hamming", r=r, q=q)
            ctx.check(n == (q**r - 1) // (q - 1) and code.field.order == q, "length", f"HammingCode({r},{q}): length {n}")
            # columns: one representative of every point of the projective space
            cols = set()
            for col in mat.T:
                lead = col[np.nonzero(col)[0][0]] if col.any() else 0
                cols.add(tuple(f.mul(f.inv_t[lead], col)) if lead else None)
            ctx.check(None not in cols and len(cols) == n and mat.shape[0] == r, "projective-columns", f"HammingCode({r},{q}): columns")
            if n <= 45:
                verdict(ctx, code, None, n - r, 3 if r > 1 else None, f"HammingCode({r},{q})")
            ctx.see("words")
    for r in range(2, 6 + big):
        code = codes.ExtendedHammingCode(r)
        f, mat, n = describe(ctx, code, "extended hamming", r=r)
        ham = mats.to_int(codes.HammingCode(r).generator)
        ext = np.hstack([(ham.sum(1) % 2)[:, None], ham])
        ctx.check(n == 2**r, "length", f"ExtendedHammingCode({r})")
        verdict(ctx, code, ext, 2**r - r - 1, 4, f"ExtendedHammingCode({r})")
        rm = codes.ReedMullerCode(r - 2, r)
        ctx.check((rm.dimension, len(rm), rm.get_distance()) == (code.dimension, n, 4), "reed-muller-link", f"RM({r - 2},{r})")


def reed_muller(ctx, big):
    from qldpc import codes

    for q in (2, 3, 4):
        for m in range(0, (6 if q == 2 else 4) + big):
            for r in range(m + 1):
                code = codes.ReedMullerCode(r, m, q) if q != 2 or m % 2 else codes.ReedMullerCode(r, m)
                f, mat, n = describe(ctx, code, "reed-muller", r=r, m=m, q=q)
                # (u | u+v) words from evaluations of monomials: over GF(2) these are the polynomials of degree <= r
                gen = rm_generator(r, m)
                dim = sum(len(list(itertools.combinations(range(m), i))) for i in range(r + 1))
                ctx.check(n == 2**m and code.field.order == q, "length", f"RM({r},{m})")
                ctx.check(len(gen) == dim, "reference")
                small = q**dim <= 300_000
                verdict(ctx, code, gen if q == 2 else None, dim, 2 ** (m - r) if small or 2 ** (m - r) <= 3 else None, f"RM({r},{m},{q})")
                if q == 2 and r < m:
                    dual = codes.ReedMullerCode(m - r - 1, m)
                    ctx.check(codes.ClassicalCode.equiv(~code, dual), "reed-muller-dual", f"the dual of RM({r},{m}) is not RM({m - r - 1},{m})")
                g = np.asarray(codes.ReedMullerCode.get_generator(r, m))
                ctx.check(GF(q).same_span(np.atleast_2d(g), mats.to_int(code.generator)), "words", f"RM({r},{m},{q}): get_generator")
    for r, m in ((-1, 2), (3, 2), (0, -1), (1, 0), (5, 4)):
        ctx.raises((ValueError, TypeError), "inadmissible", codes.ReedMullerCode, r, m, msg=f"RM({r},{m})")
        ctx.raises((ValueError, TypeError), "inadmissible", codes.ReedMullerCode.get_generator, r, m, msg=f"RM({r},{m})")


def rm_generator(r, m):
    """Evaluations of all monomials of degree <= r at the points of GF(2)^m."""
    points = list(itertools.product([0, 1], repeat=m))
    rows = []
    for deg in range(r + 1):
        for mono in itertools.combinations(range(m), deg):
            rows.append([int(all(p[i] for i in mono)) for p in points])
    return np.array(rows)


def simplex(ctx, big):
    from qldpc import codes

    for k in range(2, 8):
        code = codes.SimplexCode(k)
        f, mat, n = describe(ctx, code, "simplex", k=k)
        ctx.check(n == 2**k - 1 and code.field.order == 2, "length", f"SimplexCode({k})")
        verdict(ctx, code, None, k, 2 ** (k - 1), f"SimplexCode({k})")
        words = f.words(mats.to_int(code.generator))
        weights = np.count_nonzero(words, axis=1)
        ctx.check(sorted(set(weights.tolist())) == [0, 2 ** (k - 1)], "words", f"SimplexCode({k}): not constant-weight")
        cols = {tuple(c) for c in mats.to_int(code.generator).T}
        ctx.check(len(cols) == n and (0,) * k not in cols, "projective-columns", f"SimplexCode({k}): generator columns")
        ctx.check(all(np.roll(w, 1) in code for w in words[:20]), "cyclic", f"SimplexCode({k}) is not cyclic")
    for k in (-1, 0, 1, 8, 9):
        ctx.raises((ValueError, TypeError), "inadmissible", codes.SimplexCode, k, msg=f"SimplexCode({k})")


def reed_solomon(ctx, q):
    from qldpc import codes

    n = q - 1
    f = GF(q)
    for k in range(1, n + 1):
        code = codes.ReedSolomonCode(n, k)
        describe(ctx, code, "reed-solomon", n=n, k=k)
        gen = mats.to_int(code.generator)
        ctx.check((len(code), code.field.order, code.dimension) == (n, q, k) and gen.shape == (k, n), "dimension", f"RS({n},{k})")
        ctx.check(code.rank == n - k == (f.rank(code.matrix) if k < n else 0), "rank", f"RS({n},{k}): rank")
        # MDS: every k columns of the generator are independent
        subsets = list(itertools.combinations(range(n), k))
        if len(subsets) > 400:
            subsets = [subsets[i] for i in ctx.rng.choice(len(subsets), 400, replace=False)]
        ctx.check(all(f.rank(gen[:, list(s)]) == k for s in subsets), "mds", f"RS({n},{k}) is not MDS: distance < {n - k + 1}")
        ctx.check(np.roll(gen, 1, axis=1) in code, "cyclic", f"RS({n},{k}) is not cyclic")
        # evaluation code: words are polynomials evaluated at the powers of a primitive element, up to column scaling -- by
        # definition narrow-sense: words, as polynomials, vanish at alpha, ..., alpha^(n-k) (highest degree first)
        ctx.check(vanishing(f, gen, n, range(1, n - k + 1)), "words", f"RS({n},{k}): words do not vanish at the n-k consecutive roots")
        if q**k <= 3000:
            ctx.check(code.get_distance() == n - k + 1, "distance", f"RS({n},{k}): distance {code.get_distance()}")
        ctx.see("advertised-distance")
        known = code.get_distance_if_known()
        ctx.check(known is None or known == n - k + 1, "advertised-distance", f"RS({n},{k}) advertises distance {known}")


def power(f, a, e):
    out = 1
    for _ in range(e):
        out = int(f.mul(out, a))
    return out


def primitive_elements(f):
    out = []
    for a in range(2, f.q) if f.q > 2 else [1]:
        x, order = a, 1
        while x != 1:
            x, order = int(f.mul(x, a)), order + 1
        if order == f.q - 1:
            out.append(a)
    return out


def vanishing(f, gen, n, exponents):
    """Do all words (as polynomials, either coefficient order) vanish at beta**e for some primitive n-th root beta?"""
    for alpha in primitive_elements(f):
        beta = power(f, alpha, (f.q - 1) // n)
        roots = [power(f, beta, e) for e in exponents]
        for words in (gen, gen[:, ::-1]):
            ok = True
            for x in roots:
                pw = np.array([power(f, x, i) for i in range(n)])
                if np.any(f.matmul(words, pw)):
                    ok = False
                    break
            if ok:
                return True
    return False


BCH = {  # (n, q): {k: design distance}, the textbook narrow-sense primitive codes
    (3, 2): {1: 3},
    (7, 2): {4: 3, 1: 7},
    (15, 2): {11: 3, 7: 5, 5: 7, 1: 15},
    (31, 2): {26: 3, 21: 5, 16: 7, 11: 11, 6: 15, 1: 31},
    (63, 2): {57: 3},
    (8, 3): {6: 2, 5: 3, 4: 3, 3: 5, 2: 5, 1: 8},
    (26, 3): {23: 2, 20: 4},
    (24, 5): {22: 2},
    (48, 7): {46: 2, 44: 3},
    (120, 11): {118: 2, 116: 3},
    (168, 13): {164: 3},
}


def bch(ctx, n, q):
    from qldpc import codes

    for (n, q), table in [((n, q), BCH[n, q])]:
        m = 1
        while q**m - 1 < n:
            m += 1
        for k, design in table.items():
            try:
                code = codes.BCHCode(n, k, q) if q != 2 else codes.BCHCode(n, k)
            except ValueError as error:
                if "does not exist" in str(error) and q != 2:
                    continue  # the narrow-sense code of this dimension does not exist for the default roots
                raise
            f, mat, _ = describe(ctx, code, "bch", n=n, k=k, q=q)
            gen = mats.to_int(code.generator)
            ctx.check((len(code), code.field.order, code.dimension) == (n, q, k) and gen.shape == (k, n)
                      and f.rank(gen) == k, "bch", f"BCH({n},{k},{q})")
            ctx.check(code.rank == n - k == f.rank(mat), "rank", f"BCH({n},{k},{q}): rank {code.rank}, {f.rank(mat)}")
            ctx.check(np.roll(gen, 1, axis=1) in code, "cyclic", f"BCH({n},{k},{q}) is not cyclic")
            if q == 2 or m == 1:
                ctx.check(vanishing(GF(q**m), gen, n, range(1, design)), "words", f"BCH({n},{k},{q}): roots")
            if q == 2 and q**k <= 70000:
                true = min_weight(f.words(gen))
                ctx.check(true == design, "textbook-distance", f"BCH({n},{k}): distance {true}, textbook {design}")
                ctx.check(code.get_distance() == true, "distance", f"BCH({n},{k}): reports {code.get_distance()}")
            known = codes.BCHCode(n, k, q).get_distance_if_known()
            ctx.check(known is None or known == design, "advertised-distance", f"BCH({n},{k},{q}) advertises {known}")


def bch_inadmissible(ctx):
    from qldpc import codes

    ctx.case("bch inadmissible")
    for args in ((4, 2), (6, 3), (14, 7), (8, 4), (7, 4, 3), (10, 4, 3), (30, 11), (25, 3, 5), (16, 11)):
        ctx.raises((ValueError, TypeError), "inadmissible", codes.BCHCode, *args, msg=f"BCHCode{args}")
    for args in ((7, 3), (7, 5), (15, 8)):
        ctx.raises((ValueError, TypeError), "inadmissible", codes.BCHCode, *args, msg=f"BCHCode{args} does not exist")
    for args in ((7, 8), (15, 16)):
        ctx.raises(Exception, "inadmissible", codes.ReedSolomonCode, *args, msg=f"ReedSolomonCode{args}")


def tanner(ctx, count):
    import networkx as nx

    from qldpc import codes

    rng = ctx.rng
    for _ in range(count):
        q = int(rng.choice([2, 2, 3, 4]))
        f = GF(q)
        deg = int(rng.integers(2, 4))
        mode = ["undirected", "undirected-sorted", "directed", "directed-sorted"][rng.integers(4)]
        _, sub = mats.random_matrix(rng, q, ["dense", "sparse", "lowrank", "single-row"][rng.integers(4)], max_n=deg, min_n=deg, max_m=2)
        subcode = codes.ClassicalCode(sub, q)
        if mode.startswith("undirected"):
            nv = int(rng.choice([4, 6])) if deg == 3 else int(rng.integers(3, 7))
            graph = nx.random_regular_graph(deg, nv, seed=int(rng.integers(2**31)))
            if rng.random() < 0.5:  # labels whose order differs from the insertion order
                perm = rng.permutation(nv)
                graph = nx.relabel_nodes(graph, {i: int(perm[i]) + 10 for i in range(nv)})
            orders = {}
            if mode.endswith("sorted"):
                for v in graph:
                    ranks = rng.permutation(deg)
                    for r, w in zip(ranks, graph.neighbors(v)):
                        orders[v, w] = int(r)
                for a, b in graph.edges:
                    graph[a][b]["sort"] = {a: orders[a, b], b: orders[b, a]}
            edges_before = [(a, b, dict(d)) for a, b, d in graph.edges(data=True)]
            ctx.case("tanner", True, mode=mode, q=q, edges=[(a, b, str(d)) for a, b, d in edges_before], sub=sub)
            if not orders:
                # without an explicit order, bits are frozensets ordered by inclusion: the local order is unspecified,
                # so only a permutation-invariant subcode determines the code
                sub = np.ones((1, deg), dtype=int)
                subcode = codes.ClassicalCode(sub, q)
            code = codes.TannerCode(graph, subcode)
            ctx.check([(a, b, dict(d)) for a, b, d in graph.edges(data=True)] == edges_before, "input-kept",
                      "the graph passed to TannerCode was modified")
            again = codes.TannerCode(graph, subcode)
            ctx.check(code == again, "tanner-repeat", "building the Tanner code twice from the same graph gives different codes")
            # bits are edges: identify every column by its support, as far as the incidence determines it
            expect = set()
            edge_list = [frozenset(e) for e in graph.edges]
            ctx.check(len(code) == len(edge_list) and code.num_checks == nv * len(sub), "tanner-size", "wrong size")
            want = np.zeros((nv * len(sub), len(edge_list)), dtype=int)
            for i, v in enumerate(sorted(graph)):
                nbrs = list(graph.neighbors(v))
                if orders:
                    nbrs.sort(key=lambda w: orders[v, w])
                for j, w in enumerate(nbrs):
                    want[i * len(sub) : (i + 1) * len(sub), edge_list.index(frozenset((v, w)))] = sub[:, j]
            # same code up to a relabelling of the bits: compare multisets of columns
            got = mats.to_int(code.matrix)
            ctx.check(sorted(map(tuple, got.T)) == sorted(map(tuple, want.T)), "tanner-words",
                      "the checks of the Tanner code are not the local codes at the vertices (up to bit order)", got=got, want=want)
        else:
            nv, nw = int(rng.integers(2, 6)), int(rng.integers(deg, 8))
            graph = nx.DiGraph()
            graph.add_nodes_from([("w", i) for i in range(nw)] if rng.random() < 0.5 else [])
            want = np.zeros((nv * len(sub), nw), dtype=int)
            used = set()
            rows = []
            for i in rng.permutation(nv):
                nbrs = [int(x) for x in rng.permutation(nw)[:deg]]
                used |= set(nbrs)
                for j, w in enumerate(nbrs):
                    graph.add_edge(("v", int(i)), ("w", w))
                    if mode.endswith("sorted"):
                        graph[("v", int(i))][("w", w)]["sort"] = [3, 7, 9, 11][j]
                order = nbrs if mode.endswith("sorted") else sorted(nbrs)
                rows.append((int(i), order))
            ctx.case("tanner", True, mode=mode, q=q, rows=rows, sub=sub)
            sinks = sorted(used)
            graph.remove_nodes_from([node for node in list(graph) if graph.degree(node) == 0])
            want = np.zeros((nv * len(sub), len(sinks)), dtype=int)
            for i, order in rows:
                for j, w in enumerate(order):
                    want[i * len(sub) : (i + 1) * len(sub), sinks.index(w)] = sub[:, j]
            code = codes.TannerCode(graph, subcode)
            got = mats.to_int(code.matrix)
            ctx.check(np.array_equal(got, want), "tanner-words", "wrong checks of a directed Tanner code", got=got, want=want)
            if q ** len(sinks) <= 1000:
                words = [w for w in itertools.product(range(q), repeat=len(sinks))
                         if all(tuple(w[sinks.index(x)] for x in order) in subcode for _, order in rows)]
                seen = sorted(tuple(mats.to_int(w)) for w in code.iter_words())
                ctx.check(seen == sorted(words), "tanner-enumerated", "wrong words")
        ctx.check(code.field.order == q, "field", "Tanner code over the wrong field")


def units(tier, seed):
    big = int(tier == "thorough")
    out = [("repetition", repetition, (big,)), ("hamming", hamming, (big,)), ("reed-muller", reed_muller, (big,)),
           ("simplex", simplex, (big,)), ("bch-inadmissible", bch_inadmissible, ())]
    out += [(f"bch-{n}-{q}", bch, (n, q)) for n, q in BCH]
    for q in (4, 8, 16) + ((32,) if big else ()):
        out.append((f"reed-solomon-{q}", reed_solomon, (q,)))
    for p in range(12 if big else 4):
        out.append((f"tanner-{p}", tanner, (80 if big else 20,)))
    return out
