import copy
import os
import pickle
import re
import tempfile

import numpy as np

from vlib import mats, qcodes, quantinv
from vlib.gf import GF

PROPERTY = "C15"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round-trip and equality monitors with an independent string/graph/file reading of every code"
RULE = ("one case per random check matrix (13 structural kinds, incl. zero rows/columns, over GF(2..11)) and conversion; pairs of codes for "
        "equality and equivalence derived by row mixing, entry changes, extra rows and field changes; non-trivial when the matrix is nonzero")
REQUIRED = {"classical-graph": 200, "qudit-graph": 200, "strings": 200, "copy": 300, "equal": 400, "unequal": 400, "equiv": 250, "not-equiv": 150,
            "saved": 20, "saved-unequal": 20, "reject": 10}
FIELDS = [2, 2, 2, 3, 4, 5, 7, 8, 9, 11]


def same(code, checks, q):
    return type(code.matrix).order == q and code.field.order == q and np.array_equal(mats.to_int(code.matrix), checks)


def classical_graphs(ctx, q, count):
    from qldpc import codes
    from qldpc.objects import Node

    for _ in range(count):
        kind, mat = mats.random_matrix(ctx.rng, q)
        ctx.case("classical graph", mat.any(), q=q, kind=kind, matrix=mat)
        how, arg = mats.as_input(ctx.rng, mat, q)
        code = codes.ClassicalCode(arg, q)
        ctx.check(same(code, mat, q), "matrix", "the code's matrix is not the one given")
        graph = code.graph
        m, n = mat.shape
        nodes = {Node(i, is_data=False) for i in range(m)} | {Node(j, is_data=True) for j in range(n)}
        ctx.check(set(graph.nodes()) == nodes, "graph-nodes", "the Tanner graph does not have one node per check and bit")
        edges = {(Node(int(i), is_data=False), Node(int(j), is_data=True)) for i, j in zip(*np.nonzero(mat))}
        ctx.check(set(graph.edges()) == edges, "graph-edges", "the Tanner graph does not have one edge per nonzero entry")
        back = codes.ClassicalCode.graph_to_matrix(graph)
        ctx.check(type(back).order == q and np.array_equal(mats.to_int(back), mat), "classical-graph",
                  "matrix -> Tanner graph -> matrix is not lossless", matrix=mat, back=back)
        again = codes.ClassicalCode.graph_to_matrix(codes.ClassicalCode.matrix_to_graph(code.field(mat)))
        ctx.check(type(again).order == q and np.array_equal(mats.to_int(again), mat), "classical-graph", "matrix_to_graph is not lossless")
        if q == 2:
            bits = mat.tolist() if ctx.rng.random() < 0.5 else mat
            again = codes.ClassicalCode.graph_to_matrix(codes.ClassicalCode.matrix_to_graph(bits))
            ctx.check(np.array_equal(mats.to_int(again), mat), "classical-graph", "matrix_to_graph of a plain matrix is not lossless")


TOKEN = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}


def read_token(token, q):
    """(x, z) of one Pauli token, None if unreadable."""
    if q == 2:
        return TOKEN.get(token)
    if token == "I":
        return (0, 0)
    if match := re.fullmatch(r"Y\((\d+)\)", token):
        return (int(match[1]),) * 2
    match = re.fullmatch(r"(?:X\((\d+)\))?\*?(?:Z\((\d+)\))?", token)
    return (int(match[1] or 0), int(match[2] or 0)) if match else None


def write_token(x, z, q, rng):
    if q == 2:
        return {v: k for k, v in TOKEN.items()}[(x, z)]
    if not x and not z:
        return "I"
    if x == z and rng.random() < 0.5:
        return f"Y({x})"
    parts = ([f"X({x})"] if x else []) + ([f"Z({z})"] if z else [])
    if len(parts) == 2 and rng.random() < 0.3:
        parts.reverse()
    return "*".join(parts)


def make_qudit(ctx, q, kind=None, max_n=5):
    """(checks, code, is_css)"""
    from qldpc import codes

    if ctx.rng.random() < 0.3:
        mx, mz = qcodes.random_css(ctx.rng, q, max_n=max_n, subsystem=ctx.rng.random() < 0.4)
        checks = np.vstack([np.hstack([mx, np.zeros_like(mx)]), np.hstack([np.zeros_like(mz), mz])])
        return checks, codes.CSSCode(codes.ClassicalCode(mx, q), codes.ClassicalCode(mz, q)), True
    if ctx.rng.random() < 0.3:
        n = int(ctx.rng.integers(1, max_n + 1))
        _, checks = mats.random_matrix(ctx.rng, q, max_n=2 * n, min_n=2 * n, max_m=5)
    else:
        _, n, checks = qcodes.random_checks(ctx.rng, q, kind, max_n=max_n)
    how, arg = mats.as_input(ctx.rng, checks, q)
    return checks, codes.QuditCode(arg, q), False


def qudit_forms(ctx, q, count):
    from qldpc import codes
    from qldpc.objects import Node

    for _ in range(count):
        checks, code, css = make_qudit(ctx, q)
        m, n = len(checks), checks.shape[1] // 2
        ctx.case("qudit forms", checks.any(), q=q, css=css, checks=checks)
        ctx.check(same(code, checks, q), "matrix", "the code's matrix is not the one given")

        graph = code.graph
        nodes = {Node(i, is_data=False) for i in range(m)} | {Node(j, is_data=True) for j in range(n)}
        ctx.check(set(graph.nodes()) == nodes, "graph-nodes", "the Tanner graph does not have one node per check and qudit")
        support = checks[:, :n] + checks[:, n:]
        edges = {(Node(int(i), is_data=False), Node(int(j), is_data=True)) for i, j in zip(*np.nonzero(support))}
        ctx.check(set(graph.edges()) == edges, "graph-edges", "the Tanner graph does not have one edge per addressed qudit of each check")
        for maker in (type(code), codes.QuditCode):
            back = maker.graph_to_matrix(graph)
            ctx.check(type(back).order == q and np.array_equal(mats.to_int(back), checks), "qudit-graph",
                      "matrix -> Tanner graph -> matrix is not lossless", back=back)
        again = codes.QuditCode.graph_to_matrix(codes.QuditCode.matrix_to_graph(code.matrix))
        ctx.check(type(again).order == q and np.array_equal(mats.to_int(again), checks), "qudit-graph", "matrix_to_graph is not lossless")
        if q == 2:
            again = codes.QuditCode.graph_to_matrix(codes.QuditCode.matrix_to_graph(checks.tolist() if ctx.rng.random() < 0.5 else checks))
            ctx.check(np.array_equal(mats.to_int(again), checks), "qudit-graph", "matrix_to_graph of a plain matrix is not lossless")

        strings = code.get_strings()
        ctx.check(len(strings) == m, "strings-read", "not one string per check")
        read = [[read_token(token, q) for token in string.split()] for string in strings]
        want = [[(int(row[j]), int(row[n + j])) for j in range(n)] for row in checks]
        ctx.check(read == want, "strings-read", "the Pauli strings do not spell out the parity checks", strings=strings)
        back = codes.QuditCode.from_strings(*strings, field=q)
        ctx.check(same(back, checks, q), "strings", "checks -> strings -> checks is not lossless", strings=strings, back=back.matrix)
        mine = [" ".join(write_token(*pair, q, ctx.rng) for pair in row) for row in want]
        back = codes.QuditCode.from_strings(*mine) if q == 2 and ctx.rng.random() < 0.5 else codes.QuditCode.from_strings(*mine, field=q)
        ctx.check(same(back, checks, q), "strings", "strings are not read as the checks they spell", strings=mine, back=back.matrix)
        if ctx.rng.random() < 0.1 and n > 1 and m > 1:
            short = mine[:-1] + [" ".join(mine[-1].split()[:-1])]
            ctx.raises(ValueError, "reject", codes.QuditCode.from_strings, *short, field=q, msg="strings of different lengths")


def copies(ctx, q, count):
    from qldpc import codes

    f = GF(q)
    for _ in range(count):
        if ctx.rng.random() < 0.5:
            _, mat = mats.random_matrix(ctx.rng, q, max_n=6)
            code = codes.ClassicalCode(mat, q)
            warm = ctx.rng.random() < 0.5
            ctx.case("copies", mat.any(), q=q, matrix=mat, warm=warm)
            if warm:
                code.generator, code.dimension, code.graph, q < 6 and code.get_distance_exact()
            makers = [codes.ClassicalCode, copy.copy, copy.deepcopy, lambda c: pickle.loads(pickle.dumps(c)),
                      lambda c: codes.ClassicalCode(c, q), lambda c: codes.ClassicalCode(c.matrix), lambda c: codes.ClassicalCode(mats.to_int(c.matrix), q)]
            for maker in makers:
                new = maker(code)
                ctx.check(new == code and code == new and same(new, mat, q), "copy", "a copy of the code differs")
                ctx.check(new.dimension == code.dimension == mat.shape[1] - f.rank(mat), "copy-queries", "a copy of the code answers differently")
                ctx.check(f.same_span(mats.to_int(new.generator), f.null_space(mat)), "copy-queries", "a copy of the code has another generator")
            ctx.raises(ValueError, "reject", codes.ClassicalCode, code, 5 if q != 5 else 3, msg="inconsistent field")
        else:
            checks, code, css = make_qudit(ctx, q, max_n=4)
            n = checks.shape[1] // 2
            truth = qcodes.Truth(q, checks, n)
            warm = ctx.rng.random() < 0.5
            ctx.case("copies", checks.any(), q=q, checks=checks, css=css, warm=warm)
            if warm:
                code.get_logical_ops(), code.get_stabilizer_ops(), code.dimension, q < 5 and code.get_distance_exact()
            makers = [codes.QuditCode, copy.copy, copy.deepcopy, lambda c: pickle.loads(pickle.dumps(c)), lambda c: codes.QuditCode(c.matrix),
                      lambda c: codes.QuditCode(mats.to_int(c.matrix), q), lambda c: codes.QuditCode(c, q)]
            if css:
                makers.append(lambda c: codes.CSSCode(c.code_x, c.code_z))
                makers.append(lambda c: codes.CSSCode(c.matrix_x, c.matrix_z, q))
                makers.append(lambda c: codes.CSSCode(mats.to_int(c.matrix_x), mats.to_int(c.matrix_z), q))
            for maker in makers:
                new = maker(code)
                equal = new == code and code == new if type(new) is type(code) else True
                ctx.check(equal and same(new, checks, q), "copy", "a copy of the code differs")
                ctx.check(new.is_subsystem_code == truth.subsystem and new.dimension == truth.k and len(new) == n, "copy-queries",
                          "a copy of the code answers differently")
                problems = truth.logical_problems(new.get_logical_ops())
                ctx.check(not problems, "copy-queries", f"a copy of the code has invalid logical operators: {problems}")
                if ctx.rng.random() < 0.25:
                    quantinv.audit(ctx, new, q, checks, "copy", name="copy-audit")


def change(rng, q, mat):
    """A different matrix (over a possibly different field): how, q, matrix."""
    how = rng.integers(6)
    mat = mat.copy()
    if how == 0:
        i, j = rng.integers(mat.shape[0]), rng.integers(mat.shape[1])
        mat[i, j] = (mat[i, j] + rng.integers(1, q)) % q
        return "entry", q, mat
    if how == 1:
        return "zero row", q, np.vstack([mat, np.zeros((1, mat.shape[1]), dtype=int)])
    if how == 2 and len(mat) > 1:
        perm = rng.permutation(len(mat))
        if not np.array_equal(mat[perm], mat):
            return "row order", q, mat[perm]
    if how == 3:
        bigger = [p for p in (2, 3, 4, 5, 7, 8, 9, 11, 13) if p > mat.max(initial=0) and p != q]
        return "field", int(bigger[rng.integers(len(bigger))]), mat
    if how == 4:
        return "row repeated", q, np.vstack([mat, mat[rng.integers(len(mat))]])
    perm = rng.permutation(mat.shape[1])
    if not np.array_equal(mat[:, perm], mat):
        return "column order", q, mat[:, perm]
    return "zero row", q, np.vstack([mat, np.zeros((1, mat.shape[1]), dtype=int)])


def equality(ctx, q, count):
    from qldpc import codes

    for _ in range(count):
        if ctx.rng.random() < 0.5:
            kind, mat = mats.random_matrix(ctx.rng, q)
            how, q2, other = change(ctx.rng, q, mat)
            ctx.case("equality", mat.any(), q=q, matrix=mat, how=how)
            a, b, c = codes.ClassicalCode(mat, q), codes.ClassicalCode(mat.copy(), q), codes.ClassicalCode(other, q2)
            ctx.check(a == b and b == a and not a != b, "equal", "codes with the same matrix and field differ")
            ctx.check(a != c and c != a and not a == c, "unequal", f"codes compare equal although they differ by: {how}")
        else:
            checks, a, css = make_qudit(ctx, q)
            if css:
                mx, mz = mats.to_int(a.matrix_x), mats.to_int(a.matrix_z)
                b = codes.CSSCode(mx.copy(), mz.copy(), q)
                side = ctx.rng.integers(3)
                if side == 2:
                    how, q2, pair = "swapped sectors", q, (mz, mx)
                    if mx.shape == mz.shape and np.array_equal(mx, mz):
                        how, pair = "zero row", (np.vstack([mx, 0 * mx[:1]]), mz)
                else:
                    how, q2, new = change(ctx.rng, q, [mx, mz][side])
                    if q2 != q and max(mx.max(initial=0), mz.max(initial=0)) >= q2:
                        how, q2, new = "zero row", q, np.vstack([[mx, mz][side], 0 * mx[:1]])
                    pair = (new, mz) if side == 0 else (mx, new)
                    if how == "column order":
                        how, q2, pair = "zero row", q, (mx, np.vstack([mz, 0 * mx[:1]]))
                c = codes.CSSCode(*pair, q2, is_subsystem_code=a.is_subsystem_code)
            else:
                how, q2, other = change(ctx.rng, q, checks)
                b, c = codes.QuditCode(checks.copy(), q), codes.QuditCode(other, q2)
            ctx.case("equality", checks.any(), q=q, checks=checks, css=css, how=how)
            ctx.check(a == b and b == a and not a != b, "equal", "codes with the same matrix and field differ")
            ctx.check(a != c and c != a and not a == c, "unequal", f"codes compare equal although they differ by: {how}")
        ctx.check(a != "code" and a != 3 and a != None and not a == a.matrix.tolist(), "unequal", "a code equals something else")  # noqa: E711


def equivalence(ctx, q, count):
    from qldpc import codes

    f = GF(q)

    def tell(a, b, want, what, calls):
        for call in calls:
            ctx.check(call(a, b) == call(b, a) == want, "equiv" if want else "not-equiv", f"{call.__qualname__} is not {want} for codes with {what}")

    for _ in range(count):
        if ctx.rng.random() < 0.5:
            kind, mat = mats.random_matrix(ctx.rng, q, max_n=6)
            n = mat.shape[1]
            other = qcodes.redundant(ctx.rng, q, f.rref(mat)[0], n)
            more = np.vstack([other, f.random(ctx.rng, (1, n))])
            less = mat[1:] if len(mat) > 1 else np.zeros((1, n), dtype=int)
            ctx.case("equivalence", mat.any(), q=q, matrix=mat)
            a = codes.ClassicalCode(mat, q)
            calls = [codes.ClassicalCode.equiv, type(a).equiv]
            tell(a, codes.ClassicalCode(other, q), True, "the same words", calls)
            tell(a, codes.ClassicalCode(more, q), f.same_span(mat, more), "one more check", calls)
            tell(a, codes.ClassicalCode(less, q), f.same_span(mat, less), "one check less", calls)
            tell(a, codes.ClassicalCode(np.hstack([mat, 0 * mat[:, :1]]), q), False, "different lengths", calls)
            if mat.max(initial=0) < 2:
                tell(a, codes.ClassicalCode(mat, 2 if q != 2 else 3), False, "different fields", calls)
        else:
            checks, a, css = make_qudit(ctx, q, max_n=4)
            n = checks.shape[1] // 2
            other = qcodes.redundant(ctx.rng, q, f.rref(checks)[0], 2 * n)
            more = np.vstack([other, f.random(ctx.rng, (1, 2 * n))])
            less = checks[1:] if len(checks) > 1 else np.zeros((1, 2 * n), dtype=int)
            ctx.case("equivalence", checks.any(), q=q, checks=checks, css=css)
            calls = [codes.QuditCode.equiv, codes.CSSCode.equiv] if css else [codes.QuditCode.equiv]
            tell(a, codes.QuditCode(other, q), True, "the same gauge group", calls)
            tell(a, codes.QuditCode(more, q), f.same_span(checks, more), "one more check", calls)
            tell(a, codes.QuditCode(less, q), f.same_span(checks, less), "one check less", calls)
            if css:
                mx, mz = mats.to_int(a.matrix_x), mats.to_int(a.matrix_z)
                ox = qcodes.redundant(ctx.rng, q, f.rref(mx)[0], n)
                oz = qcodes.redundant(ctx.rng, q, f.rref(mz)[0], n)
                tell(a, codes.CSSCode(ox, oz, q), True, "the same sectors", calls)
                tell(a, codes.CSSCode(oz, ox, q), f.same_span(mx, mz), "swapped sectors", calls)
                for _ in range(2):  # sectors of the same rank that differ by a shuffle of the qudits
                    shuffle = ctx.rng.permutation(n)
                    tell(a, codes.CSSCode(ox, oz[:, shuffle], q), f.same_span(mz, mz[:, shuffle]), "shuffled Z checks", calls)
                    tell(a, codes.CSSCode(ox[:, shuffle], oz, q), f.same_span(mx, mx[:, shuffle]), "shuffled X checks", calls)
                fewer = mz[1:] if len(mz) > 1 else 0 * mz
                tell(a, codes.CSSCode(ox, fewer, q), f.same_span(mz, fewer), "one Z check less", calls)
                fewer = mx[1:] if len(mx) > 1 else 0 * mx
                tell(a, codes.CSSCode(fewer, oz, q), f.same_span(mx, fewer), "one X check less", calls)


def tanner_data(ctx):
    """Generating data of a quantum Tanner code: (subset_a, subset_b, matrix_a, matrix_b, q, bipartite)."""
    from qldpc import abstract
    from qldpc.objects import CayleyComplex

    group = [lambda: abstract.CyclicGroup(int(ctx.rng.integers(2, 8))), lambda: abstract.DihedralGroup(int(ctx.rng.integers(2, 5))),
             lambda: abstract.QuaternionGroup(), lambda: abstract.AbelianGroup(2, 3)][ctx.rng.integers(4)]()
    size_a, size_b = (int(ctx.rng.integers(1, min(4, group.order) + 1)) for _ in range(2))
    subset_a = group.random_symmetric_subset(size_a, seed=int(ctx.rng.integers(1000)))
    subset_b = group.random_symmetric_subset(size_b, seed=int(ctx.rng.integers(1000)))
    q = int([2, 2, 3, 4, 5][ctx.rng.integers(5)])
    _, ma = mats.random_matrix(ctx.rng, q, max_n=size_a, min_n=size_a, max_m=3)
    _, mb = mats.random_matrix(ctx.rng, q, max_n=size_b, min_n=size_b, max_m=3)
    if ctx.rng.random() < 0.12:
        ma = np.zeros((0, size_a), dtype=int)
    if ctx.rng.random() < 0.12:
        mb = np.zeros((0, size_b), dtype=int)
    bipartite = bool(ctx.rng.random() < 0.7 and CayleyComplex.satisfies_total_no_conjugacy(subset_a, subset_b))
    return group, subset_a, subset_b, ma, mb, q, bipartite


def saved(ctx, count):
    from qldpc import codes

    with tempfile.TemporaryDirectory(prefix="verif-c15-") as directory:
        for index in range(count):
            group, sa, sb, ma, mb, q, bipartite = tanner_data(ctx)
            ctx.case("saved file", True, order=group.order, a=len(sa), b=len(sb), ma=ma, mb=mb, q=q, bipartite=bipartite)
            field = codes.ClassicalCode([[0]], q).field
            make = lambda a, b, x, y, bip: codes.QTCode(a, b, field(x), field(y), bipartite=bip)  # noqa: E731
            code = make(sa, sb, ma, mb, bipartite)
            path = os.path.join(directory, ["one.txt", f"sub{index}/dir/two.txt"][index % 2])
            headers = [(), ("a header",), ("two\nlines", "# more"), ("", "subset_a:", "bipartite: maybe")][index % 4]
            code.save(path, *headers)
            new = codes.QTCode.load(path)
            ctx.check(new == code and code == new, "saved", "the loaded code differs from the saved one")
            ctx.check(new.field is code.field and np.array_equal(mats.to_int(new.matrix), mats.to_int(code.matrix)), "saved",
                      "the loaded code has another parity check matrix")
            ctx.check(new.code_a == code.code_a and new.code_b == code.code_b and same(new.code_a, ma, q) and same(new.code_b, mb, q), "saved",
                      "the loaded code has other seed codes")
            ctx.check(new.complex.subset_a == set(sa) and new.complex.subset_b == set(sb) and new.complex.bipartite == bipartite, "saved",
                      "the loaded code has another Cayley complex")
            again = make(list(sa)[::-1], list(sb)[::-1], ma, mb, bipartite)
            ctx.check(again == code and np.array_equal(mats.to_int(again.matrix), mats.to_int(code.matrix)), "saved",
                      "the same generating data define different codes")
            # codes that differ in one ingredient only
            if len(ma):
                other = ma.copy()
                other[0, 0] = (other[0, 0] + 1) % q
                ctx.check(make(sa, sb, other, mb, bipartite) != code, "saved-unequal", "codes with different seed codes compare equal")
            if len(mb):
                other = mb.copy()
                other[0, 0] = (other[0, 0] + 1) % q
                ctx.check(make(sa, sb, ma, other, bipartite) != code, "saved-unequal", "codes with different seed codes compare equal")
            if bipartite:
                ctx.check(make(sa, sb, ma, mb, False) != code, "saved-unequal", "codes with different complexes compare equal")
            for seed in range(3):
                other = group.random_symmetric_subset(len(sa), seed=seed)
                if other != set(sa):
                    ctx.check(make(other, sb, ma, mb, False) != make(sa, sb, ma, mb, False), "saved-unequal", "codes with different subsets compare equal")
                other = group.random_symmetric_subset(len(sb), seed=seed)
                if other != set(sb):
                    ctx.check(make(sa, other, ma, mb, False) != make(sa, sb, ma, mb, False), "saved-unequal", "codes with different subsets compare equal")
        ctx.raises(ValueError, "reject", codes.QTCode.load, os.path.join(directory, "missing.txt"), msg="missing file")


def units(tier, seed):
    deep = 8 if tier == "thorough" else 1
    out = []
    for q in sorted(set(FIELDS)):
        c = (3 if q == 2 else 1) * deep
        out.append((f"classical-graphs-{q}", classical_graphs, (q, 25 * c)))
        out.append((f"qudit-forms-{q}", qudit_forms, (q, 25 * c)))
        out.append((f"copies-{q}", copies, (q, 8 * c)))
        out.append((f"equality-{q}", equality, (q, 40 * c)))
        out.append((f"equivalence-{q}", equivalence, (q, 15 * c)))
    for part in range(4):
        out.append((f"saved-{part}", saved, (8 * deep,)))
    return out
