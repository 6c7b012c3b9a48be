import warnings

import numpy as np

from vlib import grp
from vlib.gf import GF

PROPERTY = "C03"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
RULE = ("one case per (group ring, matrix): matrices are random, sparse, rank-deficient (rows that are ring multiples or "
        "sums of others, zero rows, zero columns) or built from zero divisors; non-trivial when the matrix is nonzero and the group nontrivial")
REQUIRED = {"null-annihilates": 150, "null-complete": 150, "span": 150, "row-form": 150, "row-independent": 150,
            "lift-product": 60, "field-array": 150, "row-form-inv": 100, "empty": 90, "field-array-empty": 60, "exact-answered": 20}


class Module:
    """Formal model of matrices over F_q[G]; elements are coefficient vectors in enumeration order."""

    def __init__(self, group, q):
        self.f = GF(q)
        self.members = list(group.generate())
        self.tups = [grp.tup(m) for m in self.members]
        self.pos = {t: i for i, t in enumerate(self.tups)}
        n = self.n = len(self.tups)
        self.table = np.array([[self.pos[grp.compose(a, b)] for b in self.tups] for a in self.tups])
        self.invs = np.array([self.pos[grp.invert(a)] for a in self.tups])
        self.ident = self.pos[grp.tup(group.identity)]

    def read(self, arr):
        """RingArray -> integer array of shape arr.shape + (n,), by iterating over its entries."""
        out = np.zeros(arr.shape + (self.n,), dtype=int)
        for idx in np.ndindex(*arr.shape):
            for val, member in arr[idx]:
                i = self.pos[grp.tup(member)]
                out[idx][i] = self.f.add(out[idx][i], int(val))
        return out

    def left_matrix(self, x):
        """Matrix of y -> x * y on coefficient vectors (columns)."""
        out = np.zeros((self.n, self.n), dtype=int)
        for a in np.nonzero(x)[0]:
            for b in range(self.n):
                i = self.table[a, b]
                out[i, b] = self.f.add(out[i, b], x[a])
        return out

    def right_matrix(self, x):
        """Matrix of y -> y * x on coefficient vectors (columns)."""
        out = np.zeros((self.n, self.n), dtype=int)
        for a in np.nonzero(x)[0]:
            for b in range(self.n):
                i = self.table[b, a]
                out[i, b] = self.f.add(out[i, b], x[a])
        return out

    def mul(self, x, y):
        return self.f.matmul(self.left_matrix(x), y)

    def T(self, x):
        out = np.zeros_like(x)
        out[..., self.invs] = x
        return out

    def matmul(self, A, B):
        out = np.zeros((A.shape[0], B.shape[1], self.n), dtype=int)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                for k in range(A.shape[1]):
                    out[i, j] = self.f.add(out[i, j], self.mul(A[i, k], B[k, j]))
        return out

    def left_span(self, A):
        """Field rows spanning the left module generated by the rows of A."""
        rows = []
        for row in A:
            for h in range(self.n):
                e = np.zeros_like(row)
                e[:, self.table[h]] = row  # h * row
                rows.append(e.ravel())
        return np.array(rows, dtype=int).reshape(-1, A.shape[1] * self.n)

    def unit(self, x):
        return self.f.rank(self.left_matrix(x)) == self.n

    def null_system(self, A):
        """Field matrix K with K @ vec(n) = 0 iff sum_j A_ij * T(n_j) = 0 for every i."""
        perm = np.zeros((self.n, self.n), dtype=int)
        perm[self.invs, np.arange(self.n)] = 1
        blocks = [[self.f.matmul(self.left_matrix(x), perm) for x in row] for row in A]
        return np.block(blocks)


def rings(abstract, tier):
    C, A, D, S = abstract.CyclicGroup, abstract.AbelianGroup, abstract.DihedralGroup, abstract.SymmetricGroup
    out = [
        ("C2/2", lambda: C(2), 2), ("C3/2", lambda: C(3), 2), ("C4/2", lambda: C(4), 2), ("C5/2", lambda: C(5), 2),
        ("C2/3", lambda: C(2), 3), ("C3/4", lambda: C(3), 4), ("C3/3", lambda: C(3), 3), ("A22/2", lambda: A(2, 2), 2),
        ("A23/2", lambda: A(2, 3), 2), ("A23/3", lambda: A(2, 3), 3), ("D3/2", lambda: D(3), 2), ("D3/3", lambda: D(3), 3),
        ("D4/2", lambda: D(4), 2), ("S3/5", lambda: S(3), 5), ("Q8/2", abstract.QuaternionGroup, 2),
        ("Q8/3", abstract.QuaternionGroup, 3), ("T/2", abstract.TrivialGroup, 2), ("T/4", abstract.TrivialGroup, 4),
        ("C2xC3/2", lambda: C(2) * C(3), 2), ("SL22/2", lambda: abstract.SL(2, 2), 2), ("A4/2", lambda: abstract.AlternatingGroup(4), 2),
        ("C6/3", lambda: C(6), 3), ("C7/2", lambda: C(7), 2), ("C4/3", lambda: C(4), 3),
    ]
    if tier == "thorough":
        out += [("D5/2", lambda: D(5), 2), ("D6/2", lambda: D(6), 2), ("A4/3", lambda: abstract.AlternatingGroup(4), 3), ("C3/7", lambda: C(3), 7),
                ("A24/2", lambda: A(2, 4), 2), ("C3/8", lambda: C(3), 8), ("C9/2", lambda: C(9), 2), ("D3/4", lambda: D(3), 4)]
    return out


def random_matrix(ctx, mod, rows, cols, kind):
    rng, f, n = ctx.rng, mod.f, mod.n
    dens = rng.choice([0.15, 0.4, 1.0])

    def elem():
        e = f.random(rng, n) * (rng.random(n) < dens)
        if rng.random() < 0.25:
            # a zero divisor: multiples of a subgroup sum (order of a random member), or of (g - 1)
            g = int(rng.integers(n))
            s = np.zeros(n, dtype=int)
            x = mod.ident
            while True:
                s[x] = 1
                x = mod.table[x, g]
                if x == mod.ident:
                    break
            e = mod.mul(e, s) if rng.random() < 0.5 else mod.mul(s, e)
        return e

    mat = np.array([[elem() for _ in range(cols)] for _ in range(rows)], dtype=int).reshape(rows, cols, n)
    if kind == "dependent" and rows > 1:
        for r in range(1, rows):
            if rng.random() < 0.7:
                src = int(rng.integers(r))
                c = elem()
                mat[r] = np.array([mod.mul(c, x) for x in mat[src]])  # left multiple
                if r > 1 and rng.random() < 0.5:
                    src = int(rng.integers(r))
                    mat[r] = f.add(mat[r], np.array([mod.mul(elem(), x) for x in mat[src]]))
    if kind == "sparse":
        mat = mat * (rng.random((rows, cols, 1)) < 0.5)
    if kind == "zeros":
        mat[int(rng.integers(rows))] = 0
        if cols > 1:
            mat[:, int(rng.integers(cols))] = 0
    return mat


def build(abstract, mod, ring, mat):
    """Build the RingArray entry by entry from terms, in a way independent of from_field_array."""
    out = []
    for row in mat:
        out.append([abstract.RingMember(ring, *[(int(c), m) for c, m in zip(e, mod.members) if c]) for e in row])
    arr = np.empty(mat.shape[:2], dtype=object)
    for i, row in enumerate(out):
        for j, e in enumerate(row):
            arr[i, j] = e
    return abstract.RingArray(arr, ring)


def unit_ring(ctx, name, builder, q, reps):
    from qldpc import abstract

    group = builder()
    ring = abstract.GroupRing(group, q)
    mod = Module(group, q)
    f, rng = mod.f, ctx.rng
    lift_ok = not (name.startswith("Q8") and q != 3)
    for rep in range(reps):
        kind = ["random", "dependent", "sparse", "zeros", "dependent"][rep % 5]
        rows, cols = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        if mod.n > 7:
            cols = min(cols, 3)
        mat = random_matrix(ctx, mod, rows, cols, kind)
        with ctx.guard("build"):
            arr = build(abstract, mod, ring, mat)
        ctx.case(kind, bool(mat.any()) and mod.n > 1, ring=name, mat=mat)
        with ctx.guard("field-array"):
            back = arr.to_field_array()
            ctx.check(np.array_equal(np.array(back, dtype=int), mat) and type(back) is ring.field, "field-array", f"{name}: to_field_array")
            again = abstract.RingArray.from_field_array(ring, np.array(back, dtype=int))
            ctx.check(np.array_equal(mod.read(again), mat), "field-array", f"{name}: from_field_array")
            # arrays that are not stored row by row: views with other strides, transposed and reversed axes
            views = [("reversed rows", arr[::-1], mat[::-1]), ("every other column", arr[:, ::2], mat[:, ::2]), ("swapped axes", arr.swapaxes(0, 1), mat.swapaxes(0, 1)),
                     ("column order", arr.copy(order="F"), mat), ("reversed both", arr[::-1, ::-1], mat[::-1, ::-1])]
            for what, view, entries in views:
                ctx.see("views")
                ctx.check(np.array_equal(mod.read(view), entries), "field-array", f"{name}: entries of a view ({what})")
                ctx.check(np.array_equal(np.array(view.to_field_array(), dtype=int), entries), "field-array", f"{name}: to_field_array of a view ({what})")
                ctx.check(np.array_equal(np.array(view.regular_lift(), dtype=int), np.block([[mod.left_matrix(x) for x in row] for row in entries])), "field-array",
                          f"{name}: regular lift of a view ({what})")
            ctx.check(np.array_equal(np.array(arr.T.to_field_array(), dtype=int), mod.T(mat).transpose(1, 0, 2)), "field-array", f"{name}: to_field_array of the transpose")
            ctx.check(np.array_equal(np.array(arr[:, 0].to_field_vector(), dtype=int), mat[:, 0].ravel()), "field-array", f"{name}: to_field_vector of a column")
            vec = arr[0].to_field_vector()
            ctx.check(np.array_equal(np.array(vec, dtype=int), mat[0].ravel()), "field-array", f"{name}: to_field_vector")
            ctx.check(np.array_equal(mod.read(abstract.RingArray.from_field_vector(ring, vec)), mat[0]), "field-array", f"{name}: from_field_vector")
            flat3 = f.random(rng, (2, 1, 3, mod.n))
            ctx.check(np.array_equal(mod.read(abstract.RingArray.from_field_array(ring, flat3)), flat3), "field-array", "3-d array")
            ctx.check(arr.ring == ring and arr.group == group and arr.field is ring.field, "field-array", "ring of the array")
        with ctx.guard("lift-product"):
            other = random_matrix(ctx, mod, cols, int(rng.integers(1, 3)), "random")
            brr = build(abstract, mod, ring, other)
            prod = arr @ brr
            want = mod.matmul(mat, other)
            ctx.check(isinstance(prod, abstract.RingArray) and prod.ring == ring and np.array_equal(mod.read(prod), want), "lift-product", f"{name}: matrix product")
            R = lambda a: np.array(a.regular_lift(), dtype=int)  # noqa: E731
            want_lift = np.block([[mod.left_matrix(x) for x in row] for row in mat])
            ctx.check(np.array_equal(R(arr), want_lift), "lift-product", f"{name}: regular lift")
            ctx.check(np.array_equal(R(prod), f.matmul(R(arr), R(brr))), "lift-product", f"{name}: regular lift of product")
            ctx.check(np.array_equal(R(arr.T), R(arr).T), "lift-product", f"{name}: regular lift of transpose")
            tr = mod.read(arr.T)
            ctx.check(np.array_equal(tr, mod.T(mat).transpose(1, 0, 2)), "lift-product", f"{name}: transpose")
            ctx.check(np.array_equal(mod.read(~arr), mod.T(mat)), "lift-product", f"{name}: entry-wise transpose")
            twice = arr + arr
            ctx.check(np.array_equal(mod.read(twice), f.add(mat, mat)) and twice.ring == ring, "lift-product", f"{name}: sum")
            ctx.check(np.array_equal(mod.read((arr @ brr).T), mod.read(brr.T @ arr.T)), "lift-product", f"{name}: (AB)^T = B^T A^T")
            if lift_ok:
                L = lambda a: np.array(a.lift(), dtype=int)  # noqa: E731
                ctx.check(np.array_equal(L(prod), f.matmul(L(arr), L(brr))), "lift-product", f"{name}: lift of product")
                if not name.startswith("SL"):
                    ctx.check(np.array_equal(L(arr.T), L(arr).T), "lift-product", f"{name}: lift of transpose")
                small = build(abstract, mod, ring, other[:1, :1])
                kr = np.kron(arr, small)
                ctx.check(isinstance(kr, abstract.RingArray), "lift-product", "kron type")
        with ctx.guard("row_reduce"):
            red = arr.row_reduce()
            rr = mod.read(red)
            ctx.check(np.array_equal(mod.read(arr), mat), "pure", f"{name}: row_reduce changed its input")
            check_reduced(ctx, mod, name, mat, rr)
        with ctx.guard("null_space"):
            null = arr.null_space()
            nn = mod.read(null)
            ctx.check(nn.shape[1] == cols, "null-shape", name)
            ctx.check(not mod.matmul(mat, mod.T(nn).transpose(1, 0, 2)).any(), "null-annihilates", f"{name}: M @ null.T != 0", mat=mat, null=nn)
            ctx.check(not np.any(arr @ null.T), "null-annihilates", f"{name}: M @ null.T != 0 (library product)")
            want = f.null_space(mod.null_system(mat))
            got = mod.left_span(nn)
            ctx.check(f.same_span(want, got) if len(want) else not got.any(), "null-complete", f"{name}: null space is not generated (field dimension {len(want)} expected, {f.rank(got) if len(got) else 0} found)", mat=mat, null=nn)
            check_reduced(ctx, mod, name, None, nn)


def check_reduced(ctx, mod, name, mat, rr):
    f = mod.f
    spans = [mod.left_span(rr[i:i + 1]) for i in range(len(rr))]
    full = mod.left_span(rr)
    if mat is not None:
        ctx.check(f.same_span(mod.left_span(mat), full), "span", f"{name}: left row span changed by row_reduce", mat=mat, reduced=rr)
    for i in range(len(rr)):
        ctx.check(rr[i].any(), "row-independent", f"{name}: zero row after row reduction")
        others = [s for j, s in enumerate(spans) if j != i]
        if others:
            ctx.check(not f.in_span(rr[i].ravel()[None, :], np.vstack(others)), "row-independent", f"{name}: row {i} lies in the left span of the others", mat=mat, reduced=rr)
        one = np.zeros(mod.n, dtype=int)
        one[mod.ident] = 1
        pivot = any(np.array_equal(rr[i, j], one) and np.count_nonzero(rr[:, j].any(axis=1)) == 1 for j in range(rr.shape[1]))
        ctx.see("row-form")
        if not pivot:
            ctx.check(not any(mod.unit(x) for x in rr[i]), "row-form-inv", f"{name}: row {i} has an invertible entry but is no unit pivot", mat=mat, reduced=rr)


def unit_empty(ctx):
    """Arrays without rows or columns, as null_space returns for matrices of full rank."""
    from qldpc import abstract

    C = abstract.CyclicGroup
    for group, q in [(abstract.TrivialGroup(), 2), (C(2), 2), (C(3), 2), (C(3), 4), (abstract.DihedralGroup(3), 2), (abstract.QuaternionGroup(), 3)]:
        ring = abstract.GroupRing(group, q)
        mod = Module(group, q)
        order, dim = group.order, group.lift_dim
        name = f"{group} over GF({q})"
        for rows, cols in [(0, 0), (0, 1), (0, 3), (1, 0), (2, 0)]:
            ctx.case("empty", True, ring=name, shape=(rows, cols))
            arr = abstract.RingArray(np.zeros((rows, cols), dtype=object), ring)
            ctx.check(arr.ring == ring and arr.T.shape == (cols, rows) and (~arr).shape == (rows, cols) and arr.T.ring == ring, "empty", f"{name}: transpose of an empty array")
            ctx.check(arr.lift().shape == (rows * dim, cols * dim) and type(arr.lift()) is ring.field, "empty", f"{name}: lift of an empty array")
            ctx.check(arr.regular_lift().shape == (rows * order, cols * order) and type(arr.regular_lift()) is ring.field, "empty", f"{name}: regular lift of an empty array")
            with ctx.guard("field-array-empty"):
                back = arr.to_field_array()
                ctx.check(back.shape == (rows, cols, order) and type(back) is ring.field, "field-array-empty", f"{name}: to_field_array of an empty array")
                again = abstract.RingArray.from_field_array(ring, back)
                ctx.check(again.shape == (rows, cols) and again.ring == ring, "field-array-empty", f"{name}: from_field_array of an empty array")
                if rows == 0:
                    none = abstract.RingArray.from_field_vector(ring, ring.field([]))
                    ctx.check(none.shape == (0,) and none.ring == ring, "field-array-empty", f"{name}: from_field_vector of nothing")
                    vec = none.to_field_vector()
                    ctx.check(vec.shape == (0,) and type(vec) is ring.field, "field-array-empty", f"{name}: to_field_vector of nothing")
            with ctx.guard("null-empty"):
                null = mod.read(arr.null_space())
                ctx.check(null.shape[1:] == (cols, order) and (mod.f.rank(mod.left_span(null)) if null.size else 0) == cols * order, "null-empty",
                          f"{name}: the null space of a matrix without rows is everything", shape=(rows, cols))
                ctx.check(arr.row_reduce().shape == (0, cols), "null-empty", f"{name}: row reduction of an empty array")
        one = abstract.RingArray.build(np.eye(2, dtype=int), ring)
        with ctx.guard("field-array-empty"):
            null = one.null_space()
            ctx.check(null.shape == (0, 2) and null.ring == ring and null.to_field_array().shape == (0, 2, order), "field-array-empty", f"{name}: null space of the identity")
        ctx.check((null @ one).shape == (0, 2) and (null @ one).ring == ring, "empty", f"{name}: product with an empty array")
    ctx.raises(ValueError, "empty", lambda: abstract.RingArray([]), msg="no entries and no ring")


def unit_exact(ctx, name, builder, q):
    """Asking for exact reduction: refused where it is unavailable, otherwise the usual guarantees."""
    from qldpc import abstract

    group = builder()
    ring = abstract.GroupRing(group, q)
    mod = Module(group, q)
    for _ in range(4):
        mat = random_matrix(ctx, mod, int(ctx.rng.integers(1, 3)), int(ctx.rng.integers(1, 4)), "dependent")
        arr = build(abstract, mod, ring, mat)
        ctx.case("exact", bool(mat.any()), ring=name, mat=mat)
        for what in ("row_reduce", "null_space"):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = mod.read(getattr(arr, what)(force_heuristic=False))
            except NotImplementedError:
                ctx.see("exact-refused")
                continue
            ctx.see("exact-answered")
            check_reduced(ctx, mod, name, mat if what == "row_reduce" else None, got)
            if what == "null_space":
                want, span = mod.f.null_space(mod.null_system(mat)), mod.left_span(got)
                ctx.check(mod.f.same_span(want, span) if len(want) else not span.any(), "null-complete", f"{name}: null space (no heuristics) is not generated", mat=mat, null=got)


def unit_errors(ctx):
    from qldpc import abstract

    C = abstract.CyclicGroup
    r2, r3 = abstract.GroupRing(C(2), 2), abstract.GroupRing(C(2), 3)
    s2 = abstract.GroupRing(C(3), 2)
    for a, b in [(r2, r3), (r2, s2)]:
        ctx.case("mixed", True, a=str(a), b=str(b))
        x, y = abstract.RingArray([[a.one]]), abstract.RingArray([[b.one]])
        ctx.raises(ValueError, "mixed", lambda: x @ y, msg="product over different rings")
        ctx.raises(ValueError, "mixed", lambda: x + y, msg="sum over different rings")
        ctx.raises(ValueError, "mixed", lambda: np.kron(x, y), msg="kron over different rings")
        ctx.raises(ValueError, "mixed", lambda: abstract.RingArray([[a.one, b.one]]), msg="mixed entries")
    ctx.raises(ValueError, "mixed", lambda: abstract.RingArray([[1]]), msg="non-ring entries")
    with ctx.guard("build"):
        g = C(3).generators[0]
        arr = abstract.RingArray.build([[1, g], [0, s2.one + g]], s2)
        ctx.check(arr[0, 0] == s2.one and arr[0, 1] == g * s2.one and not arr[1, 0] and arr[1, 1] == s2.one + g, "build", "build")
        arr4 = abstract.RingArray.build(np.array([[2, 3]]), abstract.GroupRing(C(2), 4))
        ctx.check([int(v) for e in arr4.ravel() for v, _ in e] == [2, 3], "build", "field elements")
        t = abstract.TrivialGroup.to_ring_array([[0, 1], [1, 1]])
        ctx.check(np.array_equal(np.array(t.lift(), dtype=int), [[0, 1], [1, 1]]), "build", "to_ring_array")
        import galois
        for q in (3, 4):
            m = galois.GF(q)(ctx.rng.integers(0, q, size=(2, 3)))
            t = abstract.TrivialGroup.to_ring_array(m)
            ctx.check(np.array_equal(t.lift(), m) and t.field.order == q, "build", f"to_ring_array GF({q})")


def units(tier, seed):
    from qldpc import abstract

    out = []
    chunks = 2 if tier == "quick" else 6
    for name, builder, q in rings(abstract, tier):
        order = builder().order
        reps = 10 if order <= 4 else 6 if order <= 8 else 3
        for c in range(chunks):
            out.append((f"ring-{name}-{c}", unit_ring, (name, builder, q, reps)))
        out.append((f"exact-{name}", unit_exact, (name, builder, q)))
    out.append(("empty", unit_empty, ()))
    out.append(("errors", unit_errors, ()))
    return out
