import itertools

import numpy as np

from vlib import mats, qcodes, quantinv
from vlib.gf import GF, coset_min_weight, min_weight

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: defining formulas of product codes recomputed over reference fields and group algebras as the oracle of their check matrices, parameters and logical operators"
RULE = ("one case per product construction x seed codes / ring arrays / polynomials x field x form of the input; "
        "non-trivial when the seeds are not all zero")
REQUIRED = {"hgp-matrix": 80, "hgp-dimension": 70, "hgp-logical": 80, "graph-product": 80, "shp-matrix": 80, "shp-dimension": 60, "shp-logical": 60,
            "shp-span": 40, "shp-distance": 15, "lp-matrix": 80, "lp-nonabelian": 15, "lp-commute": 60, "slp-matrix": 60, "slp-logical": 60, "tb-matrix": 40,
            "tb-reject": 20, "qc-matrix": 120, "qc-distance": 6, "hgp-conjugate": 40, "qc-commute": 120, "lp-trivial": 15}


def kron(f, a, b):
    return f.mul(a[:, None, :, None], b[None, :, None, :]).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def hgp_formula(f, h1, h2):
    (m1, n1), (m2, n2) = h1.shape, h2.shape

    def eye(n):
        return np.eye(n, dtype=int)

    mx = np.hstack([kron(f, h1, eye(n2)), kron(f, eye(m1), h2.T)])
    mz = np.hstack([f.neg(kron(f, eye(n1), h2)), kron(f, h1.T, eye(m2))])
    return mx, mz


def shp_formula(f, h1, h2):
    return kron(f, h1, np.eye(h2.shape[1], dtype=int)), kron(f, np.eye(h1.shape[1], dtype=int), h2)


def null(f, mat):
    return f.null_space(mat) if len(mat) else np.eye(mat.shape[1], dtype=int)


def stacked(mx, mz):
    return np.vstack([np.hstack([mx, np.zeros_like(mx)]), np.hstack([np.zeros_like(mz), mz])])


def check_matrices(ctx, code, q, mx, mz, key):
    ok = ctx.check(code.field.order == q and np.array_equal(mats.to_int(code.matrix_x), mx), key, "matrix_x is not the defining formula",
                   got=code.matrix_x, want=mx)
    ok &= ctx.check(np.array_equal(mats.to_int(code.matrix_z), mz), key, "matrix_z is not the defining formula", got=code.matrix_z, want=mz)
    ok &= ctx.check(np.array_equal(mats.to_int(code.matrix), stacked(mx, mz)) and len(code) == mx.shape[1], key, "the full check matrix is not that of the sectors")
    return ok


def check_logical(ctx, code, q, mx, mz, key, ops=None):
    truth = qcodes.Truth(q, stacked(mx, mz), mx.shape[1])
    ops = mats.to_int(code.get_logical_ops() if ops is None else ops)
    bad = truth.logical_problems(ops)
    ctx.check(not bad, key, f"logical operators: {bad[:2]}", ops=ops)
    ctx.check(code.dimension == truth.k, key, f"dimension {code.dimension}, expected {truth.k}")
    if mx.shape[1] <= 60 and ctx.rng.random() < 0.4:
        quantinv.audit(ctx, code, q, stacked(mx, mz), key, flag=not key.startswith(("shp", "slp")))
    return truth


def seed_pair(ctx, q, max_n, max_m=None):
    _, h1 = mats.random_matrix(ctx.rng, q, None, max_n=max_n, max_m=max_m)
    if ctx.rng.random() < 0.25:
        return h1, None
    _, h2 = mats.random_matrix(ctx.rng, q, None, max_n=max_n, max_m=max_m)
    return h1, h2


def give(ctx, q, h1, h2):
    """Arguments of a product of classical codes, in one of the accepted forms."""
    from qldpc import codes

    how = int(ctx.rng.integers(4))
    if how == 0:
        args = [codes.ClassicalCode(h, q) if h is not None else None for h in (h1, h2)]
        field = None if ctx.rng.random() < 0.5 else q
    elif how == 1 and q == 2:
        args, field = [None if h is None else h.tolist() for h in (h1, h2)], None
    elif how == 2:
        import galois

        args, field = [None if h is None else galois.GF(q)(h) for h in (h1, h2)], None
    else:
        args, field = [None if h is None else mats.as_input(ctx.rng, h, q)[1] for h in (h1, h2)], q
    if args[1] is None:
        args = args[:1]
    return how, args, field


def hgp(ctx, q, count, max_n):
    from qldpc import codes

    f = GF(q)
    for _ in range(count):
        h1, h2 = seed_pair(ctx, q, max_n)
        how, args, field = give(ctx, q, h1, h2)
        h2 = h1 if h2 is None else h2
        ctx.case("hgp", h1.any() or h2.any(), q=q, h1=h1, h2=h2, how=how)
        preset = ctx.rng.random() < 0.8
        code = codes.HGPCode(*args, field=field) if preset else codes.HGPCode(*args, field=field, set_logicals=False)
        mx, mz = hgp_formula(f, h1, h2)
        if not check_matrices(ctx, code, q, mx, mz, "hgp-matrix"):
            continue
        ctx.check(not f.matmul(mats.to_int(code.matrix_x), mats.to_int(code.matrix_z).T).any() and not code.is_subsystem_code, "hgp-commute",
                  "the checks do not commute")
        k = [len(null(f, h)) for h in (h1, h2)]
        kt = [len(null(f, h.T)) for h in (h1, h2)]
        want = k[0] * k[1] + kt[0] * kt[1]
        ctx.check(code.dimension == want, "hgp-dimension", f"dimension {code.dimension}, the product formula gives {want}")
        check_logical(ctx, code, q, mx, mz, "hgp-logical")
        if preset:
            check_logical(ctx, codes.HGPCode(*args, field=field, set_logicals=False), q, mx, mz, "hgp-logical")
        c1, c2 = codes.ClassicalCode(h1, q), codes.ClassicalCode(h2, q)
        lx, lz = map(mats.to_int, codes.HGPCode.get_canonical_logical_ops(c1, c2))
        ops = np.vstack([np.hstack([lx, np.zeros_like(lx)]), np.hstack([np.zeros_like(lz), lz])])
        check_logical(ctx, code, q, mx, mz, "hgp-canonical-logical", ops)
        if preset and want:
            ctx.check(np.array_equal(mats.to_int(code.get_logical_ops()), ops), "hgp-preset", "the preset logical operators are not the canonical ones")
        # the matrix-based product of the bare arrays
        px, pz = codes.HGPCode.get_matrix_product(c1.matrix, c2.matrix)
        ctx.check(np.array_equal(mats.to_int(px), mx) and np.array_equal(mats.to_int(pz), mz) and type(px) is c1.field, "hgp-matrix", "get_matrix_product")
        # the graph-based product
        graph = codes.HGPCode.get_graph_product(c1.graph, c2.graph)
        for maker in (codes.QuditCode, codes.CSSCode):
            back = maker.graph_to_matrix(graph)
            ctx.check(type(back).order == q and np.array_equal(mats.to_int(back), stacked(mx, mz)), "graph-product",
                      "the graph-based product is not the matrix-based product", got=back, want=stacked(mx, mz))
        ctx.check({node.index for node in graph if node.is_data} == set(range(mx.shape[1])), "graph-product", "qudit nodes of the product graph")
        # qudits by sector, and the default conjugation of the second sector
        n1, m1, n2, m2 = h1.shape[1], h1.shape[0], h2.shape[1], h2.shape[0]
        ctx.check(np.array_equal(code.sector_size, [[n1 * n2, n1 * m2], [m1 * n2, m1 * m2]]), "hgp-sectors", f"sector sizes {code.sector_size}")
        a, b = code.conjugated(), code.conjugated(list(range(n1 * n2, len(code))))
        ctx.check(np.array_equal(mats.to_int(a.matrix), mats.to_int(b.matrix)), "hgp-conjugate", "the default conjugation is not that of the (1, 1) sector")


def shp(ctx, q, count, max_n, distances):
    from qldpc import codes

    f = GF(q)
    for _ in range(count):
        h1, h2 = seed_pair(ctx, q, max_n)
        how, args, field = give(ctx, q, h1, h2)
        h2 = h1 if h2 is None else h2
        ctx.case("shp", h1.any() or h2.any(), q=q, h1=h1, h2=h2, how=how)
        preset = ctx.rng.random() < 0.8
        code = codes.SHPCode(*args, field=field) if preset else codes.SHPCode(*args, field=field, set_logicals=False)
        mx, mz = shp_formula(f, h1, h2)
        if not check_matrices(ctx, code, q, mx, mz, "shp-matrix"):
            continue
        g1, g2 = null(f, h1), null(f, h2)
        ctx.check(code.dimension == len(g1) * len(g2), "shp-dimension", f"dimension {code.dimension}, the product formula gives {len(g1) * len(g2)}")
        truth = check_logical(ctx, code, q, mx, mz, "shp-logical")
        stabs = mats.to_int(code.get_stabilizer_ops())
        ctx.check(f.same_span(stabs, truth.stab) if len(stabs) or len(truth.stab) else True, "shp-stabilizers", "the stabilizer group", got=stabs, want=truth.stab)
        if truth.subsystem:
            ctx.check(code.is_subsystem_code and code.gauge_dimension == truth.g, "shp-flag", f"gauge dimension {code.gauge_dimension}, expected {truth.g}")
        lx, lz = map(mats.to_int, codes.SHPCode.get_canonical_logical_ops(codes.ClassicalCode(h1, q), codes.ClassicalCode(h2, q)))
        ops = np.vstack([np.hstack([lx, np.zeros_like(lx)]), np.hstack([np.zeros_like(lz), lz])])
        check_logical(ctx, code, q, mx, mz, "shp-canonical-logical", ops)
        # an SHP code depends on its seed codes only through their code words
        r1, r2 = (qcodes.redundant(ctx.rng, q, f.rref(h)[0], h.shape[1]) for h in (h1, h2))
        other = codes.SHPCode(codes.ClassicalCode(r1, q), codes.ClassicalCode(r2, q))
        ctx.check(f.same_span(mats.to_int(other.matrix), stacked(mx, mz)), "shp-span", "redundant checks of the seed codes change the gauge group")
        if distances and truth.k:
            d = [min_weight(f.words(g)) for g in (g1, g2)]
            if q ** max(mx.shape[1], 1) < 4000:
                ctx.check(code.get_distance() == min(d), "shp-distance", f"distance {code.get_distance()}, the product formula gives {min(d)}")


def ring_groups(abstract, rng):
    """(group, abelian)"""
    options = [
        (lambda: abstract.TrivialGroup(), True),
        (lambda: abstract.CyclicGroup(int(rng.integers(2, 6))), True),
        (lambda: abstract.AbelianGroup(2, int(rng.integers(2, 4))), True),
        (lambda: abstract.AbelianGroup(int(rng.integers(2, 4)), 2, direct_sum=True), True),
        (lambda: abstract.CyclicGroup(2) * abstract.CyclicGroup(int(rng.integers(2, 4))), True),
        (lambda: abstract.DihedralGroup(3), False),
        (lambda: abstract.SymmetricGroup(3), False),
        (lambda: abstract.AlternatingGroup(4), False),
        (lambda: abstract.QuaternionGroup(), False),
    ]
    maker, abelian = options[rng.integers(len(options)) if rng.random() < 0.5 else rng.integers(5)]
    return maker(), abelian


def ring_array(ctx, ring, q, shape, density):
    """A random ring array, together with its lift as an array of int matrices."""
    from qldpc import abstract

    f = GF(q)
    members = list(ring.group.generate())
    dim = ring.group.lift_dim
    lifts = [mats.to_int(ring.group.lift(member)) % q if q in (2, 3, 5, 7) else mats.to_int(ring.group.lift(member)) for member in members]
    rows, blocks = [], np.zeros(shape + (dim, dim), dtype=int)
    for i in range(shape[0]):
        row = []
        for j in range(shape[1]):
            coeffs = f.random(ctx.rng, (len(members),)) * (ctx.rng.random(len(members)) < density)
            terms = [(int(c), member) for c, member in zip(coeffs, members) if c]
            for c, lift in zip(coeffs, lifts):
                if c:
                    blocks[i, j] = f.add(blocks[i, j], f.mul(int(c), lift))
            order = ctx.rng.permutation(len(terms))
            row.append(abstract.RingMember(ring, *[(ring.field(terms[t][0]), terms[t][1]) for t in order]))
        rows.append(row)
    return rows, blocks


def assemble(blocks):
    m, n, d, e = blocks.shape
    return blocks.transpose(0, 2, 1, 3).reshape(m * d, n * e)


def block_kron_eye(blocks, n, left):
    """I_n (x) blocks when left, else blocks (x) I_n, as an array of blocks."""
    m, k, d, e = blocks.shape
    out = np.zeros((m * n, k * n, d, e), dtype=int)
    for i, j, t in itertools.product(range(m), range(k), range(n)):
        if left:
            out[t * m + i, t * k + j] = blocks[i, j]
        else:
            out[i * n + t, j * n + t] = blocks[i, j]
    return out


def dagger(blocks):
    return blocks.transpose(1, 0, 3, 2)


def lifted(ctx, q, count, max_n):
    from qldpc import abstract, codes

    f = GF(q)
    for _ in range(count):
        group, abelian = ring_groups(abstract, ctx.rng)
        if isinstance(group, abstract.QuaternionGroup) and q % 2 == 0:
            group, abelian = abstract.CyclicGroup(3), True
        field = q
        if isinstance(group, abstract.QuaternionGroup) and q != 3:
            continue
        ring = abstract.GroupRing(group, field)
        shapes = [tuple(int(s) for s in ctx.rng.integers(1, max_n + 1, 2)) for _ in range(2)]
        if group.lift_dim > 4:
            shapes = [tuple(min(s, 2) for s in shape) for shape in shapes]
        density = float(ctx.rng.choice([0.25, 0.5, 1]))
        rows_a, a = ring_array(ctx, ring, q, shapes[0], density)
        rows_b, b = ring_array(ctx, ring, q, shapes[1], density)
        same = ctx.rng.random() < 0.25
        if same:
            rows_b, b = rows_a, a
        args = [rows_a] if same and ctx.rng.random() < 0.8 else [rows_a, rows_b]
        if ctx.rng.random() < 0.7:
            args = [abstract.RingArray(rows) for rows in args]
        ctx.case("lifted", a.any() or b.any(), q=q, group=str(group), a=a, b=b)
        m1, n1, m2, n2 = a.shape[0], a.shape[1], b.shape[0], b.shape[1]

        mx = np.hstack([assemble(block_kron_eye(a, n2, False)), assemble(block_kron_eye(dagger(b), m1, True))])
        mz = np.hstack([f.neg(assemble(block_kron_eye(b, n1, True))), assemble(block_kron_eye(dagger(a), m2, False))])
        code = codes.LPCode(*args)
        if check_matrices(ctx, code, q, mx, mz, "lp-matrix" if abelian else "lp-nonabelian"):
            commute = not f.matmul(mx, mz.T).any()
            if abelian:
                ctx.check(commute and not code.is_subsystem_code, "lp-commute", "the checks of an abelian lifted product do not commute")
            else:
                ctx.check(code.is_subsystem_code == (not commute), "lp-flag", f"is_subsystem_code = {code.is_subsystem_code}, checks commute: {commute}")
            check_logical(ctx, code, q, mx, mz, "lp-logical")
            d = group.lift_dim
            ctx.check(np.array_equal(code.sector_size, d * np.array([[n1 * n2, n1 * m2], [m1 * n2, m1 * m2]])), "lp-sectors", f"sector sizes {code.sector_size}")
            conj = code.conjugated()
            ctx.check(np.array_equal(mats.to_int(conj.matrix), mats.to_int(code.conjugated(list(range(d * n1 * n2, len(code)))).matrix)), "lp-conjugate",
                      "the default conjugation is not that of the (1, 1) sector")

        sx, sz = assemble(block_kron_eye(a, n2, False)), assemble(block_kron_eye(b, n1, True))
        sub = codes.SLPCode(*args)
        if check_matrices(ctx, sub, q, sx, sz, "slp-matrix"):
            truth = check_logical(ctx, sub, q, sx, sz, "slp-logical")
            stabs = mats.to_int(sub.get_stabilizer_ops())
            ctx.check(truth.f.same_span(stabs, truth.stab) if len(stabs) or len(truth.stab) else True, "slp-stabilizers", "the stabilizer group")

        if isinstance(group, abstract.TrivialGroup):
            plain = codes.HGPCode(a[:, :, 0, 0], b[:, :, 0, 0], field=q)
            ctx.check(np.array_equal(mats.to_int(plain.matrix), mats.to_int(code.matrix)), "lp-trivial", "a lifted product over the trivial group is not the hypergraph product")
            plain = codes.SHPCode(a[:, :, 0, 0], b[:, :, 0, 0], field=q)
            ctx.check(np.array_equal(mats.to_int(plain.matrix), mats.to_int(sub.matrix)), "lp-trivial", "a subsystem lifted product over the trivial group is not the subsystem hypergraph product")


def trivial_lifts(ctx, q, count):
    """Lifted products over the trivial group, from plain arrays."""
    from qldpc import abstract, codes

    for _ in range(count):
        _, h1 = mats.random_matrix(ctx.rng, q, None, max_n=4)
        _, h2 = mats.random_matrix(ctx.rng, q, None, max_n=4)
        ctx.case("trivial lift", h1.any(), q=q, h1=h1, h2=h2)
        a, b = (abstract.TrivialGroup.to_ring_array(codes.ClassicalCode(h, q).matrix) for h in (h1, h2))
        for lifted_code, plain_code in ((codes.LPCode, codes.HGPCode), (codes.SLPCode, codes.SHPCode)):
            lift, plain = lifted_code(a, b), plain_code(h1, h2, field=q)
            ctx.check(lift.field.order == q and np.array_equal(mats.to_int(lift.matrix), mats.to_int(plain.matrix)), "lp-trivial",
                      "a lifted product over the trivial group is not the plain product")


def two_block(ctx, q, count, max_n):
    from qldpc import codes

    f = GF(q)
    for _ in range(count):
        n = int(ctx.rng.integers(1, max_n + 1))
        base = f.random(ctx.rng, (n, n)) * (ctx.rng.random((n, n)) < 0.6)
        power, polys = np.eye(n, dtype=int), [np.zeros((n, n), dtype=int) for _ in range(2)]
        for _ in range(n):
            for t in range(2):
                polys[t] = f.add(polys[t], f.mul(int(ctx.rng.integers(q)), power))
            power = f.matmul(power, base)
        a, b = polys
        how, args, field = give(ctx, q, a, b)
        ctx.case("two-block", a.any() or b.any(), q=q, a=a, b=b, how=how)
        args = [arg.matrix if isinstance(arg, codes.ClassicalCode) else arg for arg in args]
        code = codes.TBCode(*args, field=field)
        mx, mz = np.hstack([a, b]), np.hstack([b.T, f.neg(a.T)])
        if check_matrices(ctx, code, q, mx, mz, "tb-matrix"):
            ctx.check(not code.is_subsystem_code and not f.matmul(mx, mz.T).any(), "tb-commute", "the checks do not commute")
            check_logical(ctx, code, q, mx, mz, "tb-logical")
        c, d = f.random(ctx.rng, (n, n)), f.random(ctx.rng, (n, n))
        if not np.array_equal(f.matmul(c, d), f.matmul(d, c)):
            ctx.raises(ValueError, "tb-reject", codes.TBCode, c, d, q, msg="matrices that do not commute")


# the order of symbols is that of their names as strings, also for names of several letters
NAMES = [list("wxyzab"), ["x", "X", "x1", "x10", "x2", "ab", "b", "alpha", "y_0", "Z"]]


def random_poly(ctx, symbols, orders, q, terms):
    """(sympy expression, {exponents: coefficient in GF(q)}): coefficients as integers, possibly negative or beyond q."""
    import sympy

    f = GF(q)
    expr, data = sympy.Integer(0), {}
    prime = q in (2, 3, 5, 7)
    for _ in range(terms):
        exps = [int(ctx.rng.integers(-order, 2 * order)) if ctx.rng.random() < 0.3 else int(ctx.rng.integers(0, order)) for order in orders]
        exps = [e if ctx.rng.random() < 0.8 else 0 for e in exps]
        coeff = int(ctx.rng.integers(1, q))
        sign = -1 if ctx.rng.random() < 0.2 else 1
        term = sympy.Integer(sign * coeff)
        for symbol, e in zip(symbols, exps):
            term *= symbol**e
        key = tuple(exps)
        if not prime and key in data:
            continue  # integer coefficients of different terms with the same exponents would be added up by sympy
        expr += term
        data[key] = data.get(key, 0) + sign * coeff
    out = {}
    for exps, c in data.items():
        if c == 0:
            continue
        scalar = (c % q) if prime else (c if c > 0 else int(f.neg(np.array(-c))))
        if prime and abs(c) >= q:
            return random_poly(ctx, symbols, orders, q, terms)
        out[exps] = scalar
    if not expr.free_symbols:  # constants are not accepted as polynomials
        return random_poly(ctx, symbols, orders, q, terms)
    return expr, out


def qc_matrix(f, data, orders):
    """A[u, u + e] = coefficient of the exponents e."""
    size = int(np.prod(orders))
    out = np.zeros((size, size), dtype=int)
    for u in range(size):
        label = np.unravel_index(u, orders)
        for exps, c in data.items():
            v = int(np.ravel_multi_index([(a + e) % r for a, e, r in zip(label, exps, orders)], orders))
            out[u, v] = f.add(out[u, v], c)
    return out


def quasi_cyclic(ctx, q, count, max_size):
    import sympy

    from qldpc import codes

    f = GF(q)
    done = 0
    while done < count:
        nvars = int(ctx.rng.choice([1, 2, 2, 2, 3]))
        orders = [int(ctx.rng.integers(1, 7)) for _ in range(nvars)]
        if int(np.prod(orders)) > max_size or int(np.prod(orders)) == 1:
            continue
        done += 1
        names = [str(s) for s in ctx.rng.permutation(NAMES[int(ctx.rng.integers(2))])[:nvars]]
        symbols = [sympy.Symbol(name) for name in names]
        a, data_a = random_poly(ctx, symbols, orders, q, int(ctx.rng.integers(1, 4)))
        b, data_b = random_poly(ctx, symbols, orders, q, int(ctx.rng.integers(1, 4)))
        used = [s for s in symbols if s in a.free_symbols | b.free_symbols]
        if ctx.rng.random() < 0.5 and len(used) == nvars:
            # orders by position are matched with the symbols in alphabetical order
            perm = sorted(range(nvars), key=lambda t: names[t])
            given = [orders[t] for t in perm]
            given = tuple(given) if ctx.rng.random() < 0.5 else given
        else:
            perm = [int(t) for t in ctx.rng.permutation(nvars)]
            given = {symbols[t]: orders[t] for t in perm}
        final = [orders[t] for t in perm]
        pa = qc_matrix(f, {tuple(e[t] for t in perm): c for e, c in data_a.items()}, final)
        pb = qc_matrix(f, {tuple(e[t] for t in perm): c for e, c in data_b.items()}, final)
        ctx.case("quasi-cyclic", pa.any() or pb.any(), q=q, orders=str(given), a=str(a), b=str(b))
        maker = codes.QCCode
        if len(used) == 2 and nvars == 2 and ctx.rng.random() < 0.6:
            maker = codes.BBCode
        code = maker(given, a, b, q) if q != 2 or ctx.rng.random() < 0.5 else maker(given, a, b)
        mx, mz = np.hstack([pa, pb]), np.hstack([pb.T, f.neg(pa.T)])
        if not check_matrices(ctx, code, q, mx, mz, "qc-matrix"):
            continue
        ctx.check(not code.is_subsystem_code and not f.matmul(mx, mz.T).any(), "qc-commute", "the checks do not commute")
        check_logical(ctx, code, q, mx, mz, "qc-logical")
        ctx.check(tuple(code.orders) == tuple(final) and [str(s) for s in code.symbols] == [names[t] for t in perm], "qc-symbols", "symbols and orders")
        if code.dimension and q ** len(code) < 300_000:
            from qldpc.objects import Pauli

            truth = qcodes.CSSTruth(q, mx, mz)
            dx, dz = truth.distance("x"), truth.distance("z")
            got = (code.get_distance(Pauli.X), code.get_distance(Pauli.Z))
            ctx.check(got == (dx, dz), "qc-distance", f"distances {got}, expected {(dx, dz)}")
        # placeholders: more orders than symbols
        if isinstance(given, (list, tuple)) and maker is codes.QCCode and int(np.prod(final)) * 2 <= max_size:
            more = codes.QCCode([*given, 2], a, b, q)
            big = [np.array(kron(f, mat, np.eye(2, dtype=int))) for mat in (pa, pb)]
            check_matrices(ctx, more, q, np.hstack(big), np.hstack([big[1].T, f.neg(big[0].T)]), "qc-placeholder")
        if nvars > 1 and isinstance(given, (list, tuple)):
            ctx.raises(ValueError, "qc-reject", codes.QCCode, given[:1], a, b, q, msg="fewer orders than symbols")


def units(tier, seed):
    scale = 4 if tier == "quick" else 24
    out = []
    for part in range(1 if tier == "quick" else 6):
        for q, c, n in ((2, 22, 5), (3, 16, 4), (4, 12, 4), (5, 8, 3), (9, 5, 3)):
            out.append((f"hgp-{q}-{part}", hgp, (q, c * scale // 2, n)))
            out.append((f"shp-{q}-{part}", shp, (q, c * scale // 2, n, q < 4)))
            out.append((f"lifted-{q}-{part}", lifted, (q, c * scale // 2, 3)))
            out.append((f"two-block-{q}-{part}", two_block, (q, c * scale // 2, 5)))
            out.append((f"quasi-cyclic-{q}-{part}", quasi_cyclic, (q, c * scale, 24 if q < 4 else 12)))
            out.append((f"trivial-{q}-{part}", trivial_lifts, (q, max(2, c * scale // 6))))
    return out
