import itertools
import math

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF

PROPERTY = "C16"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: labels, positions and basis changes of bicycle codes compared with exhaustive computations on the torus of plaquettes"
RULE = ("one case per pair of orders x polynomials (distinct monomials with exponents in any range) x field; "
        "non-trivial when both polynomials have at least two terms")
REQUIRED = {"labels": 60, "positions": 1500, "folded": 120, "edges": 3000, "toric-data": 60, "toric-code": 80, "toric-neighbors": 80, "toric-empty": 8,
            "order": 400, "valid-basis": 400, "inverse": 300, "inverse-reject": 40, "change-basis": 60, "canonical": 150, "exponents": 200, "reject": 16}


def monomial(symbols, exps):
    out = 1
    for symbol, e in zip(symbols, exps):
        out = symbol**e * out
    return out


def make_poly(ctx, symbols, orders, q, terms, wide):
    """(sympy expression, {exponents mod orders: coefficient}) with distinct monomials."""
    import sympy

    size = orders[0] * orders[1]
    picks = ctx.rng.choice(size, min(terms, size), replace=False)
    expr, data = sympy.Integer(0), {}
    for pick in picks:
        exps = [int(e) for e in np.unravel_index(pick, orders)]
        coeff = int(ctx.rng.integers(1, q))
        shown = [e + r * int(ctx.rng.integers(-1, 2)) if wide and ctx.rng.random() < 0.4 else e for e, r in zip(exps, orders)]
        expr += coeff * monomial(symbols, shown)
        data[tuple(exps)] = coeff
    return expr, data


def read_poly(poly, symbols):
    """{exponents: coefficient} of an expression, read with sympy's expansion."""
    import sympy

    out = {}
    for term, coeff in sympy.expand(poly.as_expr()).as_coefficients_dict().items():
        powers = term.as_powers_dict()
        exps = tuple(int(powers.get(symbol, 0)) for symbol in symbols)
        rest = term
        for symbol, e in zip(symbols, exps):
            rest = rest / symbol**e
        assert sympy.simplify(rest) == 1
        out[exps] = out.get(exps, 0) + int(coeff)
    return out


def mod(data, orders):
    out = {}
    for exps, c in data.items():
        key = tuple(e % r for e, r in zip(exps, orders))
        assert key not in out
        out[key] = c
    return out


def order_of(vec, orders):
    pos, count = tuple(v % r for v, r in zip(vec, orders)), 1
    at = pos
    while any(at):
        at = tuple((a + p) % r for a, p, r in zip(at, pos, orders))
        count += 1
    return count


def coordinates(g, h, orders):
    """{point: (u, v)} with point = u g + v h, for 0 <= u < order(g), 0 <= v < order(h)."""
    out = {}
    for u, v in itertools.product(range(order_of(g, orders)), range(order_of(h, orders))):
        point = tuple((u * a + v * b) % r for a, b, r in zip(g, h, orders))
        out.setdefault(point, (u, v))
    return out


def valid(g, h, orders):
    size = orders[0] * orders[1]
    return order_of(g, orders) * order_of(h, orders) == size and len(coordinates(g, h, orders)) == size


def toric_reference(data_a, data_b, orders):
    """All (orders, A, B) obtained by dividing A and B by a term and changing basis to a ratio of terms each."""
    out = set()
    for (a1, a2), (b1, b2) in itertools.product(itertools.permutations(data_a, 2), itertools.permutations(data_b, 2)):
        g = tuple((y - x) % r for x, y, r in zip(a1, a2, orders))
        h = tuple((y - x) % r for x, y, r in zip(b1, b2, orders))
        if not valid(g, h, orders):
            continue
        new = [order_of(g, orders), order_of(h, orders)]
        where = coordinates(g, h, orders)
        polys = []
        for data, base in ((data_a, a1), (data_b, b1)):
            polys.append({where[tuple((e - s) % r for e, s, r in zip(exps, base, orders))]: c for exps, c in data.items()})
        if new[0] < new[1]:
            new = new[::-1]
            polys = [{(v, u): c for (u, v), c in poly.items()} for poly in polys[::-1]]
        out.add((tuple(new), frozenset(polys[0].items()), frozenset(polys[1].items())))
    return out


def make_code(ctx, q, max_size, min_terms=1, min_order=1):
    import sympy

    from qldpc import codes

    while True:
        orders = tuple(int(r) for r in ctx.rng.integers(min_order, 9, 2))
        if not 2 <= orders[0] * orders[1] <= max_size:
            continue
        names = [str(s) for s in ctx.rng.permutation(list("xyabzg") if ctx.rng.random() < 0.6 else ["x", "X", "x1", "x10", "x2", "ab", "b", "alpha"])[:2]]
        if ctx.rng.random() < 0.1:
            names = ["x", "xx"]
        symbols = [sympy.Symbol(name) for name in names]
        wide = ctx.rng.random() < 0.4
        a, data_a = make_poly(ctx, symbols, orders, q, int(ctx.rng.integers(min_terms, 5)), wide)
        b, data_b = make_poly(ctx, symbols, orders, q, int(ctx.rng.integers(min_terms, 5)), wide)
        if len(a.free_symbols | b.free_symbols) < 2 or not a.free_symbols or not b.free_symbols:
            continue
        given = dict(zip(symbols, orders))
        if names == sorted(names) and ctx.rng.random() < 0.6:
            given = orders if ctx.rng.random() < 0.5 else list(orders)
        code = codes.BBCode(given, a, b, q) if q != 2 or ctx.rng.random() < 0.5 else codes.BBCode(given, a, b)
        ctx.case("bicycle", min(len(data_a), len(data_b)) > 1, q=q, orders=str(given), a=str(a), b=str(b))
        return code, tuple(symbols), orders, data_a, data_b


def layouts(ctx, q, count, max_size):
    from qldpc import codes
    from qldpc.objects import Node

    f = GF(q)
    for _ in range(count):
        code, symbols, orders, data_a, data_b = make_code(ctx, q, max_size)
        size = orders[0] * orders[1]
        grid = set(itertools.product(range(2 * orders[0]), range(2 * orders[1])))
        ctx.check(tuple(code.orders) == orders and tuple(code.symbols) == symbols, "labels", "orders and symbols of the code")

        label, pos, folded = {}, {}, {}
        for index, is_data in itertools.product(range(2 * size), (True, False)):
            node = Node(index, is_data=is_data)
            label[node] = code.get_node_label(node)
            sector = ("LR" if is_data else "XZ")[index // size]
            want = (sector, (index % size) // orders[1], index % orders[1])
            ctx.check(label[node] == want and codes.BBCode.get_node_label_from_orders(node, orders) == want, "node-label", f"label {label[node]}, expected {want}")
            pos[node] = tuple(code.get_qubit_pos(node))
            point = (2 * want[1] + (sector in "RX"), 2 * want[2] + (sector in "LX"))
            ctx.check(pos[node] == point, "positions", f"position {pos[node]} of {want}, expected {point}")
            folded[node] = tuple(code.get_qubit_pos(node, folded_layout=True))
            by_label = code.get_qubit_pos(label[node]), code.get_qubit_pos(label[node], True), codes.BBCode.get_qubit_pos_from_orders(label[node], False, orders)
            ctx.check(tuple(map(tuple, by_label)) == (pos[node], folded[node], pos[node]), "positions", "positions by node and by label differ")
        ctx.check(set(label) == set(code.graph.nodes()) and len(set(label.values())) == 4 * size, "labels", "labels are not in bijection with nodes")
        ctx.check(set(pos.values()) == grid, "labels", "positions are not in bijection with nodes")
        ctx.check(set(folded.values()) == grid, "folded", "folded positions are not in bijection with nodes")
        # folding keeps cyclic neighbours close, and the columns (rows) of qubits together
        axes = [{}, {}]
        ok = True
        for node in pos:
            for t in range(2):
                ok &= axes[t].setdefault(pos[node][t], folded[node][t]) == folded[node][t]
        ctx.check(ok, "folded", "folding does not act on each coordinate")
        for t in range(2):
            ring = [axes[t][x] for x in range(2 * orders[t])]
            ctx.check(all(abs(ring[x] - ring[x - 1]) <= 2 for x in range(2 * orders[t])), "folded", f"neighbours are far apart in the folded layout: {ring}")
            ctx.check(ring[0] == 0 and all(ring[x] == 2 * x for x in range(orders[t])), "folded", f"the first half is not spread out: {ring}")

        # connections read off the polynomials
        at = {value: node for node, value in label.items()}
        want = {}
        for (i, j), c in data_a.items():
            for x, y in itertools.product(range(orders[0]), range(orders[1])):
                want[at["X", x, y], at["L", (x + i) % orders[0], (y + j) % orders[1]]] = ("X", c)
                want[at["Z", x, y], at["R", (x - i) % orders[0], (y - j) % orders[1]]] = ("Z", int(f.neg(np.array(c))))
        for (i, j), c in data_b.items():
            for x, y in itertools.product(range(orders[0]), range(orders[1])):
                want[at["X", x, y], at["R", (x + i) % orders[0], (y + j) % orders[1]]] = ("X", c)
                want[at["Z", x, y], at["L", (x - i) % orders[0], (y - j) % orders[1]]] = ("Z", c)
        ctx.check(set(code.graph.edges()) == set(want), "edge-set", "the Tanner graph is not the one of the polynomials")
        matrix = mats.to_int(code.matrix)
        for (check, qubit), (kind, c) in want.items():
            value = (matrix[check.index, qubit.index], matrix[check.index, 2 * size + qubit.index])
            ctx.check(value == ((c, 0) if kind == "X" else (0, c)), "edges", f"entry {value} of {label[check]}, {label[qubit]}, expected {kind} {c}")


def toric(ctx, q, count, max_size):
    from qldpc import codes
    from qldpc.objects import Node

    for _ in range(count):
        code, symbols, orders, data_a, data_b = make_code(ctx, q, max_size, min_terms=int(ctx.rng.choice([1, 2, 2, 3])))
        found = code.get_equivalent_toric_layout_code_data()
        want = toric_reference(data_a, data_b, orders)
        got = set()
        for new_orders, pa, pb in found:
            a, b = mod(read_poly(pa, symbols), new_orders), mod(read_poly(pb, symbols), new_orders)
            for poly in (pa, pb):
                for exps in read_poly(poly, symbols):
                    ctx.check(all(-r / 2 < e <= r / 2 for e, r in zip(exps, new_orders)), "toric-canonical", f"exponents {exps} for orders {new_orders}")
            got.add((tuple(new_orders), frozenset(a.items()), frozenset(b.items())))
        ctx.check(got == want, "toric-data", f"toric layouts: {len(got - want)} wrong, {len(want - got)} missing", wrong=str(sorted(map(str, got - want)))[:500],
                  missing=str(sorted(map(str, want - got)))[:500])
        ctx.check(len(got) == len(found), "toric-data", "repeated toric layouts")
        if not want:
            ctx.see("toric-empty")
            continue
        picks = ctx.rng.permutation(len(found))[:4]
        reference = qcodes.GF(q)
        for pick in picks:
            new_orders, pa, pb = found[pick]
            if not (pa.free_symbols | pb.free_symbols) == set(symbols):
                continue
            new = codes.BBCode(dict(zip(symbols, new_orders)), pa, pb, q)
            size = orders[0] * orders[1]
            ctx.check(len(new) == len(code) and new_orders[0] * new_orders[1] == size and new_orders[0] >= new_orders[1], "toric-code", f"orders {new_orders}")
            ctx.check(new.dimension == code.dimension, "toric-code", f"dimension {new.dimension}, expected {code.dimension}")
            ranks = [reference.rank(mats.to_int(mat)) for mat in (new.matrix_x, code.matrix_x, new.matrix_z, code.matrix_z)]
            ctx.check(ranks[0] == ranks[1] and ranks[2] == ranks[3], "toric-code", f"ranks {ranks}")
            ctx.check(relabels(new, code, q), "toric-relabel", "no relabelling of the torus takes one code to the other", orders=new_orders, a=str(pa), b=str(pb))
            matrix = mats.to_int(new.matrix)
            ok = True
            for index in range(2 * size):
                x, y = new.get_qubit_pos(Node(index, is_data=False))
                support = {int(j) % (2 * size) for j in np.nonzero(matrix[index])[0]}
                places = {new.get_qubit_pos(Node(j, is_data=True)) for j in support}
                near = {((x + dx) % (2 * new_orders[0]), (y + dy) % (2 * new_orders[1])) for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1))}
                ok &= near <= places
            ctx.check(ok, "toric-neighbors", "a check does not act on its nearest neighbours", orders=new_orders, a=str(pa), b=str(pb))


def relabels(new, code, q):
    """Is there a group isomorphism of the tori (and a shift, and possibly a swap of L and R) that takes the new code to the old one?"""
    f = GF(q)
    orders, new_orders = tuple(code.orders), tuple(new.orders)
    size = orders[0] * orders[1]
    old = {0: mats.to_int(code.matrix_x)[:, :size], 1: mats.to_int(code.matrix_x)[:, size:]}
    fresh = {0: mats.to_int(new.matrix_x)[:, :size], 1: mats.to_int(new.matrix_x)[:, size:]}
    points = list(itertools.product(range(orders[0]), range(orders[1])))

    def support(mat, shape):
        return {tuple(int(t) for t in np.unravel_index(u, shape)): int(mat[0, u]) for u in np.nonzero(mat[0])[0]}

    olds = {t: support(old[t], orders) for t in old}
    news = {t: support(fresh[t], new_orders) for t in fresh}
    for g, h in itertools.product(points, repeat=2):
        if order_of(g, orders) != new_orders[0] or order_of(h, orders) != new_orders[1] or not valid(g, h, orders):
            continue
        image = {t: {tuple((u * a + v * b) % r for a, b, r in zip(g, h, orders)): c for (u, v), c in news[t].items()} for t in news}
        for swap in (0, 1):
            ok = True
            for t in (0, 1):
                target = olds[t ^ swap]
                ok &= any({tuple((e + s) % r for e, s, r in zip(exps, shift, orders)): c for exps, c in image[t].items()} == target for shift in points)
                if not ok:
                    break
            if ok:
                return True
    return False


def torus(ctx, count, max_size):
    """Orders, bases, inverses, canonical forms and changes of basis."""
    import sympy

    for _ in range(count):
        code, symbols, orders, data_a, data_b = make_code(ctx, 2, max_size)
        spread = [(int(a), int(b)) for a, b in ctx.rng.integers(-2 * max(orders), 2 * max(orders) + 1, (12, 2))] + [(0, 0), (1, 0), (0, 1)]
        for vec in spread:
            ctx.check(code.get_order(vec) == order_of(vec, orders), "order", f"order {code.get_order(vec)} of {vec}, expected {order_of(vec, orders)}")
        for _ in range(14):
            g, h = (spread[t] for t in ctx.rng.integers(0, len(spread), 2))
            truth = valid(g, h, orders)
            ctx.check(code.is_valid_basis(g, h) == truth, "valid-basis", f"basis {g}, {h} on {orders}: valid = {truth}")
            where = coordinates(g, h, orders)
            target = tuple(int(t) for t in ctx.rng.integers(-10, 11, 2))
            if tuple(t % r for t, r in zip(target, orders)) in where:
                u, v = code.modular_inverse((g, h), *target)
                ctx.check(all((u * a + v * b - t) % r == 0 for a, b, t, r in zip(g, h, target, orders)), "inverse", f"{u} {g} + {v} {h} is not {target} on {orders}")
            else:
                ctx.raises(ValueError, "inverse-reject", code.modular_inverse, (g, h), *target, msg="an unsolvable system")
            if truth:
                new_orders = order_of(g, orders), order_of(h, orders)
                new_a, new_b = code.change_poly_basis(monomial(symbols, g), monomial(symbols, h), code.poly_a, code.poly_b)
                for poly, data in ((new_a, data_a), (new_b, data_b)):
                    ref = {where[exps]: c for exps, c in data.items()}
                    got = read_poly(poly, symbols)
                    ctx.check(mod(got, new_orders) == ref, "change-basis", f"change of basis: {poly}, expected {ref}", g=g, h=h)
                    ctx.check(all(-r / 2 < e <= r / 2 for exps in got for e, r in zip(exps, new_orders)), "change-basis", f"exponents of {poly} for orders {new_orders}")
        for poly, data in ((code.poly_a, data_a), (code.poly_b, data_b)):
            canon = code.get_canonical_form(poly)
            got = read_poly(canon, symbols)
            ctx.check(mod(got, orders) == data and all(-r / 2 < e <= r / 2 for exps in got for e, r in zip(exps, orders)), "canonical", f"canonical form {canon} of {poly}")
            other = tuple(int(t) for t in ctx.rng.integers(9, 14, 2))
            got = read_poly(code.get_canonical_form(poly, other), symbols)
            ref = {}
            for exps, c in read_poly(poly, symbols).items():
                key = tuple(e % r for e, r in zip(exps, other))
                ref[key] = ref.get(key, 0) + c
            ctx.check({tuple(e % r for e, r in zip(exps, other)): c for exps, c in got.items()} == ref
                      and all(-r / 2 < e <= r / 2 for exps in got for e, r in zip(exps, other)), "canonical", f"canonical form for the orders {other} of {poly}")
        for _ in range(6):
            exps = tuple(int(e) for e in ctx.rng.integers(-3, 4, 2))
            coeff = int(ctx.rng.choice([1, 1, 2, 5, -1]))
            term = coeff * sympy.Integer(1) * monomial(symbols, exps)
            c, got = code.get_coefficient_and_exponents(term)
            ctx.check(c == coeff and {s: e for s, e in got.items() if e} == {s: e for s, e in zip(symbols, exps) if e}, "exponents", f"{term} -> {c}, {got}")
            ctx.check(tuple(code.as_exponent_vector(term)) == exps, "exponents", f"exponent vector of {term}")
            member = code.to_group_member(monomial(symbols, exps) * sympy.Integer(1))
            want = code.group.identity
            for symbol, e in zip(symbols, exps):
                for _ in range(e % orders[symbols.index(symbol)]):
                    want = want * code.symbol_gens[symbol]
            ctx.check(member == want, "group-member", f"group member of {exps}")


def published(ctx):
    """Codes of arXiv:2308.07915 (table 3), with their parameters, and the existence of toric layouts."""
    from sympy.abc import x, y

    from qldpc import codes

    table = [((6, 6), x**3 + y + y**2, y**3 + x + x**2, 12), ((15, 3), x**9 + y + y**2, 1 + x**2 + x**7, 8), ((9, 6), x**3 + y + y**2, y**3 + x + x**2, 8),
             ((12, 6), x**3 + y + y**2, y**3 + x + x**2, 12), ((12, 12), x**3 + y**2 + y**7, y**3 + x + x**2, 12)]
    for orders, a, b, k in table:
        ctx.case("published", True, orders=orders, a=str(a), b=str(b))
        code = codes.BBCode(orders, a, b)
        ctx.check(len(code) == 2 * orders[0] * orders[1] and code.dimension == k, "published", f"{len(code)}, {code.dimension}, expected {k}")
        data = [{tuple(e): c for e, c in read_poly(p, (x, y)).items()} for p in (a, b)]
        want = toric_reference(*data, orders)
        found = code.get_equivalent_toric_layout_code_data()
        got = {(tuple(o), frozenset(mod(read_poly(pa, (x, y)), o).items()), frozenset(mod(read_poly(pb, (x, y)), o).items())) for o, pa, pb in found}
        ctx.check(got == want and want, "published", f"{len(got)} toric layouts, expected {len(want)}")


def reject(ctx):
    """Layouts are those of two symbols and two orders; anything else is refused."""
    import sympy
    from qldpc import codes

    x, y, z = sympy.symbols("x y z")
    for q in (2, 3):
        for orders, a, b in [((3, 3), 1 + x, 1 + x**2), ((3,), 1 + x, 1 + x**2), ((3, 3, 3), x + y, x + z), ((3, 3), x + y, x + z), ((3,), x + y, x + y**2),
                             ((2, 3, 4), 1 + x + y, 1 + x * y), ({x: 3}, 1 + x, x), ({x: 3, y: 3, z: 3}, 1 + x, y + z)]:
            ctx.case("reject", True, q=q, orders=str(orders), a=str(a), b=str(b))
            ctx.raises(ValueError, "reject", codes.BBCode, orders, a, b, field=q, msg=f"BBCode({orders}, {a}, {b})")


def units(tier, seed):
    parts, scale = (2, 1) if tier == "quick" else (8, 6)
    out = [("published", published, ()), ("reject", reject, ())]
    for part in range(parts):
        for q, c, size in ((2, 12, 24), (3, 5, 12), (4, 5, 12), (5, 3, 12)):
            out.append((f"layouts-{q}-{part}", layouts, (q, c * scale, size)))
            out.append((f"toric-{q}-{part}", toric, (q, 2 * c * scale, size + 6)))
        out.append((f"torus-{part}", torus, (24 * scale, 36)))
    return out
