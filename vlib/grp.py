"""Group workloads and a tuple-permutation reference model (composition: apply left factor first)."""

from __future__ import annotations

import itertools

import numpy as np


def compose(a, b):
    """(a * b)(i) = b[a[i]]: SymPy's left-to-right convention."""
    return tuple(b[i] for i in a)


def invert(a):
    out = [0] * len(a)
    for i, x in enumerate(a):
        out[x] = i
    return tuple(out)


def closure(gens, degree):
    ident = tuple(range(degree))
    seen = {ident}
    todo = [ident]
    while todo:
        nxt = []
        for x in todo:
            for g in gens:
                y = compose(x, g)
                if y not in seen:
                    seen.add(y)
                    nxt.append(y)
        todo = nxt
        if len(seen) > 20000:
            raise ValueError("closure too large")
    return seen


def tup(member):
    return tuple(int(i) for i in member.array_form)


def element_order(a):
    ident = tuple(range(len(a)))
    n, x = 1, a
    while x != ident:
        x = compose(x, a)
        n += 1
    return n


def cyc(n, shift=1):
    return [(i + shift) % n for i in range(n)]


def sl_order(d, q):
    return int(np.prod([q**d - q**j for j in range(d)])) // (q - 1)


def psl_order(d, q):
    import math

    return sl_order(d, q) // math.gcd(d, q - 1)


def named_groups(abstract, tier):
    """(name, builder, order, abelian?, element-order multiset or None)"""
    import math

    out = []

    def cyc_orders(n):
        return sorted(n // math.gcd(n, k) for k in range(n))

    def ab_orders(orders):
        res = []
        for powers in itertools.product(*[range(o) for o in orders]):
            res.append(math.lcm(*[o // math.gcd(o, k) for o, k in zip(orders, powers)]))
        return sorted(res)

    for n in list(range(1, 13)) + [15, 16, 21]:
        out.append((f"Cyclic({n})", lambda n=n: abstract.CyclicGroup(n), n, True, cyc_orders(n)))
    for orders in [(2,), (5,), (2, 2), (2, 3), (3, 2), (2, 4), (3, 3), (4, 6), (2, 2, 3), (2, 3, 2, 2), (5, 2),
                   (1, 3), (3, 1), (1, 1), (1, 2, 1, 2), (6, 1), (1,)]:
        for ds in (False, True):
            out.append((f"Abelian{orders}ds={ds}", lambda o=orders, d=ds: abstract.AbelianGroup(*o, direct_sum=d),
                        math.prod(orders), True, ab_orders(orders)))
    for n in range(3, 9):
        out.append((f"Dihedral({n})", lambda n=n: abstract.DihedralGroup(n), 2 * n, n <= 2,
                    sorted(cyc_orders(n) + [2] * n)))
    for n in range(2, 6):
        out.append((f"Alternating({n})", lambda n=n: abstract.AlternatingGroup(n), max(1, math.factorial(n) // 2), n <= 3, None))
    for n in range(1, 6):
        out.append((f"Symmetric({n})", lambda n=n: abstract.SymmetricGroup(n), math.factorial(n), n <= 2, None))
    out.append(("Quaternion", abstract.QuaternionGroup, 8, False, [1, 2] + [4] * 6))
    out.append(("Trivial", abstract.TrivialGroup, 1, True, [1]))
    for d, q in [(2, 2), (2, 3), (2, 4), (2, 5), (3, 2)] + ([(2, 7), (2, 8)] if tier == "thorough" else []):
        for lin in (True, False):
            if not lin and sl_order(d, q) > 130:
                continue
            out.append((f"SL({d},{q},{lin})", lambda d=d, q=q, l=lin: abstract.SL(d, q, linear_rep=l), sl_order(d, q), False, None))
    for d, q in [(2, 2), (2, 3), (2, 4), (2, 5), (2, 7), (3, 2)] + ([(2, 8), (2, 9)] if tier == "thorough" else []):
        for lin in (True, False):
            if not lin and psl_order(d, q) > 70:
                continue
            out.append((f"PSL({d},{q},{lin})", lambda d=d, q=q, l=lin: abstract.PSL(d, q, linear_rep=l), psl_order(d, q), False, None))
    C, D, S = abstract.CyclicGroup, abstract.DihedralGroup, abstract.SymmetricGroup
    out += [
        ("C2xC3", lambda: C(2) * C(3), 6, True, cyc_orders(6)),
        ("C2xC2xC3", lambda: abstract.Group.product(C(2), C(2), C(3)), 12, True, ab_orders((2, 2, 3))),
        ("D3xC2", lambda: D(3) * C(2), 12, False, None),
        ("C2xD4", lambda: C(2) * D(4), 16, False, None),
        ("S3^2", lambda: S(3) ** 2, 36, False, None),
        ("product(C3,repeat=2)", lambda: abstract.Group.product(C(3), repeat=2), 9, True, [1] + [3] * 8),
        ("Q8xC2", lambda: abstract.QuaternionGroup() * C(2), 16, False, None),
        ("TrivialxC3", lambda: abstract.TrivialGroup() * C(3), 3, True, cyc_orders(3)),
    ]
    return out


def dicyclic_table(n):
    """Multiplication table of the dicyclic group of order 4n: elements (i, j) = a^i x^j."""
    N = 2 * n
    elems = [(i, j) for j in range(2) for i in range(N)]
    pos = {e: k for k, e in enumerate(elems)}

    def mul(u, v):
        (i, j), (k, l) = u, v
        i2 = (i + (k if j == 0 else -k)) % N
        if j + l == 2:
            i2 = (i2 + n) % N
        return (i2, (j + l) % 2)

    return [[pos[mul(u, v)] for v in elems] for u in elems]


def table_of(perms):
    """Multiplication table of a list of permutations (identity first)."""
    perms = sorted(perms, key=lambda p: (p != tuple(range(len(p))), p))
    pos = {p: i for i, p in enumerate(perms)}
    return [[pos[compose(a, b)] for b in perms] for a in perms]


def table_orders(table):
    n = len(table)
    ident = next(i for i in range(n) if list(table[i]) == list(range(n)))
    res = []
    for i in range(n):
        k, x = 1, i
        while x != ident:
            x = table[x][i]
            k += 1
        res.append(k)
    return sorted(res)
