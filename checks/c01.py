import unittest.mock

import numpy as np

from vlib import grp
from vlib.gf import GF

PROPERTY = "C01"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
RULE = ("one case per (constructor, parameters) or per random generator/table/matrix set or per random draw history; "
        "non-trivial when the group has more than one member")
REQUIRED = {"enumeration": 60, "table": 60, "subset": 100, "hash": 50, "mats": 10, "from-table": 8, "nonmember": 100}


def examine(ctx, name, group, order=None, abelian=None, orders=None, gens=None):
    """The structural monitor: compares everything observable about a group with closure by hand."""
    rng = ctx.rng
    members = list(group.generate())
    degree = group.identity.size
    tups = [grp.tup(m) for m in members]
    want = grp.closure([grp.tup(g) for g in (gens if gens is not None else group.generators)], degree)
    ctx.check(set(tups) == want and len(tups) == len(want), "enumeration", f"{name}: members != closure of generators",
              got=tups[:50], want=sorted(want)[:50])
    if gens is not None:
        ctx.check(grp.closure([grp.tup(g) for g in group.generators], degree) == want, "generators", name)
    ctx.check(group.order == len(want), "order", f"{name}: order {group.order} != {len(want)}")
    if order is not None:
        ctx.check(group.order == order, "order", f"{name}: order {group.order}, advertised {order}")
        ctx.check(len(tups) == order, "order", f"{name}: enumerates {len(tups)}, advertised {order}")
    if len(set(tups)) != len(tups) or set(tups) != want or len(tups) > 200:
        return
    pos = {t: i for i, t in enumerate(tups)}
    ctx.check(grp.tup(group.identity) == tuple(range(degree)) and group.identity in group, "identity", name)
    true_abelian = all(grp.compose(a, b) == grp.compose(b, a) for a in tups for b in tups)
    ctx.check(bool(group.is_abelian) == true_abelian, "abelian", f"{name}: is_abelian={group.is_abelian}")
    if abelian is not None:
        ctx.check(true_abelian == abelian, "abelian", f"{name}: advertised abelian={abelian}")
    if orders is not None:
        ctx.check(sorted(map(grp.element_order, tups)) == orders, "element-orders", name)
    for i, m in enumerate(members):
        ctx.check(group.index(m) == i and m in group, "index", f"{name}: index of member {i}", got=group.index(m))
        ctx.check(grp.tup(~m) in pos and grp.compose(grp.tup(~m), tups[i]) == tups[group.index(group.identity)], "inverse", name)
    if len(tups) <= 64:
        table = np.asarray(group.table)
        expect = np.array([[pos[grp.compose(a, b)] for b in tups] for a in tups])
        ctx.check(table.shape == expect.shape and np.array_equal(table, expect), "table", f"{name}: table disagrees with products",
                  got=table, want=expect)
    for _ in range(6):
        a, b = rng.integers(len(members), size=2)
        prod = members[a] * members[b]
        ctx.check(grp.tup(prod) == grp.compose(tups[a], tups[b]) and prod in group, "product", name)
    # non-members
    for _ in range(6):
        perm = tuple(int(i) for i in rng.permutation(degree)) if degree > 1 else None
        if perm is None:
            break
        from qldpc import abstract

        mem = abstract.GroupMember(list(perm))
        ctx.check((mem in group) == (perm in pos), "membership", f"{name}: membership of {perm}")
        if perm not in pos:
            ctx.raises(ValueError, "nonmember", group.index, mem, msg=f"{name}: index of non-member {perm}")
    # group members sort by rank, lift to permutation matrices
    if degree:
        for _ in range(3):
            a, b = (members[int(i)] for i in rng.integers(len(members), size=2))
            ma, mb = a.to_matrix(), b.to_matrix()
            ctx.check(np.array_equal(ma @ mb, (a * b).to_matrix()), "to_matrix", name)
            ctx.check(ma.sum() == degree and all(ma[i, grp.tup(a)[i]] for i in range(degree)), "to_matrix", name)


def unit_named(ctx, chunk, tier):
    from qldpc import abstract

    for name, build, order, abelian, orders in chunk:
        with ctx.guard("construct", group=name):
            group = build()
            ctx.case("named", order > 1, name=name)
            examine(ctx, name, group, order, abelian, orders)
            other = build()
            ctx.check(group == other, "equal", f"{name}: two constructions differ")
            ctx.check(hash(group) == hash(other), "hash", f"{name}: equal groups hash differently")
            ctx.check(len({group, other}) == 1 and {group: 1}.get(other) == 1, "hash", f"{name}: equal groups are two dictionary keys")
            ra, rb = abstract.GroupRing(group, 3), abstract.GroupRing(other, 3)
            ctx.check(ra == rb and hash(ra) == hash(rb), "hash", f"{name}: equal rings hash differently")
            ctx.check(isinstance(group.name, str) and str(group) == group.name, "name", name)


def unit_eq(ctx, tier):
    """(in)equality and hashing across different generating sets."""
    from qldpc import abstract

    for _ in range(25 if tier == "quick" else 120):
        degree = int(ctx.rng.integers(3, 6))
        gens = [tuple(int(i) for i in ctx.rng.permutation(degree)) for _ in range(int(ctx.rng.integers(1, 3)))]
        mem = sorted(grp.closure(gens, degree))
        mk = lambda ps: abstract.Group(*[abstract.GroupMember(list(p)) for p in ps])  # noqa: E731
        g1 = mk(gens)
        # another generating set of the same group: shuffled random elements plus the generators
        extra = [mem[int(i)] for i in ctx.rng.integers(len(mem), size=2)]
        alt = extra + gens[::-1]
        g2 = mk(alt)
        ctx.case("generating-sets", len(mem) > 1, gens=gens, alt=alt)
        # equality is allowed to depend on the generators, but it must be sound and consistent with hashing
        for ga, gb in [(g1, g2), (g1, mk(gens)), (g2, mk(alt)), (g1, mk(gens + gens))]:
            if ga == gb:
                ctx.check(hash(ga) == hash(gb), "hash", "equal groups hash differently", gens=gens, alt=alt)
        ctx.check(g1 == mk(gens), "equal", "same generators, different groups")
        ctx.check(g1.order == g2.order == len(mem), "order", "order")
        other = [tuple(int(i) for i in ctx.rng.permutation(degree))]
        g3 = mk(other)
        ctx.check(not (g1 == g3 and grp.closure(other, degree) != set(mem)), "equal", "different groups compare equal", a=gens, b=other)
        ctx.check(g1 != mk(gens[:1] + [tuple(range(degree))[::-1] + (degree,)]) and g1 != "group", "equal", "spurious equality")
        examine(ctx, f"Group{gens}", g1, len(mem), gens=[abstract.GroupMember(list(p)) for p in gens])
        examine(ctx, f"Group{alt}", g2, len(mem))
        g4 = abstract.Group.from_sympy(g1.to_sympy())
        ctx.check(g4 == g1 and [grp.tup(m) for m in g4.generate()] == [grp.tup(m) for m in g1.generate()], "from_sympy", "from_sympy")
        # ring arrays over separately constructed equal groups can be combined
        with ctx.guard("interchangeable"):
            h1, h2 = mk(gens), mk(gens)
            a1 = abstract.RingArray.build([[1, 0]], h1)
            a2 = abstract.RingArray.build([[1, 1]], h2)
            s = a1 + a2
            ctx.check(not s[0, 0] and bool(s[0, 1]), "interchangeable", "sum over equal groups")


def unit_table(ctx, tier):
    from qldpc import abstract

    tables = [("dicyclic", n, grp.dicyclic_table(n)) for n in (1, 2, 3, 4)]
    for gens, degree in [([(1, 2, 0), (1, 0, 2)], 3), ([(1, 2, 3, 0), (3, 2, 1, 0)], 4), ([(1, 2, 3, 4, 0)], 5),
                         ([(1, 2, 0, 3), (0, 2, 3, 1)], 4), ([(1, 0, 2, 3, 4), (0, 1, 3, 4, 2)], 5)]:
        tables.append(("perm", gens, grp.table_of(list(grp.closure(gens, degree)))))
    for kind, par, table in tables:
        n = len(table)
        perm = ctx.rng.permutation(n)  # relabel: the identity need not come first
        inv = np.argsort(perm)
        relabelled = [[int(perm[table[inv[i]][inv[j]]]) for j in range(n)] for i in range(n)]
        for tab in (table, relabelled, np.array(table)):
            ctx.case("table", n > 1, kind=kind, table=tab)
            with ctx.guard("from-table"):
                group = abstract.Group.from_table(tab)
                ctx.check(group.order == n, "from-table", "order")
                tt = [list(map(int, row)) for row in tab]
                sym = all(tt[i][j] == tt[j][i] for i in range(n) for j in range(n))
                examine(ctx, f"from_table {kind}{par}", group, n, sym, grp.table_orders(tt))
                # the members are the rows of the table, acting by left multiplication
                rows = {tuple(r) for r in tt}
                ctx.check({grp.tup(m) for m in group.generate()} == rows, "from-table", "members are not the table rows")
                lifted = abstract.Group.from_table(tab, lambda i: np.array([[i + 1]]))
                rowpos = {tuple(r): i for i, r in enumerate(tt)}
                ctx.check(all(lifted.lift(m)[0, 0] == rowpos[grp.tup(m)] + 1 for m in lifted.generate()), "from-table", "integer lift")


def mat_closure(mats, q):
    f = GF(q) if q else None
    mul = (lambda a, b: f.matmul(a, b)) if q else (lambda a, b: a @ b)
    seen = {}
    todo = [np.array(m) for m in mats]
    for m in todo:
        seen[m.tobytes()] = m
    while todo:
        nxt = []
        for a in todo:
            for b in mats:
                c = mul(a, np.array(b))
                if c.tobytes() not in seen:
                    seen[c.tobytes()] = c
                    nxt.append(c)
        todo = nxt
        if len(seen) > 70:
            return None
    return list(seen.values())


def unit_mats(ctx, tier):
    import galois
    from qldpc import abstract

    todo = 14 if tier == "quick" else 50
    tried = 0
    while todo and tried < 4000:
        tried += 1
        q = [0, 2, 3, 4, 5][int(ctx.rng.integers(5))]
        k = int(ctx.rng.integers(1, 3))
        if q == 0:
            d = int(ctx.rng.integers(2, 4))
            mats = []
            for _ in range(k):
                m = np.zeros((d, d), dtype=int)
                m[np.arange(d), ctx.rng.permutation(d)] = ctx.rng.choice([-1, 1], size=d)
                mats.append(m)
        else:
            d = 2
            mats = [GF(q).random_full_rank(ctx.rng, d, d) for _ in range(k)]
        if ctx.rng.random() < 0.3:
            mats = mats + [mats[0].copy()]  # redundant generators describe the same group
        full = mat_closure(mats, q)
        if full is None:
            continue
        todo -= 1
        ctx.case("matrices", len(full) > 1, field=q, mats=mats)
        with ctx.guard("mats"):
            given = [galois.GF(q)(m) for m in mats] if q else mats
            group = abstract.Group.from_generating_mats(*given)
            ctx.check(group.order == len(full), "mats", f"order {group.order} != {len(full)}", mats=mats, field=q)
            examine(ctx, "from_generating_mats", group, len(full))
            lifts = {np.array(group.lift(m), dtype=int).tobytes() for m in group.generate()}
            ctx.check(lifts == {m.astype(int).tobytes() for m in full}, "mats", "lifted members are not the generated matrices", mats=mats, field=q)


def unit_iter(ctx, tier):
    from qldpc import abstract

    for d, q in [(2, 2), (2, 3), (2, 4), (2, 5), (3, 2)]:
        f = GF(q)
        with ctx.guard("iter-mats", group=(d, q)):
            ctx.case("iter_mats", True, d=d, q=q)
            mats = [np.array(m, dtype=int) for m in abstract.SL.iter_mats(d, q)]
            ctx.check(len(mats) == grp.sl_order(d, q) == len({m.tobytes() for m in mats}), "iter-mats", f"SL({d},{q})")
            ctx.check(all(m.shape == (d, d) for m in mats), "iter-mats", "shape")
            if d == 2:
                ctx.check(all(f.sub(f.mul(m[0, 0], m[1, 1]), f.mul(m[0, 1], m[1, 0])) == 1 for m in mats), "iter-mats", "determinant 1")
            mats = [np.array(m, dtype=int) for m in abstract.PSL.iter_mats(d, q)]
            ctx.check(len(mats) == grp.psl_order(d, q), "iter-mats", f"PSL({d},{q}): {len(mats)}")
            ctx.check(all(m.shape == (d, d) for m in mats), "iter-mats", f"PSL({d},{q}): members are not {d}x{d} matrices")
            if all(m.shape == (d, d) for m in mats):
                roots = [c for c in range(1, q) if pow_field(f, c, d) == 1]
                classes = {frozenset(f.mul(c, m).tobytes() for c in roots) for m in mats}
                ctx.check(len(classes) == len(mats), "iter-mats", "two representatives of one class")
            for cls in (abstract.SL, abstract.PSL):
                gens = cls.get_generating_mats(d, q)
                ctx.check(len(gens) == 2 and all(f.rank(np.array(g, dtype=int)) == len(g) for g in gens), "iter-mats", "generators invertible")


def pow_field(f, c, d):
    x = 1
    for _ in range(d):
        x = int(f.mul(x, c))
    return x


class StepLimit(Exception):
    pass


def unit_random(ctx, chunk, tier):
    """Histories of random draws and random symmetric subsets."""
    from qldpc import abstract

    for name, build, order, _, _ in chunk:
        if order > 40:
            continue
        group = build()
        if len(list(group.generate())) != order:
            continue  # reported by unit_named
        members = [grp.tup(m) for m in group.generate()]
        ctx.case("random-history", order > 1, name=name)
        with ctx.guard("random", group=name):
            drawn = [grp.tup(group.random()) for _ in range(30 * order)]
            ctx.check(set(drawn) <= set(members), "random", f"{name}: drew a non-member")
            ctx.check(set(drawn) == set(members), "random-support", f"{name}: {len(set(drawn))} of {order} members drawn in {30 * order} draws")
            seed = int(ctx.rng.integers(2**31))
            a, b = [grp.tup(group.random(seed=seed)) for _ in range(2)]
            ctx.check(a == b, "random-seed", f"{name}: seeded draw not reproducible")
        ident = tuple(range(group.identity.size))
        singles = [m for m in members if m == grp.invert(m)]
        for exclude in (False, True):
            ns = len(singles) - exclude
            npairs = (order - len(singles)) // 2
            feasible = [s for s in range(1, order + 1) if any(0 <= s - 2 * k <= ns for k in range(npairs + 1))]
            sizes = feasible if order <= 12 else [feasible[int(i)] for i in ctx.rng.integers(len(feasible), size=4)]
            for size in sizes:
                seed = int(ctx.rng.integers(2**31))
                if ns == 0 and size % 2:
                    continue
                results = []
                for rep in range(2):
                    steps = [0]
                    inner = type(group).random

                    def limited(*args, seed=None, _s=steps, _g=group, _i=inner):
                        _s[0] += 1
                        if _s[0] > 20000:
                            raise StepLimit
                        return _i(_g, seed=seed)

                    group.random = limited
                    try:
                        subset = group.random_symmetric_subset(size, exclude_identity=exclude, seed=seed)
                    except StepLimit:
                        ctx.violate("subset", f"{name}: no symmetric subset of feasible size {size} after 20000 draws", exclude=exclude)
                        break
                    finally:
                        del group.random
                    got = {grp.tup(m) for m in subset}
                    results.append(got)
                    ctx.check(len(subset) == size and len(got) == size, "subset", f"{name}: size {len(subset)} != {size}", exclude=exclude)
                    ctx.check(got <= set(members), "subset", f"{name}: not a subset")
                    ctx.check(got == {grp.invert(m) for m in got}, "subset", f"{name}: subset is not symmetric", subset=got)
                    ctx.check(not (exclude and ident in got), "subset", f"{name}: identity not excluded")
                if len(results) == 2:
                    ctx.check(results[0] == results[1], "random-seed", f"{name}: seeded subset not reproducible")
        for bad in (0, -1, order + 1):
            ctx.raises(ValueError, "subset-reject", group.random_symmetric_subset, bad, msg=f"{name}: size {bad}")


def small_groups():
    """Groups by GAP id, with generators as GAP would print them (zero-based permutations)."""
    return [
        (2, 1, 1, [[1, 0]], 2), (3, 1, 1, [[1, 2, 0]], 3), (4, 1, 2, [[1, 2, 3, 0]], 4),
        (4, 2, 2, [[1, 0, 2, 3], [0, 1, 3, 2]], 4), (6, 1, 2, [[1, 0, 2], [1, 2, 0]], 3),
        (6, 2, 2, [[1, 0, 2, 3, 4], [0, 1, 3, 4, 2]], 5), (8, 1, 5, [[1, 2, 3, 4, 5, 6, 7, 0]], 8),
        (8, 3, 5, [[1, 2, 3, 0], [3, 2, 1, 0]], 4),
    ]


def unit_small(ctx, tier):
    from qldpc import abstract

    for order, index, number, gens, degree in small_groups():
        ctx.case("small-group", True, order=order, index=index)
        patches = (
            unittest.mock.patch("qldpc.external.groups.get_small_group_number", return_value=number),
            unittest.mock.patch("qldpc.external.groups.get_generators", return_value=[tuple(g) for g in gens]),
        )
        with patches[0], patches[1], ctx.guard("small", group=(order, index)):
            group = abstract.SmallGroup(order, index)
            examine(ctx, f"SmallGroup({order},{index})", group, order, gens=[abstract.GroupMember(g) for g in gens])
            ctx.check(group.group_index == index, "small", "group_index")
            unit_random(ctx, [(f"SmallGroup({order},{index})", lambda o=order, i=index: abstract.SmallGroup(o, i), order, None, None)], tier)
            ctx.raises(ValueError, "small", abstract.SmallGroup, order, number + 1, msg="index out of range")
            ctx.raises(ValueError, "small", abstract.SmallGroup, order, 0, msg="index 0")
    with unittest.mock.patch("qldpc.external.groups.get_small_group_number", return_value=1):
        with ctx.guard("small"):
            group = abstract.SmallGroup(1, 1)
            ctx.check(group.order == 1 and group == abstract.TrivialGroup() and group.random() == group.identity, "small", "SmallGroup(1,1)")


def units(tier, seed):
    from qldpc import abstract

    named = grp.named_groups(abstract, tier)
    out = []
    for i in range(0, 16):
        out.append((f"named-{i}", unit_named, (named[i::16], tier)))
        out.append((f"random-{i}", unit_random, (named[i::16], tier)))
    reps = 1 if tier == "quick" else 8
    for r in range(reps):
        out.append((f"eq-{r}", unit_eq, (tier,)))
        out.append((f"table-{r}", unit_table, (tier,)))
        out.append((f"mats-{r}", unit_mats, (tier,)))
    out.append(("iter", unit_iter, (tier,)))
    out.append(("small", unit_small, (tier,)))
    return out
