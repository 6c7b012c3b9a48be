import itertools

import numpy as np

from vlib import grp
from vlib.gf import GF

PROPERTY = "C02"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
RULE = ("one case per (group, field, batch of random elements) or (group, lift, batch of pairs); "
        "non-trivial when the group has at least two members and the elements are not all zero")
REQUIRED = {"lift-hom": 500, "lift-faithful": 40, "regular": 300, "mul": 200, "add": 200, "inverse-exists": 60,
            "inverse-none": 20, "vector": 100, "ring-lift": 100, "transpose": 100, "pure": 200}


def lift_field(name):
    """Order of the field over which a group's own lift is defined (None: integers)."""
    if name.startswith("Quaternion"):
        return 3
    if name.startswith(("SL(", "PSL(")):
        return int(name.split(",")[1])
    return None


def orthogonal_lift(name, group):
    if name.startswith("SL(") or name.startswith("PSL("):
        return group._lift is None if hasattr(group, "_lift") else False
    return True


def unit_lifts(ctx, chunk, tier):
    from qldpc import abstract

    for name, build, order, _, _ in chunk:
        if order > 130:
            continue
        group = build()
        members = list(group.generate())
        tups = [grp.tup(m) for m in members]
        if len(tups) != order:
            ctx.violate("lift-hom", f"{name}: enumeration has {len(tups)} members, order {order}")
            continue
        pos = {t: i for i, t in enumerate(tups)}
        q = lift_field(name)
        f = GF(q) if q else None
        mul = (lambda a, b: f.matmul(a, b)) if f else (lambda a, b: a @ b)
        ctx.case("lift", order > 1, name=name)
        with ctx.guard("lift", group=name):
            mats = [np.array(group.lift(m), dtype=int) for m in members]
            dims = {m.shape for m in mats}
            ctx.check(dims == {(group.lift_dim,) * 2}, "lift-dim", f"{name}: lift_dim {group.lift_dim} shapes {dims}")
            ctx.check(len({m.tobytes() for m in mats}) == order, "lift-faithful", f"{name}: lift is not faithful")
            ident = mats[pos[grp.tup(group.identity)]]
            ctx.check(np.array_equal(ident, np.eye(len(ident), dtype=int)), "lift-identity", name)
            pairs = list(itertools.product(range(order), repeat=2))
            if len(pairs) > 150:
                pairs = [pairs[int(i)] for i in ctx.rng.integers(len(pairs), size=150)]
            bad = [(i, j) for i, j in pairs if not np.array_equal(mul(mats[i], mats[j]), mats[pos[grp.compose(tups[i], tups[j])]])]
            ctx.see("lift-hom", len(pairs))
            if bad:
                i, j = bad[0]
                ctx.violate("lift-hom", f"{name}: lift(a) @ lift(b) != lift(a * b) for {len(bad)} of {len(pairs)} pairs", a=tups[i], b=tups[j])
            if not name.startswith(("SL(", "PSL(")):
                ctx.check(all(np.array_equal(mul(m, m.T), np.eye(len(m), dtype=int)) for m in mats), "lift-orthogonal", f"{name}: lift is not orthogonal")
            again = [np.array(group.lift(m), dtype=int) for m in members[::-1]][::-1]
            ctx.check(all(np.array_equal(a, b) for a, b in zip(mats, again)), "lift-repeat", name)
        # regular lift: column g of the matrix for a is the indicator of a * g
        with ctx.guard("regular", group=name):
            for i in ctx.rng.permutation(order)[: 12 if order > 12 else order]:
                mat = np.array(group.regular_lift(members[int(i)]), dtype=int)
                expect = np.zeros((order, order), dtype=int)
                for j, g in enumerate(tups):
                    expect[pos[grp.compose(tups[int(i)], g)], j] = 1
                ctx.check(np.array_equal(mat, expect), "regular", f"{name}: regular lift of {tups[int(i)]}")


class Model:
    """Formal group algebra: dict from permutation tuple to field integer."""

    def __init__(self, f, ident):
        self.f, self.ident = f, ident

    def clean(self, x):
        return {g: int(c) for g, c in x.items() if c}

    def add(self, x, y):
        out = dict(x)
        for g, c in y.items():
            out[g] = int(self.f.add(out.get(g, 0), c))
        return self.clean(out)

    def smul(self, c, x):
        return self.clean({g: int(self.f.mul(c, v)) for g, v in x.items()})

    def mul(self, x, y):
        out = {}
        for a, u in x.items():
            for b, v in y.items():
                g = grp.compose(a, b)
                out[g] = int(self.f.add(out.get(g, 0), self.f.mul(u, v)))
        return self.clean(out)

    def T(self, x):
        return {grp.invert(g): c for g, c in x.items()}


def read(elem):
    """Observable content of a ring member, through iteration."""
    out = {}
    for val, member in elem:
        if int(val):
            out[grp.tup(member)] = int(val)
    return out


def unit_ring(ctx, name, build, order, q, reps):
    from qldpc import abstract

    f = GF(q)
    group = build()
    ring = abstract.GroupRing(group, q)
    members = list(group.generate())
    tups = [grp.tup(m) for m in members]
    pos = {t: i for i, t in enumerate(tups)}
    M = Model(f, grp.tup(group.identity))
    rng = ctx.rng
    p = f.p
    own = lift_field(name)
    lift_ok = own is None or own == q
    mats = [np.array(group.lift(m), dtype=int) % (p if not (own and own == q) else q) for m in members] if lift_ok else None
    ctx.check(ring.field.order == q and ring.group == group and ring.is_abelian == all(
        grp.compose(a, b) == grp.compose(b, a) for a in tups for b in tups), "ring-facts", name)
    ctx.check(ring.is_semisimple == (order % p != 0), "ring-facts", f"{name} semisimple")
    ctx.check(read(ring.zero) == {} and read(ring.one) == {M.ident: 1} and bool(ring.one) and not ring.zero, "ring-facts", "zero/one")

    def rand(density=None):
        density = density if density is not None else rng.choice([0.2, 0.5, 1.0])
        terms = []
        for m in members:
            if rng.random() < density:
                terms.append((int(rng.integers(0, q)), m))
        if rng.random() < 0.3 and terms:
            terms.append(terms[int(rng.integers(len(terms)))])  # repeated members accumulate
        rng.shuffle(terms)
        model = {}
        for c, m in terms:
            model = M.add(model, {grp.tup(m): c})
        return abstract.RingMember(ring, *terms), model

    def same(elem, model, key, msg, **w):
        return ctx.check(isinstance(elem, abstract.RingMember) and read(elem) == M.clean(model) and elem.ring == ring, key,
                         f"{name} GF({q}): {msg}", got=str(read(elem))[:300], want=str(model)[:300], **w)

    def vec(model):
        v = np.zeros(order, dtype=int)
        for g, c in model.items():
            v[pos[g]] = c
        return v

    for _ in range(reps):
        (x, mx), (y, my) = rand(), rand()
        k = int(rng.integers(-5, 8))
        g = members[int(rng.integers(order))]
        tg = grp.tup(g)
        ctx.case("ring", bool(mx) and bool(my) and order > 1, name=name, q=q, x=str(mx), y=str(my), k=k, g=tg)
        with ctx.guard("ring-op"):
            kp = k % p
            same(x, mx, "construct", "constructor")
            same(x + y, M.add(mx, my), "add", "x + y")
            same(x - y, M.add(mx, M.smul(int(f.neg(1)), my)), "add", "x - y")
            same(-x, M.smul(int(f.neg(1)), mx), "add", "-x")
            same(x + g, M.add(mx, {tg: 1}), "add", "x + g")
            same(g + x if False else x.__radd__(g), M.add(mx, {tg: 1}), "add", "g + x")
            same(x - g * ring.one, M.add(mx, {tg: int(f.neg(1))}), "add", "x - g")
            same(x + k, M.add(mx, M.clean({M.ident: kp})), "add", "x + k", k=k)
            same(x - k, M.add(mx, M.clean({M.ident: int(f.neg(kp))})), "add", "x - k", k=k)
            same(x * y, M.mul(mx, my), "mul", "x * y")
            same(x * k, M.smul(kp, mx), "mul", "x * k", k=k)
            same(k * x, M.smul(kp, mx), "mul", "k * x", k=k)
            same(x * g, M.mul(mx, {tg: 1}), "mul", "x * g")
            same(g * x, M.mul({tg: 1}, mx), "mul", "g * x")
            power = int(rng.integers(0, 5))
            want = {M.ident: 1}
            for _ in range(power):
                want = M.mul(want, mx)
            same(x**power, want, "mul", f"x**{power}")
            same(x.T, M.T(mx), "transpose", "x.T")
            ctx.check(x.T.T == x, "transpose", "x.T.T")
            ctx.check((x * y).T == y.T * x.T, "transpose", "(xy).T == y.T x.T")
            same(x.copy(), mx, "copy", "copy")
            # equality is equality of formal sums, whatever zero terms are stored
            ctx.check((x == y) == (mx == my) and bool(x) == bool(mx), "eq", "equality / truth value")
            ctx.check(x + y - y == x and (x - x) == ring.zero and not (x - x), "eq", "x + y - y == x")
            ctx.check((x == abstract.RingMember(abstract.GroupRing(group, {2: 3}.get(q, 2)))) is False, "eq", "different rings")
            z = x + ring.one
            ctx.check(z != x and x != z, "eq", "x + 1 != x")
            # vectors
            v = x.to_vector()
            ctx.check(np.array_equal(np.array(v, dtype=int), vec(mx)) and type(v) is ring.field, "vector", f"{name} GF({q}): to_vector")
            same(abstract.RingMember.from_vector(ring, v), mx, "vector", "from_vector(to_vector)")
            same(abstract.RingMember.from_vector(ring, np.array(v, dtype=int)), mx, "vector", "from integer vector")
            if q == 2:
                e = abstract.RingMember.from_vector(group, v)
                ctx.check(read(e) == mx and e.ring == ring, "vector", "from_vector(group)")
            # lifts
            reg = np.array(x.regular_lift(), dtype=int)
            want = np.zeros((order, order), dtype=int)
            for a, c in mx.items():
                for j, b in enumerate(tups):
                    i = pos[grp.compose(a, b)]
                    want[i, j] = f.add(want[i, j], c)
            ctx.check(np.array_equal(reg, want), "ring-lift", f"{name} GF({q}): regular lift")
            ctx.check(np.array_equal(np.array((x * y).regular_lift(), dtype=int), f.matmul(reg, np.array(y.regular_lift(), dtype=int))), "ring-lift", "regular lift of product")
            ctx.check(np.array_equal(np.array(x.T.regular_lift(), dtype=int), reg.T), "ring-lift", "regular lift of transpose")
            if lift_ok:
                lx, ly = (np.array(e.lift(), dtype=int) for e in (x, y))
                want = np.zeros(mats[0].shape, dtype=int)
                for a, c in mx.items():
                    want = f.add(want, f.mul(c, mats[pos[a]]))
                ctx.check(np.array_equal(lx, want) and type(x.lift()) is ring.field, "ring-lift", f"{name} GF({q}): lift")
                ctx.check(np.array_equal(np.array((x * y).lift(), dtype=int), f.matmul(lx, ly)), "ring-lift", f"{name} GF({q}): lift of product")
                ctx.check(np.array_equal(np.array((x + y).lift(), dtype=int), f.add(lx, ly)), "ring-lift", "lift of sum")
                if not name.startswith(("SL(", "PSL(")):
                    ctx.check(np.array_equal(np.array(x.T.lift(), dtype=int), lx.T), "ring-lift", f"{name} GF({q}): lift of transpose")
            # operands are not changed by any of the above
            same(x, mx, "pure", "x was modified")
            same(y, my, "pure", "y was modified")
        with ctx.guard("inverse"):
            for e, me in [(x, mx)] + [unitish(ctx, ring, M, members, abstract)]:
                mat = np.zeros((order, order), dtype=int)
                for a, c in me.items():
                    for j, b in enumerate(tups):
                        i = pos[grp.compose(a, b)]
                        mat[i, j] = f.add(mat[i, j], c)
                exists = f.rank(mat) == order
                inv = e.inverse()
                if exists:
                    if ctx.check(inv is not None, "inverse-exists", f"{name} GF({q}): inverse of a unit not found", x=str(me)):
                        mi = read(inv)
                        ctx.check(M.mul(me, mi) == {M.ident: 1} and M.mul(mi, me) == {M.ident: 1}, "inverse-exists",
                                  f"{name} GF({q}): x * x.inverse() != 1", x=str(me), inv=str(mi))
                else:
                    ctx.check(inv is None, "inverse-none", f"{name} GF({q}): 'inverse' of a non-unit", x=str(me), inv=str(inv and read(inv)))


def unitish(ctx, ring, M, members, abstract):
    """A random element biased towards units: c*g plus a multiple of something, or a single term."""
    rng = ctx.rng
    q = M.f.q
    kind = rng.integers(3)
    g = members[int(rng.integers(len(members)))]
    c = int(rng.integers(1, q))
    terms = [(c, g)]
    if kind == 1:
        terms.append((0, members[int(rng.integers(len(members)))]))
        terms.append((int(rng.integers(1, q)), members[int(rng.integers(len(members)))]))
    if kind == 2:
        for _ in range(2):
            terms.append((int(rng.integers(1, q)), members[int(rng.integers(len(members)))]))
    model = {}
    for c, m in terms:
        model = M.add(model, {grp.tup(m): c})
    return abstract.RingMember(ring, *terms), model


def unit_order(ctx):
    """Two groups with the same members, but listed in a different order, do not disturb one another."""
    from qldpc import abstract

    for orders in [(2, 3), (3, 2), (2, 4), (3, 3), (2, 2, 3)]:
        a = abstract.AbelianGroup(*orders)
        b = abstract.Group.from_sympy(a.to_sympy())
        c = abstract.AbelianGroup(*orders, direct_sum=True)
        ctx.case("order", True, orders=orders)
        for group in (a, b, c, b, a):
            tups = [grp.tup(m) for m in group.generate()]
            pos = {t: i for i, t in enumerate(tups)}
            for m in group.generate():
                mat = group.regular_lift(m)
                ctx.check(all(mat[pos[grp.compose(grp.tup(m), t)], pos[t]] for t in tups) and mat.sum() == len(tups), "regular", f"AbelianGroup{orders}: regular lift depends on another group")
            ring = abstract.GroupRing(group, 3)
            vec = ctx.rng.integers(0, 3, size=len(tups))
            e = abstract.RingMember.from_vector(ring, vec)
            ctx.check({grp.tup(m): int(v) for v, m in e if v} == {t: int(v) for t, v in zip(tups, vec) if v}, "vector", "enumeration order")
            ctx.check(np.array_equal(e.to_vector(), vec), "vector", "vector round trip")
        # lift dimensions of the two lifts
        ctx.check(a.lift_dim == np.prod(orders) and c.lift_dim == sum(orders), "lift-dim", "kron / direct sum")


def shift_check(ctx):
    """CyclicGroup lift: <i| L(g^p) = <i + p|; AbelianGroup lift: Kronecker product or direct sum."""
    from qldpc import abstract

    for n in (2, 3, 5, 8):
        group = abstract.CyclicGroup(n)
        g = group.generators[0]
        for power in range(n):
            ctx.case("shift", True, n=n, power=power)
            mat = group.lift(g**power)
            # the documentation leaves the direction of the shift open
            ok = [all(mat[i, (i + s * power) % n] == 1 for i in range(n)) for s in (1, -1)]
            ctx.check(any(ok) and mat.sum() == n, "shift", f"C{n} power {power}")
    for orders in [(2, 3), (3, 2, 2)]:
        for ds in (False, True):
            group = abstract.AbelianGroup(*orders, direct_sum=ds)
            for powers, member in zip(itertools.product(*map(range, orders)), group.generate()):
                ctx.case("abelian-lift", True, orders=orders, powers=powers, ds=ds)
                base = [np.array(abstract.CyclicGroup(o).lift(abstract.CyclicGroup(o).generators[0]**k)) for o, k in zip(orders, powers)]
                mats = [np.array(b, dtype=int) for b in base]
                if ds:
                    want = np.zeros((sum(orders),) * 2, dtype=int)
                    s = 0
                    for m in mats:
                        want[s:s + len(m), s:s + len(m)] = m
                        s += len(m)
                else:
                    want = np.eye(1, dtype=int)
                    for m in mats:
                        want = np.kron(want, m)
                ctx.check(np.array_equal(group.lift(member), want), "shift", f"AbelianGroup{orders} {powers} direct_sum={ds}")


def units(tier, seed):
    from qldpc import abstract

    named = [n for n in grp.named_groups(abstract, tier)]
    out = [(f"lifts-{i}", unit_lifts, (named[i::16], tier)) for i in range(16)]
    rings = []
    for n in named:
        name, build, order = n[:3]
        if order > (16 if tier == "quick" else 36) or ("ds=True" in name and tier == "quick" and order > 6):
            continue
        fields = [2, 3, 4, 5, 9] if tier == "thorough" else None
        if fields is None:
            h = abs(hash(name)) % 4
            fields = [2, [3, 4, 5, 9][h]] if order <= 8 else [[2, 3, 4, 5][h]]
            if name.startswith("Quaternion"):
                fields = [2, 3, 4]
        for q in fields:
            rings.append((f"ring-{name}-{q}", unit_ring, (name, build, order, q, 4 if tier == "quick" else 12)))
    out += rings
    reps = 1 if tier == "quick" else 4
    out += [(f"order-{r}", unit_order, ()) for r in range(reps)]
    out += [("shift", shift_check, ())]
    return out
