import itertools

import numpy as np

from checks.c12 import assemble, block_kron_eye, dagger, kron
from vlib import mats
from vlib.gf import GF

PROPERTY = "C21"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: boundary maps and tensor products of chain complexes recomputed over reference fields and lifted group algebras, with homology as a second oracle"
RULE = ("one case per chain complex or pair of complexes (lengths 1-4, degenerate and zero modules, fields and group rings) x operation; "
        "non-trivial when some boundary map is not zero")
REQUIRED = {"square-zero": 150, "ops": 200, "dims": 500, "transpose": 150, "reject": 150, "product-ops": 200, "product-homology": 120, "product-field": 100,
            "ring-ops": 60, "ring-square-zero": 60, "ring-product": 60, "ring-transpose": 40, "ring-reject": 40, "nonabelian": 15, "type-reject": 20}


def random_complex(ctx, q, length, max_dim, min_dim=1):
    """Boundary maps d_1, ..., d_length with d_j d_{j+1} = 0."""
    f = GF(q)
    dims = [int(d) for d in ctx.rng.integers(min_dim, max_dim + 1, length + 1)]
    ops = []
    for j in range(length):
        if ops:
            null = f.null_space(ops[-1]) if len(ops[-1]) else np.eye(dims[j], dtype=int)
            take = f.random(ctx.rng, (dims[j + 1], len(null))) * (ctx.rng.random((dims[j + 1], 1)) < 0.8)
            ops.append(f.matmul(take, null).T if len(null) else np.zeros((dims[j], dims[j + 1]), dtype=int))
        else:
            ops.append(f.random(ctx.rng, (dims[0], dims[1])) * (ctx.rng.random((dims[0], dims[1])) < ctx.rng.choice([0.4, 1])))
    if ctx.rng.random() < 0.5:
        # reversed and transposed complexes have different exactness patterns
        ops = [op.T for op in ops[::-1]]
    return [np.ascontiguousarray(op) for op in ops]


def give(ctx, q, ops):
    """Keyword form of the constructor."""
    from qldpc import objects

    import galois

    how = int(ctx.rng.integers(3))
    if how == 0:
        return objects.ChainComplex(*[galois.GF(q)(op) for op in ops])
    if how == 1 and q == 2:
        return objects.ChainComplex(*ops)
    if how == 1:
        return objects.ChainComplex(galois.GF(q)(ops[0]), *ops[1:])
    return objects.ChainComplex(*ops, field=q)


def homology(f, ops):
    dims = [ops[0].shape[0]] + [op.shape[1] for op in ops]
    ranks = [0] + [f.rank(op) if op.size else 0 for op in ops] + [0]
    return [dims[j] - ranks[j] - ranks[j + 1] for j in range(len(dims))]


def check_complex(ctx, chain, q, ops):
    f = GF(q)
    ctx.check(chain.field.order == q and chain.num_links == len(ops) == len(chain.ops), "ops", "field or number of links")
    for j, op in enumerate(ops, 1):
        got = chain.op(j)
        ctx.check(type(got).order == q and np.array_equal(mats.to_int(got), op) and np.array_equal(mats.to_int(chain.ops[j - 1]), op), "ops", f"boundary operator {j}")
    dims = [ops[0].shape[0]] + [op.shape[1] for op in ops]
    for j, dim in enumerate(dims):
        ctx.check(chain.dim(j) == dim, "dims", f"dimension {chain.dim(j)} in degree {j}, expected {dim}")
    ctx.check(chain.op(0).shape == (0, dims[0]) and chain.op(len(ops) + 1).shape == (dims[-1], 0), "dims", "outer boundary operators")
    for j in range(len(ops) + 1):
        ctx.check(not np.any(mats.to_int(chain.op(j) @ chain.op(j + 1))), "square-zero", f"d_{j} d_{j + 1} is not zero")
    ctx.raises(AssertionError, "dims-reject", chain.op, len(ops) + 2, msg="degree out of range")
    ctx.raises(AssertionError, "dims-reject", chain.op, -1, msg="negative degree")


def product_formula(f, a, b, kr, eye_a, eye_b):
    """Boundary maps of the tensor product from the definition, sector by sector."""
    la, lb = len(a), len(b)
    da, db = [a[0].shape[0]] + [op.shape[1] for op in a], [b[0].shape[0]] + [op.shape[1] for op in b]

    def sectors(k):
        return [(i, k - i) for i in range(min(la, k), -1, -1) if 0 <= k - i <= lb]

    out = []
    for k in range(1, la + lb + 1):
        rows, cols = sectors(k - 1), sectors(k)
        grid = []
        for ri, rj in rows:
            line = []
            for ci, cj in cols:
                shape = (da[ri] * db[rj], da[ci] * db[cj])
                if (ri, rj) == (ci - 1, cj):
                    line.append(kr(a[ci - 1], eye_b(db[cj]), "left"))
                elif (ri, rj) == (ci, cj - 1):
                    block = kr(b[cj - 1], eye_a(da[ci]), "right")
                    line.append(f.neg(block) if ci % 2 else block)
                else:
                    line.append(np.zeros(shape, dtype=int))
            grid.append(line)
        out.append((rows, cols, grid))
    return out


def fields(ctx, q, count, max_dim):
    from qldpc import objects

    f = GF(q)
    other = 3 if q != 3 else 2
    for _ in range(count):
        length = int(ctx.rng.integers(1, 5))
        ops = random_complex(ctx, q, length, max_dim, min_dim=int(ctx.rng.random() < 0.8))
        ctx.case("complex", any(op.any() for op in ops), q=q, ops=ops)
        chain = give(ctx, q, ops)
        check_complex(ctx, chain, q, ops)
        dual = chain.T
        ctx.check(dual.field.order == q and dual.num_links == length and all(np.array_equal(mats.to_int(dual.op(j)), ops[length - j].T) for j in range(1, length + 1)), "transpose",
                  "the transpose")
        ctx.check(all(not np.any(mats.to_int(dual.op(j) @ dual.op(j + 1))) for j in range(length + 1)), "square-zero", "the transpose does not square to zero")
        back = dual.T
        ctx.check(all(np.array_equal(mats.to_int(back.op(j)), ops[j - 1]) for j in range(1, length + 1)), "transpose", "transposing twice")

        # violations of the defining condition, and inconsistent inputs
        if length > 1:
            j = int(ctx.rng.integers(1, length))
            bad = [op.copy() for op in ops]
            if bad[j].size and bad[j - 1].size:
                bad[j][ctx.rng.integers(bad[j].shape[0]), ctx.rng.integers(bad[j].shape[1])] = int(ctx.rng.integers(q))
                defect = any(f.matmul(bad[t], bad[t + 1]).any() for t in range(length - 1))
                try:
                    made = give(ctx, q, bad)
                    ctx.check(not defect, "reject", "a sequence that does not square to zero was accepted", bad=bad, made=str(made))
                except ValueError:
                    ctx.check(defect, "reject", "a valid complex was rejected", bad=bad)
            bad = list(ops)
            bad[j] = np.vstack([bad[j], np.zeros((1, bad[j].shape[1]), dtype=int)])
            ctx.raises(ValueError, "reject", objects.ChainComplex, *bad, field=q, msg="mismatched dimensions")
        import galois

        arr = galois.GF(q)(ops[0])
        ctx.raises(ValueError, "type-reject", objects.ChainComplex, arr, field=other, msg="inconsistent field")
        ctx.raises(ValueError, "type-reject", objects.ChainComplex, arr, galois.GF(other).Zeros((arr.shape[1], 2)), msg="inconsistent fields")


def products(ctx, q, count, max_dim):
    from qldpc import objects

    import galois

    f = GF(q)

    def kr(mat, eye, side):
        return kron(f, mat, eye) if side == "left" else kron(f, eye, mat)

    for _ in range(count):
        lengths = [int(n) for n in ctx.rng.integers(1, 4, 2)]
        low = int(ctx.rng.random() < 0.85)
        a, b = (random_complex(ctx, q, n, max_dim, min_dim=low) for n in lengths)
        ctx.case("product", any(op.any() for op in a) and any(op.any() for op in b), q=q, a=a, b=b)
        chains = [give(ctx, q, ops) for ops in (a, b)]
        args, kwargs = list(chains), {}
        for t, ops in enumerate((a, b)):
            if len(ops) == 1 and ctx.rng.random() < 0.6:
                args[t] = galois.GF(q)(ops[0])
                if ctx.rng.random() < 0.5:
                    args[t], kwargs = ops[0], {"field": q}
        got = objects.ChainComplex.tensor_product(*args, **kwargs)
        ctx.check(got.field.order == q and got.group is None and got.num_links == sum(lengths), "product-field", f"field {got.field.order}, {got.num_links} links")
        want = product_formula(f, a, b, kr, lambda n: np.eye(n, dtype=int), lambda n: np.eye(n, dtype=int))
        result = []
        for k, (rows, cols, grid) in enumerate(want, 1):
            op = np.block(grid)
            result.append(op)
            ctx.check(type(got.op(k)).order == q and np.array_equal(mats.to_int(got.op(k)), op), "product-ops", f"boundary operator {k} of the product", got=got.op(k), want=op)
        check_complex(ctx, got, q, result)
        mine = homology(f, [mats.to_int(op) for op in got.ops])
        ha, hb = homology(f, a), homology(f, b)
        kunneth = [sum(ha[i] * hb[k - i] for i in range(len(ha)) if 0 <= k - i < len(hb)) for k in range(len(mine))]
        ctx.check(mine == kunneth, "product-homology", f"homology {mine}, the Kunneth formula gives {kunneth}")
        for chain, ops in zip(chains, (a, b)):
            ctx.check(all(np.array_equal(mats.to_int(x), y) for x, y in zip(chain.ops, ops)), "inputs-kept", "an input complex changed")
        other = 3 if q != 3 else 2
        ctx.raises(ValueError, "type-reject", objects.ChainComplex.tensor_product, chains[0], galois.GF(other)([[1, 1]]), msg="different fields")


def triple(ctx, q, count):
    """Products of three maps: associative up to homology, which has dimensions given by the Kunneth formula."""
    from qldpc import objects

    import galois

    f = GF(q)
    for _ in range(count):
        maps = [random_complex(ctx, q, 1, 3)[0] for _ in range(3)]
        ctx.case("triple product", all(m.any() for m in maps), q=q, maps=maps)
        arrays = [galois.GF(q)(m) for m in maps]
        one = objects.ChainComplex.tensor_product(objects.ChainComplex.tensor_product(arrays[0], arrays[1]), arrays[2])
        two = objects.ChainComplex.tensor_product(arrays[0], objects.ChainComplex.tensor_product(arrays[1], arrays[2]))
        hs = [homology(f, [m]) for m in maps]
        want = [sum(hs[0][i] * hs[1][j] * hs[2][k] for i, j, k in itertools.product((0, 1), repeat=3) if i + j + k == d) for d in range(4)]
        for chain in (one, two):
            ops = [mats.to_int(op) for op in chain.ops]
            ctx.check(all(not f.matmul(x, y).any() for x, y in zip(ops, ops[1:])), "square-zero", "a triple product does not square to zero")
            ctx.check(homology(f, ops) == want, "product-homology", f"homology {homology(f, ops)}, expected {want}")


class Ring:
    """Reference arithmetic of a group algebra, through the lift."""

    def __init__(self, abstract, q, group):
        self.ring = abstract.GroupRing(group, q)
        self.q, self.f = q, GF(q)
        self.members = list(group.generate())
        self.lifts = [mats.to_int(group.lift(member)) for member in self.members]
        self.dim = group.lift_dim

    def element(self, abstract, coeffs):
        return abstract.RingMember(self.ring, *[(self.ring.field(int(c)), m) for c, m in zip(coeffs, self.members) if c])

    def lift(self, coeffs):
        out = np.zeros((self.dim, self.dim), dtype=int)
        for c, mat in zip(coeffs, self.lifts):
            if c:
                out = self.f.add(out, self.f.mul(int(c), mat))
        return out

    def array(self, abstract, coeffs):
        """(ring array, blocks) of an array of coefficient vectors."""
        m, n = coeffs.shape[:2]
        rows = np.empty((m, n), dtype=object)
        blocks = np.zeros((m, n, self.dim, self.dim), dtype=int)
        for i, j in itertools.product(range(m), range(n)):
            rows[i, j] = self.element(abstract, coeffs[i, j])
            blocks[i, j] = self.lift(coeffs[i, j])
        return abstract.RingArray(rows, self.ring), blocks


def rings(ctx, q, count, nonabelian):
    from qldpc import abstract, objects

    f = GF(q)
    for _ in range(count):
        if nonabelian:
            group = [abstract.DihedralGroup(3), abstract.SymmetricGroup(3)][ctx.rng.integers(2)]
        else:
            group = [abstract.CyclicGroup(int(ctx.rng.integers(2, 4))), abstract.AbelianGroup(2, 2), abstract.TrivialGroup(), abstract.CyclicGroup(2) * abstract.CyclicGroup(3)][ctx.rng.integers(4)]
        ring = Ring(abstract, q, group)

        def draw(m, n, density=0.5):
            return f.random(ctx.rng, (m, n, len(ring.members))) * (ctx.rng.random((m, n, len(ring.members))) < density)

        def chain_of(length):
            """Ring arrays that compose to zero, with their lifted blocks."""
            first, blocks = ring.array(abstract, draw(*[int(d) for d in ctx.rng.integers(1, 3, 2)]))
            if length == 1:
                return [first], [blocks]
            shape = int(ctx.rng.integers(1, 3))
            if ctx.rng.random() < 0.5 or nonabelian:
                # d_1 = (a, -b), d_2 = (b, a)^T commute over a commutative ring; d_2 = null space otherwise
                null = first.null_space()
                if not len(null):
                    zero = np.zeros((first.shape[1], shape, len(ring.members)), dtype=int)
                    second, more = ring.array(abstract, zero)
                else:
                    second = null.T
                    coeffs = mats.to_int(second.to_field_array())
                    second, more = ring.array(abstract, coeffs)
                return [first, second], [blocks, more]
            a, b = draw(1, 1)[0, 0], draw(1, 1)[0, 0]
            minus = f.neg(b)
            one = np.array([[a, minus]])
            two = np.array([[b], [a]])
            pair = [ring.array(abstract, one), ring.array(abstract, two)]
            return [p[0] for p in pair], [p[1] for p in pair]

        lengths = [int(n) for n in ctx.rng.integers(1, 3, 2)]
        parts = [chain_of(n) for n in lengths]
        ctx.case("ring complexes", any(b.any() for _, bs in parts for b in bs), q=q, group=str(group), blocks=[b for _, bs in parts for b in bs])
        chains = []
        for arrays, blocks in parts:
            chain = objects.ChainComplex(*arrays)
            chains.append(chain)
            ctx.check(chain.field.order == q and chain.group == group and chain.num_links == len(arrays), "ring-ops", "field, group or number of links")
            for j, block in enumerate(blocks, 1):
                ctx.check(np.array_equal(mats.to_int(chain.op(j).lift()), assemble(block)), "ring-ops", f"boundary operator {j}")
                ctx.check(chain.dim(j) == block.shape[1] and chain.dim(j - 1) == block.shape[0], "ring-ops", "dimensions")
            dual = chain.T
            for j, block in enumerate(blocks, 1):
                ctx.check(np.array_equal(mats.to_int(dual.op(len(blocks) + 1 - j).lift()), assemble(dagger(block))), "ring-transpose", f"transpose of operator {j}")
            if len(arrays) == 2:
                bad, bad_blocks = ring.array(abstract, draw(arrays[1].shape[0], 2, 1.0))
                defect = f.matmul(assemble(blocks[0]), assemble(bad_blocks)).any()
                try:
                    objects.ChainComplex(arrays[0], bad)
                    ctx.check(not defect, "ring-reject", "a sequence that does not square to zero was accepted")
                except ValueError:
                    ctx.check(defect, "ring-reject", "a valid complex was rejected")
        ctx.raises(ValueError, "type-reject", objects.ChainComplex, parts[0][0][0], np.zeros((parts[0][0][0].shape[1], 2), dtype=int), msg="mixed operator types")

        blocks_a, blocks_b = parts[0][1], parts[1][1]
        want = []
        for rows, cols, grid in ring_formula(f, blocks_a, blocks_b, ring.dim):
            want.append(np.block(grid))
        exact = all(not f.matmul(x, y).any() for x, y in zip(want, want[1:]))
        if not exact:
            # over a non-commutative ring the products of boundary maps may not be a complex
            ctx.check(not group.is_abelian, "harness", "the reference product over a commutative ring is a complex")
            ctx.raises(ValueError, "nonabelian", objects.ChainComplex.tensor_product, *chains, msg="a product that does not square to zero")
            continue
        if nonabelian:
            ctx.see("nonabelian")
        prod = objects.ChainComplex.tensor_product(*(arg if ctx.rng.random() < 0.5 or len(p[0]) > 1 else p[0][0] for arg, p in zip(chains, parts)))
        ctx.check(prod.group == group and prod.field.order == q and prod.num_links == sum(lengths), "ring-product", "field, group or number of links")
        for k, op in enumerate(want, 1):
            got = mats.to_int(prod.op(k).lift())
            ctx.check(np.array_equal(got, op), "ring-product", f"boundary operator {k} of the product", got=got, want=op)
        for k in range(1, len(want)):
            ctx.check(not np.any(prod.op(k) @ prod.op(k + 1)), "ring-square-zero", f"d_{k} d_{k + 1} is not zero")
        dual = prod.T
        for k in range(1, len(want) + 1):
            ctx.check(np.array_equal(mats.to_int(dual.op(len(want) + 1 - k).lift()), want[k - 1].T), "ring-transpose", f"transpose of operator {k} of the product")


def ring_formula(f, a, b, dim):
    """product_formula over arrays of blocks."""
    la, lb = len(a), len(b)
    da, db = [a[0].shape[0]] + [op.shape[1] for op in a], [b[0].shape[0]] + [op.shape[1] for op in b]

    def sectors(k):
        return [(i, k - i) for i in range(min(la, k), -1, -1) if 0 <= k - i <= lb]

    for k in range(1, la + lb + 1):
        rows, cols = sectors(k - 1), sectors(k)
        grid = []
        for ri, rj in rows:
            line = []
            for ci, cj in cols:
                if (ri, rj) == (ci - 1, cj):
                    line.append(assemble(block_kron_eye(a[ci - 1], db[cj], False)))
                elif (ri, rj) == (ci, cj - 1):
                    block = assemble(block_kron_eye(b[cj - 1], da[ci], True))
                    line.append(f.neg(block) if ci % 2 else block)
                else:
                    line.append(np.zeros((da[ri] * db[rj] * dim, da[ci] * db[cj] * dim), dtype=int))
            grid.append(line)
        yield rows, cols, grid


def units(tier, seed):
    scale, parts = (1, 1) if tier == "quick" else (6, 4)
    out = []
    for part in range(parts):
        for q, c in ((2, 40), (3, 30), (4, 25), (5, 20), (9, 15)):
            out.append((f"fields-{q}-{part}", fields, (q, 2 * c * scale, 4)))
            out.append((f"products-{q}-{part}", products, (q, c * scale, 3)))
            out.append((f"triple-{q}-{part}", triple, (q, c * scale // 3)))
            out.append((f"rings-{q}-{part}", rings, (q, c * scale // 2, False)))
        for q in (2, 3):
            out.append((f"nonabelian-{q}-{part}", rings, (q, 16 * scale, True)))
    return out
