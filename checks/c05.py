import itertools

import numpy as np

from vlib import classinv, mats
from vlib.gf import GF

PROPERTY = "C05"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: transformed codes compared with word sets enumerated by a reference model"
RULE = ("one case per (transformation, codes, bits): codes given by 13 structural kinds of check matrices or by generators over GF(q); "
        "bit selections of every size, order and multiplicity; non-trivial when 0 < dimension < length")
REQUIRED = {"shorten": 150, "puncture": 150, "stack": 60, "tensor": 60, "large-puncture": 100, "large-stack": 30, "large-tensor": 60, "shorten-repeated-steps": 40, "puncture-shorten-dual": 40}
FIELDS = [2, 3, 4, 5, 7, 8, 9]


def gen_of(f, mat):
    return f.null_space(mat) if len(mat) else np.eye(mat.shape[1], dtype=int)


def shortened(f, gen, bits):
    """Basis of {words vanishing on bits} with those bits deleted (reference)."""
    n = gen.shape[1]
    keep = [b for b in range(n) if b not in bits]
    if not len(gen):
        return np.zeros((0, len(keep)), dtype=int)
    coeffs = f.null_space(gen[:, sorted(set(bits))].T)
    return f.matmul(coeffs, gen)[:, keep].reshape(-1, len(keep))


def same(f, code, basis, n):
    got = mats.to_int(code.generator)
    return len(code) == n and got.shape[1] == n and f.same_span(got, basis.reshape(-1, n)) and code.dimension == f.rank(basis.reshape(-1, n))


def make(ctx, q, max_n):
    from qldpc import codes

    f = GF(q)
    rng = ctx.rng
    kind, mat = mats.random_matrix(rng, q, None, max_n=max_n, min_n=1)
    how = rng.integers(3)
    if how == 0:
        code = codes.ClassicalCode.from_generator(mat, q)
        gen = f.rref(mat)[0]
        kind = "generator " + kind
    else:
        code = codes.ClassicalCode(mat, q)
        gen = gen_of(f, mat)
    if how == 2 and len(gen):
        new = f.matmul(mats.random_invertible(rng, q, len(gen)), gen)
        code.set_generator(new)
        kind += " set generator"
    classinv.warm(rng, code)
    return kind, mat, code, gen


def batch(ctx, q, count, max_n):
    from qldpc import codes

    f = GF(q)
    rng = ctx.rng
    for _ in range(count):
        kind, mat, code, gen = make(ctx, q, max_n)
        n, k = len(code), len(gen)
        # ---- puncture / shorten
        for _ in range(3):
            size = int(rng.integers(0, n))  # keep at least one bit
            bits = [int(b) for b in rng.permutation(n)[:size]]
            if size and rng.random() < 0.25:
                bits = bits + [bits[int(rng.integers(size))]]
            keep = [b for b in range(n) if b not in bits]
            ctx.case("puncture/shorten", 0 < k < n and size > 0, q=q, kind=kind, matrix=mat, bits=bits)
            args = bits if rng.random() < 0.5 else [np.int64(b) for b in bits]
            with ctx.guard("puncture"):
                got = code.puncture(*args)
                ctx.check(same(f, got, gen[:, keep], len(keep)), "puncture-words", "wrong punctured code", got=got.generator, of=gen)
                ctx.check(got.field is code.field, "field", "puncturing changed the field")
                classinv.audit(ctx, got, q, f.rref(gen[:, keep])[0].reshape(-1, len(keep)), "punctured code")
            with ctx.guard("shorten"):
                got = code.shorten(*args)
                ctx.check(same(f, got, shortened(f, gen, bits), len(keep)), "shorten-words", "wrong shortened code",
                          got=got.generator, of=gen, want=shortened(f, gen, bits))
                ctx.check(got.field is code.field, "field", "shortening changed the field")
                classinv.audit(ctx, got, q, shortened(f, gen, bits), "shortened code")
                if q**k <= 256:  # by enumeration, independent of linear algebra
                    words = {tuple(w[keep]) for w in f.words(gen) if not w[sorted(set(bits))].any()} if k else {(0,) * len(keep)}
                    seen = {tuple(mats.to_int(w)) for w in got.iter_words()}
                    ctx.check(words == seen, "shorten-enumerated", "wrong words after shortening")
            # deleting one bit at a time is the same as deleting them at once
            if len(set(bits)) > 1 and len(set(bits)) == len(bits):
                for name in ("puncture", "shorten"):
                    step = code
                    for pos, bit in enumerate(bits):
                        step = getattr(step, name)(bit - sum(b < bit for b in bits[:pos]))
                    ctx.check(codes.ClassicalCode.equiv(step, getattr(code, name)(*bits)), f"{name}-repeated-steps",
                              "one bit at a time differs from all at once")
            ctx.check(codes.ClassicalCode.equiv(~code.puncture(*bits), (~code).shorten(*bits)), "puncture-shorten-dual",
                      "the dual of a punctured code is not the shortened dual")
        ctx.check(same(f, code, gen, n), "input-kept", "the input code changed")
        classinv.audit(ctx, code, q, gen, "input code")
        for bad in ((n,), (-1,), (0, n + 2)):
            ctx.raises(Exception, "bad-bits", code.puncture, *bad, msg="puncture a bit that does not exist")
            ctx.raises(Exception, "bad-bits", code.shorten, *bad, msg="shorten a bit that does not exist")

        # ---- stack
        parts = [(mat, code, gen)]
        for _ in range(int(rng.integers(0, 3))):
            _, m2, c2, g2 = make(ctx, q, 5)
            parts.append((m2, c2, g2))
        if rng.random() < 0.3:
            parts.append(parts[0])
        ctx.case("stack", len(parts) > 1, q=q, matrices=[p[0] for p in parts])
        got = codes.ClassicalCode.stack(*[p[1] for p in parts])
        total = sum(len(p[1]) for p in parts)
        want = np.zeros((sum(len(p[2]) for p in parts), total), dtype=int)
        r = c = 0
        for _, c2, g2 in parts:
            want[r : r + len(g2), c : c + len(c2)] = g2
            r, c = r + len(g2), c + len(c2)
        ctx.check(same(f, got, want, total) and got.field is code.field, "stack", "stacked code has the wrong words", got=got.generator, want=want)
        classinv.audit(ctx, got, q, want, "stacked code")
        if got.dimension and q ** got.dimension < 500:
            dists = [p[1].get_distance() for p in parts if p[1].dimension]
            ctx.check(got.get_distance() == min(dists), "stack-distance", "distance of the stacked code")

        # ---- tensor product
        _, ma, ca, ga = make(ctx, q, 5)
        _, mb, cb, gb = make(ctx, q, 4)
        na, nb = len(ca), len(cb)
        ctx.case("tensor", len(ga) > 0 and len(gb) > 0, q=q, a=ma, b=mb)
        with ctx.guard("tensor"):
            got = codes.ClassicalCode.tensor_product(ca, cb)
            ctx.check(len(got) == na * nb and got.dimension == len(ga) * len(gb) and got.field is ca.field, "tensor-size", "wrong size")
            # matrices whose rows are words of b and columns words of a: solve the linear constraints
            rows = []
            ha, hb = f.null_space(ga) if len(ga) else np.eye(na, dtype=int), f.null_space(gb) if len(gb) else np.eye(nb, dtype=int)
            for h in ha:  # for every column j
                for j in range(nb):
                    v = np.zeros((na, nb), dtype=int)
                    v[:, j] = h
                    rows.append(v.ravel())
            for h in hb:
                for i in range(na):
                    v = np.zeros((na, nb), dtype=int)
                    v[i, :] = h
                    rows.append(v.ravel())
            want = f.null_space(np.array(rows).reshape(-1, na * nb)) if rows else np.eye(na * nb, dtype=int)
            ctx.check(same(f, got, want, na * nb), "tensor-words", "wrong words in the tensor product", got=got.generator)
            classinv.audit(ctx, got, q, want, "tensor product code")
            word = mats.to_int(got.get_random_word()).reshape(na, nb)
            ctx.check(all(row in cb for row in word) and all(col in ca for col in word.T), "tensor-rows-columns",
                      "a word's rows or columns are not words of the factors")
            ctx.check(same(f, ca, ga, na) and same(f, cb, gb, nb), "input-kept", "the input codes changed")
            if ca.dimension and cb.dimension and q ** got.dimension < 500:
                ctx.check(got.get_distance() == ca.get_distance() * cb.get_distance(), "tensor-distance", "distance of the product")


def large(ctx, q, count):
    """Longer codes, more bits and more factors: verified by linear algebra alone."""
    from qldpc import codes

    f = GF(q)
    rng = ctx.rng

    def any_code(max_n, min_n=2):
        _, mat = mats.random_matrix(rng, q, max_n=max_n, min_n=min_n, max_m=max_n)
        return codes.ClassicalCode(mat, q), gen_of(f, mat)

    for _ in range(count):
        code, gen = any_code(40, 15)
        n = len(code)
        ctx.case("large", 0 < len(gen) < n, q=q, matrix=mats.to_int(code.matrix))
        for _ in range(3):
            bits = [int(b) for b in rng.permutation(n)[: rng.integers(1, n)]]
            keep = [b for b in range(n) if b not in bits]
            ctx.check(same(f, code.puncture(*bits), gen[:, keep], len(keep)), "large-puncture", f"wrong code after puncturing {len(bits)} of {n} bits", bits=bits)
            ctx.check(same(f, code.shorten(*bits), shortened(f, gen, bits), len(keep)), "large-shorten",
                      f"wrong code after shortening {len(bits)} of {n} bits", bits=bits)
        parts = [any_code(12) for _ in range(int(rng.integers(3, 8)))]
        total = codes.ClassicalCode.stack(*[p[0] for p in parts])
        want = np.zeros((sum(len(p[1]) for p in parts), sum(len(p[0]) for p in parts)), dtype=int)
        r = c = 0
        for part, basis in parts:
            want[r : r + len(basis), c : c + len(part)] = basis
            r, c = r + len(basis), c + len(part)
        ctx.check(same(f, total, want, want.shape[1]), "large-stack", f"stack of {len(parts)} codes")
        (a, ga), (b, gb) = any_code(12, 5), any_code(9)
        if rng.random() < 0.4:
            b, gb = a, ga
        got = codes.ClassicalCode.tensor_product(a, b)
        # products of words, one of each code: they span the tensor product
        want = np.array([f.mul(x[:, None], y[None, :]).ravel() for x in ga for y in gb], dtype=int).reshape(-1, len(a) * len(b))
        gen = mats.to_int(got.generator).reshape(-1, len(a) * len(b))
        ctx.check(len(got) == len(a) * len(b) and got.dimension == len(ga) * len(gb) == f.rank(gen) and f.same_span(gen, want), "large-tensor",
                  f"tensor product of codes with parameters {ga.shape}, {gb.shape}")
        ctx.check(not len(want) or not f.matmul(mats.to_int(got.matrix), want.T).any(), "large-tensor", "products of words violate the checks")


def mixed(ctx):
    from qldpc import codes

    for qa, qb in itertools.permutations([2, 3, 4], 2):
        a, b = codes.RepetitionCode(3, qa), codes.HammingCode(2, qb)
        ctx.case("mixed fields", True, qa=qa, qb=qb)
        ctx.raises(ValueError, "mixed-fields", codes.ClassicalCode.stack, a, b, msg="stack over different fields")
        ctx.raises(ValueError, "mixed-fields", codes.ClassicalCode.tensor_product, a, b, msg="product over different fields")
    # named codes
    f = GF(2)
    for code in (codes.HammingCode(3), codes.ReedMullerCode(1, 3), codes.ExtendedHammingCode(3), codes.RingCode(5), codes.SimplexCode(3)):
        gen = mats.to_int(code.generator)
        n = len(code)
        for bits in itertools.chain(itertools.combinations(range(n), 1), itertools.combinations(range(n), 2), itertools.combinations(range(n), 3)):
            ctx.case("named", True, code=code.name, bits=bits)
            keep = [b for b in range(n) if b not in bits]
            ctx.check(same(f, code.puncture(*bits), gen[:, keep], len(keep)), "puncture", "punctured named code")
            ctx.check(same(f, code.shorten(*bits), shortened(f, gen, bits), len(keep)), "shorten", "shortened named code")


def units(tier, seed):
    big = tier == "thorough"
    out = [("mixed", mixed, ())]
    for q in FIELDS:
        count = {2: 36, 3: 24, 4: 18}.get(q, 8)
        for p in range(8 if big else (2 if q <= 4 else 1)):
            out.append((f"batch-{q}-{p}", batch, (q, (count if big else count // (2 if q <= 4 else 1)), 8)))
        for p in range(5 if big else 1):
            out.append((f"large-{q}-{p}", large, (q, 8)))
    return out
