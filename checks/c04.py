import itertools

import numpy as np

from vlib import classinv, mats
from vlib.gf import GF

PROPERTY = "C04"
ROUNDS = {"quick": 2}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: reference linear algebra over GF(q) as an online oracle of ClassicalCode objects"
RULE = ("one case per parity check matrix (13 structural kinds: dense, sparse, rank-deficient, zero rows/columns, empty, repeated rows, ...) "
        "over GF(q), q in {2,3,4,5,7,8,9,11,16,...}; non-trivial when the matrix has 0 < rank < length")
REQUIRED = {"generator": 150, "dual": 150, "double-dual": 150, "contains": 1500, "words-once": 80, "canonical": 150,
            "set-generator-accept": 100, "set-generator-reject": 100, "from-generator": 150, "random-word": 150, "copy": 100, "audit": 5000}

FIELDS = [2, 3, 4, 5, 7, 8, 9, 11, 16, 25, 27]


def words_of(code, skip=False):
    return [tuple(int(x) for x in w) for w in code.iter_words(*([True] if skip else []))]


def one(ctx, q, kind=None, max_n=8):
    import galois

    from qldpc import codes

    f = GF(q)
    rng = ctx.rng
    kind, mat = mats.random_matrix(rng, q, kind, max_n=max_n)
    if rng.random() < 0.04:
        mat = mat[:0]
        kind = "no checks"
    how, given = mats.as_input(rng, mat, q)
    if not len(mat):
        how, given = "array", mat
    m, n = mat.shape
    rank = f.rank(mat) if m else 0
    ctx.case("matrix", 0 < rank < n, kind=kind, how=how, q=q, matrix=mat)
    if how == "field array":
        code = codes.ClassicalCode(given) if rng.random() < 0.5 else codes.ClassicalCode(given, q)
    elif q == 2 and rng.random() < 0.5:
        code = codes.ClassicalCode(given)
    else:
        code = codes.ClassicalCode(given, q)

    basis = f.null_space(mat) if m else np.eye(n, dtype=int)
    k = n - rank
    order = rng.permutation(4)  # queries in a random order: cached properties must not interfere
    for step in order:
        if step == 0:
            ctx.check(code.field is galois.GF(q) and code.field.order == q, "field", "wrong field", got=str(code.field))
            ctx.check(np.array_equal(mats.to_int(code.matrix), mat), "matrix", "check matrix differs from the given one")
            ctx.check((len(code), code.num_bits, code.num_checks) == (n, n, m), "sizes", "wrong length or number of checks")
            if m:
                ctx.check(int(code.get_weight()) == np.count_nonzero(mat, axis=1).max(), "weight", "wrong check weight")
        elif step == 1:
            ctx.check(code.rank == rank, "rank", f"rank {code.rank}, true {rank}")
        elif step == 2:
            ctx.check(code.dimension == k, "dimension", f"dimension {code.dimension}, true {k}")
        else:
            gen = mats.to_int(code.generator)
            good = gen.shape == (k, n) and f.independent(gen) and f.same_span(gen.reshape(-1, n), basis)
            ctx.check(good, "generator", "the generator is not a basis of the null space", generator=gen)
            ctx.check(type(code.generator) is galois.GF(q), "generator-field", "generator over the wrong field")
    ctx.check(code.rank + code.dimension == len(code), "rank-nullity", "rank + dimension != length")

    # dual and double dual
    dual = code.dual() if rng.random() < 0.5 else ~code
    ctx.check(dual.dimension == rank and len(dual) == n and dual.field is code.field
              and f.same_span(mats.to_int(dual.generator).reshape(-1, n), mat), "dual",
              "the dual is not the orthogonal complement", dual=dual.generator)
    back = ~dual
    ctx.check(back.dimension == k and f.same_span(mats.to_int(back.generator).reshape(-1, n), basis)
              and f.same_span(mats.to_int(back.matrix).reshape(-1, n), mat)
              and codes.ClassicalCode.equiv(back, code), "double-dual", "the dual of the dual is another code")
    classinv.audit(ctx, code.dual(), q, f.rref(mat)[0] if m else mat.reshape(0, n), "dual code")
    classinv.audit(ctx, ~~code, q, basis, "dual of the dual")

    # membership, of single words and of lists of words
    member = f.matmul(f.random(rng, (6, k)), basis) if k else np.zeros((6, n), dtype=int)
    others = f.random(rng, (6, n))
    near = member.copy()
    near[np.arange(6), rng.integers(0, n, 6)] = rng.integers(0, q, 6)
    for vec in np.vstack([member, others, near]):
        truth = not np.any(f.matmul(mat, vec)) if m else True
        word = [list(map(int, vec)), vec, code.field(vec)][rng.integers(3)]
        ctx.check((word in code) == truth, "contains", f"membership is {not truth}, should be {truth}", word=vec)
    ctx.check(member in code and member.tolist() in code, "contains-many", "a list of code words is not contained")
    mixed = np.vstack([member[:2], near[:2], others[:1]])
    ctx.check((mixed in code) == (not m or not np.any(f.matmul(mat, mixed.T))), "contains-mixed", "list membership wrong")

    # iteration
    if q**k <= (4096 if ctx.thorough else 1024):
        expected = {tuple(w) for w in f.words(basis).tolist()} if k else {(0,) * n}
        seen = words_of(code)
        ctx.check(len(seen) == len(expected) and set(seen) == expected, "words-once", "iteration is not over every code word once",
                  got=len(seen), want=len(expected))
        seen = words_of(code, True)
        ctx.check(len(seen) == len(expected) - 1 and set(seen) == expected - {(0,) * n}, "words-nonzero",
                  "skip_zero does not skip exactly the zero word")
    for _ in range(3):
        word = mats.to_int(code.get_random_word(seed=int(rng.integers(2**31)) if rng.random() < 0.5 else None))
        ctx.check(word.shape == (n,) and (not m or not np.any(f.matmul(mat, word))), "random-word", "random word is not a code word")
    if k and q**k >= 4:
        some = {tuple(mats.to_int(code.get_random_word())) for _ in range(40)}
        ctx.check(len(some) > 1, "random-word-varies", "random words never vary")

    # canonicalization, copies, equality
    canon = code.canonicalized
    ref = f.rref(mat)[0] if m else mat
    ctx.check(np.array_equal(mats.to_int(canon.matrix).reshape(-1, n), ref), "canonical", "canonicalized matrix is not the RREF",
              got=canon.matrix, want=ref)
    ctx.check(canon.field is code.field and canon.dimension == k, "canonical-code", "canonicalization changed the code")
    ctx.check(np.array_equal(mats.to_int(code.matrix), mat), "matrix-kept", "queries changed the check matrix")
    copy = codes.ClassicalCode(code)
    ctx.check(copy == code and copy.field is code.field and copy.dimension == k
              and np.array_equal(mats.to_int(copy.generator), mats.to_int(code.generator)), "copy", "copy differs")
    classinv.audit(ctx, canon, q, basis, "canonicalized code")
    classinv.audit(ctx, copy, q, basis, "copied code")
    if m:
        mix = mats.random_invertible(rng, q, m)
        other = codes.ClassicalCode(f.matmul(mix, mat), q)
        ctx.check(codes.ClassicalCode.equiv(code, other), "equiv", "row operations changed the equivalence class")
        ctx.check((code == other) == np.array_equal(mat, f.matmul(mix, mat)), "equality", "equality is not equality of checks")
        tweak = mat.copy()
        i, j = rng.integers(m), rng.integers(n)
        tweak[i, j] = f.add(tweak[i, j], rng.integers(1, q))
        other = codes.ClassicalCode(tweak, q)
        ctx.check(code != other, "inequality", "codes with different checks are equal")
        ctx.check(codes.ClassicalCode.equiv(code, other) == f.same_span(mat, tweak), "inequivalence", "equiv is not equality of codes")
    q2 = 3 if q != 3 else 2
    if mat.max(initial=0) < 2:
        other = codes.ClassicalCode(mat, q2)
        ctx.check(code != other and not codes.ClassicalCode.equiv(code, other), "fields-differ", "codes over different fields are equal")
    ctx.raises(ValueError, "field-mismatch", codes.ClassicalCode, code, q2, msg="copy over another field")
    ctx.raises(ValueError, "field-mismatch", codes.ClassicalCode, code.field(mat), q2, msg="field array with another field")

    # from_generator: independent, redundant, zero rows
    gen = f.matmul(f.random(rng, (int(rng.integers(1, k + 3)), k)), basis) if k else np.zeros((1, n), dtype=int)
    gen = np.vstack([gen, basis]) if rng.random() < 0.5 else gen
    rebuilt = codes.ClassicalCode.from_generator(gen.tolist() if rng.random() < 0.5 else code.field(gen), q)
    ctx.check(f.same_span(mats.to_int(rebuilt.generator).reshape(-1, n), gen) and rebuilt.dimension == f.rank(gen)
              and rebuilt.field is code.field and gen in rebuilt, "from-generator", "from_generator does not span its generator",
              generator=gen)
    classinv.audit(ctx, rebuilt, q, f.rref(gen)[0], "code from a generator")

    # set_generator
    target = codes.ClassicalCode(mat, q)
    if rng.random() < 0.5:
        target.generator  # already computed
    if k:
        mix = mats.random_invertible(rng, q, k)
        gen = f.matmul(mix, basis)
        redundant = rng.random() < 0.4
        if redundant:
            gen = np.vstack([gen, f.matmul(f.random(rng, (2, k)), basis)])[rng.permutation(k + 2)]
        before = gen.copy()
        with ctx.guard("set-generator-accept", generator=gen):
            target.set_generator(gen.tolist() if rng.random() < 0.5 else gen)
            got = mats.to_int(target.generator)
            ctx.check(f.same_span(got, basis) and len(got) == k, "set-generator", "the generator in use is not a basis of the code")
            if not redundant:
                ctx.check(np.array_equal(got, before), "set-generator-kept", "the generator in use is not the one provided")
            ctx.check(np.array_equal(gen, before), "input-kept", "the provided generator was modified")
            classinv.audit(ctx, target, q, basis, "code with a given generator")
            classinv.audit(ctx, codes.ClassicalCode(target), q, basis, "copy of a code with a given generator")
            if q**k <= 512:
                seen = words_of(target)
                ctx.check(len(set(seen)) == len(seen) == q**k, "words-once", "iteration after set_generator repeats or misses words")
            ctx.check(f.same_span(mats.to_int((~target).generator), mat) if rank else True, "dual-after-set", "dual after set_generator")
        kept = mats.to_int(target.generator)
        # too small
        bad = basis[:-1] if k > 1 else np.zeros((1, n), dtype=int)
        if len(bad):
            bad = np.vstack([bad, bad[:1]]) if rng.random() < 0.5 else bad
            ctx.raises(ValueError, "set-generator-reject", target.set_generator, bad, msg="generator of a proper subcode")
        ctx.check(np.array_equal(mats.to_int(target.generator), kept), "reject-keeps", "a rejected generator was kept")
    # not words
    if rank:
        bad = np.vstack([basis, basis[:1]]) if k else np.zeros((1, n), dtype=int)
        while True:
            vec = f.random(rng, (n,))
            if np.any(f.matmul(mat, vec)):
                break
        bad = np.vstack([basis[: k - 1] if k else basis, f.add(basis[-1], vec) if k else vec])
        ctx.raises(ValueError, "set-generator-reject", target.set_generator, bad, msg="generator with words outside the code")
        if k:
            ctx.check(np.array_equal(mats.to_int(target.generator), kept), "reject-keeps", "a rejected generator was kept")


def batch(ctx, q, count, max_n):
    for ii in range(count):
        one(ctx, q, mats.KINDS[ii % len(mats.KINDS)], max_n)


def randoms(ctx, q, count):
    """ClassicalCode.random: no trivial checks or unchecked bits, any size, reproducible."""
    from qldpc import codes

    f = GF(q)
    for _ in range(count):
        bits, checks = int(ctx.rng.integers(1, 9)), int(ctx.rng.integers(1, 7))
        seed = int(ctx.rng.integers(2**31))
        ctx.case("random", True, q=q, bits=bits, checks=checks, seed=seed)
        code = codes.ClassicalCode.random(bits, checks, q, seed=seed)
        mat = mats.to_int(code.matrix)
        ctx.check(mat.shape == (checks, bits) and code.field.order == q, "random-shape", "random code of the wrong shape")
        ctx.check(np.all(mat.any(axis=0)) and np.all(mat.any(axis=1)), "random-nontrivial", "trivial check or unchecked bit", matrix=mat)
        ctx.check(code == codes.ClassicalCode.random(bits, checks, q, seed=seed), "random-seed", "same seed, different code")
        ctx.check(code.dimension == bits - f.rank(mat), "random-dimension", "wrong dimension")
    # words are hit uniformly enough that a restricted sampler is noticed
    code = codes.ClassicalCode.from_generator([[1, 0, 1, 1, 0], [0, 1, 0, 1, 1]], q)
    seen = {tuple(mats.to_int(code.get_random_word(seed=s))) for s in range(40 * q * q)}
    ctx.check(len(seen) == q * q, "random-words-cover", f"random words only cover {len(seen)} of {q * q} words")


def large(ctx, q):
    """Longer codes: rank, generator and dual only."""
    from qldpc import codes

    f = GF(q)
    for _ in range(4 if not ctx.thorough else 12):
        m, n = int(ctx.rng.integers(10, 60)), int(ctx.rng.integers(40, 120))
        mat = f.random(ctx.rng, (m, n)) * (ctx.rng.random((m, n)) < ctx.rng.choice([0.05, 0.2, 0.9]))
        mat = np.vstack([mat, f.matmul(f.random(ctx.rng, (5, m)), mat)])
        ctx.case("large", True, q=q, shape=list(mat.shape))
        code = codes.ClassicalCode(mat, q)
        rank = f.rank(mat)
        gen = mats.to_int(code.generator)
        ctx.check(code.rank == rank and code.dimension == n - rank, "rank", "wrong rank or dimension")
        ctx.check(gen.shape == (n - rank, n) and f.rank(gen) == n - rank and not f.matmul(mat, gen.T).any(), "generator", "wrong generator")
        ctx.check(f.same_span(mats.to_int((~code).generator), mat), "dual", "wrong dual")
        ctx.check(gen in code, "contains-many", "generator words are not contained")
        # one word outside the code, anywhere in a long list of words
        many = f.matmul(f.random(ctx.rng, (int(ctx.rng.integers(20, 300)), n - rank)), gen)
        ctx.check(many in code, "contains-many", "a long list of code words is not contained")
        for where in (0, len(many) - 1, int(ctx.rng.integers(len(many)))):
            spoiled = many.copy()
            spoiled[where] = f.add(spoiled[where], f.random(ctx.rng, (n,)) * (np.arange(n) == ctx.rng.integers(n)))
            ctx.check((spoiled in code) == (not f.matmul(mat, spoiled[where]).any()), "contains-mixed", f"membership of a list with a word outside at {where}")
        word = f.random(ctx.rng, (n,)) if ctx.rng.random() < 0.5 else many[0]
        ctx.check((word.tolist() in code) == (not f.matmul(mat, word).any()), "contains", "membership of a long word")
        # user-supplied generators
        if n > rank:
            mixed = f.matmul(mats.random_invertible(ctx.rng, q, n - rank), gen)
            given = np.vstack([mixed, f.matmul(f.random(ctx.rng, (3, n - rank)), mixed)])[ctx.rng.permutation(n - rank + 3)]
            code.set_generator(given)
            got = mats.to_int(code.generator)
            ctx.check(got.shape == gen.shape and f.same_span(got, gen), "set-generator", "the generator in use is not a basis of the code")
            if n - rank > 1:
                ctx.raises(ValueError, "set-generator-reject", code.set_generator, np.vstack([mixed[1:], mixed[1:2]]), msg="too small a generator")
            words = np.array([mats.to_int(code.get_random_word(seed=s)) for s in range(n + 10)])
            ctx.check(not f.matmul(mat, words.T).any() and (rank < 5 or f.rank(words) >= n - rank - 3), "random-words-cover",
                      "random words are not spread over the code")


def exhaustive(ctx, m, n):
    """Every binary matrix of a tiny shape."""
    from qldpc import codes

    f = GF(2)
    for bits in itertools.product([0, 1], repeat=m * n):
        mat = np.array(bits).reshape(m, n)
        ctx.case("tiny", bool(mat.any()), matrix=mat)
        code = codes.ClassicalCode(mat)
        words = [w for w in itertools.product([0, 1], repeat=n) if not (mat @ np.array(w) % 2).any()]
        seen = words_of(code)
        ctx.check(sorted(seen) == sorted(words), "words-once", "wrong set of words")
        ctx.check(2**code.dimension == len(words), "dimension", "wrong dimension")
        ctx.check(2 ** (~code).dimension * len(words) == 2**n, "dual", "wrong dual dimension")
        ctx.check(all((w in code) == (w in set(words)) for w in itertools.product([0, 1], repeat=n)), "contains", "membership")
        ctx.check(np.array_equal(mats.to_int(code.canonicalized.matrix).reshape(-1, n), f.rref(mat)[0]), "canonical", "RREF")


def units(tier, seed):
    big = tier == "thorough"
    out = []
    for q in FIELDS:
        count = {2: 52, 3: 39, 4: 39}.get(q, 13) * (12 if big else 1)
        parts = 4 if big else 1
        for p in range(parts):
            out.append((f"batch-{q}-{p}", batch, (q, count // parts, 8 if q < 10 else 6)))
        if q <= 9:
            out.append((f"random-{q}", randoms, (q, 30 if big else 8)))
        if q <= 5:
            out.append((f"large-{q}", large, (q,)))
    for m, n in [(1, 3), (2, 3), (3, 3), (2, 4)] + ([(3, 4), (4, 3)] if big else []):
        out.append((f"tiny-{m}x{n}", exhaustive, (m, n)))
    return out
