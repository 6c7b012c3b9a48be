"""Everything a ClassicalCode answers about itself, against a reference basis of its words."""

import warnings

import numpy as np

from vlib import mats
from vlib.gf import GF


def audit(ctx, code, q, basis, what, *, max_words=256, name="audit"):
    """`basis` (k x n): reference basis of the words of `code`.  Queries are made in a random order."""
    f, rng = GF(q), ctx.rng
    basis = np.asarray(basis, dtype=int)
    k, n = basis.shape
    checks_span = f.null_space(basis) if k else np.eye(n, dtype=int)

    def sizes():
        ctx.check(len(code) == code.num_bits == n and code.field.order == q, name, f"{what}: length {len(code)} or field, should be {n}, GF({q})")

    def dims():
        ctx.check(code.dimension == k and code.rank == n - k, name, f"{what}: dimension {code.dimension}, rank {code.rank}, should be {k}, {n - k}")

    def matrix():
        mat = mats.to_int(code.matrix)
        ctx.check(mat.ndim == 2 and mat.shape[1] == n and code.num_checks == len(mat) and f.same_span(mat, checks_span), name,
                  f"{what}: the checks do not span the orthogonal complement of the words", matrix=mat)

    def generator():
        gen = mats.to_int(code.generator)
        ctx.check(gen.shape == (k, n) and f.same_span(gen, basis), name, f"{what}: the generator is not a basis of the words", generator=gen)

    def words():
        if q**k > max_words:
            return
        want = {tuple(w) for w in f.words(basis).tolist()} if k else {(0,) * n}
        for skip in [False, True]:
            seen = [tuple(int(x) for x in w) for w in (code.iter_words(skip_zero=True) if skip else code.iter_words())]
            ctx.check(len(seen) == len(want) - skip and set(seen) == want - ({(0,) * n} if skip else set()), name,
                      f"{what}: iteration is not over every word once", got=len(seen), want=len(want) - skip)

    def contains():
        member = f.matmul(f.random(rng, (2, k)), basis) if k else np.zeros((2, n), dtype=int)
        for vec in np.vstack([member, f.random(rng, (2, n))]):
            truth = not np.any(f.matmul(checks_span, vec)) if len(checks_span) else True
            ctx.check((vec.tolist() in code) == truth, name, f"{what}: membership is {not truth}", word=vec)

    def random_word():
        word = mats.to_int(code.get_random_word())
        ctx.check(word.shape == (n,) and not np.any(f.matmul(checks_span, word)) if len(checks_span) else True, name,
                  f"{what}: a random word is not a word", word=word)

    def canonical():
        canon = code.canonicalized
        mat = mats.to_int(canon.matrix).reshape(-1, n)
        want = f.rref(checks_span)[0] if len(checks_span) else checks_span.reshape(0, n)
        ctx.check(np.array_equal(mat, want) and canon.dimension == k, name, f"{what}: wrong canonical form", got=mat, want=want)

    def dual():
        other = ~code
        ctx.check(other.dimension == n - k and f.same_span(mats.to_int(other.generator).reshape(-1, n), checks_span)
                  and len(other.generator) == n - k, name, f"{what}: wrong dual code")

    def distance():
        if q**k > max_words:
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if not k:
                ctx.check(np.isnan(code.get_distance()), name, f"{what}: distance {code.get_distance()} of a trivial code")
                return
            words = f.words(basis)
            true = min(int(np.count_nonzero(w)) for w in words if w.any())
            for got in [code.get_distance(), code.get_code_params()[2]]:
                ctx.check(got == true, name, f"{what}: distance {got}, should be {true}")
            vec = f.random(rng, (n,))
            true = min(int(np.count_nonzero(w)) for w in f.sub(words, vec[None, :]))
            got = code.get_distance(vector=vec.tolist())
            ctx.check(got == true, name, f"{what}: distance to a vector {got}, should be {true}", vector=vec)

    steps = [distance, sizes, dims, matrix, generator, words, contains, random_word, canonical, dual]
    for ii in rng.permutation(len(steps)):
        steps[ii]()


def warm(rng, code):
    """Compute a random selection of the cached properties of a code, so that whatever is carried over to derived codes shows."""
    if rng.random() < 0.4:
        return
    small = code.field.order ** code.dimension <= 512
    queries = [lambda: code.generator, lambda: code.dimension, lambda: code.rank, lambda: code.canonicalized.generator, lambda: code.graph,
               lambda: (code.get_distance() if small else None), lambda: (~code).generator]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for ii in rng.permutation(len(queries))[: rng.integers(1, len(queries) + 1)]:
            queries[ii]()
