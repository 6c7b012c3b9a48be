"""Generators of structured random matrices over GF(q): inputs for the code monitors."""

from __future__ import annotations

import numpy as np

from .gf import GF

KINDS = ["dense", "sparse", "lowrank", "zero-row", "zero-col", "dup-col", "zero", "full-square", "single-row",
         "repeated-row", "tall", "identity-block", "weight-one"]


def random_matrix(rng, q, kind=None, max_n=8, min_n=1, max_m=None):
    f = GF(q)
    kind = kind or KINDS[rng.integers(len(KINDS))]
    n = int(rng.integers(min_n, max_n + 1))
    m = int(rng.integers(1, (max_m or n) + 1))
    if kind == "dense":
        mat = f.random(rng, (m, n))
    elif kind == "sparse":
        mat = f.random(rng, (m, n)) * (rng.random((m, n)) < 0.35)
    elif kind == "lowrank":
        k = int(rng.integers(1, max(2, min(m, n))))
        mat = f.matmul(f.random(rng, (m, k)), f.random(rng, (k, n)))
    elif kind == "zero-row":
        mat = f.random(rng, (m + 1, n))
        mat[rng.integers(m + 1)] = 0
    elif kind == "zero-col":
        mat = f.random(rng, (m, n))
        mat[:, rng.integers(n)] = 0
        if rng.random() < 0.5:
            mat[:, -1] = 0
    elif kind == "dup-col":
        mat = f.random(rng, (m, n))
        mat[:, rng.integers(n)] = mat[:, rng.integers(n)]
    elif kind == "zero":
        mat = np.zeros((m, n), dtype=int)
    elif kind == "full-square":
        mat = f.random_full_rank(rng, n, n)
    elif kind == "single-row":
        mat = f.random(rng, (1, n))
    elif kind == "repeated-row":
        mat = f.random(rng, (m, n))
        mat = np.vstack([mat, mat[rng.integers(m)], f.mul(rng.integers(1, q), mat[rng.integers(m)])])
        mat = mat[rng.permutation(len(mat))]
    elif kind == "tall":
        mat = f.random(rng, (n + 2, n)) * (rng.random((n + 2, n)) < 0.5)
    elif kind == "identity-block":
        k = int(rng.integers(0, n + 1))
        mat = np.hstack([np.eye(n - k, dtype=int), f.random(rng, (n - k, k))])
        if not len(mat):
            mat = np.zeros((1, n), dtype=int)
        mat = mat[:, rng.permutation(n)]
    elif kind == "weight-one":
        mat = np.zeros((m, n), dtype=int)
        for row in mat:
            row[rng.integers(n)] = rng.integers(1, q)
    else:
        raise ValueError(kind)
    return kind, np.asarray(mat, dtype=int)


def random_invertible(rng, q, k):
    f = GF(q)
    return f.random_full_rank(rng, k, k) if k else np.zeros((0, 0), dtype=int)


def as_input(rng, mat, q):
    """The same matrix as a list, an integer array, or a field array."""
    import galois

    how = rng.integers(4)
    if how == 0:
        return "list", mat.tolist()
    if how == 1:
        return "array", np.array(mat, dtype=int)
    if how == 2:
        return "small-int array", np.array(mat, dtype=np.uint8 if rng.random() < 0.5 else np.int32)
    return "field array", galois.GF(q)(np.array(mat, dtype=int))


def to_int(arr):
    return np.array(np.asarray(arr).view(np.ndarray), dtype=int)
