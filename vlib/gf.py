"""Reference linear algebra over finite fields, independent of galois' arithmetic.

Field elements are integers 0..q-1 in galois' convention: for q = p**m, the base-p digits of an integer
are the coefficients of a polynomial modulo the field's irreducible polynomial.
"""

from __future__ import annotations

import functools
import itertools

import numpy as np


def _factor(q: int) -> tuple[int, int]:
    for p in range(2, q + 1):
        if q % p == 0:
            m = 0
            while q > 1:
                assert q % p == 0
                q //= p
                m += 1
            return p, m
    raise ValueError(q)


class Field:
    def __init__(self, q: int) -> None:
        self.q = q
        self.p, self.m = _factor(q)
        if self.m == 1:
            r = np.arange(q)
            self.add_t = (r[:, None] + r[None, :]) % q
            self.mul_t = (r[:, None] * r[None, :]) % q
        else:
            import galois

            coeffs = [int(c) for c in galois.GF(q).irreducible_poly.coeffs][::-1]  # low to high
            p, m = self.p, self.m

            def digits(x):
                return [(x // p**i) % p for i in range(m)]

            def num(ds):
                return sum(d * p**i for i, d in enumerate(ds))

            ds = [digits(x) for x in range(q)]
            self.add_t = np.array([[num([(a + b) % p for a, b in zip(x, y)]) for y in ds] for x in ds])
            mul = np.zeros((q, q), dtype=int)
            for x in range(q):
                for y in range(x, q):
                    prod = [0] * (2 * m - 1)
                    for i, a in enumerate(ds[x]):
                        for j, b in enumerate(ds[y]):
                            prod[i + j] = (prod[i + j] + a * b) % p
                    for i in range(2 * m - 2, m - 1, -1):
                        c = prod[i]
                        if c:
                            for j in range(m + 1):
                                prod[i - m + j] = (prod[i - m + j] - c * coeffs[j]) % p
                    mul[x, y] = mul[y, x] = num(prod[:m])
            self.mul_t = mul
        self.neg_t = np.array([int(np.nonzero(self.add_t[x] == 0)[0][0]) for x in range(q)])
        self.inv_t = np.array([0] + [int(np.nonzero(self.mul_t[x] == 1)[0][0]) for x in range(1, q)])

    # ---- elementwise
    def add(self, a, b):
        return self.add_t[a, b]

    def sub(self, a, b):
        return self.add_t[a, self.neg_t[b]]

    def mul(self, a, b):
        return self.mul_t[a, b]

    def neg(self, a):
        return self.neg_t[a]

    def conj(self, a):
        """Entrywise conjugation is not used by qLDPC: the symplectic form is bilinear."""
        return a

    def arr(self, x):
        return np.array(np.asarray(x).view(np.ndarray), dtype=int)

    # ---- linear algebra
    def matmul(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if self.m == 1:
            return (a @ b) % self.q
        va, vb = a.ndim == 1, b.ndim == 1
        a2 = a[None, :] if va else a
        b2 = b[:, None] if vb else b
        out = np.zeros((a2.shape[0], b2.shape[1]), dtype=int)
        for k in range(a2.shape[1]):
            out = self.add_t[out, self.mul_t[a2[:, k][:, None], b2[k][None, :]]]
        if va and vb:
            return out[0, 0]
        return out[0] if va else (out[:, 0] if vb else out)

    def rref(self, mat):
        """(reduced row echelon form without zero rows, pivot columns)."""
        m = self.arr(mat).copy()
        if m.ndim != 2:
            raise ValueError("2-D expected")
        rows, cols = m.shape
        piv = []
        r = 0
        for c in range(cols):
            if r == rows:
                break
            nz = np.nonzero(m[r:, c])[0]
            if not len(nz):
                continue
            p = r + nz[0]
            if p != r:
                m[[r, p]] = m[[p, r]]
            lead = m[r, c]
            if lead != 1:
                m[r] = self.mul_t[self.inv_t[lead], m[r]]
            others = np.nonzero(m[:, c])[0]
            others = others[others != r]
            if len(others):
                if self.q == 2:
                    m[others] ^= m[r]
                else:
                    fac = self.neg_t[m[others, c]]
                    m[others] = self.add_t[m[others], self.mul_t[fac[:, None], m[r][None, :]]]
            piv.append(c)
            r += 1
        return m[:r], piv

    def rank(self, mat):
        return len(self.rref(mat)[1])

    def null_space(self, mat):
        """Rows spanning {v : mat @ v = 0}."""
        m = self.arr(mat)
        n = m.shape[1]
        red, piv = self.rref(m) if m.shape[0] else (np.zeros((0, n), int), [])
        free = [c for c in range(n) if c not in set(piv)]
        out = np.zeros((len(free), n), dtype=int)
        for i, f in enumerate(free):
            out[i, f] = 1
            for r, c in enumerate(piv):
                out[i, c] = self.neg_t[red[r, f]]
        return out

    def same_span(self, a, b):
        a, b = self.arr(a), self.arr(b)
        if a.shape[1] != b.shape[1]:
            return False
        return np.array_equal(self.rref(a)[0], self.rref(b)[0])

    def in_span(self, vecs, basis):
        basis = self.arr(basis)
        vecs = np.atleast_2d(self.arr(vecs))
        r = self.rank(basis) if len(basis) else 0
        return self.rank(np.vstack([basis.reshape(-1, vecs.shape[1]), vecs])) == r

    def independent(self, mat):
        m = self.arr(mat)
        return m.shape[0] == 0 or self.rank(m) == m.shape[0]

    def inverse(self, mat):
        m = self.arr(mat)
        n = len(m)
        red, piv = self.rref(np.hstack([m, np.eye(n, dtype=int)]))
        if piv[:n] != list(range(n)):
            return None
        return red[:, n:]

    def words(self, gen, limit=200_000):
        """All vectors of the row span (including zero)."""
        gen = self.rref(gen)[0]
        k, n = gen.shape
        assert self.q**k <= limit, "oracle limit"
        words = np.zeros((1, n), dtype=int)
        for row in gen:
            words = np.vstack([self.add_t[words, self.mul_t[c, row][None, :]] for c in range(self.q)])
        return words

    # ---- symplectic
    def sform(self, a, b):
        """Matrix of symplectic products <a_i, b_j> = x_i . z_j - z_i . x_j."""
        a, b = np.atleast_2d(self.arr(a)), np.atleast_2d(self.arr(b))
        n = a.shape[1] // 2
        left = self.matmul(a[:, :n], b[:, n:].T)
        right = self.matmul(a[:, n:], b[:, :n].T)
        return self.sub(left, right)

    def sdual(self, mat):
        """Rows spanning the symplectic complement of the row span."""
        m = np.atleast_2d(self.arr(mat))
        n = m.shape[1] // 2
        flipped = np.hstack([self.neg_t[m[:, n:]], m[:, :n]])  # <row, v> = x.v_z - z.v_x
        # <row, v> = (-z).v_x + x.v_z
        return self.null_space(flipped)

    def random(self, rng, shape):
        return rng.integers(0, self.q, size=shape)

    def random_full_rank(self, rng, k, n):
        while True:
            m = self.random(rng, (k, n))
            if self.rank(m) == k:
                return m


@functools.cache
def GF(q: int) -> Field:
    return Field(q)


def min_weight(words: np.ndarray) -> int | None:
    """Smallest nonzero Hamming weight among rows."""
    w = np.count_nonzero(words, axis=1)
    w = w[w > 0]
    return int(w.min()) if len(w) else None


def symplectic_weights(words: np.ndarray) -> np.ndarray:
    n = words.shape[1] // 2
    return np.count_nonzero((words[:, :n] != 0) | (words[:, n:] != 0), axis=1)


def coset_min_weight(f: Field, logical, stab, weight="hamming", limit=400_000) -> int | None:
    """min weight over span(stab + logical) minus span(stab); the oracle for distances."""
    stab = f.rref(stab)[0] if len(stab) else f.arr(stab).reshape(0, f.arr(logical).shape[1])
    full = f.rref(np.vstack([stab, f.arr(logical)]))[0]
    # complete the stabilizer basis to a basis of the full space
    extra = []
    cur = stab
    for row in f.arr(logical):
        if not f.in_span(row, cur):
            extra.append(row)
            cur = np.vstack([cur, row[None, :]])
    assert len(cur) == len(full)
    if not extra:
        return None
    assert f.q ** len(full) <= limit, "oracle limit"
    s_words = f.words(stab, limit) if len(stab) else np.zeros((1, full.shape[1]), dtype=int)
    best = None
    for coeffs in itertools.product(range(f.q), repeat=len(extra)):
        if not any(coeffs):
            continue
        # scaling does not change weights: normalise the first nonzero coefficient
        if next(c for c in coeffs if c) != 1:
            continue
        vec = np.zeros(full.shape[1], dtype=int)
        for c, row in zip(coeffs, extra):
            vec = f.add(vec, f.mul(c, row))
        words = f.add(s_words, vec[None, :])
        w = symplectic_weights(words) if weight == "symplectic" else np.count_nonzero(words, axis=1)
        w = int(w.min())
        best = w if best is None else min(best, w)
    return best
