"""Random qudit codes with their reference structure (independent of qLDPC's algorithms).

The gauge group of a code is the row span G of its check matrix in GF(q)^(2n).  Its stabilizer group is
S = G & G^perp, the bare logical operators are G^perp, and n = k + g + rank(S) with
k = n - (rank G + rank S) / 2 and g = (rank G - rank S) / 2, ^perp being the symplectic complement.
"""

from __future__ import annotations

import numpy as np

from . import mats
from .gf import GF, coset_min_weight


class Truth:
    """Reference structure of the code with a given check matrix over GF(q)."""

    def __init__(self, q, checks, n=None):
        f = self.f = GF(q)
        self.q = q
        checks = np.asarray(checks, dtype=int)
        self.n = n if n is not None else checks.shape[1] // 2
        checks = checks.reshape(-1, 2 * self.n)
        self.checks = checks
        self.gauge = f.rref(checks)[0] if len(checks) else checks
        self.bare = f.sdual(self.gauge) if len(self.gauge) else np.eye(2 * self.n, dtype=int)
        both = np.vstack([self.gauge, self.bare])
        self.stab = f.rref(f.sdual(both))[0]
        self.r, self.s = len(self.gauge), len(self.stab)
        assert (self.r - self.s) % 2 == 0
        self.k = self.n - (self.r + self.s) // 2
        self.g = (self.r - self.s) // 2
        self.subsystem = self.g > 0

    def distance(self, limit=400_000):
        """Minimum symplectic weight of a nontrivial dressed logical operator, None if k = 0."""
        return coset_min_weight(self.f, self.bare, self.gauge, "symplectic", limit) if self.k else None

    def logical_problems(self, ops, k=None):
        """What is wrong with a claimed logical basis (list of strings, empty when valid)."""
        f = self.f
        ops = np.asarray(ops, dtype=int)
        k = self.k if k is None else k
        if ops.shape != (2 * k, 2 * self.n):
            return [f"shape {ops.shape}, expected {(2 * k, 2 * self.n)}"]
        if not k:
            return []
        out = []
        if len(self.checks) and f.sform(self.checks, ops).any():
            out.append("a logical operator does not commute with a parity check")
        form = f.sform(ops, ops)
        want = np.zeros((2 * k, 2 * k), dtype=int)
        want[:k, k:] = np.eye(k, dtype=int)
        want[k:, :k] = f.neg(np.eye(k, dtype=int))
        if not np.array_equal(form, want):
            out.append("the logical operators are not a symplectic basis")
        return out


class CSSTruth:
    """Reference structure of a CSS code, by sector."""

    def __init__(self, q, mx, mz):
        f = self.f = GF(q)
        self.q, self.mx, self.mz = q, np.asarray(mx, dtype=int), np.asarray(mz, dtype=int)
        self.n = n = self.mx.shape[1]
        full = np.vstack([np.hstack([self.mx, np.zeros_like(self.mx)]), np.hstack([np.zeros_like(self.mz), self.mz])])
        self.full = Truth(q, full, n)
        self.gauge = {"x": f.rref(self.mx)[0], "z": f.rref(self.mz)[0]}

        def null(mat):
            return f.null_space(mat) if len(mat) else np.eye(n, dtype=int)

        self.bare = {"x": null(self.gauge["z"]), "z": null(self.gauge["x"])}
        self.stab = {
            "x": f.rref(null(np.vstack([self.gauge["z"], self.bare["z"]])))[0],
            "z": f.rref(null(np.vstack([self.gauge["x"], self.bare["x"]])))[0],
        }
        self.k, self.g, self.subsystem = self.full.k, self.full.g, self.full.subsystem

    def distance(self, sector, limit=400_000):
        return coset_min_weight(self.f, self.bare[sector], self.gauge[sector], "hamming", limit) if self.k else None


def random_symplectic(rng, q, n, count=None):
    """A product of random symplectic transvections, as a 2n x 2n matrix acting on row vectors."""
    f = GF(q)
    out = np.eye(2 * n, dtype=int)
    for _ in range(count or 4 * n):
        u = f.random(rng, (2 * n,)) * (rng.random(2 * n) < 0.6)
        c = int(rng.integers(1, q))
        prod = f.sform(out, u)[:, 0]  # <row, u>
        out = f.add(out, f.mul(c, f.mul(prod[:, None], u[None, :])))
    return out


def redundant(rng, q, basis, ncols, extra=None):
    """A check matrix with the same span: mixed rows, redundant rows and zero rows."""
    f = GF(q)
    r = len(basis)
    rows = f.matmul(mats.random_invertible(rng, q, r), basis) if r and rng.random() < 0.7 else basis.copy()
    extra = int(rng.integers(0, 3)) if extra is None else extra
    if extra:
        more = f.matmul(f.random(rng, (extra, r)), basis) if r else np.zeros((extra, ncols), dtype=int)
        if rng.random() < 0.3:
            more[-1] = 0
        rows = np.vstack([rows, more])
    if not len(rows):
        rows = np.zeros((1, ncols), dtype=int)
    return rows[rng.permutation(len(rows))]


KINDS = ["stabilizer", "stabilizer-sparse", "css", "css-subsystem", "subsystem", "gauge", "random", "css-as-qudit", "idle", "full-rank",
         "single-check", "mixed-gauge"]


def random_checks(rng, q, kind=None, max_n=5, min_n=1):
    """(kind, n, checks): a random check matrix with 2n columns."""
    f = GF(q)
    kind = kind or KINDS[rng.integers(len(KINDS))]
    n = int(rng.integers(min_n, max_n + 1))
    if kind in ("css", "css-as-qudit"):
        mx, mz = random_css(rng, q, n=n)
        checks = np.vstack([np.hstack([mx, np.zeros_like(mx)]), np.hstack([np.zeros_like(mz), mz])])
        if kind == "css-as-qudit" and len(checks) > 1:
            checks = redundant(rng, q, checks, 2 * n)
        return kind, n, checks
    if kind == "css-subsystem":
        mx, mz = random_css(rng, q, n=n, subsystem=True)
        checks = np.vstack([np.hstack([mx, np.zeros_like(mx)]), np.hstack([np.zeros_like(mz), mz])])
        return kind, n, checks
    if kind == "random":
        return kind, n, f.random(rng, (int(rng.integers(1, n + 2)), 2 * n)) * (rng.random((1, 2 * n)) < 0.8)
    if kind == "single-check":
        return kind, n, f.random(rng, (1, 2 * n))
    sym = random_symplectic(rng, q, n, count=int(rng.integers(1, 4)) if kind == "stabilizer-sparse" else None)
    xs, zs = sym[:n], sym[n:]
    s = int(rng.integers(0, n + 1))
    if kind == "full-rank":
        s = n
    g = 0
    if kind in ("subsystem", "gauge", "mixed-gauge"):
        s = int(rng.integers(0, n))
        g = int(rng.integers(1, n - s + 1))
    rows = [zs[:s]]
    if g:
        rows += [xs[s : s + g], zs[s : s + g]]
    basis = np.vstack(rows) if rows else np.zeros((0, 2 * n), dtype=int)
    if kind == "idle" and n > 1:
        # one qudit is not addressed at all
        basis = basis.copy()
        small = random_symplectic(rng, q, n - 1)
        s = int(rng.integers(0, n))
        part = small[n - 1 : n - 1 + s]
        spot = int(rng.integers(n))
        cols = [c for c in range(n) if c != spot]
        basis = np.zeros((len(part), 2 * n), dtype=int)
        basis[:, cols] = part[:, : n - 1]
        basis[:, [c + n for c in cols]] = part[:, n - 1 :]
    return kind, n, redundant(rng, q, basis, 2 * n)


def random_css(rng, q, n=None, max_n=7, subsystem=False, min_n=2):
    """Check matrices of a random CSS code."""
    f = GF(q)
    n = n or int(rng.integers(min_n, max_n + 1))
    _, mx = mats.random_matrix(rng, q, None, max_n=n, min_n=n, max_m=max(1, n - 1))
    if subsystem:
        _, mz = mats.random_matrix(rng, q, None, max_n=n, min_n=n, max_m=max(1, n - 1))
        if n > 2 and rng.random() < 0.3:  # dense checks of both types, fewer than it takes to fix every qudit
            mx, mz = (f.random(rng, (int(rng.integers(1, n - 1)), n)) for _ in range(2))
    else:
        null = f.null_space(mx)
        take = int(rng.integers(0, len(null) + 1))
        base = f.matmul(f.random(rng, (take, len(null))), null) if take else np.zeros((1, n), dtype=int)
        mz = redundant(rng, q, f.rref(base)[0], n)
        mx = mx if rng.random() < 0.5 else redundant(rng, q, f.rref(mx)[0], n)
        if rng.random() < 0.4:
            mx, mz = mz, mx
    return mx, mz


def subspaces(q, ncols):
    """Every subspace of GF(q)^ncols, as a matrix in reduced row echelon form."""
    import itertools

    for r in range(ncols + 1):
        for pivots in itertools.combinations(range(ncols), r):
            free = [(i, c) for i, p in enumerate(pivots) for c in range(p + 1, ncols) if c not in pivots]
            for values in itertools.product(range(q), repeat=len(free)):
                mat = np.zeros((r, ncols), dtype=int)
                for i, p in enumerate(pivots):
                    mat[i, p] = 1
                for (i, c), v in zip(free, values):
                    mat[i, c] = v
                yield mat
