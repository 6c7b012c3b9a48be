import itertools

import numpy as np

from vlib import mats, qcodes, quantinv
from vlib.gf import GF, coset_min_weight

PROPERTY = "C13"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: textbook parameters, exhaustive distances and symplectic bases as the oracle of every size, field and layout of the named quantum codes"
RULE = "one case per family x size x field x options; non-trivial when the code has logical qudits and at least one check"
REQUIRED = {"params": 150, "distance": 200, "distance-known": 200, "logical": 150, "commute": 120, "conjugate": 60, "geometry": 20, "equivalent": 40, "reject": 8,
            "preset": 10, "get-distance": 100}


def enumerated(f, stab, bare, upto, n):
    """Smallest weight <= upto of a vector orthogonal to `stab` and not to `bare` (None if there is none)."""
    both = np.vstack([stab, bare]).reshape(-1, n)
    s = len(stab)
    for weight in range(1, upto + 1):
        for scale in itertools.product(range(1, f.q), repeat=weight - 1):
            scale = (1,) + scale
            chunk = []
            for combo in itertools.combinations(range(n), weight):
                chunk.append(combo)
                if len(chunk) == 200_000:
                    if _hit(f, both, s, np.array(chunk), scale):
                        return weight
                    chunk = []
            if chunk and _hit(f, both, s, np.array(chunk), scale):
                return weight
    return None


def _hit(f, both, s, combos, scale):
    total = np.zeros((len(both), len(combos)), dtype=int)
    for t, c in enumerate(scale):
        total = f.add(total, f.mul(c, both[:, combos[:, t]]))
    return bool(((~total[:s].any(axis=0)) & total[s:].any(axis=0)).any())


def true_distance(f, truth, sector, guess):
    """The minimum weight of a nontrivial (dressed) logical operator, or None when out of reach.

    `guess` only chooses between two exhaustive searches."""
    from math import comb

    other = "z" if sector == "x" else "x"
    n = truth.n
    full = f.rank(np.vstack([truth.bare[sector], truth.gauge[sector]]))
    if f.q**full <= 300_000:
        return coset_min_weight(f, truth.bare[sector], truth.gauge[sector], "hamming", 300_000)
    cost = sum(comb(n, w) * (f.q - 1) ** (w - 1) for w in range(1, guess + 1))
    if cost > 2_500_000:
        return None
    return enumerated(f, truth.stab[other], truth.bare[other], guess, n) or guess + 1


def examine(ctx, code, q, n, k, dx, dz, subsystem=False, known=True):
    """Parameters, distances and logical operators of a CSS code, against the textbook and against exhaustion."""
    from qldpc.objects import Pauli

    f = GF(q)
    truth = qcodes.CSSTruth(q, mats.to_int(code.matrix_x), mats.to_int(code.matrix_z))
    ctx.check(code.field.order == q and (len(code), code.dimension) == (n, k), "params", f"[{len(code)}, {code.dimension}] over GF({code.field.order}), expected [{n}, {k}] over GF({q})")
    ctx.check((truth.n, truth.k) == (n, k), "params", f"the checks define a [{truth.n}, {truth.k}] code, expected [{n}, {k}]")
    ctx.check(code.is_subsystem_code == subsystem and truth.subsystem == subsystem, "commute", f"is_subsystem_code = {code.is_subsystem_code}, gauge qudits: {truth.g}")
    bad = truth.full.logical_problems(mats.to_int(code.get_logical_ops()))
    ctx.check(not bad, "logical", f"logical operators: {bad[:2]}")
    if not k:
        ctx.check(np.isnan(code.get_distance()), "distance", f"distance {code.get_distance()} without logical qudits")
        return
    if n <= 40 and ctx.rng.random() < 0.5:
        quantinv.audit(ctx, code, q, mats.to_int(code.matrix), f"{code.name}")
    told = [code.get_distance_if_known(Pauli.X), code.get_distance_if_known(Pauli.Z)]
    want = [dx, dz]
    for sector, guess, claim in zip("xz", want, told):
        real = true_distance(f, truth, sector, guess)
        if real is not None:
            ctx.check(real == guess, "distance", f"the {sector.upper()} distance is {real}, the textbook says {guess}")
        if claim is not None:
            ctx.check(claim == guess, "distance-known", f"advertised {sector.upper()} distance {claim}, expected {guess}")
        elif known:
            ctx.see("distance-unknown")
    small = q ** max(len(truth.bare["x"]), len(truth.bare["z"])) < 20_000
    if known and None not in told or small:
        got = code.get_distance(Pauli.X), code.get_distance(Pauli.Z), code.get_distance()
        ctx.check(got == (dx, dz, min(dx, dz)), "get-distance", f"distances {got}, expected {(dx, dz)}")
        params = code.get_code_params()
        ctx.check(tuple(params[:3]) == (n, k, min(dx, dz)), "get-distance", f"parameters {params}, expected {(n, k, min(dx, dz))}")


def same_conjugation(ctx, code, qudits):
    a, b = code.conjugated(), code.conjugated(qudits)
    ctx.check(np.array_equal(mats.to_int(a.matrix), mats.to_int(b.matrix)), "conjugate", "the default conjugation is not the advertised one")


def small(ctx):
    from qldpc import codes
    from qldpc.objects import Pauli

    code = codes.FiveQubitCode()
    ctx.case("five-qubit", True)
    truth = qcodes.Truth(2, mats.to_int(code.matrix))
    ctx.check((len(code), code.dimension) == (5, 1) == (truth.n, truth.k) and not code.is_subsystem_code, "params", "five-qubit code")
    ctx.check(code.get_distance() == 3 == truth.distance() and code.get_distance_if_known() == 3, "distance", "five-qubit code")
    ctx.check(not truth.logical_problems(mats.to_int(code.get_logical_ops())), "logical", "five-qubit code")
    ctx.check(tuple(code.get_code_params()) == (5, 1, 3), "params", "five-qubit code")
    strings = {"".join(s.split()) for s in code.get_strings()}
    ctx.check(strings <= {"XZZXI", "IXZZX", "XIXZZ", "ZXIXZ", "ZZXIX"} and len(strings) == 4, "preset", f"stabilizers {strings}")

    ctx.case("steane", True)
    code = codes.SteaneCode()
    examine(ctx, code, 2, 7, 1, 3, 3)
    ones = [[1] * 7 + [0] * 7, [0] * 7 + [1] * 7]
    ctx.check(mats.to_int(code.get_logical_ops()).tolist() == ones, "preset", "the logical operators of the Steane code are transversal")
    ctx.check(np.array_equal(mats.to_int(code.matrix_x), mats.to_int(code.matrix_z)), "preset", "the Steane code is self-dual")
    words = {tuple(w) for w in GF(2).words(mats.to_int(codes.HammingCode(3).matrix)).tolist()}
    ctx.check({tuple(w) for w in GF(2).words(mats.to_int(code.matrix_x)).tolist()} == words, "preset", "the stabilizers of the Steane code are those of the Hamming code")

    for m in range(1, 8):
        for alternative in (False, True):
            ctx.case("iceberg", m > 1, m=m, alternative=alternative)
            code = codes.IcebergCode(m, alternative_logicals=alternative)
            examine(ctx, code, 2, 2 * m, 2 * m - 2, 2, 2)
            full = {tuple(row) for row in mats.to_int(code.matrix).tolist()}
            ctx.check(full == {(1,) * (2 * m) + (0,) * (2 * m), (0,) * (2 * m) + (1,) * (2 * m)}, "preset", "stabilizers of an iceberg code")
            if m == 3 and alternative:
                ops = mats.to_int(code.get_logical_ops())
                support = [set(np.nonzero(row[:6] | row[6:])[0]) for row in ops]
                pairs = [support[0] | support[1] | support[4] | support[5], support[2] | support[3] | support[6] | support[7]]
                ctx.check(not pairs[0] & pairs[1], "preset", "the alternative logical operators do not split into pairs with disjoint supports")
    ctx.case("C4", True)
    code = codes.C4Code()
    examine(ctx, code, 2, 4, 2, 2, 2)
    ctx.check(GF(2).same_span(mats.to_int(code.matrix), mats.to_int(codes.IcebergCode(2).matrix)), "equivalent", "C4 is the iceberg code of size 2")
    ctx.case("C6", True)
    code = codes.C6Code()
    examine(ctx, code, 2, 6, 2, 2, 2)
    want = [[1, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 1]]
    for pauli in (Pauli.X, Pauli.Z):
        ctx.check(mats.to_int(code.get_logical_ops(pauli)).reshape(2, -1)[:, -6:].tolist() == want or mats.to_int(code.get_logical_ops(pauli)).reshape(2, -1)[:, :6].tolist() == want,
                  "preset", "logical operators of the C6 code")
    ctx.check(GF(2).same_span(mats.to_int(code.matrix_x), np.array([[1, 1, 0, 0, 1, 1], [0, 1, 1, 1, 1, 0]])) and GF(2).same_span(mats.to_int(code.matrix_z), mats.to_int(code.matrix_x)),
              "preset", "stabilizers of the C6 code")


def tiles(ctx, code, rows, cols, periodic):
    """Checks of a rotated layout live on alternating 2x2 tiles."""
    seen = {}
    for kind, matrix in (("x", code.matrix_x), ("z", code.matrix_z)):
        for check in mats.to_int(matrix).reshape(-1, rows, cols):
            points = {tuple(map(int, p)) for p in np.argwhere(check)}
            places = []
            for r, c in itertools.product(range(-1, rows), range(-1, cols)):
                tile = {(a, b) for a in (r, r + 1) for b in (c, c + 1)}
                if periodic:
                    tile = {(a % rows, b % cols) for a, b in tile}
                else:
                    tile = {(a, b) for a, b in tile if 0 <= a < rows and 0 <= b < cols}
                if tile == points:
                    places.append((r % rows, c % cols) if periodic else (r, c))
            ctx.check(bool(places), "geometry", f"a {kind} check does not live on one tile: {points}")
            for place in places:
                seen.setdefault(place, set()).add(kind)
    if min(rows, cols) > 2:
        ctx.check(all(len(kinds) == 1 for kinds in seen.values()), "geometry", "a tile hosts checks of both types")
        parity = {(kind, (r + c) % 2) for (r, c), kinds in seen.items() for kind in kinds}
        ctx.check(len(parity) == 2, "geometry", "tiles do not alternate")


def surface(ctx, q, sizes, rotated):
    from qldpc import codes

    f = GF(q)
    for rows, cols in sizes:
        ctx.case("surface", rows * cols > 1, q=q, rows=rows, cols=cols, rotated=rotated)
        kwargs = {} if q == 2 and ctx.rng.random() < 0.5 else {"field": q}
        args = (rows,) if rows == cols and ctx.rng.random() < 0.5 else (rows, cols)
        code = codes.SurfaceCode(*args, rotated=rotated, **kwargs) if not rotated or ctx.rng.random() < 0.5 else codes.SurfaceCode(*args, **kwargs)
        n = rows * cols if rotated else rows * cols + (rows - 1) * (cols - 1)
        examine(ctx, code, q, n, 1, cols, rows)
        ctx.check((code.rows, code.cols) == (rows, cols), "params", "size of the lattice")
        if rotated:
            same_conjugation(ctx, code, [r * cols + c for r in range(rows) for c in range(cols) if (r + c) % 2])
            if rows * cols > 1 and q == 2:
                tiles(ctx, code, rows, cols, False)
                ctx.check(len(code.matrix) == n - 1, "geometry", f"{len(code.matrix)} checks on {n} qubits")
        else:
            same_conjugation(ctx, code, list(range(rows * cols, n)))
            other = codes.GeneralizedSurfaceCode(rows, 2, q) if rows == cols else None
            if other is not None:
                ctx.check((len(other), other.dimension, other.get_distance()) == (n, 1, rows), "equivalent", "the two-dimensional generalized surface code")
            rot = codes.SurfaceCode(rows, cols, q)
            ctx.check((rot.dimension, rot.get_distance()) == (code.dimension, code.get_distance()), "equivalent", "rotated and plain layouts have different parameters")


def toric(ctx, q, sizes, rotated):
    from qldpc import codes

    for rows, cols in sizes:
        ctx.case("toric", True, q=q, rows=rows, cols=cols, rotated=rotated)
        if rotated and (rows % 2 or cols % 2):
            ctx.raises(ValueError, "reject", codes.ToricCode, rows, cols, q, msg="odd sides")
            continue
        kwargs = {} if q == 2 and ctx.rng.random() < 0.5 else {"field": q}
        args = (rows,) if rows == cols and ctx.rng.random() < 0.5 else (rows, cols)
        code = codes.ToricCode(*args, rotated=rotated, **kwargs)
        n = rows * cols if rotated else 2 * rows * cols
        d = min(rows, cols)
        examine(ctx, code, q, n, 2, d, d)
        ctx.check((code.rows, code.cols) == (rows, cols), "params", "size of the lattice")
        if rotated:
            same_conjugation(ctx, code, [r * cols + c for r in range(rows) for c in range(cols) if (r + c) % 2])
            if q == 2:
                tiles(ctx, code, rows, cols, True)
            plain = codes.ToricCode(rows, cols, q, rotated=False)
            ctx.check((plain.dimension, plain.get_distance()) == (code.dimension, code.get_distance()), "equivalent", "rotated and plain layouts have different parameters")
        else:
            same_conjugation(ctx, code, list(range(rows * cols, n)))


def generalized(ctx, q, sizes):
    from qldpc import codes

    for size, dim, periodic in sizes:
        ctx.case("generalized surface", True, q=q, size=size, dim=dim, periodic=periodic)
        code = codes.GeneralizedSurfaceCode(size, dim, q, periodic=periodic) if periodic or ctx.rng.random() < 0.5 else codes.GeneralizedSurfaceCode(size, dim, field=q)
        if periodic:
            n, k = dim * size**dim, dim
        else:
            n, k = size**dim + (dim - 1) * (size - 1) ** 2 * size ** (dim - 2), 1
        examine(ctx, code, q, n, k, size ** (dim - 1), size)
        if dim == 2:
            other = codes.ToricCode(size, field=q, rotated=False) if periodic else codes.SurfaceCode(size, field=q, rotated=False)
            ctx.check(other.get_code_params() == code.get_code_params(), "equivalent", f"{other.get_code_params()} and {code.get_code_params()}")
    for dim in (-1, 0, 1):
        ctx.raises(ValueError, "reject", codes.GeneralizedSurfaceCode, 2, dim, q, msg="dimension below two")


def subsystem(ctx, q, sizes):
    from qldpc import codes

    f = GF(q)
    for rows, cols in sizes:
        for preset in (True, False):
            ctx.case("bacon-shor", rows * cols > 1, q=q, rows=rows, cols=cols, preset=preset)
            args = (rows,) if rows == cols and ctx.rng.random() < 0.5 else (rows, cols)
            code = codes.BaconShorCode(*args, field=q, set_logicals=preset)
            if min(rows, cols) == 1:
                truth = qcodes.CSSTruth(q, mats.to_int(code.matrix_x), mats.to_int(code.matrix_z))
                ctx.check((len(code), code.dimension, code.gauge_dimension) == (rows * cols, 1, 0) == (truth.n, truth.k, truth.g), "params", f"[{len(code)}, {code.dimension}, {code.gauge_dimension}]")
                ctx.check(not truth.full.logical_problems(mats.to_int(code.get_logical_ops())), "logical", "logical operators")
                continue
            examine(ctx, code, q, rows * cols, 1, cols, rows, subsystem=True, known=False)
            ctx.check(code.gauge_dimension == (rows - 1) * (cols - 1), "params", f"gauge dimension {code.gauge_dimension}")
            # two-body gauge checks on neighbours: X checks within columns, Z checks within rows
            for matrix, axis in ((code.matrix_x, 0), (code.matrix_z, 1)):
                for check in mats.to_int(matrix).reshape(-1, rows, cols):
                    points = np.argwhere(check)
                    ok = len(points) == 2 and np.abs(points[0] - points[1]).tolist() == [1 - axis, axis]
                    ctx.check(ok, "geometry", f"gauge check on {points.tolist()}")


def shyps(ctx, dims):
    from qldpc import codes

    for dx, dz in dims:
        ctx.case("SHYPS", True, dx=dx, dz=dz)
        code = codes.SHYPSCode(dx) if dx == dz and ctx.rng.random() < 0.5 else codes.SHYPSCode(dx, dz)
        n = (2**dx - 1) * (2**dz - 1)
        examine(ctx, code, 2, n, dx * dz, 2 ** (dz - 1), 2 ** (dx - 1), subsystem=True)
        ctx.check(set(np.count_nonzero(mats.to_int(code.matrix), axis=1)) == {3}, "geometry", "gauge checks of a SHYPS code have weight three")
    for bad in ((1, 2), (2, 1), (1, None), (0, 2)):
        ctx.raises(ValueError, "reject", codes.SHYPSCode, *bad, msg="inadmissible dimension")


def units(tier, seed):
    thorough = tier == "thorough"
    top = 8 if thorough else 6
    pairs = [(r, c) for r in range(1, top) for c in range(1, top)]
    out = [("small", small, ())]
    for q, cap in ((2, 30 if not thorough else 42), (3, 12 if not thorough else 20), (4, 9 if not thorough else 16), (5, 9 if not thorough else 12), (7, 6), (9, 6)):
        mine = [p for p in pairs if p[0] * p[1] <= cap]
        for rotated in (True, False):
            area = [p for p in mine if rotated or p[0] * p[1] <= cap * 0.7]
            for half in range(2):
                out.append((f"surface-{q}-{rotated}-{half}", surface, (q, area[half::2], rotated)))
            area = [p for p in [(r, c) for r in range(1, top + 1) for c in range(1, top + 1)] if p[0] * p[1] <= cap * (1.3 if rotated else 0.6)]
            for half in range(2):
                out.append((f"toric-{q}-{rotated}-{half}", toric, (q, area[half::2], rotated)))
    sizes = [(1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (1, 4), (2, 4), (3, 3)]
    for q, cap in ((2, 27), (3, 16 if thorough else 9), (4, 9), (5, 9 if thorough else 4)):
        for periodic in (False, True):
            out.append((f"generalized-{q}-{periodic}", generalized, (q, [(s, d, periodic) for s, d in sizes if s**d <= (cap if not periodic or q > 2 else 16)])))
    for q, top_bs in ((2, 5 if thorough else 4), (3, 3), (4, 3), (5, 2)):
        out.append((f"bacon-shor-{q}", subsystem, (q, [(r, c) for r in range(1, top_bs + 1) for c in range(1, top_bs + 1)])))
    out.append(("shyps", shyps, ([(2, 2), (2, 3), (3, 2)] + ([(3, 3), (2, 4), (4, 2)] if thorough else []),)))
    return out
