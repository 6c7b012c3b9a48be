import itertools
import warnings

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF, coset_min_weight

PROPERTY = "C17"
ROUNDS = {"quick": 2}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: syndrome, minimum-weight and state-independence monitors on decoder call histories, against exhaustive error tables"
RULE = ("one case per (check matrix over GF(q), decoder, history of syndromes); all errors up to a weight, or random ones; "
        "non-trivial when the matrix detects some error")
REQUIRED = {"lookup-syndrome": 1000, "lookup-weight": 1000, "lookup-unknown": 50, "lookup-default": 100, "guf-syndrome": 500, "guf-weight": 150,
            "ilp-syndrome": 120, "ilp-weight": 120, "ilp-reject": 10, "mwpm-weight": 100, "external-syndrome": 300, "stateless": 500,
            "inputs-kept": 300, "not-shared": 300, "block": 50, "direct": 100, "dispatch": 30}


class Table:
    """Every error up to a weight: its syndrome, and the lightest error with each syndrome."""

    def __init__(self, q, matrix, symplectic, limit=60_000):
        f = self.f = GF(q)
        self.q, self.matrix, self.symplectic = q, matrix, symplectic
        n = self.n = matrix.shape[1] // (2 if symplectic else 1)
        if symplectic:
            # <check, error>, over every field: x_c . z_e - z_c . x_e
            self.map = np.hstack([f.neg(matrix[:, n:]), matrix[:, :n]])
        else:
            self.map = matrix
        self.lightest = {}
        self.complete = True
        self.errors_of = {}
        local = list(itertools.product(range(q), repeat=2 if symplectic else 1))[1:]
        count = 0
        for weight in range(n + 1):
            errors = []
            for sites in itertools.combinations(range(n), weight):
                for values in itertools.product(local, repeat=weight):
                    errors.append((sites, values))
                    count += 1
                    if count > limit:
                        self.complete = False
                        break
                if not self.complete:
                    break
            if not self.complete:
                self.max_weight = weight - 1
                return
            rows = np.zeros((len(errors), matrix.shape[1]), dtype=int)
            for row, (sites, values) in zip(rows, errors):
                for site, value in zip(sites, values):
                    row[site] = value[0]
                    if symplectic:
                        row[site + n] = value[1]
            syndromes = f.matmul(rows, self.map.T)
            self.errors_of[weight] = (rows, syndromes)
            for syndrome in map(tuple, syndromes.tolist()):
                self.lightest.setdefault(syndrome, weight)
        self.max_weight = n

    def weight(self, error):
        error = np.asarray(error)
        return int(np.count_nonzero((error[: self.n] != 0) | (error[self.n :] != 0) if self.symplectic else error))

    def syndrome(self, error):
        return self.f.matmul(np.asarray(error, dtype=int)[None, :], self.map.T)[0]


def a_matrix(ctx, q, symplectic, max_n):
    if symplectic:
        kind, n, checks = qcodes.random_checks(ctx.rng, q, max_n=max_n)
        return kind, checks
    return mats.random_matrix(ctx.rng, q, max_n=max_n)


def valid(ctx, answer, table, key):
    """Is the answer a vector of field values of the right length?"""
    answer = np.asarray(answer)
    length = table.matrix.shape[1]
    good = answer.shape == (length,) and np.issubdtype(answer.dtype, np.number) and np.all((answer >= 0) & (answer < table.q) & (answer == answer.astype(int)))
    ctx.check(good, key, f"the correction is not a vector of {length} field values: {answer!r:.200}")
    return good


def history(ctx, decoder, fresh, syndromes, decode=None):
    """Decode a history of syndromes, watching inputs, results and state.  Returns the corrections."""
    call = decode or (lambda d, s: d.decode(s))
    answers, kept = [], []
    for syndrome in syndromes:
        given = np.array(syndrome)
        answer = call(decoder, given)
        ctx.check(np.array_equal(given, syndrome), "inputs-kept", "decoding changed the syndrome", before=syndrome, after=given)
        answers.append(np.array(mats.to_int(answer)))
        kept.append(answer)
        if ctx.rng.random() < 0.5:
            # the caller owns what was returned, and what was passed
            with_value = np.asarray(answer)
            if with_value.flags.writeable and with_value.size:
                with_value[:] = 1 - (with_value != 0)
                kept[-1] = None
            given[:] = 0
    for value, answer in zip(kept, answers):
        if value is not None:
            ctx.check(np.array_equal(np.asarray(value), answer), "not-shared", "a returned correction changed later")
    order = ctx.rng.permutation(len(syndromes))[:12]
    for index in order:
        again = mats.to_int(call(decoder, np.array(syndromes[index])))
        ctx.check(np.array_equal(again, answers[index]), "stateless", "the same syndrome was decoded differently later",
                  syndrome=syndromes[index], first=answers[index], later=again)
    for index in order[:3]:
        other = mats.to_int(call(fresh(), np.array(syndromes[index])))
        ctx.check(np.array_equal(other, answers[index]), "stateless", "a fresh decoder answers differently", syndrome=syndromes[index],
                  used=answers[index], fresh=other)
    return answers


def as_matrix(ctx, q, matrix):
    import galois

    if q == 2 and ctx.rng.random() < 0.5:
        return np.array(matrix)
    return galois.GF(q)(np.array(matrix))


def lookup(ctx, q, symplectic, count, max_n):
    from qldpc import codes, decoders

    for _ in range(count):
        kind, matrix = a_matrix(ctx, q, symplectic, max_n)
        table = Table(q, matrix, symplectic, 4_000)
        weight = int(ctx.rng.integers(0, min(3, table.max_weight) + 1))
        ctx.case("lookup", matrix.any(), q=q, symplectic=symplectic, matrix=matrix, max_weight=weight)
        given = as_matrix(ctx, q, matrix)
        args = {"max_weight": weight} | ({"symplectic": True} if symplectic else {})

        def fresh():
            roll = ctx.rng.integers(3)
            if roll == 0:
                return decoders.get_decoder(given, with_lookup=True, **args)
            return decoders.LookupDecoder(given, **args) if roll == 1 else decoders.get_decoder_lookup(given, **args)

        decoder = fresh()
        ctx.check(np.array_equal(mats.to_int(given), matrix), "inputs-kept", "building a decoder changed the matrix")
        known = {}
        for w in range(weight + 1):
            for error, syndrome in zip(*table.errors_of[w]):
                known.setdefault(tuple(syndrome.tolist()), w)
        keys = list(known)
        picks = [keys[i] for i in ctx.rng.permutation(len(keys))[:60]]
        unknown = [tuple(s.tolist()) for s in GF(q).random(ctx.rng, (20, len(matrix)))]
        unknown = [s for s in unknown if s not in known][:4]
        answers = history(ctx, decoder, fresh, [np.array(s, dtype=int) for s in picks + unknown])
        for syndrome, answer in zip(picks, answers):
            if not valid(ctx, answer, table, "lookup-syndrome"):
                continue
            ctx.check(tuple(table.syndrome(answer).tolist()) == syndrome, "lookup-syndrome", "the correction does not reproduce the syndrome",
                      syndrome=syndrome, answer=answer)
            ctx.check(table.weight(answer) == known[syndrome], "lookup-weight",
                      f"the correction has weight {table.weight(answer)}, the lightest error has weight {known[syndrome]}", syndrome=syndrome, answer=answer)
        for syndrome, answer in zip(unknown, answers[len(picks) :]):
            ctx.check(not np.any(answer), "lookup-unknown", "an unknown syndrome does not give a null correction")
        if ctx.rng.random() < 0.4:
            default_limit(ctx, q, given, matrix, symplectic, table)


def default_limit(ctx, q, given, matrix, symplectic, table):
    """The default weight limit corrects every error up to half the distance."""
    from qldpc import decoders

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        default = decoders.LookupDecoder(given, **({"symplectic": True} if symplectic else {}))
    if symplectic:
        truth = qcodes.Truth(q, matrix)
        distance = truth.distance()
    else:
        null = GF(q).null_space(matrix)
        distance = coset_min_weight(GF(q), null, np.zeros((0, table.n), dtype=int)) if len(null) else None
    if distance is None:
        return
    top = min((distance - 1) // 2, table.max_weight)
    for w in range(1, top + 1):
        rows, syndromes = table.errors_of[w]
        for index in ctx.rng.permutation(len(rows))[:40]:
            answer = default.decode(np.array(syndromes[index]))
            good = np.array_equal(table.syndrome(answer), syndromes[index]) and table.weight(answer) <= w
            if not symplectic:
                good = good and np.array_equal(answer, rows[index])
            else:
                # the residual error acts trivially: it lies in the gauge group
                good = good and GF(q).in_span(GF(q).sub(rows[index], answer)[None, :], truth.gauge)
            ctx.check(good, "lookup-default", "a correctable error was not corrected by the default lookup decoder", error=rows[index], answer=answer,
                      distance=distance)


FIVE = ["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"]
STEANE = ["XXXXIII", "XXIIXXI", "XIXIXIX", "ZZZZIII", "ZZIIZZI", "ZIZIZIZ"]


def lookup_default(ctx, count):
    f2 = GF(2)
    for index in range(count):
        if index % 2:
            q = int([2, 3, 4, 5][ctx.rng.integers(4)])
            n, k = int(ctx.rng.integers(3, 8 if q == 2 else 6)), int(ctx.rng.integers(1, 3))
            matrix = GF(q).null_space(GF(q).random(ctx.rng, (k, n)))
            symplectic = False
        else:
            q, symplectic = 2, True
            rows = [FIVE, STEANE][index // 2 % 2]
            matrix = np.array([[c in "XY" for c in row] + [c in "ZY" for c in row] for row in rows], dtype=int)
            n = len(rows[0])
            perm = ctx.rng.permutation(n)
            matrix = matrix[:, np.hstack([perm, perm + n])]
            for j in range(n):
                if ctx.rng.random() < 0.5:
                    matrix[:, [j, j + n]] = matrix[:, [j + n, j]]
                if ctx.rng.random() < 0.5:
                    matrix[:, j] ^= matrix[:, j + n]
            matrix = f2.matmul(mats.random_invertible(ctx.rng, 2, len(matrix)), matrix)
        if not len(matrix):
            continue
        ctx.case("default lookup", True, q=q, matrix=matrix, symplectic=symplectic)
        default_limit(ctx, q, as_matrix(ctx, q, matrix), matrix, symplectic, Table(q, matrix, symplectic, 4_000))


def interior_weight(table, syndrome):
    """Weight of the lightest error in the first error set (grown from the syndrome) that holds a solution."""
    f, n = table.f, table.n
    support = (table.map != 0) if not table.symplectic else (table.map[:, :n] != 0) | (table.map[:, n:] != 0)
    checks = set(np.nonzero(syndrome)[0].tolist())
    sites = set()
    last = None
    while True:
        # one step on the Tanner graph: neighbours of every node of the set
        grown_sites = sites | {j for i in checks for j in np.nonzero(support[i])[0].tolist()}
        grown_checks = checks | {i for j in sites for i in np.nonzero(support[:, j])[0].tolist()}
        checks, sites = grown_checks, grown_sites
        if (len(checks), len(sites)) == last:
            return None
        last = (len(checks), len(sites))
        inside = sorted(j for j in sites if set(np.nonzero(support[:, j])[0].tolist()) <= checks)
        cols = inside + ([j + n for j in inside] if table.symplectic else [])
        part = table.map[:, cols]
        rank = f.rank(part) if cols else 0
        if rank == f.rank(np.hstack([part, np.asarray(syndrome)[:, None]])):
            # a solution exists in the interior: weigh all of them
            best = None
            null = f.null_space(part)
            if table.q ** len(null) > 20_000:
                return -1
            one = solve(f, part, syndrome)
            words = f.words(null) if len(null) else np.zeros((1, len(cols)), dtype=int)
            words = f.add(words, one[None, :])
            if table.symplectic:
                half = len(inside)
                weights = ((words[:, :half] != 0) | (words[:, half:] != 0)).sum(axis=1)
            else:
                weights = (words != 0).sum(axis=1)
            best = int(weights.min())
            return best


def solve(f, mat, rhs):
    """One solution of mat @ x = rhs."""
    aug = np.hstack([mat, f.neg(np.asarray(rhs, dtype=int))[:, None]])
    null = f.null_space(aug)
    row = next(r for r in null if r[-1])
    inverse = next(x for x in range(1, f.q) if f.mul(x, row[-1]) == 1)
    return f.mul(row[:-1], inverse)


def guf(ctx, q, symplectic, count, max_n):
    from qldpc import decoders

    for _ in range(count):
        kind, matrix = a_matrix(ctx, q, symplectic, max_n)
        f = GF(q)
        limit = [None, None, 0, 1, 2, 3][ctx.rng.integers(6)]
        if ctx.rng.random() < 0.4:
            # few dense checks, hence many corrections to choose from, none or few of them within the limit
            length = max_n if not symplectic else 2 * max_n
            matrix = f.random(ctx.rng, (int(ctx.rng.integers(2, 5)), length))
            limit = [0, 0, 1, 1, 2][ctx.rng.integers(5)]
        table = Table(q, matrix, symplectic, 500)
        ctx.case("union-find", matrix.any(), q=q, symplectic=symplectic, matrix=matrix, max_weight=limit)
        given = as_matrix(ctx, q, matrix)
        args = {"symplectic": True} if symplectic else {}
        late = limit is not None and ctx.rng.random() < 0.3
        if limit is not None and not late:
            args["max_weight"] = limit

        def fresh():
            return decoders.get_decoder(given, with_GUF=True, **args) if ctx.rng.random() < 0.5 else decoders.GUFDecoder(given, **args)

        syndromes = []
        for _ in range(6):
            error = f.random(ctx.rng, (matrix.shape[1],)) * (ctx.rng.random(matrix.shape[1]) < ctx.rng.choice([0.15, 0.4, 1.0]))
            syndromes.append(table.syndrome(error))
        answers = history(ctx, fresh(), fresh, syndromes, (lambda d, s: d.decode(s, max_weight=limit)) if late else None)
        ctx.check(np.array_equal(mats.to_int(given), matrix), "inputs-kept", "decoding changed the matrix")
        for syndrome, answer in zip(syndromes, answers):
            if not valid(ctx, answer, table, "guf-syndrome"):
                continue
            ctx.check(np.array_equal(table.syndrome(answer), syndrome), "guf-syndrome", "the correction does not reproduce the syndrome",
                      syndrome=syndrome, answer=answer)
            if limit is not None and np.any(syndrome):
                best = interior_weight(table, syndrome)
                if best is not None and best >= 0:
                    ctx.check(table.weight(answer) <= max(limit, best), "guf-weight",
                              f"a correction of weight {table.weight(answer)} although the error set holds one of weight {best}, limit {limit}",
                              syndrome=syndrome, answer=answer)
        # syndromes that no error causes get a null correction, quickly
        other = f.random(ctx.rng, (len(matrix),))
        if not f.in_span(other[None, :], table.map.T):
            answer = fresh().decode(np.array(other))
            ctx.check(answer.shape == (matrix.shape[1],) and not np.any(answer), "guf-unsolvable", "a correction for a syndrome that no error causes")


def ilp(ctx, q, count, max_n):
    from qldpc import decoders

    f = GF(q)
    for _ in range(count):
        kind, matrix = mats.random_matrix(ctx.rng, q, max_n=max_n)
        table = Table(q, matrix, False, 40_000)
        ctx.case("integer program", matrix.any(), q=q, matrix=matrix)
        given = as_matrix(ctx, q, matrix)

        def fresh():
            return decoders.get_decoder(given, with_ILP=True) if ctx.rng.random() < 0.5 else decoders.ILPDecoder(given)

        syndromes = [table.syndrome(f.random(ctx.rng, (matrix.shape[1],))) for _ in range(3)]
        answers = history(ctx, fresh(), fresh, syndromes)
        for syndrome, answer in zip(syndromes, answers):
            if not valid(ctx, answer, table, "ilp-syndrome"):
                continue
            ctx.check(np.array_equal(table.syndrome(answer), syndrome), "ilp-syndrome", "the correction does not reproduce the syndrome",
                      syndrome=syndrome, answer=answer)
            if table.complete:
                best = table.lightest[tuple(syndrome.tolist())]
                ctx.check(table.weight(answer) == best, "ilp-weight", f"a correction of weight {table.weight(answer)}, the lightest error has weight {best}",
                          syndrome=syndrome, answer=answer)
        other = f.random(ctx.rng, (len(matrix),))
        if not f.in_span(other[None, :], matrix.T):
            ctx.raises(ValueError, "ilp-reject", fresh().decode, other, msg="a syndrome that no error causes")


def ilp_composite(ctx):
    import galois

    from qldpc import decoders

    for q in (4, 8, 9):
        ctx.case("integer program, composite field", True, q=q)
        ctx.raises(ValueError, "ilp-reject", decoders.get_decoder, galois.GF(q)([[1, 1, 0], [0, 1, 1]]), with_ILP=True, msg="composite field")
        ctx.raises(ValueError, "ilp-reject", decoders.ILPDecoder, galois.GF(q)([[1, 1, 0], [0, 1, 1]]), msg="composite field")


def no_zero_columns(matrix):
    return matrix.any(axis=0).all()


def external(ctx, name, count, max_n):
    """Decoders from other packages: the dispatch must hand over the matrix and arguments, and answers must reproduce syndromes."""
    from qldpc import decoders

    f = GF(2)
    while count:
        if name == "MWPM":
            # graph-like problems: at most two checks per bit
            m, n = int(ctx.rng.integers(1, 6)), int(ctx.rng.integers(2, max_n + 1))
            matrix = np.zeros((m, n), dtype=int)
            for col in matrix.T:
                col[ctx.rng.permutation(m)[: ctx.rng.integers(1, min(m, 2) + 1)]] = 1
            if not matrix.any(axis=1).all():
                continue
        else:
            _, matrix = mats.random_matrix(ctx.rng, 2, max_n=max_n, min_n=2)
            if not no_zero_columns(matrix) or not matrix.any(axis=1).all():
                continue
        count -= 1
        table = Table(2, matrix, False, 40_000)
        ctx.case("external", True, name=name, matrix=matrix)
        given = np.array(matrix) if ctx.rng.random() < 0.5 or name == "MWPM" else as_matrix(ctx, 2, matrix)
        args = {"default": {}, "OSD": {"with_BP_OSD": True}, "BF": {"with_BF": True, "uf_method": "inversion"}, "LSD": {"with_BP_LSD": True},
                "MWPM": {"with_MWPM": True}}[name]
        if name in ("default", "OSD") and ctx.rng.random() < 0.5:
            args |= {"osd_method": "osd_e", "osd_order": int(ctx.rng.integers(0, 3)), "error_rate": 0.05}

        def fresh():
            return decoders.get_decoder(given, **dict(args))

        syndromes = [table.syndrome(f.random(ctx.rng, (matrix.shape[1],)) * (ctx.rng.random(matrix.shape[1]) < 0.4)) for _ in range(5)]
        answers = history(ctx, fresh(), fresh, [s.astype(np.uint8) for s in syndromes])
        one = decoders.decode(given, syndromes[0].astype(np.uint8), **dict(args))
        ctx.check(np.array_equal(np.asarray(one), answers[0]), "stateless", "decode() and the decoder object answer differently")
        for syndrome, answer in zip(syndromes, answers):
            if not valid(ctx, answer, table, "external-syndrome"):
                continue
            ctx.check(np.array_equal(table.syndrome(answer), syndrome), "external-syndrome", f"{name}: the correction does not reproduce the syndrome",
                      syndrome=syndrome, answer=answer)
            if name == "MWPM":
                best = table.lightest[tuple(syndrome.tolist())]
                ctx.check(table.weight(answer) == best, "mwpm-weight", f"a correction of weight {table.weight(answer)}, the lightest error has weight {best}")


class Recorder:
    """An inner decoder that remembers what it was asked, and answers with a fixed (history independent) rule."""

    def __init__(self, matrix, q, **kwargs):
        self.matrix, self.q, self.kwargs = np.array(mats.to_int(matrix)), q, kwargs
        self.asked = []

    def decode(self, syndrome):
        self.asked.append(np.array(syndrome))
        weights = np.arange(1, 1 + len(self.matrix))
        value = int(np.dot(mats.to_int(syndrome), weights))
        return (np.arange(self.matrix.shape[1]) * 7 + value) % self.q


def wrappers(ctx, q, count):
    from qldpc import decoders

    f = GF(q)
    for _ in range(count):
        kind, matrix = mats.random_matrix(ctx.rng, q, max_n=6)
        m, n = matrix.shape
        ctx.case("wrappers", matrix.any(), q=q, matrix=matrix)
        inner = Recorder(matrix, q)
        blocks = int(ctx.rng.integers(1, 5))
        block = decoders.BlockDecoder(m, inner)
        syndrome = f.random(ctx.rng, (blocks * m,))
        for _ in range(2):
            inner.asked.clear()
            answer = block.decode(np.array(syndrome))
            want = np.concatenate([Recorder(matrix, q).decode(s) for s in syndrome.reshape(blocks, m)])
            ctx.check(np.array_equal(mats.to_int(answer), want), "block", "the block decoder does not join the answers of its inner decoder")

        given = as_matrix(ctx, q, matrix)
        word = f.random(ctx.rng, (n,))
        for real in (False, True):
            inner = decoders.get_decoder(given, with_GUF=True) if real else Recorder(matrix, q)
            direct = decoders.DirectDecoder.from_indirect(inner, given)
            for _ in range(2):
                passed = np.array(word)
                answer = mats.to_int(direct.decode(passed))
                syndrome = f.matmul(matrix, word[:, None])[:, 0]
                correction = mats.to_int((decoders.get_decoder(given, with_GUF=True) if real else Recorder(matrix, q)).decode(np.array(syndrome)))
                ctx.check(np.array_equal(answer, f.sub(word, correction)), "direct", "the direct decoder does not subtract the inferred error", word=word)
                ctx.check(np.array_equal(passed, word), "inputs-kept", "the direct decoder changed the word")
                if real:
                    ctx.check(not f.matmul(matrix, answer[:, None]).any(), "direct", "the direct decoder does not return a code word", word=word)
        custom = decoders.DirectDecoder(lambda w: (np.asarray(w) + 1) % q)
        ctx.check(np.array_equal(custom.decode(word), (word + 1) % q), "direct", "a custom direct decoder is not used")


def dispatch(ctx):
    import galois
    import ldpc
    import pymatching

    from qldpc import decoders

    matrix = np.array([[1, 1, 0, 0], [0, 1, 1, 0], [0, 0, 1, 1]])
    cases = [({}, ldpc.BpOsdDecoder), ({"with_BP_OSD": True}, ldpc.BpOsdDecoder), ({"with_BP_LSD": True}, ldpc.bplsd_decoder.BpLsdDecoder),
             ({"with_BF": True}, ldpc.BeliefFindDecoder), ({"with_MWPM": True}, pymatching.Matching), ({"with_ILP": True}, decoders.ILPDecoder),
             ({"with_GUF": True}, decoders.GUFDecoder), ({"with_lookup": True, "max_weight": 1}, decoders.LookupDecoder)]
    for q in (2, 3, 4):
        for args, kind in cases:
            if q > 2 and args and not {"with_ILP", "with_GUF", "with_lookup"} & set(args) or (q == 4 and "with_ILP" in args):
                continue
            given = galois.GF(q)(matrix)
            ctx.case("dispatch", True, q=q, args=sorted(args))
            want = decoders.GUFDecoder if q > 2 and not args else kind
            if q == 2:
                ctx.check(isinstance(decoders.get_decoder(matrix, **dict(args)), kind), "dispatch", f"{args} gives another decoder")
            ctx.check(isinstance(decoders.get_decoder(given, **dict(args)), want), "dispatch", f"{args} over GF({q}) gives another decoder")
        made = decoders.get_decoder(given, decoder_constructor=Recorder, q=q, extra=5)
        ctx.check(isinstance(made, Recorder) and made.kwargs == {"extra": 5} and np.array_equal(made.matrix, matrix), "dispatch",
                  "a custom decoder is not constructed with the matrix and arguments")
        static = Recorder(matrix, q)
        ctx.check(decoders.get_decoder(given, static_decoder=static) is static, "dispatch", "a static decoder is not used")
        answer = decoders.decode(given, np.array([1, 0, 1]), static_decoder=static)
        ctx.check(np.array_equal(answer, Recorder(matrix, q).decode(np.array([1, 0, 1]))), "dispatch", "decode() does not use the static decoder")


def units(tier, seed):
    deep = 30 if tier == "thorough" else 4
    out = [("lookup-default", lookup_default, (6 * deep,)), ("ilp-composite", ilp_composite, ()), ("dispatch", dispatch, ())]
    for q in (2, 3, 4, 5, 7):
        c = (3 if q == 2 else 1) * deep
        out.append((f"lookup-{q}", lookup, (q, False, 12 * c, 7 if q < 4 else 5)))
        out.append((f"lookup-symplectic-{q}", lookup, (q, True, 8 * c, 5 if q == 2 else 3)))
        out.append((f"guf-{q}", guf, (q, False, 12 * c, 9 if q == 2 else 6)))
        out.append((f"guf-symplectic-{q}", guf, (q, True, 8 * c, 6 if q == 2 else 4 if q == 3 else 3)))
        out.append((f"wrappers-{q}", wrappers, (q, 8 * c)))
        if q != 4:
            for part in range(2):
                out.append((f"ilp-{q}-{part}", ilp, (q, 4 * c, 8 if q == 2 else 5)))
    for name in ("default", "OSD", "BF", "LSD", "MWPM"):
        out.append((f"external-{name}", external, (name, 20 * deep, 9)))
    return out
