import itertools
import os

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF
from vlib.qcodes import Truth

PROPERTY = "C20"
ROUNDS = {"quick": 2}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: circuits and tableaus returned by the real search (with a stand-in for the GAP process) are executed and compared with a brute-force enumeration of local Cliffords and permutations"
NOTE = "GAP is not installed: a stand-in executable (vlib/fakegap.py) answers the automorphism queries; everything on the qLDPC side of the process boundary is the real code."
RULE = ("one case per qubit code (stabilizer, subsystem, CSS or not, at most 5 qubits) x local gate set x requested logical operation; "
        "non-trivial when some permitted physical operation acts nontrivially on the logical qubits")
REQUIRED = {"ops": 150, "op-stabilizers": 150, "op-logical": 150, "op-gates": 150, "group": 80, "found": 150, "not-found": 100, "exact": 150, "tableau": 150,
            "subsystem": 20, "deform": 100, "deform-op": 60, "deform-group": 40, "nonredundant": 60, "reject": 15, "automorphisms": 60, "encoder": 60,
            "tableau-any": 200, "tableau-reject": 100}

GATE_SETS = [("SWAP",), ("S",), ("H",), ("SQRT_X",), ("S", "SWAP"), ("H", "SWAP"), ("SQRT_X", "SWAP"), ("S", "H"), ("S", "H", "SWAP"), ("S", "SQRT_X"),
             ("H", "SQRT_X", "SWAP")]
LOCAL = {
    "I": np.array([[1, 0], [0, 1]]), "H": np.array([[0, 1], [1, 0]]), "S": np.array([[1, 1], [0, 1]]), "SQRT_X": np.array([[1, 0], [1, 1]]),
    "C_XYZ": np.array([[1, 1], [1, 0]]), "C_ZYX": np.array([[0, 1], [1, 1]]),
}


def use_standin():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    path = os.path.join(here, "vlib", "standin")
    if not os.environ["PATH"].startswith(path + ":"):
        os.environ["PATH"] = path + ":" + os.environ["PATH"]


def allowed_local(gates):
    local = [g for g in gates if g != "SWAP"]
    if not local:
        return ["I"]
    if len(local) == 1:
        return ["I", local[0]]
    return list(LOCAL)


def permitted(n, gates):
    """All symplectic matrices (on row vectors) of the permitted local gates and permutations."""
    names = allowed_local(gates)
    perms = itertools.permutations(range(n)) if "SWAP" in gates else [tuple(range(n))]
    for perm in perms:
        for choice in itertools.product(names, repeat=n):
            mat = np.zeros((2 * n, 2 * n), dtype=np.uint8)
            for q, (name, to) in enumerate(zip(choice, perm)):
                block = LOCAL[name]
                mat[q, to], mat[q, to + n], mat[q + n, to], mat[q + n, to + n] = block[0, 0], block[0, 1], block[1, 0], block[1, 1]
            yield mat


_CACHE = {}


def permitted_stack(n, gates):
    key = (n, tuple(allowed_local(gates)), "SWAP" in gates)
    if key not in _CACHE:
        if len(_CACHE) > 8:
            _CACHE.clear()
        _CACHE[key] = np.array(list(permitted(n, gates)))
    return _CACHE[key]


def stabilized(stack, basis, space_dual):
    """Those matrices of a stack that map the span of basis into the space annihilated by space_dual."""
    if not len(basis) or not len(space_dual):
        return stack
    out = (basis.astype(np.uint8) @ stack % 2) @ space_dual.T.astype(np.uint8) % 2
    return stack[~out.any(axis=(1, 2))]


def logical_action(mat, ops, k):
    """2k x 2k matrix of the action of a symplectic matrix on the logical operators, modulo stabilizers."""
    f = GF(2)
    images = f.matmul(ops, mat)
    # coefficient of X_i is <image, Z_i>, coefficient of Z_i is <X_i, image>
    return np.hstack([f.sform(images, ops[k:]), f.sform(images, ops[:k])])


def symplectic_of(tableau):
    x2x, x2z, z2x, z2z, *_ = tableau.to_numpy()
    return np.vstack([np.hstack([x2x, x2z]), np.hstack([z2x, z2z])]).astype(int)


def text(row):
    n = len(row) // 2
    return "".join("IZXY"[2 * int(row[i]) + int(row[i + n])] for i in range(n))


class Signed:
    """A stabilizer group with signs, generated by positive Pauli strings, and logical operators."""

    def __init__(self, rows, n):
        import stim

        self.n = n
        self.f = GF(2)
        self.rows = np.asarray(rows, dtype=int).reshape(-1, 2 * n)
        self.strings = [stim.PauliString(text(row)) for row in self.rows]

    def product(self, coeffs):
        import stim

        out = stim.PauliString(self.n)
        for c, s in zip(coeffs, self.strings):
            if c:
                out = out * s
        return out

    def remainder(self, string):
        """+1/-1 if a Pauli string is plus/minus a member of the group, otherwise None."""
        row = row_of(string)
        coeffs = solve(self.rows, row)
        if coeffs is None:
            return None
        diff = self.product(coeffs) * string
        return int((diff.sign).real) if diff.sign in (1, -1) else None


def row_of(string):
    xs, zs = string.to_numpy()
    return np.concatenate([xs, zs]).astype(int)


def solve(rows, target):
    """Coefficients c with c @ rows = target over GF(2), or None."""
    m = len(rows)
    aug = np.hstack([rows, np.eye(m, dtype=int)]) % 2 if m else np.zeros((0, len(target)), dtype=int)
    target, coeffs = target.copy() % 2, np.zeros(m, dtype=int)
    aug = aug.copy()
    r = 0
    n = rows.shape[1]
    for col in range(n):
        piv = next((i for i in range(r, m) if aug[i, col]), None)
        if piv is not None:
            aug[[r, piv]] = aug[[piv, r]]
            for i in range(m):
                if i != r and aug[i, col]:
                    aug[i] ^= aug[r]
            if target[col]:
                target ^= aug[r, :n]
                coeffs ^= aug[r, n:]
            r += 1
        elif target[col]:
            return None
    return None if target.any() else coeffs


class Code:
    """Reference data of a code whose logical operators are those of the library."""

    def __init__(self, code):
        from qldpc import codes

        self.code, self.n = code, len(code)
        self.truth = Truth(2, mats.to_int(code.matrix), self.n)
        self.ops = mats.to_int(codes.QuditCode.get_logical_ops(code))
        self.k = self.truth.k
        self.group = Signed(mats.to_int(code.get_stabilizer_ops(canonicalized=True)), self.n)

    def automorphisms(self, gates):
        return stabilized(permitted_stack(self.n, gates), self.truth.gauge, GF(2).null_space(self.truth.gauge) if len(self.truth.gauge) else np.zeros((0, 0)))

    def deformations(self, gates):
        """Permitted operations that preserve the span of the logical operators."""
        return stabilized(permitted_stack(self.n, gates), self.ops, GF(2).null_space(self.ops) if self.k else np.zeros((0, 0)))


def gate_problem(circuit, n, gates):
    """Is the circuit made of Paulis, permitted local Cliffords and (if permitted) permutations?"""
    full = circuit.copy()
    full.append("I", [n - 1])
    mat = symplectic_of(full.to_tableau())
    if len(mat) != 2 * n:
        return "acts on other qubits", mat
    stack = permitted_stack(n, gates)
    if not (stack == mat.astype(np.uint8)).all(axis=(1, 2)).any():
        return "is not made of permitted local gates and permutations", mat
    names = {inst.name for inst in circuit}
    if names & {"CX", "CZ", "CY", "ISWAP", "M", "R"} or ("SWAP" not in gates and "SWAP" in names):
        return f"contains forbidden gates {names}", mat
    return None, mat


def true_logical(ref, circuit, target_ops=None, group=None):
    """(matrix, signs) of the logical action of a circuit, None if it is not a logical operation."""
    import stim

    ops = ref.ops if target_ops is None else target_ops
    group = group or ref.group
    full = circuit.copy()
    full.append("I", [ref.n - 1])
    tab = full.to_tableau()
    k = ref.k
    strings = [stim.PauliString(text(row)) for row in ops]
    mats_out, signs = [], []
    f = GF(2)
    for row in ref.ops:
        image = tab(stim.PauliString(text(row)))
        r = row_of(image)
        coeffs = np.concatenate([f.sform(r[None], ops[k:])[0], f.sform(r[None], ops[:k])[0]])
        # the canonical logical Pauli string with these coefficients: i^(x.z) X^x Z^z, which is Hermitian
        want = stim.PauliString(ref.n)
        for c, s in zip(coeffs, strings):
            if c:
                want = want * s
        want = want * (1j ** int(coeffs[:k] @ coeffs[k:]))
        rest = group.remainder(want * image)
        if rest is None:
            return None
        mats_out.append(coeffs)
        signs.append(rest)
    return np.array(mats_out).reshape(2 * k, 2 * k), signs


def tableau_data(tableau):
    *_, xs, zs = tableau.to_numpy()
    return symplectic_of(tableau), [-1 if s else 1 for s in np.concatenate([xs, zs])]


def same_logical(ref, circuit, tableau, group=None, target_ops=None):
    got = true_logical(ref, circuit, target_ops, group)
    if got is None:
        return "the circuit is not a logical operation"
    mat, signs = tableau_data(tableau)
    if not np.array_equal(got[0], mat):
        return f"the circuit acts as {got[0].tolist()}, not {mat.tolist()}"
    if got[1] != signs:
        return f"the circuit acts with signs {got[1]}, not {signs}"
    return None


def preserves(group, circuit, n, target=None):
    full = circuit.copy()
    full.append("I", [n - 1])
    tab = full.to_tableau()
    return all((target or group).remainder(tab(s)) == 1 for s in group.strings)


def mat_key(mat):
    return np.asarray(mat, dtype=np.uint8).tobytes()


def generated(gens, dim, limit=100_000):
    """Group generated by invertible matrices over GF(2)."""
    ident = np.eye(dim, dtype=int)
    seen, todo = {mat_key(ident): ident}, [ident]
    while todo:
        x = todo.pop()
        for g in gens:
            y = x @ g % 2
            if mat_key(y) not in seen:
                seen[mat_key(y)] = y
                todo.append(y)
        if len(seen) > limit:
            return None
    return seen


def random_logical(ctx, k):
    import stim

    return stim.Tableau.random(k) if ctx.rng.random() < 0.5 else one_gate(ctx, k)


def one_gate(ctx, k):
    import stim

    gates = ["I", "X", "Y", "Z", "H", "S", "S_DAG", "SQRT_X", "SQRT_X_DAG", "C_XYZ", "C_ZYX", "H_XY", "H_YZ"] + (["CX", "CZ", "SWAP", "CY"] if k > 1 else [])
    circuit = stim.Circuit()
    gate = gates[ctx.rng.integers(len(gates))]
    circuit.append(gate, [int(q) for q in ctx.rng.choice(k, 2 if gate in ("CX", "CZ", "SWAP", "CY") else 1, replace=False)])
    circuit.append("I", [k - 1])
    return circuit.to_tableau()


def tableau_from(mat, rng):
    """A stim tableau with a given symplectic matrix, and random signs."""
    import stim

    k = len(mat) // 2
    b = np.asarray(mat, dtype=bool)
    return stim.Tableau.from_numpy(x2x=b[:k, :k], x2z=b[:k, k:], z2x=b[k:, :k], z2z=b[k:, k:], x_signs=rng.random(k) < 0.5, z_signs=rng.random(k) < 0.5)


def explore(ctx, code, gates, label, queries=4):
    from qldpc import circuits

    ref = Code(code)
    n, k = ref.n, ref.k
    autos = ref.automorphisms(gates)
    actions = {}
    for mat in autos:
        act = logical_action(mat.astype(int), ref.ops, k)
        actions.setdefault(mat_key(act), act)
    ctx.case("transversal", len(actions) > 1, code=label, checks=ref.truth.checks, gates=gates)
    if ref.truth.subsystem:
        ctx.see("subsystem")

    # the automorphism group is that of the code, as permutations of Pauli sectors
    group = circuits.get_transversal_automorphism_group(code, gates)
    ctx.check(group.order == len(autos), "automorphisms", f"automorphism group of order {group.order}, expected {len(autos)}")

    for redundant in (True, False):
        ops = circuits.get_transversal_ops(code, gates, remove_redundancies=redundant)
        mats_seen = []
        for tableau, circuit in ops:
            problem, mat = gate_problem(circuit, n, gates)
            ctx.check(problem is None, "op-gates", f"the circuit {problem}", circuit=str(circuit))
            ctx.check(preserves(ref.group, circuit, n), "op-stabilizers", "the circuit does not preserve the stabilizer group with its signs", circuit=str(circuit))
            problem = same_logical(ref, circuit, tableau)
            ctx.check(problem is None, "op-logical", problem or "", circuit=str(circuit))
            got = circuits.get_logical_tableau(code, circuit)
            ctx.check(got == tableau, "tableau", "get_logical_tableau disagrees with the reported tableau", circuit=str(circuit))
            ctx.see("ops")
            mats_seen.append(symplectic_of(tableau))
        if redundant:
            keys = [mat_key(m) for m in mats_seen]
            ctx.check(len(set(keys)) == len(keys) and mat_key(np.eye(2 * k)) not in keys, "nonredundant", "redundant operations are reported")
        span = generated(mats_seen, 2 * k)
        ctx.check(span is not None and set(span) == set(actions), "group", f"the operations generate {len(span or [])} logical operations, but {len(actions)} exist")

    # look for specific operations
    targets = []
    keys = sorted(actions)
    for _ in range(queries):
        targets.append(tableau_from(actions[keys[ctx.rng.integers(len(keys))]], ctx.rng))
        targets.append(random_logical(ctx, k))
    found = circuits.get_transversal_circuits(code, targets, gates)
    ctx.check(len(found) == len(targets), "found", "number of circuits")
    for pos, (target, circuit) in enumerate(zip(targets, found)):
        exists = mat_key(symplectic_of(target)) in actions
        if circuit is None:
            ctx.check(not exists, "not-found" if not exists else "found", "an existing transversal operation is not found", target=str(target))
            continue
        ctx.check(exists, "found", "a circuit is reported for an operation that cannot exist", circuit=str(circuit))
        problem, _ = gate_problem(circuit, n, gates)
        ctx.check(problem is None, "op-gates", f"the circuit {problem}", circuit=str(circuit))
        ctx.check(preserves(ref.group, circuit, n), "op-stabilizers", "the circuit does not preserve the stabilizer group with its signs", circuit=str(circuit))
        problem = same_logical(ref, circuit, target)
        ctx.check(problem is None, "exact", problem or "", circuit=str(circuit), target=str(target))
        ctx.check(circuits.get_logical_tableau(code, circuit) == target, "tableau", "logical tableau of the circuit that was found")
        if pos == 0:
            again = circuits.get_transversal_circuit(code, target.to_circuit(), gates)
            ctx.check(again is not None and same_logical(ref, again, target) is None, "exact", "single request given as a circuit")

    # products of permitted automorphisms and Pauli operators that preserve the signs, as arbitrary circuits
    encoder, decoder = circuits.get_encoder_and_decoder(code)
    ctx.check(encoder.then(decoder) == decoder.then(encoder) and str(encoder.then(decoder)) == str(type(encoder)(n)), "encoder", "the decoder does not invert the encoder")
    known = [c for _, c in circuits.get_transversal_ops(code, gates, remove_redundancies=False)]
    if known:
        import stim

        for _ in range(3):
            total = stim.Circuit()
            for _ in range(int(ctx.rng.integers(1, 4))):
                total += known[ctx.rng.integers(len(known))]
                logical = ref.ops[ctx.rng.integers(2 * k)]
                for letter, q in zip(text(logical), range(n)):
                    if letter != "I" and ctx.rng.random() < 2:
                        total.append(letter, [q])
            want = true_logical(ref, total)
            got = tableau_data(circuits.get_logical_tableau(code, total))
            ctx.check(want is not None and np.array_equal(want[0], got[0]) and want[1] == got[1], "tableau", "logical tableau of a product of operations", circuit=str(total))


def explore_deform(ctx, code, gates, label):
    from qldpc import circuits, codes

    ref = Code(code)
    n, k = ref.n, ref.k
    autos = ref.deformations(gates)
    if len(autos) > 3000:
        return
    actions = {}
    for mat in autos:
        act = logical_action(mat.astype(int), ref.ops, k)
        actions.setdefault(mat_key(act), act)
    ctx.case("deform", len(actions) > 1, code=label, checks=ref.truth.checks, gates=gates)
    group = circuits.get_transversal_automorphism_group(code, gates, deform_code=True)
    ctx.check(group.order == len(autos), "deform-group", f"group of deformations of order {group.order}, expected {len(autos)}")
    ctx.see("deform")

    def judge(circuit, tableau):
        problem, _ = gate_problem(circuit, n, gates)
        ctx.check(problem is None, "op-gates", f"the circuit {problem}", circuit=str(circuit))
        deformed = code.deformed(circuit, preserve_logicals=True)
        ops = mats.to_int(codes.QuditCode.get_logical_ops(deformed))
        ctx.check(np.array_equal(ops, ref.ops), "deform-op", "the deformed code does not keep the logical operators")
        target = Signed(mats.to_int(deformed.get_stabilizer_ops(canonicalized=True)), n)
        ctx.check(preserves(ref.group, circuit, n, target), "op-stabilizers", "the circuit does not map the stabilizers to those of the deformed code", circuit=str(circuit))
        problem = same_logical(ref, circuit, tableau, target)
        ctx.check(problem is None, "deform-op", problem or "", circuit=str(circuit))
        ctx.check(circuits.get_logical_tableau(code, circuit, deform_code=True) == tableau, "tableau", "get_logical_tableau with a deformed code")

    ops = circuits.get_transversal_ops(code, gates, deform_code=True)
    for tableau, circuit in ops:
        judge(circuit, tableau)
    span = generated([symplectic_of(t) for t, _ in ops], 2 * k)
    ctx.check(span is not None and set(span) == set(actions), "deform-group", f"the operations generate {len(span or [])} logical operations, but {len(actions)} exist")
    keys = sorted(actions)
    targets = [tableau_from(actions[keys[ctx.rng.integers(len(keys))]], ctx.rng) for _ in range(2)] + [random_logical(ctx, k) for _ in range(2)]
    for target, circuit in zip(targets, circuits.get_transversal_circuits(code, targets, gates, deform_code=True)):
        exists = mat_key(symplectic_of(target)) in actions
        ctx.check(exists == (circuit is not None), "deform", f"an operation that {'exists' if exists else 'does not exist'} is {'not ' * (circuit is None)}found", target=str(target))
        if circuit is not None and exists:
            judge(circuit, target)


def random_code(ctx, kinds, min_n, max_n):
    """A code with logical qubits, and enough checks for a small automorphism group."""
    from qldpc import codes

    while True:
        kind, n, checks = qcodes.random_checks(ctx.rng, 2, kinds[ctx.rng.integers(len(kinds))], max_n=max_n, min_n=min_n)
        truth = Truth(2, checks, n)
        if truth.k and truth.r >= max(1, n - 2) and truth.k <= 2:
            code = codes.QuditCode(checks, 2)
            if ctx.rng.random() < 0.3:
                ops = GF(2).matmul(qcodes.random_symplectic(ctx.rng, 2, truth.k), mats.to_int(code.get_logical_ops()))
                code.set_logical_ops(ops)
            return code, kind


def named(codes):
    return {
        "five": lambda: codes.FiveQubitCode(), "c4": lambda: codes.C4Code(), "surface2": lambda: codes.SurfaceCode(2), "bacon2": lambda: codes.BaconShorCode(2),
        "cat3": lambda: codes.QuditCode.from_strings("Z Z I", "I Z Z"), "xyz": lambda: codes.QuditCode.from_strings("X Y Z", "Y X Z"),
        "cat4": lambda: codes.QuditCode.from_strings("X X I I", "I X X I", "I I X X"), "idle": lambda: codes.QuditCode.from_strings("X X I", "Z Z I"),
        "yy": lambda: codes.QuditCode.from_strings("Y Y I", "I Y Y"),
        # two qubits: several gate sets generate groups of the same order on the same instrumental code
        "xx": lambda: codes.QuditCode.from_strings("X X"), "zz": lambda: codes.QuditCode.from_strings("Z Z"),
        "yy2": lambda: codes.QuditCode.from_strings("Y Y"), "xz2": lambda: codes.QuditCode.from_strings("X Z"), "gauge": lambda: codes.QuditCode.from_strings("X X I", "Z Z I", "I I Z", "I X X"),
    }


def total_size(n, gates):
    return len(allowed_local(gates)) ** n * (int(np.prod(range(1, n + 1))) if "SWAP" in gates else 1)


def run_named(ctx, name, sets):
    from qldpc import codes

    use_standin()
    for gates in sets:
        code = named(codes)[name]()
        if not code.dimension or total_size(len(code), gates) > 40_000 and not ctx.thorough:
            continue
        explore(ctx, code, gates, name)


def run_named_deform(ctx, name, sets):
    from qldpc import codes

    use_standin()
    for gates in sets:
        code = named(codes)[name]()
        if not code.dimension or total_size(len(code), gates) > 40_000:
            continue
        explore_deform(ctx, code, gates, name)


def run_random(ctx, kinds, min_n, max_n, num, deform, sets=GATE_SETS):
    use_standin()
    for _ in range(num):
        code, kind = random_code(ctx, kinds, min_n, max_n)
        gates = sets[ctx.rng.integers(len(sets))]
        if not gates or () in sets:
            # few repeated columns, for a small group to search in
            rows = mats.to_int(code.matrix)
            n = len(code)
            cols = np.hstack([rows, rows[:, :n] ^ rows[:, n:]]).T
            if len({tuple(c) for c in cols}) < 3 * n - 5:
                continue
        gates = (list, tuple, set)[ctx.rng.integers(3)](gates)
        gates = sorted(gates) if isinstance(gates, set) else gates
        if total_size(len(code), gates) > 40_000:
            continue
        (explore_deform if deform else explore)(ctx, code, tuple(gates), kind)


def run_reject(ctx):
    import stim

    from qldpc import circuits, codes

    use_standin()
    code = codes.FiveQubitCode()
    for gates in (["SQRT_Y"], ["CX"], ["S", "T"], ["X"], ["H", "SWAP", "CZ"]):
        ctx.case("reject", True, gates=gates)
        ctx.raises(ValueError, "reject", circuits.get_transversal_automorphism_group, code, gates, msg=f"local gates {gates}")
        ctx.raises(ValueError, "reject", circuits.get_transversal_ops, code, gates, msg=f"local gates {gates}")
        ctx.raises(ValueError, "reject", circuits.get_transversal_circuit, code, stim.Circuit("H 0"), gates, msg=f"local gates {gates}")
    for q in (3, 4):
        code = codes.SurfaceCode(2, field=q)
        ctx.raises(ValueError, "reject", circuits.get_transversal_ops, code, msg="a code of qudits")
        ctx.raises(ValueError, "reject", circuits.get_transversal_circuits, code, [stim.Circuit("H 0")], msg="a code of qudits")
        ctx.raises(ValueError, "reject", circuits.get_logical_tableau, code, stim.Circuit("H 0"), msg="a code of qudits")
        ctx.raises(ValueError, "reject", circuits.get_transversal_automorphism_group, code, msg="a code of qudits")
    # operations on more logical qubits than there are
    code = codes.FiveQubitCode()
    ctx.check(circuits.get_transversal_circuit(code, stim.Circuit("CX 0 1"), ["H", "S"]) is None, "reject", "a two-qubit gate of one logical qubit")


def wires(qubits, gates, rng, num):
    """Random gates of the given (name, number of qubits) on the given wires."""
    import stim

    out = stim.Circuit()
    for _ in range(num):
        name, size = gates[rng.integers(len(gates))]
        if len(qubits) >= size:
            out.append(name, [int(q) for q in rng.choice(qubits, size, replace=False)])
    return out


def run_tableaus(ctx, kinds, max_n, num):
    """Logical tableaus of arbitrary physical circuits: any Clifford action on logical and gauge qubits, and
    anything that acts trivially on the code space, conjugated by an encoder; and circuits that do not respect the code."""
    import stim

    from qldpc import circuits, codes

    done = 0
    while done < num:
        kind, n, checks = qcodes.random_checks(ctx.rng, 2, kinds[ctx.rng.integers(len(kinds))], max_n=max_n, min_n=2)
        truth = Truth(2, checks, n)
        if not truth.k:
            continue
        done += 1
        code = codes.QuditCode(checks, 2)
        if ctx.rng.random() < 0.4:
            code.set_logical_ops(GF(2).matmul(qcodes.random_symplectic(ctx.rng, 2, truth.k), mats.to_int(code.get_logical_ops())))
        ref = Code(code)
        encoder = circuits.get_encoding_tableau(code)
        logical, gauge, rest = np.split(np.arange(n), [truth.k, truth.k + truth.g])
        any_gate = [("H", 1), ("S", 1), ("SQRT_X", 1), ("CX", 2), ("CZ", 2), ("X", 1), ("Y", 1), ("Z", 1), ("SWAP", 2), ("C_XYZ", 1)]

        def allowed():
            circuit = wires(logical, any_gate, ctx.rng, 4) + wires(gauge, any_gate, ctx.rng, 4)
            circuit += wires(rest, [("S", 1), ("CX", 2), ("CZ", 2), ("Z", 1), ("SWAP", 2)], ctx.rng, 4)
            if len(rest):  # controlled on stabilizer qubits, which are in the state |0>
                for gate in ("CX", "CZ", "CY"):
                    circuit.append(gate, [int(ctx.rng.choice(rest)), int(ctx.rng.choice(np.concatenate([logical, gauge])))])
            return circuit + wires(logical, any_gate, ctx.rng, 3)

        def physical(circuit):
            full = circuit.copy()
            full.append("I", [n - 1])
            return encoder.inverse().then(full.to_tableau()).then(encoder).to_circuit("elimination")

        for _ in range(3):
            circuit = physical(allowed())
            ctx.case("tableau", True, kind=kind, checks=checks, circuit=str(circuit))
            want = true_logical(ref, circuit)
            if want is None:
                raise AssertionError("the harness made a circuit that is not a logical operation")
            got = tableau_data(circuits.get_logical_tableau(code, circuit))
            ctx.check(np.array_equal(want[0], got[0]) and want[1] == got[1], "tableau-any", "logical tableau of a logical circuit", circuit=str(circuit))
        bad = []
        if truth.g:
            bad += [("CX", logical, gauge), ("CX", gauge, logical), ("CZ", gauge, logical), ("SWAP", gauge, logical)]
        if len(rest):
            bad += [("CX", logical, rest), ("SWAP", logical, rest), ("H", rest, None)]
            if truth.g:
                bad += [("CX", gauge, rest), ("SWAP", gauge, rest)]
        for _ in range(3 if bad else 0):
            gate, a, b = bad[ctx.rng.integers(len(bad))]
            circuit = allowed()
            circuit.append(gate, [int(ctx.rng.choice(a))] + ([int(ctx.rng.choice(b))] if b is not None else []))
            circuit = physical(circuit + allowed())
            if true_logical(ref, circuit) is None:
                ctx.raises(Exception, "tableau-reject", circuits.get_logical_tableau, code, circuit, msg=f"a circuit that is not a logical operation ({gate})")


def units(tier, seed):
    from qldpc import codes

    big = tier == "thorough"
    out = [("reject", run_reject, ())]
    for name in named(codes):
        out.append((f"named-{name}", run_named, (name, GATE_SETS)))
        out.append((f"deform-{name}", run_named_deform, (name, GATE_SETS)))
    kinds = [["stabilizer"], ["css", "css-as-qudit"], ["subsystem", "gauge", "mixed-gauge", "css-subsystem"], ["stabilizer-sparse", "idle"]]
    for i, ks in enumerate(kinds):
        for rep in range(8 if big else 3):
            out.append((f"random-{i}-{rep}", run_random, (ks, 2, 4, 30 if big else 9, False)))
        out.append((f"random-deform-{i}", run_random, (ks, 2, 4, 60 if big else 12, True)))
    for i, ks in enumerate(kinds + [["subsystem", "gauge", "css-subsystem"]]):
        out.append((f"tableaus-{i}", run_tableaus, (ks, 6, 120 if big else 30)))
    # larger codes without permutations: often without any symmetry at all
    out.append(("random-rigid", run_random, (["stabilizer"], 6, 8, 120 if big else 40, False, [(), ("H",), ("S",), ("SQRT_X",)])))
    out.append(("random-subsystem", run_random, (["subsystem", "gauge", "mixed-gauge", "css-subsystem"], 2, 4, 60 if big else 12, False)))
    return out


COST = {"named-five": 5}
