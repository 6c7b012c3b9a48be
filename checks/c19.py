import itertools

import numpy as np

from vlib import mats, qcodes
from vlib.gf import GF
from vlib.qcodes import Truth

PROPERTY = "C19"
ROUNDS = {"quick": 3}  # the randomized units run this many times, with seeds of their own
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: encoding tableaus and circuits executed on a tableau simulator and on a dense state-vector simulator, observed through the code's own operators"
RULE = ("one case per qubit code (random stabilizer, subsystem and CSS codes, named codes, user-set logical operators, deformed, stacked and concatenated codes); "
        "non-trivial when the code has at least one stabilizer or logical operator")
REQUIRED = {"tableau": 250, "logical": 250, "stabilizer": 250, "gauge": 50, "clifford": 250, "circuit": 250, "state": 250, "dense": 90, "dense-logical": 60,
            "user-logicals": 40, "reject": 30, "input-untouched": 250, "subsystem": 50, "redundant": 60, "no-logicals": 20}

PAULI = {(0, 0): 0, (1, 0): 1, (1, 1): 2, (0, 1): 3}  # stim: I X Y Z
LETTERS = "IXYZ"


def to_row(string):
    """Symplectic row of a stim.PauliString."""
    codes = [string[i] for i in range(len(string))]
    return np.array([int(c in (1, 2)) for c in codes] + [int(c in (2, 3)) for c in codes])


def to_text(row):
    n = len(row) // 2
    return "".join(LETTERS[PAULI[int(row[i]), int(row[i + n])]] for i in range(n))


def apply_pauli(state, row):
    """Apply the positive Pauli string of a symplectic row to a state vector (qubit 0 first)."""
    n = len(row) // 2
    out = state
    for q in range(n):
        x, z = int(row[q]), int(row[q + n])
        if not x and not z:
            continue
        view = np.moveaxis(out.reshape((2,) * n), q, 0).copy()
        if x and z:
            view = np.stack([-1j * view[1], 1j * view[0]])
        elif x:
            view = view[::-1]
        else:
            view[1] *= -1
        out = np.ascontiguousarray(np.moveaxis(view, 0, q)).reshape(-1)
    return out


def run_circuit(circuit, state, n):
    import stim

    for inst in circuit.flattened():
        gate = stim.gate_data(inst.name)
        if inst.name in ("TICK", "QUBIT_COORDS"):
            continue
        mat = gate.unitary_matrix
        size = 1 if mat.shape == (2, 2) else 2
        targets = [t.value for t in inst.targets_copy()]
        for pos in range(0, len(targets), size):
            qubits = targets[pos : pos + size]
            view = np.moveaxis(state.reshape((2,) * n), qubits, range(size))
            shape = view.shape
            # two-qubit matrices are little endian: qubit order reversed
            if size == 2:
                view = np.swapaxes(view, 0, 1)
            view = (mat @ view.reshape(2**size, -1)).reshape(shape)
            if size == 2:
                view = np.swapaxes(view, 0, 1)
            state = np.ascontiguousarray(np.moveaxis(view, range(size), qubits)).reshape(-1)
    return state


def observe(ctx, code, logicals=None, dense=True):
    """Drive the encoder of a code, and judge it with the code's reference structure."""
    import stim

    from qldpc import circuits, codes

    checks = mats.to_int(code.matrix)
    n = len(code)
    truth = Truth(2, checks, n)
    f = GF(2)
    before = checks.copy()
    tableau = circuits.get_encoding_tableau(code)
    circuit = circuits.get_encoding_circuit(code)
    ctx.check(np.array_equal(mats.to_int(code.matrix), before), "input-untouched", "the code changed")
    ctx.check(isinstance(tableau, stim.Tableau) and len(tableau) == n, "tableau", f"tableau on {len(tableau)} qubits, code on {n}")
    if len(tableau) != n:
        return
    ops = mats.to_int(codes.QuditCode.get_logical_ops(code))
    if logicals is not None:
        ctx.check(np.array_equal(ops, logicals), "user-logicals", "the preset logical operators are not the ones that are encoded")
    k, g = truth.k, truth.g
    xs, zs = [tableau.x_output(j) for j in range(n)], [tableau.z_output(j) for j in range(n)]
    for j in range(k):
        ctx.check(str(xs[j]).replace("_", "I") == "+" + to_text(ops[j]), "logical", f"X_{j} is mapped to {xs[j]}, not {to_text(ops[j])}")
        ctx.check(str(zs[j]).replace("_", "I") == "+" + to_text(ops[k + j]), "logical", f"Z_{j} is mapped to {zs[j]}, not {to_text(ops[k + j])}")
    ctx.see("logical")
    rows_x, rows_z = np.array([to_row(s) for s in xs]), np.array([to_row(s) for s in zs])

    # the outputs are a symplectic basis
    form = f.sform(np.vstack([rows_x, rows_z]), np.vstack([rows_x, rows_z]))
    want = np.kron(np.array([[0, 1], [1, 0]]), np.eye(n, dtype=int))
    ctx.check(np.array_equal(form, want), "clifford", "the images of the Paulis do not have the commutation relations of Paulis")

    # beyond the logical qubits: gauge qubits and stabilizers
    stab = [j for j in range(k, n) if f.in_span(rows_z[j][None], truth.stab)] if truth.s else []
    ctx.check(len(stab) == truth.s and (not stab or f.same_span(rows_z[stab], truth.stab)), "stabilizer", f"{len(stab)} of the Z_j are mapped to stabilizers, expected {truth.s}")
    ctx.check(all(zs[j].sign == 1 for j in range(k, n)), "stabilizer", "a Z_j is mapped to a negative stabilizer or gauge operator")
    rest = [j for j in range(k, n) if j not in stab]
    if g and len(rest) == g:
        ctx.see("subsystem")
        gauge = mats.to_int(codes.QuditCode.get_gauge_ops(code))
        ctx.check(all(f.in_span(rows[j][None], truth.gauge) for j in rest for rows in (rows_x, rows_z)), "gauge", "a gauge qubit is not mapped into the gauge group")
        ctx.check({to_text(r) for r in rows_x[rest]} == {to_text(r) for r in gauge[:g]} and {to_text(r) for r in rows_z[rest]} == {to_text(r) for r in gauge[g:]}
                  and all(xs[j].sign == 1 for j in rest), "gauge", "gauge qubits are not mapped to the gauge operators")
    if len(checks) > truth.r:
        ctx.see("redundant")
    if not k:
        ctx.see("no-logicals")

    # the circuit is the tableau
    full = circuit.copy()
    full.append("I", [n - 1])
    ctx.check(circuit.num_qubits <= n and full.to_tableau() == tableau, "circuit", "the encoding circuit does not implement the encoding tableau")

    # the prepared state
    simulator = stim.TableauSimulator()
    simulator.do(full)
    gens = mats.to_int(code.get_stabilizer_ops(canonicalized=True))
    ok = all(simulator.peek_observable_expectation(stim.PauliString(to_text(row))) == 1 for row in gens)
    ok &= all(simulator.peek_observable_expectation(stim.PauliString(to_text(row))) == 1 for row in ops[k:])
    ctx.check(ok, "state", "the prepared state is not the logical all-zero state of the code")
    if dense and n <= 6:
        state = np.zeros(2**n, dtype=complex)
        state[0] = 1
        out = run_circuit(full, state, n)
        ok = all(np.allclose(apply_pauli(out, row), out, atol=1e-5) for row in np.vstack([gens, ops[k:]]))
        ctx.check(ok, "dense", "the state vector is not stabilized by the stabilizers and logical Z operators")
        for j in range(k):
            # a flipped input qubit is the state with the logical X applied
            flipped = np.zeros(2**n, dtype=complex)
            flipped[2 ** (n - 1 - j)] = 1
            got = run_circuit(full, flipped, n)
            ctx.check(np.allclose(got, apply_pauli(out, ops[j]), atol=1e-5), "dense-logical", f"input X_{j} is not the encoded logical X_{j}")
        for j in rest:
            flipped = np.zeros(2**n, dtype=complex)
            flipped[2 ** (n - 1 - j)] = 1
            got = run_circuit(full, flipped, n)
            ctx.check(np.allclose(got, apply_pauli(out, rows_x[j]), atol=1e-5), "dense-gauge", f"input X_{j} is not a gauge operator")


def run_qudit(ctx, kinds, num, max_n):
    from qldpc import codes

    for kind in kinds:
        for _ in range(num):
            kind, n, checks = qcodes.random_checks(ctx.rng, 2, kind, max_n=max_n)
            ctx.case("code", bool(checks.any()), kind=kind, checks=checks)
            code = codes.QuditCode(checks, 2)
            observe(ctx, code)
            truth = Truth(2, checks, n)
            if truth.k:
                # another logical basis, set by the user
                ops = mats.to_int(code.get_logical_ops())
                sym = qcodes.random_symplectic(ctx.rng, 2, truth.k)
                f = GF(2)
                new = f.matmul(sym, ops)
                if truth.s:
                    new = f.add(new, f.matmul(f.random(ctx.rng, (2 * truth.k, truth.s)), truth.stab))
                ctx.case("user-logicals", True, kind=kind, checks=checks, logicals=new)
                code = codes.QuditCode(checks, 2)
                code.set_logical_ops(new)
                observe(ctx, code, new)


def run_dense_checks(ctx, num, max_n):
    """Subsystem codes of independent, dense random checks: logical, gauge and stabilizer operators that overlap everywhere."""
    from qldpc import codes

    for trial in range(num):
        n = int(ctx.rng.integers(3, max_n + 1))
        css = ctx.rng.random() < 0.7
        if css:
            mx, mz = (ctx.rng.integers(0, 2, (int(ctx.rng.integers(1, n)), n)) for _ in range(2))
            ctx.case("dense-css", bool(mx.any() or mz.any()), mx=mx, mz=mz)
            code = codes.CSSCode(mx, mz, 2, is_subsystem_code=True)
        else:
            checks = ctx.rng.integers(0, 2, (int(ctx.rng.integers(2, 2 * n)), 2 * n))
            ctx.case("dense-checks", bool(checks.any()), checks=checks)
            code = codes.QuditCode(checks, 2, is_subsystem_code=True)
        if overlaps(code):
            ctx.see("gauge-overlap")
        observe(ctx, code, dense=n <= 8 and trial % 3 == 0)


def overlaps(code):
    """Does a single-qubit Pauli that flips a canonical stabilizer (at its pivot) also anticommute with gauge operators?"""
    stab, gauge, n = mats.to_int(code.get_stabilizer_ops(canonicalized=True)), mats.to_int(code.get_gauge_ops()), len(code)
    if not len(stab) or not len(gauge):
        return False
    pivots = np.argmax(stab != 0, axis=1)
    return bool(gauge[:, pivots].any())


def run_css(ctx, num, max_n, subsystem):
    from qldpc import codes

    f = GF(2)
    for trial in range(num):
        mx, mz = qcodes.random_css(ctx.rng, 2, max_n=max_n, subsystem=subsystem)
        ctx.case("css", bool(mx.any() or mz.any()), mx=mx, mz=mz)
        code = codes.CSSCode(mx, mz, 2)
        if trial % 2:
            code.get_logical_ops()
            if code.dimension and trial % 4 == 1 and hasattr(code, "reduce_logical_ops"):
                code.reduce_logical_ops()
        observe(ctx, code)
        k = code.dimension
        if k:
            lx, lz = mats.to_int(code.get_logical_ops(codes.common.Pauli.X)), mats.to_int(code.get_logical_ops(codes.common.Pauli.Z))
            mix = mats.random_invertible(ctx.rng, 2, k)
            lx, lz = f.matmul(mix, lx[:, -len(code):] if lx.shape[1] == len(code) else lx), f.matmul(f.inverse(mix).T, lz)
            code = codes.CSSCode(mx, mz, 2)
            code.set_logical_ops_xz(lx, lz)
            full = np.vstack([np.hstack([lx, np.zeros_like(lx)]), np.hstack([np.zeros_like(lz), lz])])
            ctx.case("css-user-logicals", True, mx=mx, mz=mz, lx=lx, lz=lz)
            observe(ctx, code, full)


def run_named(ctx, which):
    import stim

    from qldpc import codes

    rng = ctx.rng
    makers = {
        "five": lambda: codes.FiveQubitCode(), "steane": lambda: codes.SteaneCode(), "iceberg4": lambda: codes.IcebergCode(4), "iceberg6": lambda: codes.IcebergCode(6),
        "c4": lambda: codes.C4Code(), "c6": lambda: codes.C6Code(), "surface": lambda: codes.SurfaceCode(2), "surface3": lambda: codes.SurfaceCode(3),
        "rect": lambda: codes.SurfaceCode(2, 3, rotated=False), "toric": lambda: codes.ToricCode(2), "toric-r": lambda: codes.ToricCode(4, rotated=True),
        "bacon": lambda: codes.BaconShorCode(2), "bacon23": lambda: codes.BaconShorCode(2, 3), "bacon3": lambda: codes.BaconShorCode(3), "shyps": lambda: codes.SHYPSCode(2),
        "hgp": lambda: codes.HGPCode(codes.ClassicalCode.random(4, 2, field=2, seed=int(rng.integers(1000)))),
        "shp": lambda: codes.SHPCode(codes.HammingCode(2), codes.RepetitionCode(3)),
        "ghz": lambda: codes.QuditCode(codes.CSSCode(codes.RepetitionCode(4), [[1] * 4]).matrix, 2),
        "trivial": lambda: codes.TrivialCode(3) if hasattr(codes, "TrivialCode") and False else codes.QuditCode(np.zeros((1, 6), dtype=int), 2),
    }
    for name in which:
        ctx.case("named", True, name=name)
        observe(ctx, makers[name]())
    small = ["five", "steane", "c4", "surface", "bacon", "iceberg4"]
    for name in which:
        if name not in small:
            continue
        code = makers[name]()
        gates = ["H", "S", "CX", "CZ", "SQRT_X", "SWAP", "C_XYZ"]
        for _ in range(3):
            circuit = stim.Circuit()
            for _ in range(int(rng.integers(1, 8))):
                gate = gates[rng.integers(len(gates))]
                size = 2 if gate in ("CX", "CZ", "SWAP") else 1
                circuit.append(gate, [int(x) for x in rng.choice(len(code), size, replace=False)])
            ctx.case("deformed", True, name=name, circuit=str(circuit))
            observe(ctx, code.deformed(circuit))
        other = makers[small[rng.integers(len(small))]]()
        ctx.case("stack", True, name=name)
        observe(ctx, codes.QuditCode.stack(code, other, inherit_logicals=True), dense=False)
        if code.dimension == 1:
            ctx.case("concatenate", True, name=name)
            outer = codes.QuditCode(codes.C4Code().matrix, 2) if rng.random() < 0.5 else codes.FiveQubitCode()
            observe(ctx, codes.QuditCode.concatenate(code, outer), dense=False)


def run_reject(ctx, num):
    from qldpc import circuits, codes

    for q in (3, 4, 5):
        for _ in range(num):
            _, _, checks = qcodes.random_checks(ctx.rng, q, ["stabilizer", "css", "gauge"][ctx.rng.integers(3)], max_n=3)
            checks = checks if ctx.rng.random() < 0.5 else (checks != 0).astype(int)
            code = codes.QuditCode(checks, q)
            ctx.case("reject", True, q=q, checks=checks)
            for func in (circuits.get_encoding_tableau, circuits.get_encoding_circuit):
                ctx.raises(ValueError, "reject", func, code, msg="a code of qudits")
                ctx.raises(ValueError, "reject", func, code=code, msg="a code of qudits")
        code = codes.SurfaceCode(2, field=q)
        ctx.raises(ValueError, "reject", circuits.get_encoding_circuit, code, msg="a surface code of qudits")


def units(tier, seed):
    big = tier == "thorough"
    out = [("reject", run_reject, (12 if big else 3,))]
    for kind in qcodes.KINDS:
        for rep in range(4 if big else 1):
            out.append((f"qudit-{kind}-{rep}", run_qudit, ([kind], 60 if big else 24, 6 if rep < 2 else 9)))
    for sub in (False, True):
        for rep in range(4 if big else 1):
            out.append((f"css-{sub}-{rep}", run_css, (80 if big else 40, 7 if rep < 2 else 11, sub)))
    for rep in range(6 if big else 2):
        out.append((f"dense-{rep}", run_dense_checks, (300 if big else 150, 8 if rep % 2 == 0 else 20)))
    out += [("named-a", run_named, (["five", "steane", "iceberg4", "iceberg6", "c4", "c6"],)),
            ("named-b", run_named, (["surface", "surface3", "rect", "toric", "toric-r", "hgp", "ghz", "trivial"],)),
            ("named-c", run_named, (["bacon", "bacon23", "bacon3", "shyps", "shp"],))]
    return out
