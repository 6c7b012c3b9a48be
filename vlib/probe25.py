"""Named deterministic constructions, digested: run in several processes and compared (C25)."""

from __future__ import annotations

import json
import sys

import numpy as np

from vlib import digests


def probes():
    import sympy

    from qldpc import abstract, circuits, codes, decoders, objects
    from qldpc.codes.common import get_random_array

    import galois

    out = {}

    def add(name, func):
        out[name] = func

    for q in (2, 3, 4, 9):
        for seed in (0, 1, 7, 2**31 - 1, 2**32 - 1):
            add(f"classical-random-{q}-{seed}", lambda q=q, seed=seed: codes.ClassicalCode.random(6, 3, field=q, seed=seed))
            add(f"word-{q}-{seed}", lambda q=q, seed=seed: codes.HammingCode(2, q).get_random_word(seed=seed))
            add(f"array-{q}-{seed}", lambda q=q, seed=seed: get_random_array(galois.GF(q), (3, 4), seed=seed))
            add(f"array-satisfy-{q}-{seed}", lambda q=q, seed=seed: get_random_array(
                galois.GF(q), (2, 2), satisfy=lambda a: np.linalg.matrix_rank(a) == 2, seed=seed))
    css = {"steane": codes.SteaneCode, "c6": codes.C6Code, "toric": lambda: codes.ToricCode(4, rotated=True, field=3),
           "bacon": lambda: codes.BaconShorCode(3), "surface4": lambda: codes.SurfaceCode(3, rotated=False, field=4)}
    for name, build in css.items():
        for seed in (0, 3, 99991):
            for pauli in objects.PAULIS_XZ:
                for flag in (False, True):
                    add(f"logical-{name}-{seed}-{pauli}-{flag}", lambda build=build, pauli=pauli, flag=flag, seed=seed:
                        build().get_random_logical_op(pauli, ensure_nontrivial=flag, seed=seed))
        add(f"ops-{name}", lambda build=build: build().get_logical_ops())
        add(f"stabs-{name}", lambda build=build: build().get_stabilizer_ops())
        add(f"graph-{name}", lambda build=build: build().graph)
        add(f"strings-{name}", lambda build=build: build().get_strings())
    groups = {
        "C12": lambda: abstract.CyclicGroup(12), "D6": lambda: abstract.DihedralGroup(6), "Q8": abstract.QuaternionGroup,
        "S5": lambda: abstract.SymmetricGroup(5), "A6": lambda: abstract.AlternatingGroup(6), "S9": lambda: abstract.SymmetricGroup(9),
        "AB": lambda: abstract.AbelianGroup(2, 3, 2), "prod": lambda: abstract.CyclicGroup(3) * abstract.SymmetricGroup(3),
        "C20": lambda: abstract.CyclicGroup(20), "SL": lambda: abstract.SL(2, 3), "PSL": lambda: abstract.PSL(2, 5), "trivial": abstract.TrivialGroup,
    }
    for name, build in groups.items():
        for seed in (0, 1, 5, 123456789):
            add(f"member-{name}-{seed}", lambda build=build, seed=seed: build().random(seed=seed))
            if name != "trivial":
                add(f"subset-{name}-{seed}", lambda build=build, seed=seed: build().random_symmetric_subset(3 if build().order % 2 == 0 else 4, seed=seed))
                add(f"subset-id-{name}-{seed}", lambda build=build, seed=seed: build().random_symmetric_subset(2, exclude_identity=True, seed=seed))
        # odd sizes: pairs of inverses pile up before a self-inverse member appears, and some of them are dropped again
        if name in ("C12", "C20", "D6", "SL", "AB", "prod", "S5"):
            for size in (1, 3, 5):
                add(f"subsets-{name}-{size}", lambda build=build, size=size: (lambda g: [g.random_symmetric_subset(size, seed=seed) for seed in range(24)])(build()))
        if name not in ("S9",):
            add(f"enum-{name}", lambda build=build: list(build().generate()) if build().order < 400 else 0)
            add(f"table-{name}", lambda build=build: build().table if build().order <= 60 else 0)
    for seed in (0, 2, 11):
        add(f"qtcode-{seed}", lambda seed=seed: codes.QTCode.random(abstract.CyclicGroup(12), codes.RepetitionCode(4), seed=seed))
        add(f"qtcode-D6-{seed}", lambda seed=seed: codes.QTCode.random(abstract.DihedralGroup(6), codes.RepetitionCode(4), seed=seed))
        add(f"qtcode-one-{seed}", lambda seed=seed: codes.QTCode.random(
            abstract.CyclicGroup(10), codes.RepetitionCode(3, field=3), one_subset=True, seed=seed))
        add(f"qtcode-bip-{seed}", lambda seed=seed: codes.QTCode.random(
            abstract.DihedralGroup(7), codes.RepetitionCode(2), codes.RepetitionCode(2), bipartite=True, seed=seed))
    # deterministic constructions and queries that go through sets, graphs and dictionaries
    x, y = sympy.symbols("x y")
    add("bb-layouts", lambda: codes.BBCode({x: 3, y: 3}, 1 + x + y, 1 + y + x * y).get_equivalent_toric_layout_code_data())
    add("bb", lambda: codes.BBCode({x: 6, y: 3}, x**3 + y + y**2, y**3 + x + x**2))
    add("qc-swapped", lambda: codes.QCCode([4, 3], y + x + x**2, x + y**2))
    add("hgp-graph", lambda: codes.HGPCode.get_graph_product(codes.RingCode(3).graph, codes.HammingCode(2).graph))
    add("hgp", lambda: codes.HGPCode(codes.HammingCode(3), codes.RepetitionCode(3)))
    add("cayley", lambda: (lambda c: [c.cover_subset_a, c.cover_subset_b, c.graph])(objects.CayleyComplex(*subsets(abstract.DihedralGroup(4)))))
    add("qtgraphs", lambda: list(codes.QTCode.get_subgraphs(objects.CayleyComplex(*subsets(abstract.CyclicGroup(9))))))
    add("qt", lambda: codes.QTCode(*subsets(abstract.DihedralGroup(4)), codes.RepetitionCode(3), bipartite=False))
    add("tanner", lambda: codes.TannerCode(tanner_graph(), codes.RepetitionCode(3)))
    add("concat", lambda: codes.CSSCode.concatenate(codes.C4Code(), codes.C6Code()))
    add("concat-wires", lambda: codes.CSSCode.concatenate(codes.C4Code(), codes.C4Code(), {0: 2, 1: 0, 2: 1, 3: 3}))
    add("encoder", lambda: circuits.get_encoding_circuit(codes.SteaneCode()))
    add("encoder5", lambda: circuits.get_encoding_tableau(codes.FiveQubitCode()))
    add("lookup", lambda: [decoders.get_decoder_lookup(codes.HammingCode(3).matrix, max_weight=2).decode(np.array(s)) for s in np.ndindex(2, 2, 2)])
    add("guf", lambda: [decoders.get_decoder_GUF(codes.HammingCode(3).matrix).decode(np.array(s)) for s in np.ndindex(2, 2, 2)])
    add("ilp", lambda: [decoders.get_decoder_ILP(codes.HammingCode(2, 3).matrix).decode(np.array(s)) for s in np.ndindex(3, 3)])
    add("distance", lambda: [codes.SteaneCode().get_distance(), codes.FiveQubitCode().get_distance(), codes.HammingCode(3).get_distance()])
    add("logical-rate", lambda: rate())
    return out


def rate():
    from qldpc import codes

    np.random.seed(5)
    func = codes.SteaneCode().get_logical_error_rate_func(60, 0.3)
    return [func(0.1), func(0.2)]


def subsets(group):
    """Two symmetric subsets that generate the group, made without randomness."""
    gens = list(group.generators)
    first = set(gens) | {~g for g in gens}
    members = sorted(group.generate(), key=lambda g: g.array_form)
    extra = [g for g in members if g != group.identity and g not in first]
    for g in extra:
        if len(first) >= 3:
            break
        first |= {g, ~g}
    second = set(gens) | {~g for g in gens}
    return (first, first) if len(first) == 3 else (first, second)


def tanner_graph():
    import networkx as nx

    return nx.complete_graph(4)


def main():
    order, disturb = sys.argv[1], int(sys.argv[2])
    table = probes()
    names = list(table)
    rng = np.random.default_rng(disturb)
    if order == "shuffled":
        rng.shuffle(names)
    if order == "reversed":
        names = names[::-1]
    if disturb:
        import random

        import sympy.core.random

        np.random.seed(disturb)
        random.seed(disturb)
        sympy.core.random.seed(disturb)
    out = {}
    for name in names:
        if disturb and rng.random() < 0.3:
            np.random.random(int(rng.integers(1, 9)))
        out[name] = digests.outcome(table[name])
    print("PROBES " + json.dumps(out))


if __name__ == "__main__":
    main()
