#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long statements stay readable)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": hook,
        },
    })


A = "qldpc/abstract.py"
CM = "qldpc/codes/common.py"
Q = "qldpc/codes/quantum.py"
CL = "qldpc/codes/classical.py"
D = "qldpc/codes/distance.py"
DE = "qldpc/decoders.py"
O = "qldpc/objects.py"
CI = "qldpc/circuits.py"

prop("C01", "Constructed groups are the finite groups they claim to be",
     "Every group the package builds (cyclic, abelian, dihedral, alternating, symmetric, quaternion, SL, PSL, direct products, or from generators, a multiplication table, generating matrices or a named GAP group) has the advertised order and commutativity, and enumerates each member exactly once, with membership, index lookup and multiplication table all agreeing with that enumeration and with permutation composition. Groups that compare equal hash equally and can be used interchangeably. Random members and random symmetric subsets belong to the group, have the requested size, are closed under inversion, and honour the exclude-identity option.",
     ["inputs", "configurations"], "all constructors x parameters x seeds",
     "The tests build about ten small groups and check a handful of identities; order, enumeration order and table must agree for every constructor and parameter.",
     [A], [("Group.generate / index / table", f"{A}: class Group"), ("SL/PSL actions on vector orbits", f"{A}: SpecialLinearGroup, ProjectiveSpecialLinearGroup")],
     ["Group.order", "Group.generate", "Group.index", "Group.table", "Group.random_symmetric_subset"])

prop("C02", "Group lifts are representations and group-algebra arithmetic is exact",
     "A group's lift and regular lift are faithful and multiplicative, lift(a) @ lift(b) == lift(a * b), for every pair of members (orthogonal for regular, permutation-type and quaternion lifts). Sums, differences, products, scalar multiples, powers, transposes and inverses of group-algebra elements equal the formal group-algebra result over the base field and commute with both lifts; an inverse is returned exactly when one exists. Conversion to and from coefficient vectors is lossless and follows the group's enumeration order.",
     ["inputs"], "all groups x base fields x ring elements",
     "Tests lift a few elements of a few groups over GF(2)/GF(3); the identities quantify over all elements, fields and group structures (abelian and not).",
     [A], [("RingMember arithmetic", f"{A}: class RingMember"), ("Group.regular_lift / lift", f"{A}: class Group")],
     ["RingMember operators", "RingMember.lift", "RingMember.inverse", "RingMember.to_vector"])

prop("C03", "Linear algebra on group-algebra matrices is sound and complete",
     "For every matrix over a group algebra, lifting is a ring homomorphism on matrices (products, sums, transposes), the returned null space is annihilated by the matrix and generates all of its null vectors, and row reduction preserves the left-linear row span. Every row of a row-reduced matrix is either the only nonzero row (with entry 1) at some column or has only non-invertible entries, and no row is zero or lies in the left span of the others. Conversions between ring arrays and field arrays or vectors are mutually inverse.",
     ["inputs"], "all group rings x matrix shapes x entries (abelian and non-abelian, semisimple or not)",
     "Tests use one random matrix over two rings per run, almost always full rank; the guarantees matter for rank-deficient, zero-divisor and non-commutative inputs.",
     [A], [("RingArray.null_space/row_reduce heuristics", f"{A}: class RingArray")],
     ["RingArray.lift", "RingArray.regular_lift", "RingArray.null_space", "RingArray.row_reduce", "RingArray.T"])

prop("C04", "Classical codes: checks, generator, dual and membership agree",
     "For every parity check matrix over every finite field, the generator matrix spans exactly the null space of the checks, so that rank + dimension = length, the dual code is the orthogonal complement (and taking it twice gives back the code), membership holds exactly for the words orthogonal to the checks, and word iteration yields every codeword once. Canonicalizing, or rebuilding from a generator or from another code object, preserves the code; a user-supplied generator is accepted exactly when it spans the code. Random words are codewords.",
     ["inputs"], "all matrices x fields, including rank-deficient, zero, empty-row and full-rank matrices",
     "Tests use a few random 5x3 matrices; degenerate shapes, redundant checks and larger fields are where row reduction and dimension book-keeping break.",
     [CM], [("ClassicalCode.generator/rank/dimension/__contains__", f"{CM}: class ClassicalCode")],
     ["ClassicalCode.generator", "ClassicalCode.dual", "ClassicalCode.iter_words", "ClassicalCode.set_generator"])

prop("C05", "Classical code transformations produce exactly the defined word sets",
     "Stacking codes yields exactly the concatenations of their words, the tensor product exactly the matrices whose columns and rows lie in the factors, puncturing exactly the words with the chosen bits deleted, and shortening exactly the words that vanish on the chosen bits, with those bits deleted. This holds for every code, field, and choice and order of bits.",
     ["inputs"], "all codes x fields x bit subsets",
     "Each transformation is tested on one or two codes, mostly through dimension counts.",
     [CM], [("ClassicalCode.stack/tensor_product/puncture/shorten", f"{CM}: class ClassicalCode")],
     ["word sets of the returned codes"])

prop("C06", "Exact distances equal the true minimum weight",
     "For every code, the exact distance equals the smallest weight of a nontrivial element: the minimum nonzero codeword weight (or minimum distance of a given vector to the code) for classical codes, and the minimum weight of a nontrivial (dressed, for subsystem codes) logical operator for quantum codes, per Pauli type for CSS codes. It is correct at every block length and weight, over every field, whether computed by the fast or generic route, cached or not, and is undefined (nan) exactly for codes without logical degrees of freedom.",
     ["inputs", "histories"], "all codes x fields x lengths x query orders",
     "Distance tests cover small codes with a word of at most 64 bits and a few multiples; carries across machine words, gray-code enumeration and overflow depend on length, number of generators and weight.",
     [D, CM], [("gray-code enumeration over packed words", f"{D}: get_distance_classical, get_distance_quantum"), ("get_distance_exact, _distance caching", f"{CM}")],
     ["ClassicalCode.get_distance", "QuditCode.get_distance", "CSSCode.get_distance(pauli)", "get_distance_classical", "get_distance_quantum"])

prop("C07", "Distance bounds are never below the true distance",
     "Every distance bound returned for a classical or CSS code (one-shot or minimised over trials, with or without a target vector, cutoff, Pauli type or decoder choice) is at least the true distance, and every one-shot bound is the weight of an actual nonzero codeword, coset element or nontrivial logical operator. A bound over trials is the smallest of the block length and its one-shot bounds, and stops early only once the cutoff is reached. Asking for a bound never changes what the exact distance is reported to be later.",
     ["inputs", "histories"], "codes x decoders x seeds x call sequences",
     "Tests compare one bound with one known distance; the bound relies on a random decoder reduction that must be valid for every code, random draw and decoder failure.",
     [CM], [("get_one_distance_bound", f"{CM}: ClassicalCode and CSSCode"), ("get_distance_bound loop and cutoff", f"{CM}")],
     ["get_distance_bound", "get_one_distance_bound", "get_distance(bound=...)"])

prop("C08", "Classical code families have their textbook parameters",
     "Repetition, ring, Hamming, extended Hamming, Reed-Solomon, BCH, Reed-Muller, simplex and Tanner codes have, for every admissible parameter and field, the block length, dimension and minimum distance of their definition, and exactly the codewords of that definition. Any distance or dimension they advertise without computing it is the true one. Inadmissible parameters are rejected.",
     ["inputs", "configurations"], "all families x parameters x fields",
     "Tests instantiate one or two members per family.",
     [CL], [("family constructors", CL)], ["get_code_params", "generator", "matrix"])

prop("C09", "Logical operators form a complete symplectic basis",
     "For every qudit code over every finite field (stabilizer or subsystem, CSS or not), the logical operators commute with all parity checks, satisfy the canonical pairing with each other (X_i with Z_i only), and number twice the code dimension, the dimension being exactly the one fixed by the check matrix. Recomputing, and queries by Pauli type or in any order, agree with one another, and user-supplied logical operators are accepted exactly when they satisfy all of these relations.",
     ["inputs", "histories"], "all check matrices x fields x query orders",
     "Tests check a few named codes; the standard-form algorithm has many pivot patterns (degenerate sectors, redundant checks, non-CSS gauge groups, prime and non-prime fields).",
     [CM], [("get_standard_form_data(_xz)", CM), ("get_logical_ops(_xz)/set_logical_ops(_xz)", CM)],
     ["QuditCode.get_logical_ops", "CSSCode.get_logical_ops", "set_logical_ops"])

prop("C10", "Stabilizer and gauge operators decompose the check group correctly",
     "For every code, the stabilizer operators span exactly the centre of the group generated by the parity checks, the gauge operators together with the stabilizers span the whole group and pair up canonically, and qudits = logical + gauge + stabilizer count. A code is reported as a subsystem code exactly when its checks do not all commute, and the dual subsystem code exchanges logical and gauge degrees of freedom.",
     ["inputs", "histories"], "all check matrices x fields, stabilizer and subsystem, CSS and not",
     "Tests verify commutation for four codes; the centre of a random gauge group over GF(q) is never compared with an independent computation.",
     [CM], [("get_stabilizer_ops / get_gauge_ops", CM), ("is_subsystem_code, dimension, gauge_dimension", CM)],
     ["get_stabilizer_ops", "get_gauge_ops", "dimension", "gauge_dimension", "is_subsystem_code"])

prop("C11", "CSS sector views agree with the symplectic view",
     "For every CSS code, the X and Z views of checks, stabilizers, gauge and logical operators are exactly the X and Z parts of the full symplectic operators, canonicalized requests return independent operators with the same span, and check counts, weights and ranks agree. A random logical operator is a logical operator of the requested type (nontrivial on request). Reducing logical operators never increases a weight and leaves a valid logical basis with the same logical action.",
     ["inputs", "histories"], "all CSS codes x Pauli types x options x reduction histories",
     "Tests reduce the logicals of one toric code and query few combinations of options.",
     [CM], [("CSSCode.get_* with pauli/symplectic/canonicalized", f"{CM}: class CSSCode"), ("reduce_logical_op(s)", f"{CM}: class CSSCode")],
     ["CSSCode.get_stabilizer_ops", "CSSCode.get_gauge_ops", "CSSCode.reduce_logical_ops", "CSSCode.get_random_logical_op"])

prop("C12", "Product-code constructions follow their defining algebra",
     "Hypergraph-product, subsystem hypergraph-product, lifted-product and subsystem lifted-product codes, two-block, quasi-cyclic and bivariate bicycle codes have check matrices given by their defining formulas, with X and Z stabilizers commuting for every seed and field (for non-abelian lifted products, whenever the formula makes them commute, and the code is flagged as a subsystem code otherwise). The graph-based and matrix-based products agree, the number of logical qudits matches the product formula, and canonical logical operators are valid logical bases of the product code.",
     ["inputs"], "all seed codes / ring arrays / polynomials x fields",
     "Tests compare a few sizes over GF(2) and GF(3).",
     [Q], [("get_matrix_product / get_graph_product", f"{Q}: HGPCode, SHPCode"), ("lifted and quasi-cyclic constructors", f"{Q}: LPCode, SLPCode, TBCode, QCCode, BBCode")],
     ["matrix_x", "matrix_z", "dimension", "get_canonical_logical_ops"])

prop("C13", "Quantum code families have their advertised parameters",
     "The named quantum codes (five-qubit, Steane, iceberg, C4, C6, surface, rotated surface, toric, generalized surface, Bacon-Shor, SHYPS) have, for every admissible size, field and layout option, the qudit number, dimension and distances that they advertise, with distances advertised without computation being the true ones. Their preset logical operators are valid, and layouts that are advertised as equivalent describe codes with the same parameters.",
     ["inputs", "configurations"], "all families x sizes x options x fields",
     "Tests instantiate one or two sizes per family.",
     [Q], [("family constructors, known distances", Q)], ["get_code_params", "get_distance_if_known", "get_logical_ops"])

prop("C14", "Conjugating, deforming, stacking and concatenating preserve validity",
     "Conjugated and Clifford-deformed codes have exactly the transformed stabilizer group, stacked codes the direct sum, and concatenated codes the stabilizers of the inner blocks together with the encoded outer stabilizers, over every field and qudit wiring. Logical operators that are carried over are valid for the new code and equal the transformed (or encoded) originals. The input codes are left unchanged.",
     ["inputs", "programs", "histories"], "codes x Clifford circuits x qudit subsets x wirings",
     "Tests deform two codes by a layer of H gates and concatenate two codes.",
     [CM], [("conjugated/deformed/stack/concatenate", f"{CM}: QuditCode, CSSCode")],
     ["matrix", "get_logical_ops", "inputs before/after"])

prop("C15", "Converting codes between representations is lossless",
     "Parity check matrices, Tanner graphs, Pauli strings, saved files, copies and code objects convert into one another without loss for every code, including zero rows, zero columns and larger fields. Codes compare equal exactly when their defining data are equal, and are equivalent exactly when they define the same code or stabilizer/gauge group.",
     ["inputs"], "all codes x fields x representations",
     "Round trips are tested on one random dense matrix each.",
     [CM, Q], [("matrix_to_graph/graph_to_matrix/get_strings/from_strings", CM), ("QTCode.save/load", Q), ("__eq__, equiv", f"{CM}, {Q}")],
     ["graph", "get_strings", "QTCode.save", "QTCode.load", "equiv"])

prop("C16", "Bivariate bicycle layouts and labels are consistent",
     "For every bivariate bicycle code, node labels, qubit positions and toric layout data refer to the same code: labels and positions are in bijection with nodes, folded and unfolded positions agree, and every equivalent toric-layout code is equal to the original up to a relabelling of qubits and checks, with every check acting on its nearest-neighbour qubits. Changing the polynomial basis, modular inverses and orders are exact.",
     ["inputs"], "all orders x polynomials",
     "Tests look at one or two codes and print layouts.",
     [Q], [("BBCode.get_node_label/get_qubit_pos/get_equivalent_toric_layout_code_data/change_poly_basis", f"{Q}: class BBCode")],
     ["BBCode methods"])

prop("C17", "Decoders return corrections that reproduce the syndrome",
     "Whenever a syndrome is produced by an error within a decoder's guarantee, the returned correction reproduces it; minimum-weight decoders (lookup within its weight limit, integer programming) return a correction of minimum weight, and generalized union-find with a weight limit returns one within that limit or the lightest in its error set, for every check matrix and field they accept. A decoder object gives the same answer to the same syndrome whatever it decoded before, and neither modifies its inputs nor shares mutable state with the results it returns. Direct and block decoders return exactly the recombination of what their inner decoders say.",
     ["inputs", "histories"], "check matrices x fields x syndromes x decoding histories x decoder options",
     "Tests decode a handful of fixed errors with each decoder.",
     [DE], [("decoder classes", DE)], ["Decoder.decode"])

prop("C18", "Logical error rate estimates are calibrated",
     "The logical error rate function of a classical or CSS code is an unbiased estimate of the true failure probability of decoding independent errors (with the requested Pauli bias), with exact zero at zero error rate and a standard error that matches its spread. Error rates beyond the sampled maximum are rejected. It does not depend on anything but code, decoder, parameters and random seed.",
     ["inputs", "histories"], "codes x error rates x biases x sample allocations",
     "Tests only look at rates 0 and 1.",
     [CM], [("get_logical_error_rate_func, sample allocation, error weight distribution", CM)],
     ["get_logical_error_rate_func"])

prop("C19", "Encoding circuits prepare exactly the code space",
     "For every qubit code, the encoding tableau or circuit is a Clifford operation that maps the trivially prepared state and logical inputs into the code: all canonical stabilizer generators have value +1, logical X and Z of every logical qubit are the encoded Paulis, and gauge qubits are mapped to the gauge operators. It works with redundant checks, subsystem codes and user-set logical operators; non-qubit codes are rejected.",
     ["inputs", "programs"], "all qubit codes (stabilizer and subsystem)",
     "Tests encode a few named codes.",
     [CI], [("get_encoding_tableau / get_encoding_circuit", CI)], ["circuits.get_encoding_tableau", "circuits.get_encoding_circuit"])

prop("C20", "Transversal operations found are genuine code automorphisms",
     "Every physical circuit returned for a transversal operation preserves the stabilizer group of the code, including signs, and acts on the logical qubits exactly as the requested logical operation (up to the documented Pauli correction); logical tableaus computed from physical circuits are the true logical action. When an operation exists among the permitted local gates and permutations it is found, otherwise none is reported.",
     ["inputs", "programs"], "codes x local gate sets x logical operations",
     "GAP is needed by the tests; only a few logical gates of a few codes are tried.",
     [CI], [("get_transversal_ops / get_transversal_circuit / get_logical_tableau / get_transversal_automorphism_group", CI)],
     ["circuits.*"])

prop("C21", "Chain complexes square to zero",
     "Every chain complex that can be constructed has boundary maps whose consecutive compositions vanish, inputs that violate this (including tensor products over non-commutative group rings) are rejected, and the transpose, tensor products, and (where defined) homology dimensions follow the standard formulas over every field and group ring. Dimensions and links are indexed consistently.",
     ["inputs"], "all boundary maps x fields/rings x lengths x products",
     "Tests build one or two random short complexes.",
     [O], [("ChainComplex", f"{O}: class ChainComplex")], ["ChainComplex.op", "ChainComplex.dim", "ChainComplex.tensor_product", "ChainComplex.T"])

prop("C22", "Cayley complexes and quantum Tanner codes follow their definition",
     "For every pair of symmetric generating subsets, the Cayley complex has exactly the vertices, edges and faces of its definition (after taking the double cover when required or requested), satisfies total no-conjugacy, and its dual graphs give a Tanner construction in which every qudit is a face. Quantum Tanner codes built on it have commuting checks over every field, with checks generated by the local tensor codes at each vertex.",
     ["inputs"], "groups x symmetric subsets x local codes x seeds",
     "Tests use three or four tiny groups.",
     [O, Q, CL], [("CayleyComplex", f"{O}: class CayleyComplex"), ("QTCode, TannerCode", f"{Q}, {CL}")],
     ["CayleyComplex.graph", "CayleyComplex.faces", "QTCode.matrix"])

prop("C23", "The disk cache is transparent",
     "A function wrapped with the disk cache returns the same value as the unwrapped function on every call, for every hashable argument, call history, keyword/positional spelling, concurrent processes, process restart and crash during a call, and distinct arguments or distinct cache names never share an entry. Exceptions are propagated and not cached, and repeated calls with the same arguments are answered without recomputation.",
     ["histories", "schedules", "crash_points"], "call histories x processes x crash points x cache keys",
     "The cache is disabled under pytest, so no test ever runs it against a real disk.",
     ["qldpc/cache.py"], [("use_disk_cache", "qldpc/cache.py")], ["decorated functions", "on-disk cache contents"])

prop("C24", "External group and code look-ups are parsed faithfully",
     "Whatever GAP or the web sources return in their documented formats (group generators as cycles, orders, structure descriptions, idempotents over prime and extension fields, code matrices, and automorphism groups over prime fields) is translated into exactly the corresponding permutations, coefficients and matrices. Unavailable tools, failed or killed runs, malformed or unknown names raise an error instead of returning a wrong object, nothing of that kind is cached, and results obtained from the local cache, GAP or the web agree.",
     ["inputs", "fault_sequences"], "well-formed and malformed tool outputs x availability of the tools",
     "GAP is not installed and the network is absent, so tests mock single fixed strings.",
     ["qldpc/external/gap.py", "qldpc/external/groups.py", "qldpc/external/codes.py", A], [("output parsers", "qldpc/external/*.py")],
     ["external.groups.*", "external.codes.get_code", "external.gap.*"])

prop("C25", "Results depend only on inputs and seeds",
     "Any randomised construction called twice with the same seed gives the same result, independently of what ran before, and different seeds are usable; without a seed, repeated calls vary, and seeded array constructions leave numpy's global random state as they found it. Queries on a code, group or array (in any order, repeated, on a copy) neither change its defining data nor the answers to other queries, and inputs passed by the caller are never modified.",
     ["histories", "inputs"], "random constructors x seeds x interleaved query histories",
     "Tests call each query once on a fresh object.",
     [CM, A, Q, CL], [("seed handling", f"{CM}: get_scrambled_seed, get_random_array"), ("cached properties and _distance/_logical_ops memoisation", CM)],
     ["public queries of code objects"])

prop("C26", "Pauli and symplectic arithmetic is exact",
     "Paulis, qudit operators and symplectic vectors convert to and from strings, values and indices without loss; Paulis multiply, invert and commute as the (projective) Pauli group does, qudit operators negate and Fourier-transform accordingly, and symplectic conjugation defines the symplectic inner product over every field and array shape. Conversion of a vector to a Pauli string agrees with the per-qubit operators.",
     ["inputs"], "all operators x fields x shapes",
     "Tests sample a few values; exhaustive small cases and every field are not covered.",
     [O, "qldpc/math.py"], [("Pauli, QuditOperator", O), ("symplectic_conjugate, op_to_string, first_nonzero_cols, log_choose", "qldpc/math.py")],
     ["Pauli", "QuditOperator", "math.*"])

with open(__file__.replace("mkprops.py", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
