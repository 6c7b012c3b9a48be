"""A canonical digest of whatever the library returns (used to compare answers across runs)."""

from __future__ import annotations

import hashlib
import json
import math
import types

import numpy as np


def form(obj, depth=0):
    """A JSON-able canonical form: equal forms mean equal results (types of fields included)."""
    if depth > 8:
        return "deep"
    name = type(obj).__name__
    if obj is None or isinstance(obj, (str, bool)):
        return [name, obj] if obj is not None else None
    if isinstance(obj, (int, np.integer)):
        return int(obj)
    if isinstance(obj, (float, np.floating)):
        return "nan" if math.isnan(obj) else repr(float(obj))
    if isinstance(obj, np.ndarray):
        ring = getattr(obj, "ring", None)
        if obj.dtype == object:
            return ["ring-array" if ring is not None else "object-array", list(obj.shape), [form(x, depth + 1) for x in obj.ravel()]]
        order = getattr(type(obj), "order", None)
        flat = np.ascontiguousarray(np.asarray(obj).view(np.ndarray))
        kind = "f" if flat.dtype.kind == "f" else "i"
        flat = flat.astype(float if kind == "f" else np.int64)
        return ["array", kind, order, list(obj.shape), hashlib.sha1(flat.tobytes()).hexdigest()]
    if isinstance(obj, dict):
        return ["dict", sorted(([form(k, depth + 1), form(v, depth + 1)] for k, v in obj.items()), key=json.dumps)]
    if isinstance(obj, (set, frozenset)):
        return ["set", sorted((form(x, depth + 1) for x in obj), key=json.dumps)]
    if isinstance(obj, (list, tuple)):
        return ["seq", [form(x, depth + 1) for x in obj]]
    if isinstance(obj, types.GeneratorType):
        raise TypeError("digest of a generator")
    # library objects, by their public data
    if hasattr(obj, "array_form") and hasattr(obj, "cyclic_form"):
        return ["perm", [int(x) for x in obj.array_form]]
    if hasattr(obj, "nodes") and hasattr(obj, "edges") and hasattr(obj, "adj"):
        nodes = [[form(node, depth + 1), form(dict(data), depth + 1)] for node, data in obj.nodes(data=True)]
        edges = [[form(a, depth + 1), form(b, depth + 1), form(dict(data), depth + 1)] for a, b, data in obj.edges(data=True)]
        if not obj.is_directed():
            edges = [[*sorted(e[:2], key=json.dumps), e[2]] for e in edges]
        return ["graph", obj.is_directed(), sorted(nodes, key=json.dumps), sorted(edges, key=json.dumps)]
    if hasattr(obj, "matrix_x") and hasattr(obj, "matrix_z"):
        return ["css", form(obj.matrix_x), form(obj.matrix_z), bool(obj.is_subsystem_code)]
    if hasattr(obj, "matrix") and hasattr(obj, "num_checks"):
        return ["code", form(obj.matrix), bool(getattr(obj, "is_subsystem_code", False))]
    if hasattr(obj, "hashable_generators"):
        return ["group", form(obj.hashable_generators()), int(obj.order)]
    if hasattr(obj, "to_vector"):
        return ["ring-member", form(obj.to_vector())]
    if hasattr(obj, "num_links"):
        return ["chain", [form(op, depth + 1) for op in obj.ops]]
    if name in ("Circuit", "PauliString", "Tableau"):
        return [name, str(obj)]
    return [name, str(obj)]


def of(obj) -> str:
    return hashlib.sha1(json.dumps(form(obj)).encode()).hexdigest()[:16]


def outcome(func, *args):
    """(kind, digest) of a call: its value or its exception."""
    try:
        value = func(*args)
    except Exception as error:  # noqa: BLE001
        return ["raised", type(error).__name__ + ": " + str(error)[:120]]
    return ["value", of(value)]
