"""Stand-in for the GAP executable: answers the queries of qldpc.external with own computations.

Behaviour is chosen by the JSON file named in $FAKEGAP (re-read on every call, default: compute answers):
  {"version": "4.12.1"}        version that is reported
  {"missing": ["GUAVA"]}       packages that are not available
  {"stdout": "..."}            fixed output for every other query
  {"stderr": "..."}            error output for every other query
  {"exit": 3}, {"kill": true}  print half of the answer, then exit with this code / die by a signal
As in GAP, answers longer than a line are folded unless the print formatting is switched off, functions of
packages that were not loaded do not exist, and generators of a group that is no permutation group have names.
Every call is logged as one JSON line in the file named in $FAKEGAP_LOG.
"""

import itertools
import json
import math
import os
import re
import sys


def parse_matrix(text):
    return [[int(x) for x in re.findall(r"-?\d+", row)] for row in re.findall(r"\[([^\[\]]*)\]", text)]


def prime_rref(rows, p):
    """Reduced row echelon form over a prime field."""
    rows = [list(r) for r in rows]
    out, ncols = [], len(rows[0]) if rows else 0
    for col in range(ncols):
        pivot = next((r for r in rows if r[col] % p), None)
        if pivot is None:
            continue
        rows.remove(pivot)
        inv = pow(pivot[col], -1, p)
        pivot = [(x * inv) % p for x in pivot]
        rows = [[(x - r[col] * y) % p for x, y in zip(r, pivot)] for r in rows]
        out = [[(x - r[col] * y) % p for x, y in zip(r, pivot)] for r in out] + [pivot]
    return out


def automorphisms(matrix, p):
    """Generators of the permutations of columns that preserve the row span over GF(p)."""
    n = len(matrix[0])
    rows = prime_rref(matrix, p)
    r = len(rows)
    cols = [tuple(row[i] for row in rows) for i in range(n)]

    # invariants: for every column, the weights of the words that are nonzero there
    marks = [[] for _ in range(n)]
    if p**r <= 5000:
        for coeffs in itertools.product(range(p), repeat=r):
            word = [sum(c * row[i] for c, row in zip(coeffs, rows)) % p for i in range(n)]
            weight = sum(map(bool, word))
            for i, x in enumerate(word):
                if x:
                    marks[i].append(weight)
    marks = [tuple(sorted(m)) for m in marks]
    where = {}
    for i, c in enumerate(cols):
        where.setdefault(c, []).append(i)

    def reduce(vec, img, basis):
        """Reduce a vector (and its image) by an echelon basis of (pivot, vector, image)."""
        vec, img = list(vec), list(img)
        for piv, bv, bi in basis:
            c = vec[piv]
            if c:
                vec = [(x - c * y) % p for x, y in zip(vec, bv)]
                img = [(x - c * y) % p for x, y in zip(img, bi)]
        return vec, img

    zero = [0] * r

    def place(point, target, basis):
        """Extend the linear map by cols[point] -> cols[target]; None when impossible."""
        vec, img = reduce(cols[point], cols[target], basis)
        if not any(vec):
            return basis if not any(img) else None
        piv = next(i for i, x in enumerate(vec) if x)
        inv = pow(vec[piv], -1, p)
        return basis + [(piv, [(x * inv) % p for x in vec], [(x * inv) % p for x in img])]

    def injective(basis):
        return len(prime_rref([b[2] for b in basis], p)) == len(basis) if basis else True

    def search(point, images, used, basis):
        if point == n:
            return images
        vec, img = reduce(cols[point], zero, basis)
        if not any(vec):
            value = tuple((-x) % p for x in img)
            options = [t for t in where.get(value, []) if t not in used]
        else:
            options = [t for t in range(n) if t not in used]
        for t in options:
            if marks[t] != marks[point]:
                continue
            new = place(point, t, basis)
            if new is None or (len(new) > len(basis) and not injective(new)):
                continue
            found = search(point + 1, images + [t], used | {t}, new)
            if found:
                return found
        return None

    gens = []
    for i in range(n - 1, -1, -1):
        prefix, basis = list(range(i)), []
        for j in range(i):
            basis = place(j, j, basis)
        for t in range(i + 1, n):
            orbit, todo = {i}, [i]
            while todo:
                x = todo.pop()
                for g in gens:
                    if g[x] not in orbit and all(g[y] == y for y in range(i)):
                        orbit.add(g[x])
                        todo.append(g[x])
            if t in orbit or marks[t] != marks[i]:
                continue
            new = place(i, t, basis)
            if new is None or (len(new) > len(basis) and not injective(new)):
                continue
            found = search(i + 1, prefix + [t], set(prefix) | {t}, new)
            if found:
                gens.append(found)
    return gens


def cycles(perm):
    seen, out = set(), ""
    for i in range(len(perm)):
        if i in seen or perm[i] == i:
            continue
        cyc, x = [], i
        while x not in seen:
            seen.add(x)
            cyc.append(x + 1)
            x = perm[x]
        out += "(" + ",".join(map(str, cyc)) + ")"
    return out or "()"


def cyc(n):
    return [tuple(range(1, n + 1))]


def perms_of(text):
    """Permutations given by GAP cycles, on a common number of points."""
    gens = re.findall(r"(?:\([\d,]*\))+", text)
    points = max([int(x) for x in re.findall(r"\d+", text)] or [1])
    out = []
    for gen in gens:
        perm = list(range(points))
        for cycle in re.findall(r"\(([\d,]+)\)", gen):
            c = [int(x) - 1 for x in cycle.split(",")]
            for a, b in zip(c, c[1:] + c[:1]):
                perm[a] = b
        out.append(tuple(perm))
    return out, points


SMALL = {  # generators and structure of small groups, in GAP's numbering
    (1, 1): ([], "1"), (2, 1): (["(1,2)"], "C2"), (3, 1): (["(1,2,3)"], "C3"), (4, 1): (["(1,2,3,4)"], "C4"), (4, 2): (["(1,2)", "(3,4)"], "C2 x C2"),
    (5, 1): (["(1,2,3,4,5)"], "C5"), (6, 1): (["(1,2)", "(1,2,3)"], "S3"), (6, 2): (["(1,2)", "(3,4,5)"], "C6"), (7, 1): (["(1,2,3,4,5,6,7)"], "C7"),
    (8, 1): (["(1,2,3,4,5,6,7,8)"], "C8"), (8, 2): (["(1,2,3,4)", "(5,6)"], "C4 x C2"), (8, 3): (["(1,2,3,4)", "(1,3)"], "D8"),
    (8, 4): (["(1,2,3,4)(5,6,7,8)", "(1,5,3,7)(2,8,4,6)"], "Q8"), (8, 5): (["(1,2)", "(3,4)", "(5,6)"], "C2 x C2 x C2"),
    (9, 1): (["(1,2,3,4,5,6,7,8,9)"], "C9"), (9, 2): (["(1,2,3)", "(4,5,6)"], "C3 x C3"), (10, 1): (["(1,2,3,4,5)", "(2,5)(3,4)"], "D10"),
    (10, 2): (["(1,2)", "(3,4,5,6,7)"], "C10"), (11, 1): (["(1,2,3,4,5,6,7,8,9,10,11)"], "C11"),
    (12, 1): (["(1,2,3)", "(1,2)(4,5,6,7)"], "C3 : C4"), (12, 2): (["(1,2,3)", "(4,5,6,7)"], "C12"), (12, 3): (["(1,2,3)", "(1,2)(3,4)"], "A4"),
    (12, 4): (["(1,2,3)", "(1,2)", "(4,5)"], "D12"), (12, 5): (["(1,2,3)", "(4,5)", "(6,7)"], "C6 x C2"),
}


def ring(n):
    return "(" + ",".join(map(str, range(1, n + 1))) + ")"


# larger groups, whose order and index run together to the same digits as those of another group
MORE = {(16, 1): ([ring(16)], "C16"), (16, 11): (["(1,2,3,4)", "(1,3)", "(5,6)"], "C2 x D8"), (161, 1): ([ring(161)], "C161"),
        (85, 1): ([ring(85)], "C85"), (83, 1): ([ring(83)], "C83"), (125, 1): ([ring(125)], "C125"), (41, 1): ([ring(41)], "C41")}


def group_generators(expr):
    """Generators (as GAP prints them) of a group given by a GAP expression."""
    if m := re.fullmatch(r"(Permutation)?AutomorphismGroup\(CheckMatCode\((\[.*\]),GF\((\d+)\)\)\)", expr):
        return [cycles(g) for g in automorphisms(parse_matrix(m.group(2)), int(m.group(3)))]
    if m := re.fullmatch(r"SmallGroup\((\d+),(\d+)\)", expr):
        key = (int(m.group(1)), int(m.group(2)))
        return {**SMALL, **MORE}[key][0] if key in {**SMALL, **MORE} else None
    if m := re.fullmatch(r"(Cyclic|Dihedral|Symmetric|Alternating)Group\((\d+)\)", expr):
        kind, n = m.group(1), int(m.group(2))
        def text(*c):
            return "(" + ",".join(map(str, c)) + ")"
        if kind == "Cyclic":
            return [text(*range(1, n + 1))] if n > 1 else []
        if kind == "Dihedral":
            h = n // 2
            return [text(*range(1, h + 1)), "".join(text(i, h + 2 - i) for i in range(2, h // 2 + 2) if i < h + 2 - i)]
        if kind == "Symmetric":
            return [text(*range(1, n + 1)), text(1, 2)]
        return [text(1, 2, i) for i in range(3, n + 1)]
    if m := re.fullmatch(r"Group\((.*)\)", expr):
        return re.findall(r"(?:\([\d,]*\))+", m.group(1))
    return None


def check_matrix(expr):
    """(field, rows) of the code given by a GUAVA expression."""
    if m := re.fullmatch(r"RepetitionCode\((\d+),GF\((\d+)\)\)", expr):
        n, q = int(m.group(1)), int(m.group(2))
        return q, [[1] + [(q - 1) if j == i else 0 for j in range(1, n)] for i in range(1, n)]
    if m := re.fullmatch(r"HammingCode\((\d+),GF\((\d+)\)\)", expr):
        r, q = int(m.group(1)), int(m.group(2))
        cols = [v for v in itertools.product(range(q), repeat=r) if any(v) and next(x for x in v if x) == 1]
        return q, [list(row) for row in zip(*cols)]
    if m := re.fullmatch(r"CheckMatCode\((\[.*\]),GF\((\d+)\)\)", expr):
        return int(m.group(2)), parse_matrix(m.group(1))
    if m := re.fullmatch(r"WholeSpaceCode\((\d+),GF\((\d+)\)\)", expr):
        return int(m.group(2)), []
    return None


def compose(a, b):
    return tuple(b[i] for i in a)


def field_label(q):
    for p in range(2, q + 1):
        if q % p == 0:
            k = round(math.log(q, p))
            return p, k


def idempotents(expr, q):
    """Primitive central idempotents of GF(q)[G], printed as GAP does."""
    import site

    site.main()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib.gf import GF

    import numpy as np

    gens, points = perms_of(re.fullmatch(r"Group\((.*)\)", expr).group(1))
    ident = tuple(range(points))
    members, todo = [ident], [ident]
    while todo:
        x = todo.pop()
        for g in gens:
            y = compose(x, g)
            if y not in members:
                members.append(y)
                todo.append(y)
    pos = {g: i for i, g in enumerate(members)}
    inverse = {g: next(h for h in members if compose(g, h) == ident) for g in members}
    classes, seen = [], set()
    for g in members:
        if g not in seen:
            cls = {compose(compose(inverse[h], g), h) for h in members}
            classes.append(sorted(pos[x] for x in cls))
            seen |= cls
    p, k = field_label(q)
    f = GF(q)
    m = len(classes)
    if q**m > 300_000:
        return None
    # products of class sums, in the basis of class sums
    struct = np.zeros((m, m, m), dtype=int)
    for i, j in itertools.product(range(m), repeat=2):
        count = {}
        for x, y in itertools.product(classes[i], classes[j]):
            z = pos[compose(members[x], members[y])]
            count[z] = count.get(z, 0) + 1
        for l, cls in enumerate(classes):
            struct[i, j, l] = count.get(cls[0], 0) % p
    vecs = np.array(list(itertools.product(range(q), repeat=m)))

    def mul(u, v):
        out = np.zeros(np.broadcast_shapes(u.shape, v.shape), dtype=int)
        for i, j, l in zip(*np.nonzero(struct)):
            out[..., l] = f.add(out[..., l], f.mul(f.mul(u[..., i], v[..., j]), struct[i, j, l]))
        return out

    idem = [v for v, w in zip(vecs, mul(vecs, vecs)) if v.any() and (v == w).all()]
    # primitive: no smaller idempotent below
    prim = [e for e in idem if not any((x != e).any() and (mul(e, x) == x).all() for x in idem)]

    # discrete logarithms with respect to the primitive element of the field
    prime = p if k > 1 else next(x for x in range(1, q) if len({pow(x, i, q) for i in range(1, q)}) == q - 1)
    log, x = {}, 1
    for e in range(q - 1):
        log[x] = e
        x = int(f.mul(x, prime))

    def coeff(value):
        e = log[value]
        for sub in range(1, k + 1):
            if k % sub == 0 and e % ((q - 1) // (p**sub - 1)) == 0:
                power = e // ((q - 1) // (p**sub - 1))
                base = f"Z({p})" if sub == 1 else f"Z({p}^{sub})"
                return base if power == 1 and p**sub > 2 else f"{base}^{power}"

    texts = []
    for e in prim:
        terms = [f"({coeff(int(e[c]))})*{cycles(members[i])}" for c, cls in enumerate(classes) if e[c] for i in cls]
        texts.append("+".join(terms))
    return "[ " + ", ".join(texts) + " ]"


def answer(command):
    if "GAPInfo.Version" in command:
        return None
    text = command.replace(" ", "")
    if m := re.search(r"NumberSmallGroups\((\d+)\)", text):
        count = sum(1 for key in SMALL if key[0] == int(m.group(1)))
        return str(count) if count else None
    if m := re.search(r"StructureDescription\(SmallGroup\((\d+),(\d+)\)\)", text):
        key = (int(m.group(1)), int(m.group(2)))
        return {**SMALL, **MORE}[key][1] if key in {**SMALL, **MORE} else None
    if "Idempotents" in text:
        group, field = re.search(r"group:=(.*?);", text).group(1), re.search(r"GroupRing\(GF\((\d+)\)", text).group(1)
        return idempotents(group, int(field))
    if m := re.search(r"code:=(.*?);", text):
        found = check_matrix(m.group(1))
        if found is None:
            return None
        q, rows = found
        p, k = field_label(q)
        return "".join([f"GF({p})\n" if k == 1 else f"GF({p}^{k})\n"] + ["[ " + ", ".join(map(str, r)) + " ]\n" for r in rows])
    if m := re.search(r"group:=(.*?);", text):
        gens = group_generators(m.group(1))
        return None if gens is None else "".join(g + "\n" for g in gens)
    return None


def fold(text, width=80):
    """Lines broken as GAP does by default."""
    out = []
    for line in text.split("\n"):
        while len(line) > width - 2:
            cut = max(line.rfind(",", 0, width - 2), line.rfind("*", 0, width - 2), line.rfind("+", 0, width - 2)) + 1 or width - 2
            out.append(line[:cut])
            line = "  " + line[cut:]
        out.append(line)
    return "\n".join(out)


def main():
    command = sys.argv[sys.argv.index("-c") + 1]
    scenario = {}
    if path := os.environ.get("FAKEGAP"):
        with open(path) as file:
            scenario = json.load(file)
    if path := os.environ.get("FAKEGAP_LOG"):
        with open(path, "a") as file:
            file.write(json.dumps({"args": sys.argv[1:]}) + "\n")
    if "GAPInfo.Version" in command:
        print(scenario.get("version", "4.12.1"))
        return 0
    if m := re.search(r'TestPackageAvailability\("(.*?)"\)', command):
        missing = [name.lower() for name in scenario.get("missing", [])]
        sys.stdout.write("fail" if m.group(1).lower() in missing else "true")
        return 0
    if "stderr" in scenario:
        sys.stderr.write(scenario["stderr"])
        sys.stdout.write(scenario.get("stdout", ""))
        return 1
    loaded = [name.lower() for name in re.findall(r'LoadPackage\("(.*?)"', command)]
    for word, package in (("CheckMat", "guava"), ("RepetitionCode", "guava"), ("HammingCode", "guava"), ("Idempotents", "wedderga")):
        if word in command and package not in loaded:
            sys.stderr.write(f"Error, Variable: '{word}' must have a value\n")
            return 1
    if "stdout" in scenario:
        out = scenario["stdout"]
    else:
        out = answer(command)
        if out and re.search(r"group\s*:=\s*SmallGroup", command) and "GeneratorsOfGroup" in command and "IsomorphismPermGroup" not in command:
            out = "".join(f"f{i + 1}\n" for i in range(len(out.splitlines())))
    if out is None:
        sys.stderr.write("Error, no method found or unknown object\n")
        return 1
    if "SetPrintFormattingStatus" not in command and "SizeScreen" not in command:
        out = fold(out)
    if "exit" in scenario or "kill" in scenario:
        part = out[: out.rfind("\n", 0, len(out) - 1) + 1] if scenario.get("lines") else out[: len(out) // 2]
        sys.stdout.write(part)
        sys.stdout.flush()
        if "kill" in scenario:
            os.kill(os.getpid(), 9)
        return scenario["exit"]
    sys.stdout.write(out)
    return 0


if __name__ == "__main__":
    sys.exit(main())
