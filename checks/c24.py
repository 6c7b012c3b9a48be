import io
import itertools
import json
import math
import os
import tempfile
import urllib.error

import numpy as np

from vlib import fakegap, grp, mats
from vlib.gf import GF

PROPERTY = "C24"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real look-up code runs against a stand-in GAP process and stand-in web pages (well-formed, malformed, failing, killed); results are compared with the objects that the outputs were rendered from"
NOTE = "GAP is not installed and there is no network: executables on PATH (vlib/standin, vlib/standin_git) and a replaced urllib.request.urlopen speak the documented formats; everything on the qLDPC side of these boundaries is the real code."
RULE = "one case per answer of a tool (rendered from a known object, malformed, or failing) x availability of the tools x state of the cache; non-trivial when the object is not the empty or trivial one"
REQUIRED = {"generators": 50, "generators-malformed": 60, "not-cached": 20, "fault": 40, "fault-recover": 40, "installed": 20, "code": 50, "code-malformed": 12, "named-code": 20,
            "idempotent-text": 60, "idempotents": 60, "idempotent-law": 60, "web-generators": 40, "web-url": 40, "web-number": 30, "web-malformed": 20, "web-fault": 20,
            "number": 11, "structure": 20, "small-group": 20, "small-group-reject": 10, "agree": 40, "known-groups": 4, "automorphism": 40, "package": 16, "unavailable": 10,
            "long-output": 10, "from-name": 30}
COST = {"idempotents": 3, "agree": 3}

VLIB = os.path.dirname(os.path.abspath(fakegap.__file__))


class World:
    """Scratch cache, a scenario of the GAP stand-in, and pages of the web."""

    def __init__(self, ctx, gap=True, pages=None):
        self.ctx, self.gap, self.pages = ctx, gap, pages

    def __enter__(self):
        import urllib.request

        from qldpc.external import gap

        self.top = tempfile.mkdtemp()
        self.saved = {k: os.environ.get(k) for k in ("PATH", "XDG_CACHE_HOME", "FAKEGAP", "FAKEGAP_LOG", "FAKEGIT_LOG", "FAKEGIT_FAIL")}
        self.urlopen = urllib.request.urlopen
        os.environ["FAKEGAP"] = os.path.join(self.top, "scenario")
        os.environ["FAKEGAP_LOG"] = os.path.join(self.top, "log")
        os.environ["FAKEGIT_LOG"] = os.path.join(self.top, "git")
        self.web = []
        self.scenario()
        self.fresh_cache()
        self.path = os.environ["PATH"]
        self.set_gap(self.gap)

        def urlopen(url, *args, **kwargs):
            url = url if isinstance(url, str) else url.full_url
            self.web.append(url)
            page = (self.pages or {}).get(url)
            if isinstance(page, BaseException):
                raise page
            if page is None:
                raise urllib.error.URLError("no network") if self.pages is None else urllib.error.HTTPError(url, 404, "not found", {}, None)
            return io.BytesIO(page.encode("utf-8"))

        urllib.request.urlopen = urlopen
        self.gapmod = gap
        return self

    def set_gap(self, available):
        from qldpc.external import gap

        dirs = [d for d in self.path.split(":") if "standin" not in d]
        os.environ["PATH"] = ":".join(([os.path.join(VLIB, "standin")] if available else []) + [os.path.join(VLIB, "standin_git")] + dirs)
        for func in (gap.is_installed, gap.require_package):
            if hasattr(func, "cache_clear"):
                func.cache_clear()

    def scenario(self, **what):
        with open(os.environ["FAKEGAP"], "w") as file:
            json.dump(what, file)

    def fresh_cache(self):
        os.environ["XDG_CACHE_HOME"] = tempfile.mkdtemp(dir=self.top)

    def calls(self):
        try:
            with open(os.environ["FAKEGAP_LOG"]) as file:
                return len(file.readlines())
        except FileNotFoundError:
            return 0

    def __exit__(self, *_):
        import shutil
        import urllib.request

        from qldpc.external import gap

        urllib.request.urlopen = self.urlopen
        for k, v in self.saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        for func in (gap.is_installed, gap.require_package):
            if hasattr(func, "cache_clear"):
                func.cache_clear()
        shutil.rmtree(self.top, ignore_errors=True)


def as_perm(cycles, n):
    """The permutation given by 0-indexed cycles."""
    perm = list(range(n))
    for c in cycles:
        c = list(c)
        for a, b in zip(c, c[1:] + c[:1]):
            perm[a] = b
    return tuple(perm)


def random_perms(ctx, n, num):
    out = []
    for _ in range(num):
        perm = np.arange(n)
        pick = ctx.rng.permutation(n)[: int(ctx.rng.integers(0, n + 1))]
        perm[pick] = perm[ctx.rng.permutation(pick)]
        out.append(tuple(int(i) for i in perm))
    return out


def render(perm, sep=","):
    """Cycles as GAP writes them: from the smallest moved point on, no fixed points."""
    return fakegap.cycles(list(perm)).replace(",", sep)


def all_points(gens):
    return max([max(c) + 1 for g in gens for c in g if c] or [1])


def check_generators(ctx, key, got, perms, text):
    n = max([len(p) for p in perms] or [1])
    fine = isinstance(got, list) and all(all(isinstance(c, tuple) and all(type(i) is int for i in c) for c in g) for g in got)
    ctx.check(fine and [as_perm(g, n) for g in got] == [tuple(p) + tuple(range(len(p), n)) for p in perms], key, f"{text!r:.200} is read as {got}")


def same_generators(group, perms):
    """The group is given by these permutations (repeated ones and the identity may be left out)."""
    size = max([len(p) for p in perms] + [g.size for g in group.generators])

    def pad(p):
        return tuple(p) + tuple(range(len(p), size))

    identity = tuple(range(size))
    ours, want = ([p for p in dict.fromkeys(perms) if p != identity] for perms in ([pad(grp.tup(g)) for g in group.generators], map(pad, perms)))
    return ours == want


MALFORMED = ["(1,23", "1,2)", "[1,2]", "(1,2", "(1,2a)", "(1,2)(3", "f1", "<identity>", "(1,2);", "(1;2)", "(1,2)x", "fail", "(1,,2)", "(1.5,2)", "((1,2)", "1", "(1,2))", "(-1,2)", "(a,b)", "Error", "(1,2)(3,4", "{1,2}", "<1,2>",
             "(1,2)*(2,3)", "(1,2]", "(1,2) and (3,4)", "#I  loading", "true"]


def run_generators(ctx, num):
    from qldpc import abstract
    from qldpc.external import groups

    with World(ctx) as world:
        for trial in range(num):
            n = int(ctx.rng.integers(1, 13 if trial % 4 else 130))
            perms = random_perms(ctx, n, int(ctx.rng.integers(0, 5)))
            lines = [render(p) for p in perms]
            text = "".join(line.replace(",", ctx.pyrng.choice([",", ", "]) if trial % 3 == 0 else ",") + ctx.pyrng.choice(["\n", "\n\n", "\n \n"] if trial % 2 else ["\n"]) for line in lines)
            if trial % 5 == 1:
                text = text.rstrip("\n")
            world.scenario(stdout=text)
            name = f"Group{trial}(x)"
            ctx.case("generators", any(p != tuple(range(n)) for p in perms), text=text[:300])
            got = groups.get_generators_with_gap(name) if trial % 2 else groups.get_generators(name)
            check_generators(ctx, "generators", got, perms, text)
            if len(text) > 100:
                ctx.see("long-output")
            # and as a group object
            if n <= 12 and perms and len(lines) == len(perms):
                group = abstract.Group.from_name(f" Named {trial}(x) ")
                ctx.check(same_generators(group, perms), "from-name", f"generators {[grp.tup(g) for g in group.generators]}, should be {perms}")
                ctx.check(group.name == f"Named{trial}(x)", "from-name", f"name {group.name}")


def run_malformed(ctx, num):
    from qldpc import abstract
    from qldpc.external import codes, groups

    with World(ctx) as world:
        for trial, bad in enumerate(MALFORMED):
            name = f"Bad{trial}"
            for text in (bad + "\n", "(1,2)(3,4)\n" + bad + "\n", bad + "\n(1,2,3)\n"):
                ctx.case("malformed", True, text=text)
                world.scenario(stdout=text)
                ctx.raises(Exception, "generators-malformed", groups.get_generators, name, msg=f"output {text!r}")
            world.scenario(stdout="(1,3)\n")
            check_generators(ctx, "not-cached", groups.get_generators(name), [(2, 1, 0)], "(1,3)")
        for trial, bad in enumerate(["fail", "[ 1, fail ]", "GF(2)\n[ 1, 0", "GF(2)\n[ 1, 0 ]\n[ 1 ]", "GF(2)\n[ 1, 2 ]", "GF(6)\n[ 1, 0 ]", "GF(2)\n", "", "[ 1, 0 ]", "GF(2)\n[ 1, a ]", "GF(x)\n[ 1, 0 ]", "GF(2)\n<a matrix>",
                                      "GF(3)\n[ 1, 5 ]", "GF(2)\n[ 1, -1 ]"]):
            from qldpc.codes import ClassicalCode

            ctx.case("malformed-code", True, text=bad)
            world.scenario(stdout=bad)
            ctx.raises(Exception, "code-malformed", ClassicalCode.from_name, f"BadCode{trial}", msg=f"output {bad!r}")
        for bad in ["", "fail", "1.5", "many", "3 4"]:
            world.scenario(stdout=bad)
            ctx.raises(Exception, "code-malformed", groups.get_small_group_number, 12, msg=f"number {bad!r}")
        world.scenario(stdout="5")
        ctx.check(groups.get_small_group_number(12) == 5, "not-cached", "number of groups after errors")
        world.scenario(stdout="")
        ctx.raises(Exception, "code-malformed", groups.get_small_group_structure, 12, 3, msg="no structure")
        world.scenario(stdout="A4")
        ctx.check(groups.get_small_group_structure(12, 3) == "A4", "not-cached", "structure after errors")
        ctx.check(codes.get_code is not None and abstract.Group is not None, "not-cached", "")


def run_faults(ctx, num):
    """GAP fails, dies with half an answer, or is not there: an error, never part of an object, and nothing is cached."""
    from qldpc import codes
    from qldpc.external import groups

    with World(ctx) as world:
        long_group = [tuple(int(i) for i in ctx.rng.permutation(12)) for _ in range(4)]
        text = "".join(render(p) + "\n" for p in long_group)
        for trial in range(num):
            fault = [{"stderr": "Error, something\n"}, {"stderr": "Error, late\n", "stdout": text}, {"exit": 1, "stdout": text}, {"kill": True, "stdout": text}, {"exit": 3, "stdout": text, "lines": True},
                     {"kill": True, "stdout": text, "lines": True}][trial % 6]
            what = trial // 6 % 4
            ctx.case("fault", True, fault={k: str(v)[:30] for k, v in fault.items()}, what=what)
            if what == 0:
                query, good, check = lambda: groups.get_generators(f"G{trial}"), {"stdout": text}, lambda got: [as_perm(g, 12) for g in got] == long_group
            elif what == 1:
                rows = ctx.rng.integers(0, 3, (4, 6)).tolist()
                rows[0][0] = 1
                out = "GF(3)\n" + "".join(f"[ {', '.join(map(str, r))} ]\n" for r in rows)
                fault = {**fault, **({"stdout": out} if "stdout" in fault else {})}
                query, good, check = lambda: codes.ClassicalCode.from_name(f"C{trial}"), {"stdout": out}, lambda got: mats.to_int(got.matrix).tolist() == rows and got.field.order == 3
            elif what == 2:
                fault = {**fault, **({"stdout": "1543"} if "stdout" in fault else {})}
                query, good, check = lambda: groups.get_small_group_number(100 + trial), {"stdout": "1543"}, lambda got: got == 1543
            else:
                out = "[ (Z(2)^0)*()+(Z(2)^0)*(1,2,3)+(Z(2)^0)*(1,3,2), (Z(2)^0)*(1,2,3)+(Z(2)^0)*(1,3,2) ]"
                fault = {**fault, **({"stdout": out} if "stdout" in fault else {})}
                query, good, check = lambda: groups.get_primitive_central_idempotents(f"I{trial}", 2), {"stdout": out}, lambda got: len(got) == 2 and [len(x) for x in got] == [3, 2]
            if fault.get("exit") == 3 and what == 0 and trial % 2:
                fault["exit"] = 255
            world.scenario(**fault)
            for _ in range(2):
                ctx.raises(Exception, "fault", query, msg=f"GAP fails ({fault})"[:120])
            world.scenario(**good)
            with ctx.guard("fault-recover"):
                ctx.check(check(query()), "fault-recover", "the answer after the failure")
            world.scenario(stderr="Error, gone\n")
            with ctx.guard("fault-recover"):
                ctx.check(check(query()), "fault-recover", "the answer is not remembered")


def run_installed(ctx):
    from qldpc import abstract, codes
    from qldpc.external import gap, groups

    with World(ctx) as world:
        for version, fine in [("4.12.1", True), ("4.9.3", True), ("4.13.0", True), ("\n4.12.1", True), ("4.12.1-beta1", True), ("3.4.4", False), ("", False), ("fail", False), ("gap: command not found", False), ("14.1.2", False), ("4", False), ("5.0.0", False), ("4.x", False)]:
            world.scenario(version=version)
            world.set_gap(True)
            ctx.case("installed", True, version=version)
            ctx.check(gap.is_installed() is fine, "installed", f"version {version!r}: {gap.is_installed()}")
            ctx.check(gap.is_installed() is fine, "installed", f"version {version!r}, asked again")
        # nothing available: errors, nothing made up
        for how in ("missing", "old"):
            world.set_gap(how == "old")
            world.scenario(version="3.4")
            if how == "old":
                world.set_gap(True)
            world.fresh_cache()
            ctx.case("unavailable", True, how=how)
            ctx.check(gap.is_installed() is False, "installed", how)
            ctx.check(groups.get_generators_with_gap("SmallGroup(8,3)") is None, "unavailable", "generators without GAP")
            for name in ("SmallGroup(8,3)", "CyclicGroup(5)", "nonsense", "", "SmallGroup(8,3)x", "AutomorphismGroup(SmallGroup(8,3))"):
                ctx.raises(ValueError, "unavailable", groups.get_generators, name, msg=f"generators of {name}")
            ctx.raises(ValueError, "unavailable", codes.ClassicalCode.from_name, "RepetitionCode(5,GF(2))", msg="code")
            ctx.raises(ValueError, "unavailable", groups.get_small_group_number, 8, msg="number")
            ctx.raises(ValueError, "unavailable", groups.get_primitive_central_idempotents, "Group((1,2))", 3, msg="idempotents")
            ctx.raises(ValueError, "unavailable", abstract.GroupRing(abstract.CyclicGroup(3), 2).get_primitive_central_idempotents, msg="idempotents")
            ctx.raises(ValueError, "unavailable", abstract.SmallGroup, 8, 3, msg="small group")
            ctx.raises(ValueError, "unavailable", codes.ClassicalCode([[1, 1, 0]]).get_automorphism_group, msg="automorphisms")
            ctx.check(groups.get_small_group_structure(8, 3) == "SmallGroup(8,3)", "unavailable", "structure without GAP is the name")
            ctx.check(abstract.Group.from_name("SmallGroup(1,1)").order == 1, "unavailable", "trivial group")
        # what could not be found is found once GAP is there
        world.scenario()
        world.set_gap(True)
        ctx.check(abstract.SmallGroup(8, 3).order == 8 and groups.get_small_group_structure(8, 3) == "D8", "unavailable", "after installing GAP")


def run_package(ctx):
    """Packages: declined or failed installations raise, successful ones do not."""
    import builtins

    from qldpc.external import gap

    real = builtins.input
    with World(ctx) as world:
        try:
            for answer, fails in itertools.product(["n", "N", "no", "q", " n ", "maybe", "y", "Y", "", " y ", "y "], [False, True]):
                world.scenario(missing=["guava"])
                world.set_gap(True)
                asked = []
                builtins.input = lambda *a: (asked.append(a), answer)[1]
                log = os.environ["FAKEGIT_LOG"]
                if os.path.exists(log):
                    os.remove(log)
                if fails:
                    os.environ["FAKEGIT_FAIL"] = "1"
                else:
                    os.environ.pop("FAKEGIT_FAIL", None)
                yes = answer.strip().lower() in ("", "y")
                ctx.case("package", True, answer=answer, fails=fails)
                if yes and not fails:
                    with ctx.guard("package"):
                        gap.require_package("GUAVA")
                else:
                    ctx.raises(ValueError, "package", gap.require_package, "GUAVA", msg=f"package missing, answer {answer!r}, git fails: {fails}")
                ctx.check(len(asked) == 1, "package", f"asked {len(asked)} times")
                cloned = open(log).read() if os.path.exists(log) else ""
                ctx.check(("guava" in cloned and cloned.startswith("clone")) if yes else not cloned, "package", f"answer {answer!r}, git called with {cloned!r}")
            # not asked when the package is there
            world.scenario()
            world.set_gap(True)
            asked = []
            builtins.input = lambda *a: asked.append(a) or "n"
            with ctx.guard("package"):
                gap.require_package("GUAVA")
                gap.require_package("Wedderga")
            ctx.check(not asked, "package", "asks about a package that is there")
        finally:
            builtins.input = real


def run_codes(ctx, num):
    from qldpc.codes import ClassicalCode
    from qldpc.external import codes

    with World(ctx) as world:
        for trial in range(num):
            q = int(ctx.rng.choice([2, 2, 3, 5, 7, 4, 8, 9, 25, 27]))
            p, k = fakegap.field_label(q)
            m, n = int(ctx.rng.integers(1, 6)), int(ctx.rng.integers(1, 9 if trial % 4 else 90))
            rows = ctx.rng.integers(0, p, (m, n)).tolist()  # GAP's Int only knows elements of the prime field
            label = f"GF({p}^{k})" if k > 1 or trial % 7 == 0 else f"GF({p})"
            sep = ["\n", "\n\n"][trial % 2]
            text = label + sep + "".join(f"[ {', '.join(map(str, r))} ]{sep}" for r in rows)
            world.scenario(stdout=text)
            ctx.case("code", True, text=text[:300])
            matrix, field = codes.get_code(f"A{trial}")
            ctx.check(field == q and [list(map(int, r)) for r in matrix] == rows, "code", f"{text!r:.200} is read as GF({field}) {matrix}")
            name = f" Some Code ( {trial} ,GF({q})) "
            code = ClassicalCode.from_name(name)
            ctx.check(code.field.order == q and mats.to_int(code.matrix).tolist() == rows, "code", f"code over {code.field} with {mats.to_int(code.matrix).tolist()}")
            if n > 30:
                ctx.see("long-output")
        world.scenario()
        world.fresh_cache()
        for n, q in itertools.product((2, 3, 5, 40), (2, 3, 5)):
            code = ClassicalCode.from_name(f"RepetitionCode({n}, GF({q}))")
            ctx.case("named-code", True, n=n, q=q)
            ours = GF(q)
            ctx.check(code.field.order == q and len(code) == n and ours.same_span(mats.to_int(code.generator), np.ones((1, n), dtype=int)), "named-code", f"repetition code of {n} over GF({q})")
        for r, q in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (2, 5)):
            code = ClassicalCode.from_name(f"HammingCode({r},GF({q}))")
            n = (q**r - 1) // (q - 1)
            ctx.case("named-code", True, r=r, q=q)
            ctx.check((len(code), code.dimension) == (n, n - r) and (n > 15 or code.get_distance() == 3), "named-code", f"Hamming code {r}, {q}")
            matrix = mats.to_int(code.matrix)
            again = ClassicalCode.from_name(f"CheckMatCode({json.dumps(matrix.tolist())}, GF({q}))")
            ctx.check(np.array_equal(mats.to_int(again.matrix), matrix), "named-code", "the code of a check matrix")
        for bad in ("NoCode(3)", "WholeSpaceCode(4,GF(2))", "RepetitionCode(4)", ""):
            ctx.raises(ValueError, "named-code", ClassicalCode.from_name, bad, msg=f"code {bad!r}")


def run_automorphisms(ctx, num):
    """Automorphism groups against all permutations of the bits."""
    from qldpc.codes import ClassicalCode

    with World(ctx):
        for trial in range(num):
            q = int(ctx.rng.choice([2, 2, 3, 5]))
            f = GF(q)
            n = int(ctx.rng.integers(2, 6))
            mat = f.random(ctx.rng, (int(ctx.rng.integers(1, n)), n)) * (ctx.rng.random() < 0.5 or 1)
            if trial % 3 == 0:
                mat[:, -1] = 0 if trial % 2 else mat[:, 0]
            if not mat.any():
                continue
            code = ClassicalCode(mat, q)
            ctx.case("automorphism", True, q=q, mat=mat)
            group = code.get_automorphism_group()
            ours = {grp.tup(g) for g in group.generate()}
            want = {perm for perm in itertools.permutations(range(n)) if f.same_span(mat[:, list(perm)], mat)}
            ctx.check(ours == want, "automorphism", f"{len(ours)} automorphisms, should be {len(want)}")


def run_idempotent_text(ctx, num):
    from qldpc.external import groups

    with World(ctx) as world:
        for trial in range(num):
            q = int(ctx.rng.choice([2, 3, 4, 5, 7, 8, 9, 16, 25, 27, 64, 81]))
            p, k = fakegap.field_label(q)
            f = GF(q)
            import galois

            prim = int(galois.GF(q).primitive_element)
            powers = [1]
            for _ in range(q - 2):
                powers.append(int(f.mul(powers[-1], prim)))
            n = int(ctx.rng.integers(1, 14))
            idems, want = [], []
            for _ in range(int(ctx.rng.integers(1, 5))):
                terms, values = [], []
                for perm in random_perms(ctx, n, int(ctx.rng.integers(1, 7))):
                    sub = int(ctx.pyrng.choice([d for d in range(1, k + 1) if k % d == 0]))
                    mm = int(ctx.rng.integers(0, p**sub - 1)) if p**sub > 2 else 0
                    base = f"Z({p})" if sub == 1 else f"Z({p}^{sub})"
                    text = base if mm == 1 else f"{base}^{mm}"
                    terms.append(f"({text})*{render(perm)}")
                    values.append((powers[mm * (q - 1) // (p**sub - 1) % (q - 1)], perm))
                idems.append("+".join(terms))
                want.append(values)
            out = "[ " + ", ".join(idems) + " ]"
            world.scenario(stdout=out)
            ctx.case("idempotent-text", q > 2 or n > 1, q=q, text=out[:300])
            got = groups.get_primitive_central_idempotents(f"X{trial}", q)
            ours = [[(int(c), as_perm([x for x in cyc if x], n)) for c, cyc in idem] for idem in got]
            ctx.check(ours == want, "idempotent-text", f"GF({q}): {out[:200]} is read as {got}"[:600])
            ctx.check(all(type(c) is int for idem in got for c, _ in idem), "idempotent-text", "types")
            if len(out) > 200:
                ctx.see("long-output")


def ring_cases():
    cyc = [(n, [tuple(grp.cyc(n))]) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9)]
    out = [(f"C{n}", gens) for n, gens in cyc]
    out += [("V4", [(1, 0, 2, 3), (0, 1, 3, 2)]), ("S3", [(1, 0, 2), (1, 2, 0)]), ("D8", [(1, 2, 3, 0), (2, 1, 0, 3)]), ("C3xC3", [(1, 2, 0, 3, 4, 5), (0, 1, 2, 4, 5, 3)]), ("A4", [(1, 2, 0, 3), (1, 0, 3, 2)]),
            ("D10", [(1, 2, 3, 4, 0), (0, 4, 3, 2, 1)]), ("C5 on 7", [(0, 2, 3, 4, 5, 1, 6)])]
    return out


def run_idempotents(ctx, q, names):
    """Idempotents as ring elements: they satisfy the definition, and there are as many as there should be."""
    from qldpc import abstract

    for name, gens in ring_cases():
        if name not in names:
            continue
        members = sorted(grp.closure(gens, len(gens[0])))
        f = GF(q)
        group = abstract.Group(*[abstract.GroupMember(list(g)) for g in gens])
        ring = abstract.GroupRing(group, q)
        with World(ctx):
            if len(members) % f.p == 0:
                ctx.case("idempotents", True, group=name, q=q)
                ctx.raises(ValueError, "idempotents", ring.get_primitive_central_idempotents, msg=f"{name} over GF({q}) is not semisimple")
                continue
            # classes of elements under conjugation and g -> g^q
            classes = {frozenset(grp.compose(grp.compose(grp.invert(h), g), h) for h in members) for g in members}
            if q ** len(classes) > 300_000:
                continue

            def power(cls):
                g = min(cls)
                x = tuple(range(len(g)))
                for _ in range(q):
                    x = grp.compose(x, g)
                return next(c for c in classes if x in c)

            orbits = set()
            for c in classes:
                orbit, x = {c}, power(c)
                while x not in orbit:
                    orbit.add(x)
                    x = power(x)
                orbits.add(frozenset(orbit))
            ctx.case("idempotents", len(orbits) > 1, group=name, q=q)
            idems = ring.get_primitive_central_idempotents()
            ctx.check(len(idems) == len(orbits), "idempotents", f"{name} over GF({q}): {len(idems)} idempotents, should be {len(orbits)}")
            total = ring.zero
            for i, e in enumerate(idems):
                ctx.check(e * e == e and e != ring.zero, "idempotent-law", f"{name} over GF({q}): idempotent {e}")
                ctx.check(all(abstract.RingMember(ring, g) * e == e * abstract.RingMember(ring, g) for g in group.generators), "idempotent-law", "central")
                ctx.check(all(e * x == ring.zero for x in idems[:i]), "idempotent-law", "orthogonal")
                total = total + e
            ctx.check(total == ring.one, "idempotent-law", f"{name} over GF({q}): sum {total}")


def index_page(ctx, entries, breaks=""):
    """An index of groups: one row per line, the first link leads to the group's page."""
    rows = []
    for (order, index), link in entries:
        decoys = "".join(f"<td><a href='{ctx.pyrng.choice(['T15', 'R'])}.html#{order}'>{int(ctx.rng.integers(1, 60))}</a></td>" for _ in range(int(ctx.rng.integers(0, 3))))
        rows.append(f'<tr><td id="g{order}"><a href="{link}">G<sub>{order}</sub></a></td><td><a href="other.html">A</a> group</td>{decoys}<td>G{order}</td><td>{order},{index}</td></tr>')
    rows = [rows[i] for i in ctx.rng.permutation(len(rows))]
    return "<html><table class=\"gptable\">\n<tr><th>d</th><th>ID</th></tr>" + "\n" + "\n".join(rows) + "\n</table>\n" + breaks


def group_page(ctx, name, perms, decoy=True):
    lines = "<br>\n".join(render(p, " ") for p in perms)
    extra = f"<button class='copytext' id='c2'>Copy</button><br><pre class='pre' id='textgn2'>(1 2 3 4 5 6 7 8 9)</pre>&emsp;<button class='copytext'>Copy</button>" if decoy else ""
    return (f"<html><h1>{name}</h1><p>Presentation: <pre class='pre' id='pres'>&lt;a,b|a^2&gt;</pre></p>\n<b><a href='x' title='y' class='wiki'>Permutation representations of {name}</a></b><br>"
            f"<a id='shl1' class='shl' href=\"javascript:showhide('shs1');\">Regular action</a><div id='shs1' class='shs'>Generators in S<sub>{len(perms[0])}</sub><br>"
            f"<pre class='pre' id='textgn1'>{lines}</pre>&emsp;<button class='copytext' id='copygn1'>Copy</button><br>{extra}</html>")


def run_web(ctx, num):
    from qldpc import abstract
    from qldpc.external import groups

    base = groups.GROUPNAMES_URL
    pages = {}
    with World(ctx, gap=False, pages=pages) as world:
        for trial in range(num):
            pages.clear()
            world.fresh_cache()
            # groups with similar labels
            keys = {(int(a), int(b)) for a, b in zip(ctx.rng.choice([1, 2, 6, 12, 16, 21, 32, 60], 14), ctx.rng.integers(1, 32, 14))}
            if trial % 2:
                keys = {(int(a), int(b)) for a, b in zip(ctx.rng.choice([61, 64, 72, 100, 120, 161, 172, 272], 14), ctx.rng.integers(1, 400, 14))}
            keys = sorted(keys)
            links = {key: f"{ctx.pyrng.choice(['1/', 'sub/', ''])}G{key[0]}_{key[1]}.html" for key in keys}
            index = base + ("index500.html" if trial % 2 else "")
            pages[index] = index_page(ctx, list(links.items()))
            perms = {}
            for key in keys[:4] + keys[-2:]:
                n = int(ctx.rng.integers(2, 20))
                perms[key] = [p for p in random_perms(ctx, n, int(ctx.rng.integers(1, 5))) if p != tuple(range(n))] or [tuple(grp.cyc(n))]
                pages[base + links[key]] = group_page(ctx, f"G{key}", perms[key], bool(ctx.rng.integers(2)))
            for key, gens in perms.items():
                ctx.case("web", True, key=key, gens=[list(g) for g in gens])
                ctx.check(groups.get_group_url(*key) == base + links[key], "web-url", f"page of {key} is {groups.get_group_url(*key)}")
                got = groups.get_generators(f"SmallGroup({key[0]},{key[1]})")
                check_generators(ctx, "web-generators", got, gens, f"page of {key}")
                before = len(world.web)
                group = abstract.Group.from_name(f"SmallGroup({key[0]}, {key[1]})") if key != (1, 1) else None
                ctx.check(len(world.web) == before, "agree", "the web is asked again")
                if group is not None:
                    ctx.check(same_generators(group, gens), "agree", "the group")
            for order in {key[0] for key in keys}:
                ctx.check(groups.get_small_group_number(order) == max(b for a, b in keys if a == order), "web-number", f"number of groups of order {order}: {groups.get_small_group_number(order)}")
            # not in the index
            for key in ((keys[0][0], 999), (59 if trial % 2 == 0 else 499, 1)):
                ctx.raises(ValueError, "web-malformed", groups.get_generators, f"SmallGroup({key[0]},{key[1]})", msg=f"group {key} is not in the index")
            ctx.raises(ValueError, "web-malformed", groups.get_small_group_number, 59 if trial % 2 == 0 else 499, msg="order that is not in the index")
            # damaged pages
            key = next(iter(perms))
            good = pages[base + links[key]]
            start = good.index("'textgn1'>") + len("'textgn1'>")
            end = good.index("</pre>", start)
            for damaged in (good.replace("<pre", "<div").replace("</pre>", "</div>"), good[: good.index("Permutation rep")], good[:start] + "(1 2" + good[end:], good[:start] + "(1 2)<br>\n(3 4" + good[end:], good[:start] + "[1 2]" + good[end:],
                            good[:start] + "see below" + good[end:], "", good[:start] + "(1 2)<br>\nnone" + good[end:]):
                world.fresh_cache()
                pages[base + links[key]] = damaged
                ctx.case("web-malformed", True, page=damaged[-200:])
                ctx.raises(Exception, "web-malformed", groups.get_generators, f"SmallGroup({key[0]},{key[1]})", msg=f"page {damaged[-150:]!r}")
            # failures
            for where, fault in itertools.product((index, base + links[key]), (urllib.error.URLError("down"), urllib.error.HTTPError(index, 503, "busy", {}, None), None)):
                world.fresh_cache()
                pages[base + links[key]] = good
                saved = pages.pop(where)
                if fault is not None:
                    pages[where] = fault
                ctx.raises(Exception, "web-fault", groups.get_generators, f"SmallGroup({key[0]},{key[1]})", msg=f"{where} fails")
                if where == index:
                    ctx.raises(Exception, "web-fault", groups.get_small_group_number, key[0], msg="index fails")
                pages[where] = saved
                check_generators(ctx, "web-fault", groups.get_generators(f"SmallGroup({key[0]},{key[1]})"), perms[key], "after a failure")
            for name in ("CyclicGroup(4)", "SmallGroup(4)", f"SmallGroup({key[0]},{key[1]})/Centre", f"xSmallGroup({key[0]},{key[1]})", f"SmallGroup({key[0]},{key[1]})xC2"):
                ctx.raises(ValueError, "web-fault", groups.get_generators, name, msg=f"{name} has no page")


def run_agree(ctx):
    """The same groups from GAP, from the web, and from the cache after both are gone."""
    from qldpc import abstract
    from qldpc.external import groups

    base = groups.GROUPNAMES_URL
    pages = {}
    entries = []
    for (order, index), (gens, _) in fakegap.SMALL.items():
        perms, _ = fakegap.perms_of(",".join(gens)) if gens else ([(0,)], 1)
        link = f"1/G{order}_{index}.html"
        entries.append(((order, index), link))
        pages[base + link] = group_page(ctx, f"G{order}", perms)
    pages[base] = index_page(ctx, entries)
    sources = {}
    with World(ctx, pages=pages) as world:
        for source in ("gap", "web"):
            world.set_gap(source == "gap")
            world.fresh_cache()
            for (order, index), (gens, structure) in fakegap.SMALL.items():
                ctx.case("agree", order > 1, order=order, index=index, source=source)
                group = abstract.SmallGroup(order, index)
                members = {grp.tup(g) for g in group.generate()}
                perms, n = fakegap.perms_of(",".join(gens))
                want = grp.closure(perms, n)
                ctx.check(group.order == order == len(members), "small-group", f"SmallGroup({order},{index}) from {source} has order {group.order}")
                ctx.check(members == want or order == 1, "agree", f"SmallGroup({order},{index}) from {source}")
                ctx.check(group.group_index == index and group.name == f"SmallGroup({order},{index})" or order == 1, "small-group", f"name {group.name}")
                sources.setdefault((order, index), []).append((members, os.environ["XDG_CACHE_HOME"]))
                ctx.check(group.structure == (structure if source == "gap" else f"SmallGroup({order},{index})") and abstract.SmallGroup.get_structure(order, index) == group.structure, "structure", f"structure {group.structure}")
            if source == "gap":
                # names that run together alike: 16-11 and 161-1, 12-5 and 125-1, 8-51 and 85-1, ...
                some = [*fakegap.MORE, *fakegap.SMALL]
                for asked in ("structure", "generators", "structure", "generators"):
                    for pick in ctx.rng.permutation(len(some)):
                        order, index = some[pick]
                        gens, structure = {**fakegap.SMALL, **fakegap.MORE}[order, index]
                        if asked == "structure":
                            ctx.check(groups.get_small_group_structure(order, index) == structure, "structure", f"structure of SmallGroup({order},{index})")
                        elif order > 1:
                            check_generators(ctx, "agree", groups.get_generators(f"SmallGroup({order},{index})"), fakegap.perms_of(",".join(gens))[0], f"SmallGroup({order},{index})")
            for order in range(1, 13):
                number = sum(1 for a, _ in fakegap.SMALL if a == order)
                if number:
                    ctx.check(groups.get_small_group_number(order) == number == abstract.SmallGroup.number(order), "number", f"groups of order {order}")
                    listed = list(abstract.SmallGroup.generator(order))
                    ctx.check([g.group_index for g in listed] == list(range(1, number + 1)) and all(g.order == order for g in listed), "number", "all groups of an order")
                    for bad in (0, number + 1, -1):
                        ctx.raises(ValueError, "small-group-reject", abstract.SmallGroup, order, bad, msg=f"SmallGroup({order},{bad})")
        # both gone
        world.set_gap(False)
        saved = dict(pages)
        pages.clear()
        for key, seen in sources.items():
            for members, cache in seen:
                os.environ["XDG_CACHE_HOME"] = cache
                before = world.calls(), len(world.web)
                group = abstract.SmallGroup(*key)
                ctx.check({grp.tup(g) for g in group.generate()} == members, "agree", f"SmallGroup{key} from the cache")
                ctx.check((world.calls(), len(world.web)) == before, "agree", "a tool is asked for what is cached")
        pages.update(saved)


def run_known(ctx):
    """The built-in table against automorphism groups computed from scratch."""
    from qldpc import abstract
    from qldpc.external import groups

    with World(ctx, gap=False) as world:
        for name, gens in groups.KNOWN_GROUPS.items():
            expr = fakegap.re.fullmatch(r"AutomorphismGroup\(CheckMatCode\((\[.*\]),GF\(2\)\)\)", name)
            ctx.case("known", True, name=name)
            rows = np.array(fakegap.parse_matrix(expr.group(1)))
            n = rows.shape[1]
            f = GF(2)
            got = groups.get_generators(name)
            ctx.check(not world.calls() and not world.web, "known-groups", "a tool is asked for a known group")
            perms = [as_perm(g, n) for g in got]
            ctx.check(all(f.same_span(rows[:, list(p)], rows) for p in perms), "known-groups", f"not automorphisms: {name}")
            ours = abstract.Group(*[abstract.GroupMember(list(p)) for p in perms]).order
            want = abstract.Group(*[abstract.GroupMember(list(p)) for p in fakegap.automorphisms(rows.tolist(), 2)]).order
            ctx.check(ours == want, "known-groups", f"order {ours}, should be {want}: {name}")


def units(tier, seed):
    big = tier == "thorough"
    out = [("agree", run_agree, ()), ("known", run_known, ()), ("installed", run_installed, ()), ("package", run_package, ()), ("malformed", run_malformed, (0,))]
    for i in range(2 if not big else 8):
        out += [(f"generators-{i}", run_generators, (40 if not big else 400,)), (f"web-{i}", run_web, (6 if not big else 80,)), (f"idempotent-text-{i}", run_idempotent_text, (50 if not big else 400,)),
                (f"codes-{i}", run_codes, (25 if not big else 200,)), (f"automorphisms-{i}", run_automorphisms, (45 if not big else 400,)), (f"faults-{i}", run_faults, (24 if not big else 96,))]
    names = [name for name, _ in ring_cases()]
    for q in (2, 3, 4, 5, 7, 8, 9, 16, 25):
        for part in range(3):
            out.append((f"idempotents-{q}-{part}", run_idempotents, (q, names[part::3])))
    return out
