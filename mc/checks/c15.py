"""C15: element descriptions are values.

State: a description (or a pair of descriptions).  Transition: one of the
value operations - rebuild, evaluate the printed form, pickle with every
protocol, copy, reconstruct with no/one/two changed parameters, or compare a
pair - applied to the real object.  The oracle is the specification the
description was built from: two descriptions must compare equal exactly when
their canonical specifications agree.
"""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

import finat.ufl as fu
import ufl

from mc import uflspec as us
from mc.core import REPO, VERIF

CHUNK = 1
BLOCK = 300
ASSUMPTIONS = ["pickle protocols from 2 (descriptions use __slots__)",
               "the printed form is evaluated with the names of ufl and finat.ufl in scope"]


def bound(tier):
    return ("all description trees of uflspec.trees(%r): every combinator over the leaf alphabet, nested to depth %d; "
            "all pairs of the depth-2 set; hash seeds 0, 1, 4242" % (tier, 2 if tier == "quick" else 3))


def tasks(tier):
    n = len(us.trees(tier))
    out = [["single", k, min(k + BLOCK, n)] for k in range(0, n, BLOCK)]
    m = len(us.trees("quick"))
    out += [["pairs", k, min(k + 150, m)] for k in range(0, m, 150)]
    out += [["buckets"]] + [["process", s] for s in (0, 1, 4242)] + [["aliases"], ["operators"]]
    return out


def cost(task):
    return {"pairs": 2, "process": 3, "buckets": 3}.get(task[0], 1)


def namespace():
    ns = {k: getattr(ufl, k) for k in dir(ufl) if not k.startswith("_")}
    ns.update({k: getattr(fu, k) for k in dir(fu) if not k.startswith("_")})
    ns["TensorProductCell"] = ufl.TensorProductCell
    return ns


def same(ctx, case, what, a, b):
    """Everything that makes two descriptions equal values."""
    ctx.step()
    ok = ctx.expect(a == b and b == a, case, lambda: "%s: not equal: %r vs %r" % (what, a, b))
    ok &= ctx.expect(not (a != b), case, what + ": both equal and unequal")
    ok &= ctx.expect(hash(a) == hash(b), case, what + ": equal descriptions with different hashes")
    ok &= ctx.expect(type(a) is type(b) and repr(a) == repr(b) and str(a) == str(b), case,
                     lambda: "%s: printed forms differ: %r / %r" % (what, a, b))
    ok &= ctx.expect(a._ufl_signature_data_() == b._ufl_signature_data_(), case, what + ": signatures differ")
    for q in ("family", "degree", "variant", "quadrature_scheme", "mapping"):
        ok &= ctx.equal(getattr(a, q)(), getattr(b, q)(), case, "%s: %s()" % (what, q))
    ok &= ctx.equal(a.cell, b.cell, case, what + ": cell")
    ok &= ctx.equal(a.reference_value_shape, b.reference_value_shape, case, what + ": reference value shape")
    ok &= ctx.equal(a.num_sub_elements, b.num_sub_elements, case, what + ": number of sub-elements")
    ok &= ctx.equal(tuple(a.sub_elements), tuple(b.sub_elements), case, what + ": sub-elements")
    return ok


# -- reconstruction at the level of specifications
def recon(spec, **kw):
    op = spec[0]
    if op == "F":
        _, fam, c, d, q, v = spec
        return ("F", kw.get("family", fam), kw.get("cell", c), kw.get("degree", d), kw.get("quad_scheme", q), kw.get("variant", v))
    if op == "TP":
        kw = dict(kw)
        c = kw.pop("cell", us.cell_of(spec))
        return ("TP", tuple(recon(s, **kw) for s in spec[1]), c)
    if op in ("M", "E", "N"):
        return (op, tuple(recon(s, **kw) for s in spec[1]))
    if op == "W":
        kw = dict(kw)
        m = kw.pop("mapping", spec[2])
        return ("W", recon(spec[1], **kw), m)
    return (op, recon(spec[1], **kw)) + tuple(spec[2:])


def leaf_specs(spec):
    return [spec] if spec[0] == "F" else [x for s in us.subs(spec) for x in leaf_specs(s)]


def singles(ctx, spec, e, ns):
    case = us.show(spec)
    with ctx.guard(case, "value operations"):
        ctx.state(us.canonical(spec))
        same(ctx, case, "built twice", e, us.build(spec))
        same(ctx, case, "compared with itself", e, e)
        for other in (None, 0, "x", repr(e), ()):
            ctx.expect(not (e == other) and e != other, case, "equal to %r" % (other,))
        with ctx.guard(case, "evaluating the printed form"):
            same(ctx, case, "evaluated printed form", eval(repr(e), dict(ns)), e)
        for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
            with ctx.guard(case, "pickling with protocol %d" % proto):
                same(ctx, case, "un-pickled (protocol %d)" % proto, pickle.loads(pickle.dumps(e, proto)), e)
        with ctx.guard(case, "copying"):
            same(ctx, case, "copied", copy.copy(e), e)
            same(ctx, case, "deep-copied", copy.deepcopy(e), e)
        ctx.expect(isinstance(str(e), str) and isinstance(e.shortstr(), str), case, "printing")
        ctx.outcome(repr(e))
        with ctx.guard(case, "reconstruct"):
            same(ctx, case, "reconstructed", e.reconstruct(), e)
        # same parameters given explicitly
        ls = leaf_specs(spec)
        degs = sorted({l[3] for l in ls})
        if len(degs) == 1:
            with ctx.guard(case, "reconstruct(degree=)"):
                same(ctx, case, "reconstructed with the same degree", e.reconstruct(degree=degs[0]), e)
        changes = [{"degree": 2}, {"degree": 3}, {"variant": "equispaced"}, {"quad_scheme": "KMV"}, {"degree": 2, "variant": "equispaced"}]
        if not any(isinstance(us.cell_of(l), tuple) for l in ls) and not has(spec, "TP"):
            changes += [{"cell": c} for c in ("triangle", "quadrilateral", "tetrahedron")]
        if spec[0] == "TP" and us.tdim(us.cell_of(spec)) == 2:
            changes += [{"cell": "quadrilateral"}, {"cell": ("interval", "interval")}]
        if spec[0] == "F":
            changes += [{"family": "Discontinuous Lagrange"}]
        if spec[0] == "W":
            changes += [{"mapping": "identity"}, {"mapping": "covariant Piola"}]
        for kw in changes:
            want = recon(spec, **kw)
            try:
                w = us.build(want)
            except (ValueError, AssertionError):
                w = None
            real = dict(kw)
            if "cell" in real:
                real["cell"] = us.cell(real["cell"])
            try:
                got = e.reconstruct(**real)
            except (ValueError, AssertionError) as exc:
                ctx.expect(w is None, case, "reconstruct(%s) refused: %s" % (kw, exc))
                continue
            if not ctx.expect(w is not None, case, "reconstruct(%s) accepted an invalid element: %r" % (kw, got)):
                continue
            same(ctx, case, "reconstruct(%s)" % (kw,), got, w)
        # repeated and combined changes commute
        try:
            a = e.reconstruct(degree=2).reconstruct(variant="equispaced")
            b = e.reconstruct(variant="equispaced").reconstruct(degree=2)
        except (ValueError, AssertionError):
            pass
        else:
            same(ctx, case, "reconstruct of degree and variant in either order", a, b)
        if spec[0] == "M":
            parts = [us.build(s) for s in spec[1]]
            same(ctx, case, "reconstruct_from_elements with the same parts", e.reconstruct_from_elements(*parts), e)
            for new in (spec[1] + (spec[1][0],), spec[1][:-1], spec[1][::-1], spec[1][:1]):
                if not new:
                    continue
                try:
                    w = us.build(("M", tuple(new)))
                except ValueError:
                    continue
                same(ctx, case, "reconstruct_from_elements(%s)" % [us.show(s) for s in new],
                     e.reconstruct_from_elements(*[us.build(s) for s in new]), w)


def has(spec, op):
    return spec[0] == op or any(has(s, op) for s in us.subs(spec))


def run(task, ctx):
    kind = task[0]
    if kind == "single":
        ns = namespace()
        for spec, e in us.valid(us.trees(ctx.tier)[task[1]:task[2]]):
            singles(ctx, spec, e, ns)
            ctx.sample(us.show(spec))
    elif kind == "pairs":
        items = [(us.canonical(s), us.show(s), e) for s, e in us.valid(us.trees("quick"))]
        all_ = us.trees("quick")
        rows = {us.canonical(s) for s in all_[task[1]:task[2]]}
        for k, (ca, na, a) in enumerate(items):
            if ca not in rows:
                continue
            for cb, nb, b in items[k + 1:]:
                ctx.step()
                ctx.compared += 1
                eq = a == b
                want = ca == cb
                if eq != want or (b == a) != eq or (a != b) == eq:
                    ctx.fail(na + " vs " + nb, "compare %s but %s" % ("equal" if eq else "unequal",
                             "describe the same element" if want else "describe different elements"))
                elif eq and hash(a) != hash(b):
                    ctx.fail(na + " vs " + nb, "equal with different hashes")
                else:
                    lt, gt = a < b, b < a
                    if (lt + gt + eq) != 1 and type(a) is type(b):
                        ctx.fail(na + " vs " + nb, "ordering is not total: < %s > %s == %s" % (lt, gt, eq))
            ctx.state(("pair-row", ca))
    elif kind == "buckets":
        table = {}
        for spec, e in us.valid(us.trees(ctx.tier)):
            ctx.step()
            c = us.canonical(spec)
            ctx.state(c)
            if e in table:
                ctx.equal(table[e], c, us.show(spec), "dictionary lookup found a different description")
            else:
                table[e] = c
        # one key per element
        ctx.equal(len(set(table.values())), len(table), "buckets", "dictionary keys per distinct description")
    elif kind == "process":
        seed = task[1]
        items = us.valid(us.trees(ctx.tier))
        blobs = []
        for s, e in items:
            try:
                blobs.append((s, pickle.dumps(e)))
            except Exception:
                blobs.append((s, b""))
        with tempfile.NamedTemporaryFile(suffix=".pkl") as f:
            pickle.dump(blobs, f)
            f.flush()
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=REPO + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1")
            res = subprocess.run([sys.executable, "-m", "mc.ufl_worker", ctx.tier, f.name], capture_output=True, env=env, cwd=VERIF)
        if not ctx.expect(res.returncode == 0, "process", lambda: res.stderr.decode()[-800:]):
            return
        out = json.loads(res.stdout)
        ctx.equal(len(out), len(items), "process", "number of descriptions")
        for (s, e), r in zip(items, out):
            ctx.step()
            ctx.state((seed, us.canonical(s)))
            case = us.show(s)
            ctx.equal(r["hash"], str(hash(e)), case, "hash in another process (seed %d)" % seed)
            ctx.equal(r["repr"], repr(e), case, "printed form in another process (seed %d)" % seed)
            ctx.equal(r["unpickled"], True, case, "un-pickled in another process")
    elif kind == "aliases":
        for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
            groups = [("Lagrange", "CG", "P"), ("Discontinuous Lagrange", "DG", "DP")]
            if c in ("triangle", "tetrahedron"):
                groups += [("Raviart-Thomas", "RT", "RTF", "N1F"), ("Nedelec 1st kind H(curl)", "N1curl", "RTE", "N1E")]
            for g in groups:
                for d in (1, 2, 3):
                    for v in (None, "spectral"):
                        els = []
                        for name in g:
                            try:
                                els.append((name, fu.FiniteElement(name, c, d, variant=v)))
                            except ValueError:
                                ctx.skip("alias %s on %s" % (name, c))
                        for (n1, a), (n2, b) in itertools.combinations(els, 2):
                            ctx.state((c, d, v, n1, n2))
                            same(ctx, "%s/%s on %s degree %d" % (n1, n2, c, d), "aliases", a, b)
    elif kind == "operators":
        base = [s for s in us.dedupe(x for c in us.leaves("quick").values() for x in c)]
        for s, t in itertools.product(base, repeat=2):
            case = us.show(s) + " and " + us.show(t)
            for op, f in (("M", lambda a, b: a * b), ("E", lambda a, b: a + b)):
                try:
                    w = us.build((op, (s, t)))
                except (ValueError, AssertionError):
                    continue
                ctx.state((op, s, t))
                with ctx.guard(case, "operator"):
                    same(ctx, case, "operator " + op, f(us.build(s), us.build(t)), w)
        for s in base:
            for d in ("interior", "facet", "face", "edge", "vertex", "reduced"):
                with ctx.guard(us.show(s), "restriction operator"):
                    same(ctx, us.show(s), "restriction operator", us.build(s)[d], us.build(("R", s, d)))
            try:
                us.build(s)["nothing"]
            except KeyError:
                ctx.expect(True, us.show(s))
            else:
                ctx.fail(us.show(s), "restriction to an unknown domain accepted")
