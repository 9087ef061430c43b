"""C18: answers never depend on the history of queries.

State: (object or pair of objects sharing a part, history of queries so far).
Transition: one more public query on the real object.  Every history up to
the depth bound is executed on freshly built objects; every answer is compared
with the one a pristine process gives for that query alone, and answers handed
out earlier, and the arguments passed in, are compared again after every later
query.  One additional long history visits every ordered pair of queries on a
single object (an Eulerian walk of the complete graph of queries).
"""
import itertools
import os
import pickle
import struct
import traceback

import gem
import numpy
from finat.point_set import PointSet
from finat.quadrature import make_quadrature
from finat.quadrature_element import make_quadrature_element

from mc import alphabet, build, canon, geometry, points, ref, uflspec, zany
from mc.canon import attempt

CHUNK = 1
UFLBLOCK = 8
ASSUMPTIONS = ["the caller does not modify the objects it is handed",
               "numerical answers agree to 1e-9 relative to their size"]
L = alphabet.leaf
I, T, K, Q, H = alphabet.INT, alphabet.TRI, alphabet.TET, alphabet.QUAD, alphabet.HEX


def bound(tier):
    return ("%d finite elements, %d shared parts under every pair of wrappers, element descriptions (depth-1 trees, and "
            "pairs sharing a sub-element), quadrature rules; every history of %d queries on fresh objects and one walk "
            "through every ordered pair of queries" % (len(elements(tier)), len(shared(tier)), 2 if tier == "quick" else 3))


# ------------------------------------------------------------------ alphabets

def elements(tier):
    A = alphabet
    cg1, cg2, dg0, dg1 = L("Lagrange", I, 1), L("Lagrange", I, 2), L("DiscontinuousLagrange", I, 0), L("DiscontinuousLagrange", I, 1)
    gll, gl = L("GaussLobattoLegendre", I, 2), L("GaussLegendre", I, 1)
    p1, p2, dp1, rt, ned = L("Lagrange", T, 1), L("Lagrange", T, 2), L("DiscontinuousLagrange", T, 1), L("RaviartThomas", T, 1), L("Nedelec", T, 1)
    out = [cg2, gll, gl, L("Legendre", I, 2), L("IntegratedLegendre", I, 3), L("FDMLagrange", I, 3), L("Real", T, 0),
           p1, L("Lagrange", T, 3), L("Lagrange", T, 1, "alfeld"), L("DiscontinuousLagrange", T, 0), dp1,
           L("Bernstein", T, 2), L("Bubble", T, 3), L("FacetBubble", T, 2), L("CrouzeixRaviart", T, 1), L("KongMulderVeldhuizen", T, 2),
           L("DiscontinuousTaylor", T, 1), L("HDivTrace", T, 1), rt, ned, L("BrezziDouglasMarini", T, 1, "integral"), L("BrezziDouglasFortinMarini", T, 2),
           L("Regge", T, 1), L("HellanHerrmannJohnson", T, 1), L("GopalakrishnanLedererSchoberlFirstKind", T, 1),
           L("Lagrange", K, 2), L("RaviartThomas", K, 1), L("Nedelec", K, 1),
           L("Serendipity", Q, 2), L("DPC", Q, 1), L("BrezziDouglasMariniCubeFace", Q, 1), L("TrimmedSerendipityEdge", Q, 1), L("Serendipity", (I, I), 2)]
    out += [A.tp(cg2, dg1), A.tp(gll, gl), A.tp(p1, cg2), A.tp(rt, dg0), A.tp(cg1, cg2, dg1), A.tp(A.tp(cg1, cg2), dg0), A.tp(A.flat(A.tp(cg1, cg2)), dg1)]
    out += [A.flat(A.tp(cg1, cg2)), A.flat(A.tp(gll, gll)), A.flat(A.tp(cg1, dg0, cg2)),
            A.flat(A.enriched(A.hdiv(A.tp(cg1, dg0)), A.hdiv(A.tp(dg0, cg1))))]
    out += [A.enriched(p1, L("Bubble", T, 3)), A.enriched(A.hcurl(A.tp(cg1, dg0)), A.hcurl(A.tp(dg0, cg1))),
            A.mixed(p2, rt), A.mixed(A.tfe(p1, (2,)), dp1), A.mixed(A.mixed(p1, dp1), p1)]
    out += [A.tfe(p2, (2,)), A.tfe(p2, (2,), True), A.tfe(rt, (2,)), A.tfe(A.tp(cg1, cg2), (2, 3), True), A.tfe(A.tfe(p1, (2,)), (3,), True)]
    out += [A.hdiv(A.tp(cg1, dg0)), A.hcurl(A.tp(dg0, cg1)), A.hdiv(A.tp(rt, dg0)), A.hcurl(A.tp(ned, cg1)), A.disc(p2), A.disc(A.tfe(p1, (2,)))]
    out += [("restricted", p2, "facet"), ("restricted", L("Lagrange", T, 3), "interior"), ("restricted", L("Lagrange", T, 3), "edge"), ("restricted", rt, "facet")]
    out += [("restricted", A.tp(cg2, cg2), "interior"), ("restricted", A.flat(A.tp(cg2, cg1)), "facet")]
    out += [("nodalenriched", (p1, L("Bubble", T, 3)))]
    Z = [("Hermite", T, 3), ("Hermite", I, 3), ("Morley", T, 2), ("Bell", T, 5), ("MardalTaiWinther", T, 3), ("ArnoldWintherNC", T, 2),
         ("ReducedHsiehCloughTocher", T, 3), ("BernardiRaugel", T, 1), ("QuadraticPowellSabin12", T, 2)]
    if tier != "quick":
        Z += [("ReducedArnoldQin", T, 2), ("JohnsonMercier", T, 1), ("AlfeldSorokina", T, 2), ("HsiehCloughTocher", T, 3), ("BernardiRaugelBubble", T, None)]
        Z += [("Argyris", T, 5), ("ArnoldWinther", T, 3), ("HuZhang", T, 3), ("ChristiansenHu", T, 1), ("QuadraticPowellSabin6", T, 2),
              ("GuzmanNeilanFirstKindH1", T, 1), ("GuzmanNeilanH1div", T, None), ("GuzmanNeilanBubble", T, None), ("Hermite", K, 3), ("BernardiRaugel", K, 1)]
    out += [("zany", c, n, d, ()) for c, n, d in Z]
    out += [A.tfe(("zany", "Morley", T, 2, ()), (2,)), A.mixed(("zany", "Bell", T, 5, ()), p1), A.disc(("zany", "MardalTaiWinther", T, 3, ()))]
    out += [("dser", 2)] + ([("dser", 4)] if tier != "quick" else [])
    out += [("quad", T, 3, "default"), ("quad", Q, 2, "default"), ("quad", (T, I), 2, "default"), ("quad", T, 2, "KMV")]
    return out


def shared(tier):
    """(part, wrappers around the very same object)"""
    A = alphabet
    cg1, cg2, dg0 = L("Lagrange", I, 1), L("Lagrange", I, 2), L("DiscontinuousLagrange", I, 0)
    p1, p2, rt = L("Lagrange", T, 1), L("Lagrange", T, 2), L("RaviartThomas", T, 1)
    X = "X"     # stands for the shared object
    common = [X, ("tfe", X, (2,), False), ("tfe", X, (2,), True), ("disc", X), ("enriched", (X, X)), ("mixed", (X, X))]
    out = [(p2, common + [("restricted", X, "facet"), ("tp", (X, cg1)), ("mixed", (p1, X)), ("enriched", (X, L("Bubble", T, 3)))]),
           (rt, common + [("hdiv", ("tp", (X, dg0))), ("mixed", (X, p1)), ("restricted", X, "facet")]),
           (cg2, [X, ("tp", (X, X)), ("tp", (X, dg0)), ("tp", (dg0, X)), ("flat", ("tp", (X, X))), ("hdiv", ("tp", (X, dg0))), ("hcurl", ("tp", (dg0, X))),
                  ("enriched", (("hdiv", ("tp", (X, dg0))), ("hdiv", ("tp", (dg0, X))))), ("tfe", X, (2,), True), ("disc", X)]),
           (A.tp(cg2, cg2), common + [("flat", X), ("tp", (X, dg0)), ("restricted", X, "interior"), ("flat", ("disc", X))]),
           (A.tp(cg1, dg0), [X, ("flat", X), ("hdiv", X), ("hcurl", X), ("enriched", (("hdiv", X), ("hdiv", ("tp", (dg0, cg1))))), ("tfe", X, (2,), False), ("disc", X)]),
           (("zany", "Morley", T, 2, ()), common),
           (("zany", "MardalTaiWinther", T, 3, ()), common),
           (("quad", T, 2, "default"), [X, ("tfe", X, (2,), False), ("tfe", X, (2,), True), ("mixed", (X, X)), ("mixed", (X, p1))])]
    if tier != "quick":
        out += [(L("Nedelec", T, 1), common + [("hcurl", ("tp", (X, cg1)))]),
                (A.flat(A.tp(cg1, cg2)), common + [("tp", (X, dg0)), ("restricted", X, "facet")]),
                (("zany", "Bell", T, 5, ()), common),
                (A.enriched(p1, L("Bubble", T, 3)), common),
                (A.tfe(p1, (2,)), common), (L("KongMulderVeldhuizen", T, 2), common), (L("Serendipity", Q, 2), common)]
    return out


def subst(w, spec):
    if w == "X":
        return spec
    if w[0] in ("leaf", "zany", "quad", "dser"):
        return w
    return tuple(subst(x, spec) if x == "X" or (isinstance(x, tuple) and x and isinstance(x[0], str)) else
                 (tuple(subst(y, spec) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], (tuple, str)) else x) for x in w)


class Shared:
    """build.element with one occurrence class replaced by a given object."""

    def __init__(self, obj):
        self.obj = obj

    def element(self, w):
        import finat
        if w == "X":
            return self.obj
        op = w[0]
        if op in ("leaf", "zany", "quad", "dser"):
            return build.element(w)
        e = self.element
        if op == "tp":
            return finat.TensorProductElement([e(s) for s in w[1]])
        if op == "enriched":
            return finat.EnrichedElement([e(s) for s in w[1]])
        if op == "mixed":
            return finat.MixedElement([e(s) for s in w[1]])
        if op == "flat":
            return finat.FlattenedDimensions(e(w[1]))
        if op == "tfe":
            return finat.TensorFiniteElement(e(w[1]), tuple(w[2]), transpose=w[3])
        if op == "hdiv":
            return finat.HDivElement(e(w[1]))
        if op == "hcurl":
            return finat.HCurlElement(e(w[1]))
        if op == "disc":
            return finat.DiscontinuousElement(e(w[1]))
        if op == "restricted":
            return finat.RestrictedElement(e(w[1]), w[2])
        raise ValueError(op)


# -------------------------------------------------------------------- queries

class Env:
    """The arguments used by the queries of one history (shared by all of
    them), and the fixed names of their indices."""

    def __init__(self, spec):
        self.spec = spec
        self.cell = c = ref.cell_of(spec)
        self.dim = ref.cell_dim(c)
        self.labels = canon.Labels()
        self.arrays = {}
        self.ps = {}
        isq = "quad" in repr(spec)
        kind = ref.entity_kind(c, ref.top_entity(c)[0])
        self.add("a", points.plain(kind, 3))
        # (as many points as in a, elsewhere)
        self.add("b", PointSet(ref.sample_points(kind, 3)[::-1] * 0.9 + 0.01))
        self.add("s", points.singleton(kind))
        base = points.base_kind(kind)
        if isinstance(base, tuple) and not isq:
            self.add("t", points.tensor(kind, (2, 3)))
        self.facets = []
        ents = [e[0] for e in ref.entities(c) if ref.entity_dim(c, e[0]) == self.dim - 1]
        if ents:
            for n, e in (("f", ents[0]), ("g", ents[-1])):
                self.add(n, points.plain(ref.entity_kind(c, e[0]), 2))
                self.facets.append((n, e))
            # another facet of the first one's kind, to be asked with the very same arguments
            kind0 = ref.entity_kind(c, ents[0][0])
            self.twin_facet = next((e for e in ents[:0:-1] if ref.entity_kind(c, e[0]) == kind0), None)
        self.top = ref.top_entity(c)
        self.X = gem.Variable("X", (self.dim,))
        self.map = None
        self.Y = gem.Variable("Y", (self.dim,))
        self.bindings = {"X": numpy.array([0.23, 0.31, 0.17][:self.dim]), "Y": numpy.array([0.41, 0.13, 0.29][:self.dim])}
        if self.facets:
            fd = ref.entity_dim(c, self.facets[0][1])
            self.Xf = gem.Variable("Xf", (fd,))
            self.bindings["Xf"] = numpy.array([0.37, 0.22][:fd])
        if "zany" in repr(spec) or "Hermite" in repr(spec):
            self.map = geometry.Symbolic(c)
            V = {1: geometry.intervals("quick")[3], 2: geometry.SKEW2[0], 3: geometry.SKEW3[0]}[self.dim]
            for k, v in geometry.quantities(c, V, (2.0, 3.0, 5.0, 7.0)[:self.map.nv]).items():
                self.bindings[k] = v
            # a second cell, as on the other side of an interior facet
            self.map2 = geometry.Symbolic(c, "other ")
            for k, v in geometry.quantities(c, V[::-1], (1.0, 4.0, 0.5, 2.5)[:self.map.nv]).items():
                self.bindings["other " + k] = v
        elif spec[0] == "dser":
            self.map = DserGeometry(self)
            self.map2 = DserGeometry(self, "other ")

    def add(self, name, ps):
        self.ps[name] = ps
        self.labels.add(name, ps.indices)
        if isinstance(ps, PointSet):
            self.arrays[name] = numpy.array(ps.points)

    def check_arguments(self):
        """What became of the arguments."""
        for n, a in self.arrays.items():
            p = self.ps[n]
            if p.points.shape != a.shape or not (p.points == a).all():
                return "points of argument %r changed" % n
            if tuple(p.indices) != tuple(i for i, l in self.labels.known.items() if l.startswith(n)):
                return "indices of argument %r changed" % n
        return None


class DserGeometry:
    def __init__(self, env, prefix=""):
        self.env = env
        self.prefix = prefix

    def physical_vertices(self):
        n = self.prefix + "pv"
        self.env.bindings[n] = numpy.array([[0.1, 0.2], [0.0, 1.3], [1.2, -0.1], [1.5, 1.1]])[::-1 if self.prefix else 1]
        return gem.Variable(n, (4, 2))

    def physical_points(self, ps, entity=None):
        shape = tuple(i.extent for i in ps.indices) + (2,)
        n = int(numpy.prod(shape, dtype=int)) // 2
        name = self.prefix + "pp%s" % (shape,)
        self.env.bindings[name] = (numpy.arange(2 * n).reshape(shape) * 0.37) % 1.0 + 0.05
        return gem.Variable(name, shape)


def fexpr(env, el):
    """A function to evaluate dual functionals on, with the value shape of the element."""
    vs = tuple(el.value_shape)

    def f(x):
        g = x.expression
        i = gem.Index(extent=g.shape[0]) if g.shape[0] else None
        lit = gem.Literal(numpy.arange(1.0, 1.0 + g.shape[0]))
        s = gem.IndexSum(gem.Product(gem.Indexed(lit, (i,)), gem.Indexed(g, (i,))), (i,)) if i is not None else gem.Literal(1.0)
        s = gem.Product(s, s)
        if not vs:
            return s
        jj = tuple(gem.Index(extent=n) for n in vs)
        w = gem.Literal(numpy.arange(1.0, 1.0 + numpy.prod(vs)).reshape(vs))
        return gem.ComponentTensor(gem.Product(s, gem.Indexed(w, jj)), jj)
    return f


def q_props(el, env):
    return [attempt(lambda n=n: getattr(el, n)) for n in ("cell", "complex", "degree", "formdegree", "index_shape", "value_shape", "mapping")] + \
        [attempt(el.space_dimension), attempt(el.get_indices), attempt(el.get_value_indices)]


def q_parts(el, env):
    return [attempt(lambda n=n: getattr(el, n)) for n in ("elements", "factors", "product", "wrappee", "base_element", "element", "_element")
            if hasattr(type(el), n) or n in vars(el)]


def q_dual(el, env):
    Qm, x = el.dual_basis
    return (Qm, x), x.indices


def q_dualeval(el, env):
    e, idx = el.dual_evaluation(fexpr(env, el))
    return gem.ComponentTensor(e, idx) if idx else e


def be(order, ps, entity=None, other=False):
    return lambda el, env: el.basis_evaluation(order, env.ps[ps], entity=entity(env) if entity else None,
                                               **({"coordinate_mapping": env.map2 if other else env.map} if env.map is not None else {}))


def q_rulepoints(el, env):
    """Evaluate a quadrature element at its own points (its dual's)."""
    _, x = el.dual_basis
    return el.basis_evaluation(0, x), x.indices


# queries of which two in a row are only asked on the long walk (quick tier)
HEAVY = {"support", "point", "point0g", "point0Y", "point0f", "point0f elsewhere", "basis1f elsewhere", "basis1a-top", "basis1s", "basis1g", "basis2a", "twin", "parts"}


def pe(order, facet=False):
    return lambda el, env: el.point_evaluation(order, env.Xf if facet else env.X, entity=env.facets[-1][1] if facet else None)


def queries(spec, small=False, tier="quick"):
    env = Env(spec)
    out = {"props": q_props, "entity_dofs": lambda el, env: el.entity_dofs(), "closure": lambda el, env: el.entity_closure_dofs(),
           "support": lambda el, env: el.entity_support_dofs(), "permutations": lambda el, env: el.entity_permutations,
           "twin": lambda el, env: el.fiat_equivalent, "dual": q_dual, "dualeval": q_dualeval,
           "basis1a": be(1, "a"), "basis1b": be(1, "b"), "parts": q_parts}
    if not small:
        out["basis2a"] = be(2, "a")
        out["basis0a"] = be(0, "a")
        out["basis1a-top"] = be(1, "a", lambda env: env.top)
        out["basis1s"] = be(1, "s")
        out["point"] = pe(0 if tier == "quick" else 1)
    else:
        for k in ("props", "parts", "closure"):
            out.pop(k)
        out["point0"] = pe(0)
    out["point0Y"] = lambda el, env: el.point_evaluation(0, env.Y)
    if "t" in env.ps:
        out["basis1t"] = be(1, "t")
    if env.facets:
        out["basis1f"] = be(1, "f", lambda env: env.facets[0][1])
        if env.twin_facet is not None:
            out["basis1f elsewhere"] = be(1, "f", lambda env: env.twin_facet)
        if not small:
            out["point0f"] = lambda el, env: el.point_evaluation(0, env.Xf, entity=env.facets[0][1])
            if env.twin_facet is not None:
                out["point0f elsewhere"] = lambda el, env: el.point_evaluation(0, env.Xf, entity=env.twin_facet)
            out["basis1g"] = be(1, "g", lambda env: env.facets[1][1])
            out["point0g"] = pe(0, True)
    if env.map is not None:
        out["basis1b other cell"] = be(1, "b", other=True)
    if "quad" in repr(spec):
        out["own points"] = q_rulepoints
    return out


def signature(ans, env, numeric=False):
    """Signature of an answer; numeric: expressions by value, not structure."""
    labels = env.labels
    value = ans
    if isinstance(ans, tuple) and len(ans) == 2 and isinstance(ans[1], tuple) and all(isinstance(i, gem.Index) for i in ans[1]) \
            and not isinstance(ans[0], int) and ans[1] is not ans[0]:
        value, extra = ans
        labels = canon.Labels()
        labels.known = dict(env.labels.known)
        labels.add("x", extra)
    if numeric:
        return canon.sig(by_value(value, labels, env.bindings), labels)
    return canon.sig(value, labels)


def by_value(x, labels, bindings):
    from mc.gemeval import evaluate
    if isinstance(x, gem.Node):
        idx = tuple(i for i in labels.known if i in x.free_indices)
        b = {k: v for k, v in bindings.items()}
        return ("value", tuple(labels.known[i] for i in idx), evaluate(x, idx, b))
    if isinstance(x, (tuple, list)):
        return type(x)(by_value(y, labels, bindings) for y in x)
    if isinstance(x, dict):
        return {k: by_value(v, labels, bindings) for k, v in x.items()}
    return x


def forked(fn):
    """fn() in a forked child of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("error", traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, protocol=4)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child died")
    kind, out = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(out)
    return out


# ---------------------------------------------------------------------- tasks

def tasks(tier):
    out = [["element", list(s)] for s in elements(tier)]
    for k, (part, ws) in enumerate(shared(tier)):
        for a in range(len(ws)):
            out.append(["shared", k, a])
    out += [["rules", k] for k in range(3)]
    n = len(ufl_specs(tier))
    out += [["ufl", k, min(k + UFLBLOCK, n)] for k in range(0, n, UFLBLOCK)]
    out += [["constructors"]]
    return out


def cost(task):
    s = repr(task)
    return (("zany" in s) + ("Guzman" in s) + ("'Bell'" in s) + 3 * (task[0] == "shared" and task[1] in (3, 5, 6)) + ("tetra" in s) +
            ("dser" in s) * 2, len(s))


class World:
    """A fresh set of objects: one element, or two sharing a part."""

    def __init__(self, make, envs):
        self.objects = make()
        self.envs = [Env(s) for s in envs]
        self.answers = []

    def ask(self, who, name, fn):
        el, env = self.objects[who], self.envs[who]
        ans = attempt(lambda: fn(el, env))
        return ans


def histories(make, envs, qs, firsts, depth, second, skip=lambda *h: False):
    """Every history of ``depth`` queries whose first is one of ``firsts``.
    Yields (history, what went wrong)."""
    base = {}

    def baseline(who, name, numeric=False):
        key = (who, name, numeric)
        if key not in base:
            def one():
                w = World(make, envs)
                return signature(w.ask(who, name, qs[who][name]), w.envs[who], numeric)
            base[key] = forked(one)
        return base[key]

    def verdict(ans, w, who, name, sig=None):
        s = signature(ans, w.envs[who]) if sig is None else sig
        d = canon.differ(s, baseline(who, name))
        if d:
            # the expressions may be arranged differently: decide by value
            d2 = attempt(lambda: canon.differ(signature(ans, w.envs[who], True), baseline(who, name, True)))
            if isinstance(d2, canon.Raised):
                return d + " (and %s: %s)" % (d2.kind, d2.text)
            return d2
        return None

    for who in second:
        for name in qs[who]:
            baseline(who, name)

    def explore():
        out = []
        n = steps = compared = 0
        outcomes = set()

        def run(hist):
            nonlocal steps, compared
            w = World(make, envs)
            kept = []
            for who, name in hist:
                steps += 1
                ans = w.ask(who, name, qs[who][name])
                env = w.envs[who]
                s = signature(ans, env)
                compared += 1
                d = verdict(ans, w, who, name, s)
                outcomes.add((who, name, s[1] if isinstance(s, tuple) and s and s[0] == "raised" else "answered"))
                if d:
                    out.append((hist, "answer of %s differs from that of a fresh object: %s" % (name, d)))
                    return
                for who0, name0, ans0, s0 in kept:
                    compared += 1
                    s1 = signature(ans0, w.envs[who0])
                    d = canon.differ(s1, s0)
                    if d:
                        out.append((hist, "the answer to %s handed out earlier changed: %s" % (name0, d)))
                        return
                bad = [e.check_arguments() for e in w.envs]
                compared += 1
                if any(bad):
                    out.append((hist, [b for b in bad if b][0]))
                    return
                kept.append((who, name, ans, s))

        nodes = [(who, n) for who in second for n in qs[who]]
        if depth == "walk":
            hist = eulerian([q for q in nodes])
            n += 1
            run_long(hist, World(make, envs), qs, verdict, out)
            steps += len(hist)
            compared += len(hist)
            return out, n, steps, compared, outcomes
        for first in firsts:
            for rest in itertools.product(nodes, repeat=depth - 1):
                if skip(first, *rest):
                    continue
                n += 1
                run((first,) + rest)
                if len(out) > 3:
                    return out, n, steps, compared, outcomes
        return out, n, steps, compared, outcomes

    return forked(explore)


def run_long(hist, w, qs, verdict, out):
    for k, (who, name) in enumerate(hist):
        ans = w.ask(who, name, qs[who][name])
        d = verdict(ans, w, who, name)
        if d:
            out.append((hist[max(0, k - 1):k + 1], "after %d queries the answer of %s differs: %s" % (k, name, d)))
            return
    for e in w.envs:
        b = e.check_arguments()
        if b:
            out.append((hist[-2:], b))


def eulerian(nodes):
    """A walk using every ordered pair of nodes (with repetition) once."""
    out, stack = [], [nodes[0]]
    left = {n: list(nodes) for n in nodes}
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            out.append(stack.pop())
    return tuple(reversed(out))


def report(ctx, case, res, nstates):
    bad, n, steps, compared, outcomes = res
    ctx.step(steps)
    ctx.compared += compared
    for o in outcomes:
        ctx.outcome(o)
    for hist, what in bad:
        ctx.fail(case + ": " + " ; ".join("%d.%s" % h if h[0] else h[1] for h in hist), what)
    return n


def run(task, ctx):
    T3 = ctx.tier != "quick"
    kind = task[0]
    if kind == "element":
        spec = ref.tup(task[1])
        case = ref.show(spec)
        qs = [queries(spec, not T3 and "zany" in repr(spec), ctx.tier)]
        make = lambda: [build.element(spec)]
        names = list(qs[0])
        # (two expensive queries in a row only on the long walk, in the quick tier)
        skip = (lambda *h: False) if T3 else lambda *h: all(n in HEAVY for _, n in h)
        for h in itertools.product(names, repeat=2):
            if not skip(*[(0, n) for n in h]):
                ctx.state((spec, h))
        report(ctx, case, histories(make, [spec], qs, [(0, n) for n in names], 2, [0], skip), 0)
        report(ctx, case, histories(make, [spec], qs, None, "walk", [0]), 0)
        if T3 and spec[0] not in ("zany", "dser") and "zany" not in repr(spec):
            qs = [queries(spec, True)]
            names = list(qs[0])
            for h in itertools.product(names, repeat=3):
                ctx.state((spec, h))
            report(ctx, case, histories(make, [spec], qs, [(0, n) for n in names], 3, [0]), 0)
        ctx.sample({"element": case, "queries": names})
    elif kind == "shared":
        part, ws = shared(ctx.tier)[task[1]]
        wa = ws[task[2]]
        sa = subst(wa, part)
        for wb in ws:
            sb = subst(wb, part)
            case = "%s | %s" % (ref.show(sa), ref.show(sb))
            qs = [queries(sa, True), queries(sb, True)]
            if not T3:
                qs = [{n: q[n] for n in ("entity_dofs", "support", "twin", "dual", "basis1b", "basis1b other cell", "own points") if n in q} for q in qs]

            def make():
                s = Shared(build.element(part))
                return [s.element(wa), s.element(wb)]
            firsts = [(0, n) for n in qs[0]]
            for f in firsts:
                for n in qs[1]:
                    ctx.state((sa, sb, f, n))
            report(ctx, case, histories(make, [sa, sb], qs, firsts, 2, [1]) if not T3 else histories(make, [sa, sb], qs, firsts, 2, [0, 1]), 0)
        ctx.sample({"shared": ref.show(part), "first": ref.show(sa)})
    elif kind == "rules":
        run_rules(task, ctx)
    elif kind == "ufl":
        run_ufl(task, ctx)
    elif kind == "constructors":
        run_constructors(ctx)


# ------------------------------------------------------------ quadrature rules

def rule_questions(k):
    import finat
    c = ref.make_cell
    qs = {}
    if k == 0:
        for cn in (I, T, K, (T, I), Q):
            for d in (1, 2, 4):
                qs["rule %s %s" % (cn, d)] = lambda cn=cn, d=d: make_quadrature(c(cn), d)
        qs["rule KMV"] = lambda: make_quadrature(c(T), 2, "KMV")
        qs["rule canonical"] = lambda: make_quadrature(c(T), 2, "canonical")
        qs["element"] = lambda: make_quadrature_element(c(T), 2)
        qs["twin"] = lambda: make_quadrature_element(c(T), 2).fiat_equivalent
        qs["twin Q"] = lambda: make_quadrature_element(c(Q), 2).fiat_equivalent
        return lambda: None, {n: (lambda o, f=f: f()) for n, f in qs.items()}
    cn, d = ((T, 3), ((T, I), 2), (Q, 3))[k]

    def make():
        return make_quadrature(c(cn), d)
    return make, {"points": lambda r: r.point_set, "weights": lambda r: (r.weight_expression, r.point_set.indices),
                  "expression": lambda r: (r.point_set.expression, r.point_set.indices),
                  "dimension": lambda r: (r.point_set.dimension, len(r.point_set.points)),
                  "element twin": lambda r: finat.QuadratureElement(c(cn), r).fiat_equivalent,
                  "element basis": lambda r: (finat.QuadratureElement(c(cn), r).basis_evaluation(0, r.point_set), r.point_set.indices),
                  "element dual": lambda r: finat.QuadratureElement(c(cn), r).dual_basis,
                  "orientations": lambda r: attempt(lambda: r.extrinsic_orientation_permutation_map),
                  "orientations2": lambda r: attempt(lambda: r.intrinsic_orientation_permutation_map_tuple),
                  "rule": lambda r: r,
                  "same points": lambda r: r.point_set.almost_equal(make_quadrature(c(cn), d).point_set)}


class NoEnv:
    def __init__(self):
        self.labels = canon.Labels()
        self.bindings = {}

    def check_arguments(self):
        return None


def generic(ctx, case, make, questions, depth=2):
    """All histories of plain questions on one object."""
    base = {}
    for n in questions:
        for num in (False, True):
            base[n, num] = forked(lambda: attempt_sig(attempt(lambda: questions[n](make())), num))

    def explore():
        bad, steps, comp = [], 0, 0

        def check(n, ans):
            d = canon.differ(attempt_sig(ans, False), base[n, False])
            return d and canon.differ(attempt_sig(ans, True), base[n, True])
        walks = list(itertools.product(questions, repeat=depth)) + [eulerian(list(questions))]
        for hist in walks:
            o = make()
            kept = []
            for n in hist:
                a = attempt(lambda: questions[n](o))
                steps += 1
                comp += 1
                d = check(n, a)
                if d:
                    bad.append((hist if len(hist) <= depth else hist[:0] + (n,), "answer of %s: %s" % (n, d)))
                    break
                if len(hist) <= depth:
                    kept.append((n, a))
                    for m, b in kept:
                        comp += 1
                        d = check(m, b)
                        if d:
                            bad.append((hist, "the answer to %s handed out earlier changed: %s" % (m, d)))
                            break
            if len(bad) > 3:
                break
        return bad, steps, comp
    bad, steps, comp = forked(explore)
    for h in itertools.product(questions, repeat=depth):
        ctx.state((case, h))
    ctx.step(steps)
    ctx.compared += comp
    for hist, what in bad:
        ctx.fail(case + ": " + " ; ".join(hist), what)


def attempt_sig(ans, numeric):
    env = NoEnv()
    try:
        return signature(ans, env, numeric)
    except Exception as exc:
        if numeric:
            return ("unevaluated", type(exc).__name__)
        raise


def run_rules(task, ctx):
    make, questions = rule_questions(task[1])
    generic(ctx, "rules %d" % task[1], make, questions)
    ctx.sample({"rules": task[1], "questions": len(questions)})


# --------------------------------------------------------- element descriptions

def ufl_specs(tier):
    out = []
    for s in uflspec.trees("quick"):
        d = depth(s)
        if d <= 1:
            out.append(s)
    step = 5 if tier == "quick" else 1
    if tier != "quick":
        out += [s for s in uflspec.trees("quick") if depth(s) == 2]
    leaves = [s for s in out if s[0] == "F"]
    return leaves + [s for s in out if s[0] != "F"][::step]


def depth(s):
    return 1 + max(map(depth, uflspec.subs(s))) if uflspec.subs(s) else 0


def ufl_questions():
    import finat.ufl as fu
    import ufl
    qs = {"repr": lambda e: (repr(e), str(e), hash(e)), "shortstr": lambda e: e.shortstr(), "degree": lambda e: (e.degree(), e.embedded_superdegree, e.embedded_subdegree),
          "shape": lambda e: (e.reference_value_shape, e.reference_value_size), "subs": lambda e: (e.sub_elements, e.num_sub_elements),
          "mapping": lambda e: (e.mapping(), e.pullback), "space": lambda e: e.sobolev_space, "family": lambda e: e.family(), "variant": lambda e: e.variant(), "scheme": lambda e: e.quadrature_scheme(),
          "cellwise": lambda e: e.is_cellwise_constant(), "symmetry": lambda e: e.symmetry(), "flattened": lambda e: e.flattened_sub_element_mapping(),
          "submap": lambda e: e._sub_element_mapping, "extract": lambda e: [e.extract_component(i) for i in range(e.reference_value_size)],
          "extractsub": lambda e: e.extract_subelement_reference_component(0), "reconstruct": lambda e: e.reconstruct(degree=3),
          "reconstruct2": lambda e: e.reconstruct(variant="spectral"), "reconstruct3": lambda e: e.reconstruct(cell=ufl.Cell("tetrahedron")),
          "facet": lambda e: e["facet"], "sum": lambda e: e + e, "product": lambda e: e * e, "vector": lambda e: fu.VectorElement(e, dim=2),
          "tensor": lambda e: fu.TensorElement(e, shape=(2, 2), symmetry=True), "mixed": lambda e: fu.MixedElement(e, e), "broken": lambda e: fu.BrokenElement(e),
          "with": lambda e: fu.WithMapping(e, "identity"), "equal": lambda e: (e == e, e != e, e < e), "signature": lambda e: e._ufl_signature_data_(),
          "is": lambda e: (isinstance(e, ufl.AbstractFiniteElement), e.cell, getattr(e, "components", None))}
    return qs


def run_ufl(task, ctx):
    specs = ufl_specs(ctx.tier)[task[1]:task[2]]
    questions = ufl_questions()
    for s in specs:
        try:
            uflspec.build(s)
        except (ValueError, AssertionError):
            ctx.skip("refused description")
            continue
        generic(ctx, uflspec.show(s), lambda: uflspec.build(s), questions)
    ctx.sample({"descriptions": [uflspec.show(s) for s in specs[:3]]})
    # descriptions sharing a sub-element
    import finat.ufl as fu
    few = ("repr", "degree", "subs", "space", "flattened", "reconstruct")
    if ctx.tier != "quick":
        few += ("shape", "mapping", "symmetry", "facet", "signature")
    for s in specs:
        if s[0] != "F" or (ctx.tier == "quick" and not (s[2] == "triangle" or s[1] in ("Q", "S"))):
            continue
        wr = {"self": lambda e: e, "V": lambda e: fu.VectorElement(e, dim=2), "T": lambda e: fu.TensorElement(e, shape=(2, 2), symmetry=True),
              "M": lambda e: fu.MixedElement(e, e), "B": lambda e: fu.BrokenElement(e), "E": lambda e: fu.EnrichedElement(e, e), "R": lambda e: fu.RestrictedElement(e, "facet"),
              "W": lambda e: fu.WithMapping(e, "identity")}

        def make():
            e = uflspec.build(s)
            return {k: attempt(lambda: w(e)) for k, w in wr.items()}
        qs = {"%s.%s" % (k, f): (lambda o, k=k, f=f: questions[f](o[k])) for k in wr for f in few}
        generic(ctx, "shared " + uflspec.show(s), make, qs)


# ----------------------------------------------------------------- constructors

def run_constructors(ctx):
    """Sequences and dictionaries handed to constructors are left alone."""
    import finat
    import finat.ufl as fu
    import ufl
    cg, dg = build.element(L("Lagrange", I, 2)), build.element(L("DiscontinuousLagrange", I, 1))
    p1, b = build.element(L("Lagrange", T, 1)), build.element(L("Bubble", T, 3))
    u1, u2 = fu.FiniteElement("CG", ufl.triangle, 1), fu.FiniteElement("DG", ufl.triangle, 0)
    i1, i2 = fu.FiniteElement("CG", ufl.interval, 2), fu.FiniteElement("DG", ufl.interval, 1)
    r1, r2 = make_quadrature(ref.make_cell(I), 2), make_quadrature(ref.make_cell(I), 3)
    cases = {"TensorProductElement": (finat.TensorProductElement, [cg, dg]), "EnrichedElement": (finat.EnrichedElement, [p1, b]),
             "NodalEnrichedElement": (finat.NodalEnrichedElement, [p1, b]), "MixedElement": (finat.MixedElement, [p1, b]),
             "TensorFiniteElement": (lambda s: finat.TensorFiniteElement(p1, s), [2, 3]),
             "TensorPointSet": (finat.point_set.TensorPointSet, [r1.point_set, r2.point_set]),
             "TensorProductQuadratureRule": (finat.quadrature.TensorProductQuadratureRule, [r1, r2]),
             "ufl.MixedElement": (lambda a: fu.MixedElement(a), [u1, u2]), "ufl.MixedElement*": (lambda a: fu.MixedElement(*a), [u1, u2, u1]),
             "ufl.EnrichedElement": (lambda a: fu.EnrichedElement(*a), [u1, u2]), "ufl.NodalEnrichedElement": (lambda a: fu.NodalEnrichedElement(*a), [u1, u2]),
             "ufl.TensorProductElement": (lambda a: fu.TensorProductElement(*a), [i1, i2]),
             "make_quadrature degrees": (lambda a: make_quadrature(ref.make_cell((I, I)), a), [2, 3])}
    for sym in ({(0, 1): (1, 0)}, {(1, 0): (0, 1)}, {(1, 1): (0, 0), (1, 0): (0, 1)}):
        cases["symmetry %s" % sym] = (lambda d: fu.TensorElement(u1, shape=(2, 2), symmetry=d), dict(sym))
    for name, (make, arg) in cases.items():
        case = "constructor " + name
        ctx.state(case)
        before = list(arg.items()) if isinstance(arg, dict) else list(arg)
        ids = [id(x) for x in arg]
        e = attempt(lambda: make(arg))
        if name.startswith("symmetry") and isinstance(e, canon.Raised):
            ctx.skip("refused symmetry")
            continue
        if not ctx.expect(not isinstance(e, canon.Raised), case, lambda: "refused: %s %s" % (e.kind, e.text)):
            continue

        def unchanged(when):
            now = list(arg.items()) if isinstance(arg, dict) else list(arg)
            return ctx.expect(len(now) == len(before) and all(a is b_ or a == b_ for a, b_ in zip(now, before)) and [id(x) for x in arg] == ids,
                              case, lambda: "the argument became %r %s" % (arg, when))
        unchanged("during construction")
        ctx.step()
        asked = ufl_questions() if isinstance(e, ufl.AbstractFiniteElement) else \
            {n: (lambda o, n=n: getattr(o, n)() if callable(getattr(o, n)) else getattr(o, n)) for n in
             ("entity_dofs", "entity_closure_dofs", "entity_support_dofs", "fiat_equivalent", "dual_basis", "points", "indices", "expression", "point_set", "weight_expression", "space_dimension", "index_shape", "mapping")}
        for n, f in asked.items():
            attempt(lambda: f(e))
            ctx.step()
            if not unchanged("after " + n):
                break
    ctx.sample({"constructors": list(cases)})
