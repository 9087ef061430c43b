"""C07: dual evaluation is dual to the basis.

State: (element, function family).  Transition: one (functional, function)
pair.  The functions are all monomials up to degree+1 in every component (a
basis of the polynomials on which a linear functional is decided), evaluated
both from literal tables and from the symbolic coordinates of the point set,
and all basis functions of the element itself and of the other elements on the
same cell with the same value shape.  Oracle: FIAT's functionals applied
directly, composed by definition (mc.ref), and the Kronecker delta.
"""
import itertools
from functools import reduce

import gem
import numpy

from mc import alphabet, build, ref
from mc.gemeval import evaluate

CHUNK = 8
ASSUMPTIONS = ["FIAT's functionals define the leaf elements' nodes",
               "elements with derivative nodes, unions and blocks of elements have no dual evaluation in the code (they refuse)",
               "physically mapped elements are out of scope"]
# families whose published functionals are not a nodal basis of their functions
NOT_NODAL = {"Bernstein"}


class NoDual(Exception):
    pass


def bound(tier):
    return ("all leaves and composites(%r); all monomials of degree <= degree+1 (capped at 4); all basis "
            "functions of the element and of up to %d other elements" % (tier, 3 if tier == "quick" else 8))


def tasks(tier):
    specs = alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) + alphabet.composites(tier)
    L = alphabet.leaf
    specs += [("nodalenriched", (L("Lagrange", "triangle", 1), L("Bubble", "triangle", 3))),
              ("nodalenriched", (L("Lagrange", "triangle", 2), L("Bubble", "triangle", 3))),
              ("nodalenriched", (L("Lagrange", "interval", 1), L("Bubble", "interval", 2))),
              ("nodalenriched", (L("Lagrange", "tetrahedron", 1), L("Bubble", "tetrahedron", 4)))]
    ne = specs[-4]
    specs += [("tfe", ne, (2,), False), ("tfe", ne, (2,), True), ("tp", (ne, L("Lagrange", "interval", 1)))]
    groups = {}
    from mc.checks.c03 import leaves_of
    for s in specs:
        try:
            m = ref.model(s)
        except Exception:
            continue
        if leaves_of(s)[0][1] == "HDivTrace":
            continue
        groups.setdefault((m.name, m.value_shape), []).append(s)
    n = 3 if tier == "quick" else 8
    out = []
    for s in specs:
        m = ref.model(s)
        g = groups.get((m.name, m.value_shape), [])
        # the same partners for everyone: spread over the group
        partners = [g[(k * len(g)) // n] for k in range(n)] if g else []
        out.append([list(s), [list(p) for p in dict.fromkeys(partners) if p != s]])
    return out


def cost(task):
    s = ref.tup(task[0])
    return ref.cell_dim(ref.cell_of(s)), len(str(s))


def dual(spec):
    """(points[N, dim], W[idx + (N,) + val])"""
    op = spec[0]
    m = ref.model(spec)
    if op in ("leaf", "nodalenriched"):
        if spec[1] == "HDivTrace":
            raise NoDual("trace element")
        try:
            nodes = m.el.dual_basis()
        except (AttributeError, NotImplementedError):
            raise NoDual("leaf without functionals")
        if nodes is None or any(n is None for n in nodes) or len(nodes) != m.ndofs:
            raise NoDual("leaf without functionals")
        if any(n.deriv_dict for n in nodes):
            raise NoDual("derivative nodes")
        pts = {}
        for n in nodes:
            for p in n.pt_dict:
                pts.setdefault(tuple(p), len(pts))
        W = numpy.zeros((len(nodes), len(pts)) + m.value_shape)
        for i, n in enumerate(nodes):
            for p, wc in n.pt_dict.items():
                for w, c in wc:
                    W[(i, pts[tuple(p)]) + tuple(c)] += w
        return numpy.array(list(pts), dtype=float).reshape(len(pts), -1), W
    if op == "tp":
        ds = [dual(s) for s in spec[1]]
        ms = [ref.model(s) for s in spec[1]]
        pts = numpy.array([numpy.concatenate(c) for c in itertools.product(*[d[0] for d in ds])])
        ops, idx, pt, val, k = [], [], [], [], 0
        for (p, W), mm in zip(ds, ms):
            ni, nv = len(mm.index_shape), len(mm.value_shape)
            ii, pp, vv = list(range(k, k + ni)), [k + ni], list(range(k + ni + 1, k + ni + 1 + nv))
            k += ni + 1 + nv
            ops += [W, ii + pp + vv]
            idx += ii
            pt += pp
            val += vv
        W = numpy.einsum(*ops, idx + pt + val)
        n = len(m.index_shape)
        return pts, W.reshape(m.index_shape + (len(pts),) + m.value_shape) if n else W
    if op in ("flat", "disc"):
        return dual(spec[1])
    if op == "tfe":
        p, W = dual(spec[1])
        b = m.base
        n = int(numpy.prod(m.shape, dtype=int))
        eye = numpy.eye(n).reshape(m.shape + m.shape)
        nb, nv, ns = len(b.index_shape), len(b.value_shape), len(m.shape)
        ib, P, iv = list(range(nb)), [nb], list(range(nb + 1, nb + 1 + nv))
        o = nb + nv + 1
        si, sv = list(range(o, o + ns)), list(range(o + ns, o + 2 * ns))
        return p, numpy.einsum(W, ib + P + iv, eye, si + sv, (si + ib if m.transpose else ib + si) + P + sv + iv)
    if op in ("hdiv", "hcurl"):
        p, W = dual(spec[1])
        W = W.reshape(m.index_shape + (len(p), m.M.shape[1]))
        return p, numpy.einsum("vw,...w->...v", m.M, W)
    raise NoDual(op)


def apply(W, F, nidx):
    """W[idx, N, val], F[extra, N, val] -> [idx, extra]"""
    ax = list(range(nidx, W.ndim))
    return numpy.tensordot(W, F, axes=(ax, list(range(F.ndim - len(ax), F.ndim))))


def monomials(dim, maxdeg):
    return [a for k in range(maxdeg + 1) for a in ref.mis(dim, k)]


def run(task, ctx):
    spec = ref.tup(task[0])
    case = ref.show(spec)
    m = ref.model(spec)
    try:
        pts, W = dual(spec)
    except NoDual as e:
        ctx.skip(str(e))
        pts = None
    with ctx.guard(case, "dual_basis"):
        el = build.element(spec)
        ctx.state(spec)
        try:
            Q, ps = el.dual_basis
        except (NotImplementedError, AttributeError) as e:
            ctx.step()
            ctx.expect(pts is None, case, "functionals exist but dual_basis raised %r" % (e,))
            if spec[0] in ("enriched", "mixed"):
                ctx.expect(isinstance(e, NotImplementedError), case, "refusal of dual_basis: %r" % (e,))
            return
        if pts is None:
            ctx.expect(spec[1] == "HDivTrace", case, "a dual basis is offered for an element without functionals")
            return
        nidx = len(m.index_shape)
        ctx.equal(tuple(Q.shape), m.index_shape + m.value_shape, case, "shape of the dual weights")
        ctx.expect(all(any(f is i for i in ps.indices) for f in Q.free_indices), case, "free indices of the weights")
        # no sharing of indices between two requests
        Q2, ps2 = el.dual_basis
        X = numpy.asarray(ps.points, dtype=float)
        ctx.equal(X.shape[1], m.dim, case, "dimension of the dual points")
        C = evaluate(Q, ps.indices).reshape((len(X),) + m.index_shape + m.value_shape)
        C = numpy.moveaxis(C, 0, nidx)
        # functionals agree on all monomials
        maxdeg = min(4, m.polydegree + 1)
        mons = monomials(m.dim, maxdeg)
        V = lambda x: numpy.array([numpy.prod(x ** numpy.array(a), axis=1) for a in mons])
        nval = int(numpy.prod(m.value_shape, dtype=int))
        comp = list(itertools.product(*[range(s) for s in m.value_shape]))

        def funcs(x):
            F = numpy.zeros((len(mons), nval, len(x), nval))
            for c in range(nval):
                F[:, c, :, c] = V(x)
            return F.reshape((len(mons), nval, len(x)) + m.value_shape)

        want = apply(W, funcs(pts), nidx)
        got = apply(C, funcs(X), nidx)
        ctx.step(want.size)
        ctx.close(got, want, case, "dual basis applied to all monomials")
        # duality
        fams = {l[1] for l in ref_leaves(spec)}
        table = m.tab(0, pts)[(0,) * m.dim]
        K = apply(W, numpy.moveaxis(table.reshape((m.ndofs,) + m.value_shape + (len(pts),)), -1, 1), nidx)
        K = K.reshape(m.ndofs, m.ndofs)
        if not fams & NOT_NODAL:
            ctx.close(K, numpy.eye(m.ndofs), case, "reference functionals of the basis")
        # dual evaluation of expressions
        check_eval(ctx, case, el, m, "monomials (tables)", want, lambda p: literal(funcs(numpy.asarray(p.points, dtype=float)), p, m),
                   (len(mons), nval))
        sub = mons[:1] + mons[-m.dim - 1:]
        for a in sub:
            for c in (comp[:1] + comp[-1:])[:len(comp)]:
                w = want[(Ellipsis, mons.index(a), comp.index(c))]
                check_eval(ctx, case, el, m, "monomial %s in component %s (symbolic)" % (a, c), w,
                           lambda p: symbolic(a, c, p, m), ())
        ctx.state((spec, "self"))
        check_eval(ctx, case, el, m, "its own basis", K.reshape(m.index_shape + m.index_shape),
                   lambda p: basis(el, p), m.index_shape)
        for p in task[1]:
            s2 = ref.tup(p)
            m2 = ref.model(s2)
            el2 = build.element(s2)
            ctx.state((spec, s2))
            t2 = m2.tab(0, pts)[(0,) * m.dim]
            if numpy.isnan(t2).any():
                continue
            K2 = apply(W, numpy.moveaxis(t2.reshape((m2.ndofs,) + m.value_shape + (len(pts),)), -1, 1), nidx)
            check_eval(ctx, case, el, m, "the basis of %s" % ref.show(s2), K2.reshape(m.index_shape + m2.index_shape),
                       lambda q: basis(el2, q), m2.index_shape)
        ctx.sample({"element": case, "points": len(X), "functions": len(mons) * nval})


def ref_leaves(spec):
    from mc.checks.c03 import leaves_of
    if spec[0] == "nodalenriched":
        return list(spec[1])
    if spec[0] in ("tp", "enriched", "mixed"):
        return [l for s in spec[1] for l in ref_leaves(s)]
    return [spec] if spec[0] == "leaf" else ref_leaves(spec[1])


def literal(F, p, m):
    """F[extra.., N, val] as an expression with free indices extra + p.indices."""
    nv = len(m.value_shape)
    ne = F.ndim - nv - 1
    ex = tuple(gem.Index(extent=n) for n in F.shape[:ne])
    ext = tuple(i.extent for i in p.indices)
    A = F.reshape(F.shape[:ne] + ext + F.shape[ne + 1:])
    return gem.partial_indexed(gem.Literal(A), ex + tuple(p.indices)), ex


def symbolic(a, c, p, m):
    x = p.expression
    e = gem.Literal(1.0)
    for i, k in enumerate(a):
        for _ in range(k):
            e = gem.Product(e, gem.Indexed(x, (i,)))
    if not m.value_shape:
        return e, ()
    arr = numpy.full(m.value_shape, gem.Zero(), dtype=object)
    arr[c] = e
    return gem.ListTensor(arr), ()


def basis(el, p):
    (t,) = el.basis_evaluation(0, p).values()
    i = el.get_indices()
    z = el.get_value_indices()
    return gem.ComponentTensor(gem.Indexed(t, i + z), z) if z else gem.Indexed(t, i), i


def check_eval(ctx, case, el, m, what, want, fn, extra):
    seen = {}

    def call(p):
        e, ex = fn(p)
        seen["ex"] = ex
        return e

    ctx.step()
    with ctx.guard(case, "dual_evaluation of " + what):
        expr, bi = el.dual_evaluation(call)
        ctx.equal(tuple(i.extent for i in bi), m.index_shape, case, "extents of the basis indices for " + what)
        ctx.equal(tuple(expr.shape), (), case, "shape of the dual evaluation of " + what)
        got = evaluate(expr, tuple(bi) + tuple(seen["ex"]))
        ctx.close(got, want, case, "dual evaluation of " + what, rtol=1e-9, atol=1e-9)
        ctx.outcome((got.shape, numpy.round(got, 6).tobytes()))
