"""C14: direct serendipity elements on every convex quadrilateral of a lattice.

State: (degree, derivative order, point structure, quadrilateral, labelling).
Transition: one (quadrilateral, derivative) table produced by the generated
expression.  The oracles are the physical nodes (vertices, equispaced edge
points, interior lattice) and monomials in physical coordinates; derivatives
are compared with complex-step derivatives of the generated values, which are
exact to rounding for these rational functions.
"""
import functools
import itertools

import gem
import numpy
from finat.point_set import PointSet, PointSingleton, TensorPointSet

from mc import build, ref
from mc.gemeval import evaluate_many

CHUNK = 1
ASSUMPTIONS = ["strictly convex quadrilaterals, any orientation and any of the eight labellings",
               "interior nodes: the centroid of the vertices for degree 4, the triangular lattice spanned from vertex 0 above"]
EDGES = {0: (0, 1), 1: (2, 3), 2: (0, 2), 3: (1, 3)}


def degrees(tier):
    return (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6)


def bound(tier):
    return ("degrees %s; every strictly convex quadrilateral with vertices on a %s lattice under all eight labellings, "
            "and stretched/translated copies; derivative orders 0..%d (1 for degree 6); all entities; plain, single and tensor point sets"
            % (degrees(tier), "3x3" if tier == "quick" else "4x4", 2 if tier == "quick" else 3))


@functools.lru_cache()
def quads(tier):
    n = 3 if tier == "quick" else 4
    pts = [numpy.array(p, dtype=float) for p in itertools.product(range(n), repeat=2)]
    out = []
    for q in itertools.permutations(range(len(pts)), 4):
        # q: labelled vertices; the boundary cycle is 0-1-3-2
        cyc = [pts[q[k]] for k in (0, 1, 3, 2)]
        dv = [cyc[(i + 1) % 4] - cyc[i] for i in range(4)]
        cr = [dv[i][0] * dv[(i + 1) % 4][1] - dv[i][1] * dv[(i + 1) % 4][0] for i in range(4)]
        if min(cr) > 0.5 or max(cr) < -0.5:
            V = numpy.array([pts[k] for k in q])
            # up to translation
            if V.min(axis=0).tolist() == [0.0, 0.0]:
                out.append(V)
    A = numpy.array([[1.3, -0.7], [0.4, 0.9]])
    out += [V @ A.T * 0.37 + numpy.array([-2.25, 5.5]) for V in out[::1 if tier != "quick" else 7]]
    # small and large cells
    out += [V * s for V in out[:16] for s in (1e-3, 1e3)]
    return out


def tasks(tier):
    out = []
    Q = quads(tier)
    step = 128 if tier == 'quick' else 256
    for r in degrees(tier):
        for k in range(0, len(Q), step):
            out.append([r, k, min(k + step, len(Q))])
    return out


def cost(task):
    return task[0]


class Geometry:
    """Run-time quadrilateral; physical points of the reference points are variables."""

    def __init__(self):
        self.asked = []

    def physical_vertices(self):
        return gem.Variable("pv", (4, 2))

    def physical_points(self, ps, entity=None):
        self.asked.append((ps, entity))
        return gem.Variable("pp", tuple(i.extent for i in ps.indices) + (2,))


def bilinear(V, X):
    """Images of reference points X under the bilinear map of each quad."""
    x, y = X[..., 0], X[..., 1]
    N = numpy.stack([(1 - x) * (1 - y), (1 - x) * y, x * (1 - y), x * y], axis=-1)
    return numpy.einsum("...k,ckd->c...d", N, V)


def nodes(V, r):
    """Physical nodes of every quad: (ncell, ndof, 2)."""
    out = [V]
    for e in range(4):
        a, b = EDGES[e]
        for k in range(1, r):
            t = k / r
            out.append(((1 - t) * V[:, a] + t * V[:, b])[:, None])
    if r == 4:
        out.append(V.mean(axis=1)[:, None])
    elif r > 4:
        d0, d1 = (V[:, 1] - V[:, 0]) / (r - 2), (V[:, 2] - V[:, 0]) / (r - 2)
        n = r - 4
        c = [V[:, 0] + d0 + d1, V[:, 0] + (r - 3) * d0 + d1, V[:, 0] + d0 + (r - 3) * d1]
        for i in range(n, -1, -1):
            for j in range(n - i, -1, -1):
                out.append(((c[0] * i + c[1] * j + c[2] * (n - i - j)) / n)[:, None])
    return numpy.concatenate(out, axis=1)


def entity_points(kind):
    """[(label, entity, point set, reference points of shape idx + (2,))]"""
    out = []
    g = numpy.array([[0.21, 0.33], [0.65, 0.12], [0.4, 0.85], [0.93, 0.71], [0.05, 0.5]])
    out.append(("plain", None, PointSet(g), g))
    out.append(("cell", (2, 0), PointSet(g), g))
    out.append(("single", None, PointSingleton(g[1]), g[1]))
    a, b = numpy.array([[0.2], [0.7]]), numpy.array([[0.1], [0.45], [0.9]])
    T = TensorPointSet([PointSet(a), PointSet(b)])
    out.append(("tensor", None, T, numpy.array([[(x[0], y[0]) for y in b] for x in a])))
    corners = numpy.array([(0, 0), (0, 1), (1, 0), (1, 1)], dtype=float)
    for e in range(4):
        t = numpy.array([[0.0], [0.17], [0.5], [1.0]])
        p, q = corners[EDGES[e][0]], corners[EDGES[e][1]]
        out.append(("edge", (1, e), PointSet(t), p + t * (q - p)))
    for v in range(4):
        out.append(("vertex", (0, v), PointSet(numpy.zeros((1, 0))), corners[v][None]))
    return out


def monomials(x, alpha, deg, c, s):
    """d^alpha of ((x - c)/s)^a, |a| <= deg: (nmon,) + x.shape[:-1], c, s per cell."""
    k = (slice(None),) + (None,) * (x.ndim - 2)
    u, v = (x[..., 0] - c[k + (0,)]) / s[k], (x[..., 1] - c[k + (1,)]) / s[k]
    out = []
    for p in range(deg + 1):
        for q in range(deg + 1 - p):
            f = numpy.ones_like(u)
            for z, n, a in ((u, p, alpha[0]), (v, q, alpha[1])):
                if a > n:
                    f = f * 0
                else:
                    co = 1.0
                    for m in range(a):
                        co *= n - m
                    f = f * co * z ** (n - a)
            out.append(f / s[k] ** sum(alpha))
    return numpy.array(out)


def lagrange(r, t):
    nd = numpy.arange(r + 1) / r
    return numpy.array([numpy.prod([(t - nd[j]) / (nd[i] - nd[j]) for j in range(r + 1) if j != i], axis=0) for i in range(r + 1)])


def run(task, ctx):
    r, k0, k1 = task
    V = numpy.array(quads(ctx.tier)[k0:k1])
    nc = len(V)
    case = "DirectSerendipity %d" % r
    top_order = (2 if ctx.tier == "quick" else 3) if r < 6 else (1 if r == 6 else 0)
    with ctx.guard(case, "construction and evaluation"):
        el = build.element(("dser", r))
        n = int(el.space_dimension())
        want_n = 4 if r == 1 else (r + 1) * (r + 2) // 2 + 2
        ctx.equal(n, want_n, case, "dimension")
        ctx.equal(tuple(el.value_shape), (), case, "value shape")
        ctx.equal(el.mapping, "physical", case, "mapping")
        ctx.equal(int(el.degree), r, case, "degree")
        ed = el.entity_dofs()
        X = nodes(V, r)
        ctx.equal(X.shape[1], n, case, "number of nodes")
        # attachment: node k of an entity, in increasing order along the entity
        order_ = [i for v in range(4) for i in ed[0][v]] + [i for e in range(4) for i in ed[1][e]] + list(ed[2][0])
        ctx.equal(sorted(order_), list(range(n)), case, "attached degrees of freedom")
        inv = numpy.argsort(order_)
        X = X[:, inv]                       # X[:, i] is the node of dof i
        edge_closure = {e: [ed[0][EDGES[e][0]][0]] + list(ed[1][e]) + [ed[0][EDGES[e][1]][0]] for e in range(4)}
        cent = V.mean(axis=1)
        size = numpy.abs(V - cent[:, None]).max(axis=(1, 2))
        names = ["%s on %s" % (case, v.tolist()) for v in V]
        idx = gem.Index("cell", extent=nc)

        def tables(order, ps, entity, pp, keep=None):
            geo = Geometry()
            res = el.basis_evaluation(order, ps, entity=entity, coordinate_mapping=geo)
            ok = [a for a in geo.asked if a[0] is ps and (a[1] == entity or (entity == (2, 0) and a[1] is None)
                                                          or (entity is None and a[1] == (2, 0)))]
            ctx.expect(bool(ok), case, "physical points requested for %s instead of the given point set and entity %s" % (geo.asked, entity))
            keys = {a for o in range(order + 1) for a in ref.mis(2, o)}
            ctx.equal({tuple(a) for a in res}, keys, case, "derivatives returned for order %d" % order)
            ks = sorted(keys)
            for a in ks:
                ctx.equal(tuple(res[a].shape), (n,), case, "shape of derivative %s" % (a,))
            vals = {}
            for tag, z in [("", pp)] + list((keep or {}).items()):
                out = evaluate_many([res[a] for a in ks], (idx,) + ps.indices, {"pv": (idx, V), "pp": (idx, z)})
                vals[tag] = dict(zip(ks, out))
            return vals

        # 1. nodality: evaluate at the physical nodes
        nodes_ps = PointSet(numpy.full((n, 2), 0.5) + numpy.arange(n)[:, None] * 0.01)
        got = tables(0, nodes_ps, None, X)[""][(0, 0)]
        for c in range(nc):
            ctx.state((r, V[c].tolist()))
            ctx.step()
            ctx.close(got[c], numpy.eye(n), names[c], "values at the nodes", rtol=1e-8, atol=1e-8)
        # 2. completeness with derivatives, derivative consistency, entities
        for label, entity, ps, xref in entity_points(r):
            pp = bilinear(V, xref)
            order = top_order if entity in (None, (2, 0)) else min(1, top_order)
            eps = 1e-30
            steps = {}
            for d in range(2):
                z = pp.astype(complex)
                z[..., d] += 1j * eps
                steps[d] = z
            both = tables(order, ps, entity, pp, steps)
            vals = both[""]
            for a in vals:
                # interpolation of every monomial of degree <= r is exact
                mx = monomials(pp, a, r, cent, size)
                mn = monomials(X, (0, 0), r, cent, size)
                rep = numpy.einsum("mci,c...i->mc...", mn, vals[a])
                for c in range(nc):
                    ctx.step()
                    ctx.state((r, label, entity, a, k0 + c))
                    sc = (1 / size[c]) ** sum(a) * (r * r) ** sum(a)
                    ctx.close(rep[:, c] / sc, mx[:, c] / sc, names[c], "derivative %s of the interpolants of monomials, %s %s" % (a, label, entity), rtol=1e-8, atol=1e-8)
                ctx.outcome((r, label, numpy.round(vals[a], 6).tobytes()))
                for d in range(2):
                    up = tuple(k + (d == j) for j, k in enumerate(a))
                    if up not in vals:
                        continue
                    cs = both[d][a].imag / eps
                    for c in range(nc):
                        scl = max(numpy.abs(cs[c]).max(), (1 / size[c]) ** sum(up))
                        ctx.close(vals[up][c] / scl, cs[c] / scl, names[c], "derivative %s against the derivative of the reported %s, %s %s" % (up, a, label, entity), rtol=1e-7, atol=1e-8)
        # 3. traces: on an edge only the closure's functions, as 1D nodal functions
            if label == "edge":
                e = entity[1]
                t = ps.points[:, 0]
                L = lagrange(r, t)          # (r+1, npts)
                want = numpy.zeros((len(t), n))
                for k, i in enumerate(edge_closure[e]):
                    want[:, i] = L[k]
                for c in range(nc):
                    ctx.close(vals[(0, 0)][c], want, names[c], "trace on edge %d" % e, rtol=1e-8, atol=1e-8)
    ctx.sample("%s on %s" % (case, V[0].tolist()))
