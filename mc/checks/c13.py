"""C13: basis functions of physically mapped elements scale invariantly.

State: (element, cell, per-vertex sizes, scale factor).  Transition: one basis
function compared between a cell and its scaled copy (vertices and cell sizes
scaled together).  Scalar families must be unchanged; for the Piola-mapped
ones, and for edge averages of the normal derivative, the power of the scale
is fixed by the kind of degree of freedom and must be the same on every cell.
"""
import gem
import numpy
from finat.point_set import PointSet

from mc import build, geometry, ref, zany
from mc.checks import c11
from mc.gemeval import evaluate_many

CHUNK = 1
ASSUMPTIONS = ["affine cells", "cell sizes scale with the mesh"]


def scales(tier):
    return (0.25, 2.0, 3.0) if tier == "quick" else (2.0 ** -10, 0.25, 0.3, 2.0, 3.0, 1000.0)


def bound(tier):
    return "all physically mapped families (%s); the cells of C11; size assignments; scales %s; derivative orders 0..1" % (tier, scales(tier))


def tasks(tier):
    return [list(s) for s, _ in zany.catalogue(tier) if s[1] != "ArnoldQin"]


def cost(task):
    s = ref.tup(task)
    return (s[2] == "tetrahedron", sum(dict(zany.catalogue("thorough"))[s]))


def powers(spec, n, entity_dofs):
    """Power of the scale with which each (reference) basis function grows."""
    d = ref.cell_dim(spec[2])
    cls, kw = spec[1], dict(spec[4])
    counts = dict(zany.catalogue("thorough"))[spec]
    top = ref.make_cell(spec[2]).get_topology()
    el = c11.physical(spec, ref.make_cell(spec[2]).vertices)
    mapping, = set(el.mapping())
    nodes = el.get_dual_set().nodes
    out = numpy.zeros(n, dtype=int)
    for dim in sorted(top):
        for e in sorted(top[dim]):
            for k, i in enumerate(entity_dofs[dim][e]):
                p = 0
                if mapping == "affine":
                    # average, rather than integral, of the normal derivative
                    if dim == 1 and kw.get("avg") and k < averaged(spec):
                        p = 1
                elif mapping == "contravariant piola":
                    if dim == d - 1:
                        # Piola-invariant normal moments, except the midpoint
                        # values of the Alfeld-Sorokina family on edges in 2D
                        p = d - 1 if cls == "AlfeldSorokina" else 0
                    elif nodes[i].deriv_dict if dim < d - 1 else False:
                        p = d
                    else:
                        p = d - 1
                elif mapping == "double contravariant piola":
                    if dim == 0:
                        p = 2 * (d - 1) - 2       # divided by the squared cell size
                    elif dim == d and kw.get("variant") == "point":
                        p = 2 * (d - 1)
                    elif dim == d - 1 and d == 3 and k % 3:
                        p = 1                     # tangential moments against edge vectors
                out[i] = p
    return out


def averaged(spec):
    cls, degree = spec[1], spec[3]
    return {"Argyris": (degree or 0) - 4, "HsiehCloughTocher": (degree or 0) - 2, "QuadraticPowellSabin12": 1}.get(cls, 0)


def run(task, ctx):
    spec = ref.tup(task)
    name = spec[2]
    d = ref.cell_dim(name)
    case0 = ref.show(spec)
    cells = geometry.cells(name, ctx.tier)
    hs = geometry.sizes(d + 1, ctx.tier)
    hs = hs[-2:] + hs[1:2] if ctx.tier == "quick" else hs
    with ctx.guard(case0, "construction"):
        el = build.element(spec)
        n = el.space_dimension()
        (ent, pts), = c11.points_on(el, name, True)
        pts = pts[::3]
        ps = PointSet(pts)
        order = 1
        res = el.basis_evaluation(order, ps, entity=ent, coordinate_mapping=geometry.Symbolic(name))
        alphas = sorted(res)
        pw = powers(spec, n, el.entity_dofs())
        ctx.equal(len(pw), n, case0, "number of basis functions")
        S = (1.0,) + scales(ctx.tier)
        for k0 in range(0, len(cells), 16):
            combos = [(v, h, s) for v in cells[k0:k0 + 16] for h in hs for s in S]
            idx = gem.Index("cell", extent=len(combos))
            b = geometry.batch(name, [((numpy.array(v, dtype=float) * s), numpy.array(h) * s) for v, h, s in combos], idx)
            vals = evaluate_many([res[a] for a in alphas], (idx,) + ps.indices, b)
            vals = [g.reshape((len(combos), len(pts), n, -1)) for g in vals]
            for c, (v, h, s) in enumerate(combos):
                if s == 1.0:
                    base = c
                    continue
                ctx.state((spec, v, h, s))
                ctx.step(n)
                for a, g in zip(alphas, vals):
                    want = g[base] * (s ** pw)[:, None]
                    # per function, relative to its own size
                    size = numpy.maximum(numpy.abs(want).max(axis=(0, 2), keepdims=True), 1e-6 * (s ** pw)[:, None])
                    ctx.close(g[c] / size, want / size, "%s on %s sizes %s scaled by %g" % (case0, v, h, s),
                              "derivative %s" % (a,), rtol=1e-6)
                    ctx.outcome(numpy.round(g[base], 5).tobytes())
    ctx.sample(case0)
