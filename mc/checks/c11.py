"""C11: physically mapped elements produce the physical nodal basis.

State: (element, physical cell, per-vertex cell sizes).  Transition: one basis
function at one derivative order compared.  One symbolic expression per
element is generated by the code and evaluated on every cell of the alphabet;
oracle: FIAT's element of the same definition built directly on the physical
cell, pulled back, with the functions dual to derivative degrees of freedom
divided by the vertex cell sizes.
"""
from functools import lru_cache

import gem
import numpy
import FIAT
from finat.point_set import PointSet

from mc import build, geometry, ref, zany
from mc.gemeval import evaluate_many

CHUNK = 1
ASSUMPTIONS = ["FIAT's elements on physical cells are the definition of the physical nodal basis",
               "affine cells"]


def bound(tier):
    return "all physically mapped families/degrees/variants (%s); %d triangles, %d tetrahedra, %d intervals; all cell-size assignments of the alphabet; derivative orders 0..%d; cell and facets" % (
        tier, len(geometry.triangles(tier)), len(geometry.tetrahedra(tier)), len(geometry.intervals(tier)), 1 if tier == "quick" else 2)


def specs(tier):
    Z = [s for s, _ in zany.catalogue(tier)]
    out = [(s, None) for s in Z]
    # the same bases inside compositions
    for s in Z:
        if s[1] in ("Hermite", "Morley", "Argyris", "Bell", "ArnoldWintherNC", "ReducedArnoldQin", "MardalTaiWinther") or tier != "quick":
            if dict(s[4]).get("variant") == "point" or dict(s[4]).get("avg"):
                continue
            out.append((s, "tfe"))
            out.append((s, "tfeT"))
            out.append((s, "mixed"))
            out.append((s, "enriched"))
            out.append((s, "disc"))
    return out


def tasks(tier):
    out = []
    for s, w in specs(tier):
        for top in (True, False):
            out.append([list(s), w, top])
    return out


def cost(task):
    s = ref.tup(task[0])
    counts = dict(zany.catalogue("thorough"))[s]
    return (s[2] == "tetrahedron", sum(counts) * (1 if task[2] else 2) + counts[-1] * 5)


def fiat_physical(spec, cell):
    _, cls, name, degree, kw = spec
    kw = dict(kw)
    v = kw.get("variant")
    simple = {"Hermite": "CubicHermite", "Morley": "Morley", "Bell": "Bell",
              "QuadraticPowellSabin6": "QuadraticPowellSabin6", "QuadraticPowellSabin12": "QuadraticPowellSabin12"}
    if cls in simple:
        return getattr(FIAT, simple[cls])(cell)
    if cls == "Argyris":
        return FIAT.Argyris(cell, degree, variant=v or "integral")
    if cls == "HsiehCloughTocher":
        return FIAT.HsiehCloughTocher(cell, degree)
    if cls == "ReducedHsiehCloughTocher":
        return FIAT.HsiehCloughTocher(cell, reduced=True)
    if cls in ("MardalTaiWinther", "ArnoldWinther", "ArnoldWintherNC", "AlfeldSorokina", "ChristiansenHu", "JohnsonMercier", "ArnoldQin"):
        return getattr(FIAT, cls)(cell, degree)
    if cls == "HuZhang":
        return FIAT.HuZhang(cell, degree, variant=v)
    if cls == "ReducedArnoldQin":
        return FIAT.ArnoldQin(cell, degree, reduced=True)
    if cls in ("BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"):
        return getattr(FIAT, cls)(cell, order=degree)
    if cls == "BernardiRaugelBubble":
        return FIAT.BernardiRaugel(cell, order=0)
    if cls == "GuzmanNeilanBubble":
        return FIAT.GuzmanNeilanFirstKindH1(cell, order=0)
    if cls == "GuzmanNeilanH1div":
        return FIAT.GuzmanNeilanH1div(cell)
    raise ValueError(cls)


def scaling(spec, n):
    """Power of the vertex cell size dividing each vertex basis function, and
    whether facet functions are divided by the mean size of the edge's ends
    ('mean') or by the edge length ('length')."""
    _, cls, name, degree, kw = spec
    kw = dict(kw)
    d = ref.cell_dim(name)
    per = {"Hermite": [0] + [1] * d, "Argyris": [0, 1, 1, 2, 2, 2], "Bell": [0, 1, 1, 2, 2, 2],
           "HsiehCloughTocher": [0, 1, 1], "ReducedHsiehCloughTocher": [0, 1, 1],
           "QuadraticPowellSabin6": [0, 1, 1], "QuadraticPowellSabin12": [0, 1, 1],
           "ArnoldWinther": [2, 2, 2], "HuZhang": [2, 2, 2]}.get(cls, [])
    edge, nnormal = None, 0
    if cls == "Morley":
        edge, nnormal = "mean", 1
    elif cls == "Argyris" and kw.get("variant") == "point":
        edge, nnormal = "mean", 1
    elif cls == "Argyris" and not kw.get("avg"):
        edge, nnormal = "length", degree - 4
    elif cls == "HsiehCloughTocher" and not kw.get("avg"):
        edge, nnormal = "length", degree - 2
    elif cls == "QuadraticPowellSabin12" and not kw.get("avg"):
        edge, nnormal = "length", 1
    return per, edge, nnormal


def factors(spec, n, verts, h):
    name = spec[2]
    top = ref.make_cell(name).get_topology()
    per, edge, nnormal = scaling(spec, n)
    out = numpy.ones(n)
    q = geometry.quantities(name, verts, h)
    _, counts = next(c for c in zany.catalogue("thorough") if c[0] == spec)
    cur = 0
    for v in range(len(top[0])):
        for k in range(counts[0]):
            if per:
                out[cur] /= h[v] ** per[k]
            cur += 1
    if edge:
        for e in sorted(top[1]):
            a, b = top[1][e]
            for k in range(counts[1]):
                if k < nnormal:
                    out[cur] *= 2 / (h[a] + h[b]) if edge == "mean" else 1 / q["pel"][e]
                cur += 1
    return out


def pull_back(mapping, J, vals, shape):
    """Physical values [n, value.., pts] -> reference values."""
    if mapping == "affine":
        return vals
    detJ = numpy.linalg.det(J)
    K = numpy.linalg.inv(J)
    contra = detJ * K
    co = J.T
    ops = {"contravariant piola": [contra], "covariant piola": [co],
           "double contravariant piola": [contra, contra], "double covariant piola": [co, co]}[mapping]
    if len(ops) == 1:
        return numpy.einsum("ij,njp->nip", ops[0], vals)
    return numpy.einsum("ij,kl,njlp->nikp", ops[0], ops[1], vals)


@lru_cache(maxsize=2048)
def physical(spec, verts):
    return fiat_physical(spec, geometry.phys_cell(spec[2], verts))


def reference_tables(spec, verts, n, order, refpts):
    """Nodal basis of the physical cell as reference functions."""
    name = spec[2]
    d = ref.cell_dim(name)
    el = physical(spec, verts)
    V = numpy.asarray(verts, dtype=float)
    J = (V[1:] - V[0]).T
    x = refpts @ J.T + V[0]
    tab = el.tabulate(order, x)
    mapping, = set(el.mapping())
    shape = el.value_shape()
    out = {}
    for a, t in tab.items():
        t = numpy.asarray(t)[:n].reshape((n,) + shape + (len(x),))
        out[a] = pull_back(mapping, J, t, shape)
    # chain rule: reference derivative i is sum_j J[j, i] d/dx_j
    res = {}
    for a in out:
        dirs = [i for i in range(d) for _ in range(a[i])]
        acc = 0
        for js in numpy.ndindex(*(d,) * len(dirs)):
            b = [0] * d
            c = 1.0
            for i, j in zip(dirs, js):
                b[j] += 1
                c *= J[j, i]
            acc = acc + c * out[tuple(b)]
        res[a] = acc
    return res, mapping


def points_on(el, name, top):
    """Entities and points: generic in every subcell, and on each facet."""
    d = ref.cell_dim(name)
    if top:
        cx = el.complex
        n = el._element.degree() + d + 1 if hasattr(el, "_element") else 6
        n = min(n, 6 if d == 3 else 9)
        pts = []
        for c in cx.get_topology()[d]:
            pts.extend(cx.make_points(d, c, n, variant="gll"))
        return [((d, 0), numpy.array(pts))]
    out = []
    kind = ref.entity_kind(name, d - 1)
    for e in sorted(ref.make_cell(name).get_topology()[d - 1]):
        pts = ref.sample_points(kind, 4)
        out.append(((d - 1, e), numpy.asarray(pts)))
    return out


def wrapped(spec, w):
    if w is None:
        return spec
    dg = ("leaf", "DiscontinuousLagrange", spec[2], 1, None)
    return {"tfe": ("tfe", spec, (2,), False), "tfeT": ("tfe", spec, (2, 3), True),
            "mixed": ("mixed", (spec, dg, spec)), "enriched": ("enriched", (spec, spec)),
            "disc": ("disc", spec)}[w]


def expected(tab, w, spec, refpts, n):
    """Tables of the composition from those of the physically mapped part."""
    if w in (None, "disc"):
        return tab
    if w == "enriched":
        return {a: numpy.concatenate([t, t]) for a, t in tab.items()}
    if w == "mixed":
        dg = ref.model(("leaf", "DiscontinuousLagrange", spec[2], 1, None))
        o = max(map(sum, tab))
        out = {}
        dgt = dg.tab(o, refpts)
        for a, t in tab.items():
            f = t.reshape(n, -1, t.shape[-1])
            z = numpy.asarray(dgt[a]).reshape(dg.ndofs, 1, -1)
            m = f.shape[1]
            r = numpy.zeros((2 * n + dg.ndofs, 2 * m + 1, f.shape[-1]))
            r[:n, :m] = f
            r[n:n + dg.ndofs, m:m + 1] = z
            r[n + dg.ndofs:, m + 1:] = f
            out[a] = r
        return out
    shape = (2,) if w == "tfe" else (2, 3)
    m = int(numpy.prod(shape))
    out = {}
    for a, t in tab.items():
        vs = t.shape[1:-1]
        f = t.reshape(n, -1, t.shape[-1])
        r = numpy.zeros((n, m, m, f.shape[1], f.shape[-1]))
        for k in range(m):
            r[:, k, k] = f
        if w == "tfeT":
            r = numpy.moveaxis(r, 0, 1)
        out[a] = r.reshape((n * m,) + shape + vs + (t.shape[-1],))
    return out


def run(task, ctx):
    spec, w, top = ref.tup(task[0]), task[1], task[2]
    name = spec[2]
    d = ref.cell_dim(name)
    case0 = ref.show(spec) + ("" if w is None else " in " + w)
    order = 1 if ctx.tier == "quick" else 2
    cells = geometry.cells(name, ctx.tier)
    hs = geometry.sizes(d + 1, ctx.tier)
    if not top and ctx.tier == "quick":
        hs = hs[-2:]
    with ctx.guard(case0, "construction"):
        inner = build.element(spec)
        el = build.element(wrapped(spec, w))
        n = inner.space_dimension()
        for ent, pts in points_on(inner, name, top):
            ps = PointSet(pts)
            refpts = ref.map_points(name, ent, pts) if not top else pts
            geo = geometry.Symbolic(name)
            o = 0 if ctx.tier == "quick" and d == 3 and not top else order
            res = el.basis_evaluation(o, ps, entity=ent, coordinate_mapping=geo)
            ctx.equal(sorted(res), sorted(a for k in range(o + 1) for a in ref.mis(d, k)), case0, "derivatives")
            alphas = sorted(res)
            isize = int(numpy.prod(el.index_shape, dtype=int))
            for k0 in range(0, len(cells), 24):
                part = cells[k0:k0 + 24]
                refs = []
                for v in part:
                    t, mapping = reference_tables(spec, v, n, o, refpts)
                    refs.append(t)
                ctx.equal(el.mapping if w != "mixed" else None, mapping if w != "mixed" else None, case0, "mapping")
                combos = [(v, h) for v in part for h in hs]
                idx = gem.Index("cell", extent=len(combos))
                vals = evaluate_many([res[a] for a in alphas], (idx,) + ps.indices, geometry.batch(name, combos, idx))
                for c, (v, h) in enumerate(combos):
                    ctx.state((spec, w, ent, v, h))
                    f = factors(spec, n, v, h)
                    tab = refs[c // len(hs)]
                    want = expected({a: t * f.reshape((n,) + (1,) * (t.ndim - 1)) for a, t in tab.items()}, w, spec, refpts, n)
                    ctx.step(isize * len(alphas))
                    for a, g in zip(alphas, vals):
                        g = numpy.moveaxis(g[c].reshape((len(pts), isize) + el.value_shape), 0, -1)
                        t = want[a]
                        if a == (0,) * d:
                            ctx.outcome(numpy.round(g, 5).tobytes())
                        s = max(1.0, float(numpy.abs(t).max()))
                        ctx.close(g, t.reshape(g.shape), "%s on %s sizes %s" % (case0, v, h), "derivative %s entity %s" % (a, ent),
                                  rtol=1e-7, scale=s)
    ctx.sample("%s: %d cells x %d size assignments" % (case0, len(cells), len(hs)))
