"""C12: neighbouring cells glue into a function with the promised continuity.

State: (element, two-cell patch with a numbering of its vertices).  Transition:
one degree of freedom: shared ones must give the same continuous quantity from
both sides of the common facet, and those not attached to the closure of the
facet must not contribute to it.  The continuous quantity (value, gradient,
normal or tangential component, moments) is the one the element's space
promises.
"""
import itertools
from functools import lru_cache

import gem
import numpy
from FIAT.quadrature_schemes import create_quadrature
from finat.point_set import PointSet

from mc import alphabet, build, geometry, patches, ref, zany
from mc.gemeval import evaluate, evaluate_many

CHUNK = 2
ASSUMPTIONS = ["local vertices ordered by global number (simplices); aligned directions (product cells)",
               "affine cells", "degrees of freedom of a shared entity are identified in order"]

H1 = {"Lagrange", "Bernstein", "Bubble", "FacetBubble", "GaussLobattoLegendre", "IntegratedLegendre", "FDMLagrange",
      "FDMHermite", "KongMulderVeldhuizen", "Serendipity", "ArnoldQin", "BernardiRaugel", "BernardiRaugelBubble",
      "ChristiansenHu", "ReducedArnoldQin", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "GuzmanNeilanBubble"}
C1 = {"Argyris", "Bell", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin12"}
HDIV = {"RaviartThomas", "BrezziDouglasMarini", "BrezziDouglasFortinMarini", "BrezziDouglasMariniCubeFace",
        "TrimmedSerendipityFace", "TrimmedSerendipityDiv"}
HCURL = {"Nedelec", "NedelecSecondKind", "BrezziDouglasMariniCubeEdge", "TrimmedSerendipityEdge", "TrimmedSerendipityCurl"}
OTHER = {"Regge": "tt", "HellanHerrmannJohnson": "nn", "GopalakrishnanLedererSchoberlFirstKind": "tn",
         "GopalakrishnanLedererSchoberlSecondKind": "tn", "CrouzeixRaviart": "moments", "HDivTrace": "trace",
         "Hermite": "Hermite", "QuadraticPowellSabin6": "Hermite", "Morley": "Morley", "MardalTaiWinther": "MTW", "ArnoldWinther": "sn", "HuZhang": "sn",
         "JohnsonMercier": "sn", "ArnoldWintherNC": "snmoments", "AlfeldSorokina": "H1div", "GuzmanNeilanH1div": "H1div"}
def continuity(s):
    op = s[0]
    if op in ("leaf", "zany"):
        f = s[1]
        for names, c in ((H1, "H1"), (C1, "C1"), (HDIV, "Hdiv"), (HCURL, "Hcurl")):
            if f in names:
                return c
        return OTHER.get(f)
    if op in ("flat",):
        return continuity(s[1])
    if op == "tp":
        return "H1" if all(continuity(f) == "H1" for f in s[1]) else None
    if op in ("enriched", "nodalenriched", "mixed"):
        cs = {continuity(f) for f in s[1]}
        c = cs.pop() if len(cs) == 1 else None
        return c if op != "mixed" or c in ("H1", "C1") else None
    if op == "tfe":
        c = continuity(s[1])
        return c if c in ("H1", "Hdiv", "Hcurl", "C1") else None
    if op in ("hdiv", "hcurl"):
        return {"hdiv": "Hdiv", "hcurl": "Hcurl"}[op] if conforming(s[1], op) else None
    if op == "restricted":
        return continuity(s[1])
    return None


def conforming(p, op):
    """Is the product one whose wrapper is conforming?"""
    if p[0] != "tp" or len(p[1]) != 2:
        return False
    ok = {0: lambda f: continuity(f) == "H1",
          1: lambda f: continuity(f) == ("Hdiv" if f_dim(f) == 2 and op == "hdiv" else "Hcurl") or f_dim(f) == 1,
          2: lambda f: True}
    m = ref.model(p)
    return all(ok[f.formdegree](s) for f, s in zip(m.factors, p[1])) and all(s[0] == "leaf" for s in p[1])


def f_dim(s):
    if s[0] == "restricted":
        return f_dim(s[1])
    return ref.cell_dim(ref.cell_of(s))


def specs(tier):
    out = alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) + alphabet.composites("quick")
    out += [s for s, _ in zany.catalogue(tier)]
    L = alphabet.leaf
    I, T, K = "interval", "triangle", "tetrahedron"
    for k in (1, 2):
        cg, dg = L("Lagrange", I, k), L("DiscontinuousLagrange", I, k - 1)
        # RTCF / RTCE / NCF / NCE
        rtcf = ("enriched", (("hdiv", ("tp", (cg, dg))), ("hdiv", ("tp", (dg, cg)))))
        rtce = ("enriched", (("hcurl", ("tp", (cg, dg))), ("hcurl", ("tp", (dg, cg)))))
        out += [rtcf, rtce, ("flat", rtcf[1][0])]
        # extruded triangles
        for f in ("RaviartThomas", "BrezziDouglasMarini"):
            out.append(("enriched", (("hdiv", ("tp", (L(f, T, k), dg))), ("hdiv", ("tp", (L("DiscontinuousLagrange", T, k - 1), cg))))))
        for f in ("Nedelec", "NedelecSecondKind"):
            out.append(("enriched", (("hcurl", ("tp", (L(f, T, k), cg))), ("hcurl", ("tp", (L("Lagrange", T, k), dg))))))
            out.append(("hdiv", ("tp", (L(f, T, k), dg))))
        for f in ("RaviartThomas", "BrezziDouglasMarini"):
            out.append(("hcurl", ("tp", (L(f, T, k), cg))))
        out.append(("tp", (L("Lagrange", T, k + 1), cg)))
        out.append(("restricted", L("Lagrange", T, k + 2), "facet"))
        out.append(("restricted", ("tp", (L("Lagrange", T, k + 1), L("Lagrange", I, 2))), "facet"))
        out.append(("restricted", ("flat", ("tp", (L("Lagrange", I, k + 1), L("Lagrange", I, 2)))), "facet"))
    return [s for s in dict.fromkeys(out) if continuity(s) and f_dim(s) <= 3]


def bound(tier):
    return "%d elements with a continuity promise; all vertex numberings of %d triangle and %d tetrahedron patches; aligned product patches; per-vertex cell sizes" % (
        len(specs(tier)), len(patches.triangles(tier)), len(patches.tetrahedra(tier)))


def tasks(tier):
    out = [[list(s), continuity(s)] for s in specs(tier)]
    out.append([["zany", "QuadraticPowellSabin6", "triangle", 2, []], "C1"])
    return out


def cost(task):
    s = ref.tup(task[0])
    return (s[0] == "zany", ref.cell_dim(ref.cell_of(s)), len(str(s)))


@lru_cache(maxsize=None)
def facet_rule(kind):
    """Quadrature points, weights (no macro split points) and corners."""
    if kind == "vertex":
        return numpy.zeros((1, 0)), numpy.ones(1)
    if isinstance(kind, tuple) or kind == "quadrilateral":
        parts = kind if isinstance(kind, tuple) else ("interval", "interval")
        rules = [facet_rule(k) for k in parts]
        pts = numpy.array([numpy.concatenate(x) for x in itertools.product(*[r[0] for r in rules])])
        w = numpy.array([numpy.prod(x) for x in itertools.product(*[r[1] for r in rules])])
        return pts, w
    Q = create_quadrature(ref.make_cell(kind), 7 if kind == "interval" else 5)
    return numpy.asarray(Q.get_points()), numpy.asarray(Q.get_weights())


def leaf_kinds(s):
    if s[0] in ("leaf", "zany"):
        return [s]
    if s[0] in ("flat", "hdiv", "hcurl", "disc", "tfe", "restricted"):
        return leaf_kinds(s[1])
    return [l for f in s[1] for l in leaf_kinds(f)]


def fiat_evaluates(spec, name):
    """FIAT fails on some serendipity leaves over product cells."""
    for l in leaf_kinds(spec):
        if l[0] == "leaf" and isinstance(l[2], tuple):
            el = ref.model(l).el
            d = ref.cell_dim(l[2])
            try:
                for e, o, a in ref.entities(l[2]):
                    if a.shape[0] == d - 1:
                        el.tabulate(0, facet_rule(ref.entity_kind(l[2], e[0]))[0], e)
            except Exception:
                return False
    return True


def run(task, ctx):
    spec, cont = ref.tup(task[0]), task[1]
    name = ref.cell_of(spec) if spec[0] != "restricted" else ref.cell_of(spec[1])
    case0 = ref.show(spec)
    if cont != continuity(spec):
        case0 += " as " + cont
    physical = any(l[0] == "zany" for l in leaf_kinds(spec))
    simplex = name in ("interval", "triangle", "tetrahedron")
    plist = patches.simplex_patches(name, ctx.tier) if simplex else patches.product_patches(name, ctx.tier)
    if ctx.tier != "quick" and len(plist) > 2000 and not physical:
        plist = patches.simplex_patches(name, "quick")
    d = ref.cell_dim(name)
    if not fiat_evaluates(spec, name):
        ctx.skip("FIAT cannot evaluate the leaf on facets")
        return
    with ctx.guard(case0, "construction"):
        el = build.element(spec)
        order = 1 if cont in ("C1", "Hermite", "Morley", "H1div") else 0
        vshape = tuple(el.value_shape)
        n = int(numpy.prod(el.index_shape, dtype=int))
        mapping = el.mapping
        ed = el.entity_dofs()
        # evaluate on every facet, for every distinct cell having it
        facets = {}
        for _, a, b in plist:
            for c, f in (a, b):
                facets.setdefault(f, {}).setdefault(key(c), c)
        data = {}
        for f, cs in facets.items():
            kind = ref.entity_kind(name, f[0])
            pts, w = facet_rule(kind)
            corners = ref._corner_points(kind)
            allp = numpy.concatenate([pts, corners]) if cont in ("Hermite", "Morley") and d > 1 else pts
            ps = PointSet(allp)
            if not physical:
                res = el.basis_evaluation(order, ps, entity=f)
                tab = {a: layout(evaluate(t, ps.indices), len(allp), n, vshape) for a, t in res.items() if sum(a) <= order}
                for k in cs:
                    data[f, k] = tab
                continue
            res = el.basis_evaluation(order, ps, entity=f, coordinate_mapping=geometry.Symbolic(name))
            alphas = sorted(res)
            ks = list(cs)
            for k0 in range(0, len(ks), 64):
                part = ks[k0:k0 + 64]
                idx = gem.Index("cell", extent=len(part))
                vals = evaluate_many([res[a] for a in alphas], (idx,) + ps.indices,
                                     geometry.batch(name, [(cs[k][0], cs[k][2]) for k in part], idx))
                for c, k in enumerate(part):
                    data[f, k] = {a: layout(v[c], len(allp), n, vshape) for a, v in zip(alphas, vals)}
        q = {}
        for label, a, b in plist:
            ctx.state((spec, label))
            case = "%s on %s" % (case0, label)
            geo = facet_geometry(name, a)
            Q = []
            for c, f in (a, b):
                kk = (f, key(c), tuple(numpy.round(geo[1], 12).ravel()))
                if kk not in q:
                    q[kk] = quantity(cont, name, data[f, key(c)], patches.cell_map(name, c), f, geo, mapping, d, vshape, n)
                Q.append(q[kk])
            pairs = patches.match_entities(name, a, b)
            ia, ib = [], []
            okay = True
            for ea, eb in pairs:
                da, db = list(ed[ea[0]][ea[1]]), list(ed[eb[0]][eb[1]])
                if not ctx.equal(len(da), len(db), case, "dofs of the shared entities %s/%s" % (ea, eb)):
                    okay = False
                ia += da
                ib += db
            if not okay:
                continue
            ctx.step(n)
            scale = max(1e-3, float(numpy.abs(Q[0]).max(initial=0)), float(numpy.abs(Q[1]).max(initial=0)))
            if ia:
                ctx.close(Q[0][ia], Q[1][ib], case, "%s of the shared functions from both sides" % cont, rtol=1e-7, scale=scale)
                ctx.outcome(numpy.round(Q[0][ia], 5).tobytes())
            for k, ii in ((0, ia), (1, ib)):
                rest = sorted(set(range(n)) - set(ii))
                if rest:
                    ctx.close(Q[k][rest], 0 * Q[k][rest], case, "%s of functions not attached to the facet" % cont, rtol=1e-7, scale=scale)
    ctx.sample("%s (%s): %d patches" % (case0, cont, len(plist)))


def key(c):
    if isinstance(c[0], tuple):
        return c
    return (tuple(numpy.round(c[0], 12)), tuple(numpy.round(c[1], 12).ravel()))


def layout(v, npts, n, vshape):
    return numpy.moveaxis(v.reshape((npts, n) + vshape), 0, -1)


def facet_geometry(name, side):
    """Physical tangents and a unit normal of the shared facet."""
    c, f = side
    x0, J = patches.cell_map(name, c)
    o, ax = ref.entity_map(name)[f]
    T = ax @ J.T
    d = J.shape[0]
    if d == 1:
        nrm = numpy.array([1.0])
    elif d == 2:
        nrm = numpy.array([T[0, 1], -T[0, 0]])
    else:
        nrm = numpy.cross(T[0], T[1])
    return T, nrm / numpy.linalg.norm(nrm)


def quantity(cont, name, tab, cell, f, geo, mapping, d, vshape, n):
    """[n, *] values of what must be continuous across the facet."""
    x0, J = cell
    detJ = numpy.linalg.det(J)
    K = numpy.linalg.inv(J)
    T, nrm = geo
    pts, w = facet_rule(ref.entity_kind(name, f[0]))
    np_ = len(w)
    z = (0,) * d

    def push(t):
        if mapping in (None, "affine", "undefined") or cont == "trace":
            return t
        contra, co = J / detJ, K.T
        ops = {"contravariant piola": [contra], "covariant piola": [co],
               "double contravariant piola": [contra, contra], "double covariant piola": [co, co],
               "covariant contravariant piola": [co, contra]}[mapping]
        if len(ops) == 1:
            return numpy.einsum("ij,...jp->...ip", ops[0], t)
        return numpy.einsum("ij,kl,...jlp->...ikp", ops[0], ops[1], t)

    V = push(tab[z])
    if cont in ("H1", "trace"):
        return V.reshape(n, -1)
    if cont in ("C1", "Hermite", "Morley", "H1div"):
        ref_grad = numpy.stack([push(tab[tuple(int(i == k) for i in range(d))]) for k in range(d)], axis=-2)
        G = numpy.einsum("ij,...ip->...jp", K, ref_grad)
        if cont == "C1":
            return numpy.concatenate([V.reshape(n, -1), G.reshape(n, -1)], axis=1)
        if cont == "Hermite":
            return numpy.concatenate([V.reshape(n, -1), G[..., np_:].reshape(n, -1)], axis=1)
        if cont == "Morley":
            return numpy.concatenate([V[..., np_:].reshape(n, -1), (G[..., :np_] @ w).reshape(n, -1)], axis=1)
        div = numpy.einsum("niip->np", G)
        return numpy.concatenate([V.reshape(n, -1), div], axis=1)
    if cont == "Hdiv":
        return numpy.einsum("...ip,i->...p", V, nrm).reshape(n, -1)
    if cont == "Hcurl":
        return numpy.einsum("...ip,ki->...kp", V, T).reshape(n, -1)
    if cont == "tt":
        return numpy.einsum("nijp,ki,lj->nklp", V, T, T).reshape(n, -1)
    if cont == "nn":
        return numpy.einsum("nijp,i,j->np", V, nrm, nrm)
    if cont == "tn":
        return numpy.einsum("nijp,ki,j->nkp", V, T, nrm).reshape(n, -1)
    if cont == "sn":
        return numpy.einsum("nijp,j->nip", V, nrm).reshape(n, -1)
    mono = numpy.stack([w] + ([w * pts[:, i] for i in range(d - 1)] if cont != "moments0" else []))
    if cont == "snmoments":
        return numpy.einsum("nijp,j,mp->nim", V, nrm, mono).reshape(n, -1)
    if cont == "MTW":
        nn = numpy.einsum("nip,i->np", V, nrm)
        tt = numpy.einsum("nip,ki,p->nk", V, T, w)
        return numpy.concatenate([nn, tt], axis=1)
    if cont == "moments":
        # Crouzeix-Raviart of degree k: moments of degree up to k - 1
        k = {3: 1, 4: 1, 10: 3}[n]
        mono = numpy.stack([w * pts[:, 0] ** j for j in range(k)])
        return numpy.einsum("np,mp->nm", V, mono)
    raise ValueError(cont)
