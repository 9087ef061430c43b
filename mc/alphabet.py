"""Element alphabets (specifications; see mc.ref / mc.build)."""
import itertools
from functools import lru_cache

INT, TRI, TET = "interval", "triangle", "tetrahedron"
QUAD, HEX = "quadrilateral", "hexahedron"


def leaf(family, cell, degree, variant=None):
    return ("leaf", family, cell, degree, variant)


def _deg(maxdeg):
    return {INT: maxdeg, TRI: maxdeg, TET: max(1, maxdeg - 1)}


def simplex_leaves(tier):
    """Every FIAT-wrapped family on simplices, up to the degree bound."""
    T = tier == "thorough"
    out = []

    def add(fam, cells, degs, variants=(None,)):
        for c in cells:
            ds = degs[c] if isinstance(degs, dict) else degs
            for d in ds:
                for v in variants:
                    out.append(leaf(fam, c, d, v))

    R = lambda a, b: list(range(a, b + 1))
    hi = 2 if T else 0
    S = [INT, TRI, TET]
    add("Lagrange", S, {INT: R(1, 5 + hi), TRI: R(1, 4 + hi), TET: R(1, 3 + hi)},
        (None, "spectral", "chebyshev", "gll"))
    add("Lagrange", S, {INT: [1, 2], TRI: [1, 2], TET: [1, 2] if T else [1]}, ("alfeld", "iso"))
    add("Lagrange", [TRI], [1, 2], ("powell-sabin", "powell-sabin(12)", "iso(3)"))
    if T:
        add("Lagrange", [TET], [1], ("worsey-farin",))
        add("Lagrange", [TRI], [3], ("alfeld", "iso"))
    add("DiscontinuousLagrange", S, {INT: R(0, 4 + hi), TRI: R(0, 3 + hi), TET: R(0, 2 + hi)},
        (None, "spectral", "equispaced_interior", "gll", "gl"))
    add("DiscontinuousLagrange", [TRI], [0, 1, 2], ("alfeld,equispaced_interior",))
    add("Real", S, [0])
    add("Bernstein", S, {INT: R(1, 4 + hi), TRI: R(1, 3 + hi), TET: R(1, 2 + hi)})
    add("Bubble", S, {INT: R(2, 4 + hi), TRI: R(3, 4 + hi), TET: R(4, 4 + hi)})
    add("FacetBubble", S, {INT: [1, 2], TRI: R(2, 4 + hi), TET: R(3, 3 + hi)})
    add("CrouzeixRaviart", [TRI, TET], {TRI: [1, 3] + ([5] if T else []), TET: [1]})
    add("KongMulderVeldhuizen", [TRI, TET], {TRI: R(1, 4 + hi), TET: R(1, 3)})
    add("DiscontinuousTaylor", S, {INT: R(0, 4), TRI: R(0, 3), TET: R(0, 2)})
    add("HDivTrace", [TRI, TET], {TRI: R(0, 2 + hi), TET: R(0, 1 + hi)})
    for fam, lo in (("RaviartThomas", 1), ("BrezziDouglasMarini", 1), ("Nedelec", 1),
                    ("NedelecSecondKind", 1)):
        add(fam, [TRI, TET], {TRI: R(lo, 3 + (1 if T else 0)), TET: R(lo, 2 + (1 if T else 0))},
            ("point", "integral", None))
        add(fam, [TRI], [1, 2], ("integral(1)", "integral(2)"))
    add("BrezziDouglasFortinMarini", [TRI], [2])
    add("ArnoldQin", [TRI], [2])
    add("Regge", [TRI, TET], {TRI: R(0, 2), TET: R(0, 1)}, (None, "point", "integral"))
    add("HellanHerrmannJohnson", [TRI, TET], {TRI: R(0, 2), TET: R(0, 1)}, (None, "point", "integral"))
    add("GopalakrishnanLedererSchoberlFirstKind", [TRI, TET], {TRI: R(1, 3), TET: R(1, 2)})
    add("GopalakrishnanLedererSchoberlSecondKind", [TRI, TET], {TRI: R(0, 2), TET: R(0, 1)})
    add("GaussLobattoLegendre", S, {INT: R(1, 5 + hi), TRI: R(1, 3), TET: R(1, 2)})
    add("GaussLegendre", S, {INT: R(0, 5 + hi), TRI: R(0, 3), TET: R(0, 2)})
    add("Legendre", S, {INT: R(0, 4 + hi), TRI: R(0, 3 + hi), TET: R(0, 2)})
    add("IntegratedLegendre", S, {INT: R(1, 4 + hi), TRI: R(1, 4 + hi), TET: R(1, 3)})
    for fam, lo in (("FDMLagrange", 1), ("FDMDiscontinuousLagrange", 1), ("FDMQuadrature", 1),
                    ("FDMBrokenH1", 1), ("FDMBrokenL2", 1), ("FDMHermite", 3)):
        add(fam, [INT], R(lo, 4 + hi))
    return out


def cube_leaves(tier):
    """FIAT-wrapped families on hypercubes (flattened and product cells)."""
    T = tier == "thorough"
    out = []
    for q in (QUAD, (INT, INT)):
        for d in range(1, 6 if T else 5):
            out.append(leaf("Serendipity", q, d))
        for d in range(0, 4 if q == QUAD else 0):   # (FIAT cannot tabulate DPC on product cells)
            out.append(leaf("DPC", q, d))
        for fam in ("BrezziDouglasMariniCubeEdge", "BrezziDouglasMariniCubeFace",
                    "TrimmedSerendipityFace", "TrimmedSerendipityEdge"):
            for d in range(1, 5 if T else 4):
                out.append(leaf(fam, q, d))
    for h in (HEX, (INT, INT, INT)):
        for d in range(1, 4 if T else 3):
            out.append(leaf("Serendipity", h, d))
        for d in range(0, (4 if T else 3) if h == HEX else 0):
            out.append(leaf("DPC", h, d))
        for fam in ("TrimmedSerendipityDiv", "TrimmedSerendipityCurl", "TrimmedSerendipityEdge"):
            for d in range(1, 3 if T or h == HEX else 2):
                out.append(leaf(fam, h, d))
    return out


# ---------------------------------------------------------------- composites

def tp(*f):
    return ("tp", tuple(f))


def flat(e):
    return ("flat", e)


def enriched(*e):
    return ("enriched", tuple(e))


def mixed(*e):
    return ("mixed", tuple(e))


def tfe(e, shape, transpose=False):
    return ("tfe", e, tuple(shape), bool(transpose))


def hdiv(e):
    return ("hdiv", e)


def hcurl(e):
    return ("hcurl", e)


def disc(e):
    return ("disc", e)


def base_leaves(tier):
    """Small leaf alphabet from which composites are grown: one of each kind
    of behaviour (continuous/discontinuous, value shape, mapping, dof
    placement, collocated shortcut, modal)."""
    T = tier == "thorough"
    ints = [leaf("Lagrange", INT, 1), leaf("Lagrange", INT, 2),
            leaf("DiscontinuousLagrange", INT, 0), leaf("DiscontinuousLagrange", INT, 1),
            leaf("GaussLobattoLegendre", INT, 2), leaf("GaussLegendre", INT, 1)]
    tris = [leaf("Lagrange", TRI, 1), leaf("Lagrange", TRI, 2),
            leaf("DiscontinuousLagrange", TRI, 0), leaf("DiscontinuousLagrange", TRI, 1),
            leaf("RaviartThomas", TRI, 1), leaf("Nedelec", TRI, 1),
            leaf("BrezziDouglasMarini", TRI, 1), leaf("Bubble", TRI, 3)]
    tets = [leaf("Lagrange", TET, 1), leaf("RaviartThomas", TET, 1), leaf("DiscontinuousLagrange", TET, 0)]
    if T:
        ints += [leaf("Lagrange", INT, 3), leaf("IntegratedLegendre", INT, 3), leaf("Bubble", INT, 2),
                 leaf("Legendre", INT, 2)]
        tris += [leaf("Lagrange", TRI, 3), leaf("RaviartThomas", TRI, 2), leaf("NedelecSecondKind", TRI, 1),
                 leaf("CrouzeixRaviart", TRI, 1), leaf("Regge", TRI, 1)]
        tets += [leaf("Nedelec", TET, 1), leaf("Lagrange", TET, 2)]
    return ints, tris, tets


def products(tier):
    """Tensor products: all pairs, all triples of a sub-alphabet, nested products."""
    ints, tris, tets = base_leaves(tier)
    T = tier == "thorough"
    out = []
    out += [tp(a, b) for a in ints for b in ints]
    out += [tp(a, b) for a in tris for b in ints]
    sub = ints[:3] if not T else ints[:4]
    out += [tp(a, b, c) for a in sub for b in sub for c in sub]
    # nested and products with flattened cells
    cg1, cg2, dg0 = ints[0], ints[1], ints[2]
    pairs = [(cg1, cg2), (dg0, cg2)]
    out += [tp(tp(a, b), c) for a, b in pairs for c in sub[:3]]
    out += [tp(c, tp(a, b)) for a, b in pairs[:1] for c in sub[:3]]
    out += [tp(flat(tp(a, b)), c) for a, b in ((cg1, cg1), (dg0, cg2), (cg2, dg0)) for c in sub[:3]]
    out += [tp(leaf("Serendipity", QUAD, 2), cg1), tp(leaf("DPC", QUAD, 1), dg0)]
    out += [tp(b, a) for a in tris[:1] + tris[4:5] for b in ints[:3]]
    if T:
        out += [tp(tfe(a, (2,)), b) for a in (cg1, dg0) for b in (cg2, dg0)]
        out += [tp(enriched(cg1, leaf("Bubble", INT, 2)), b) for b in (cg2, dg0)]
        out += [tp(a, b) for a in tets[:2] for b in ints[:3]]
    else:
        out += [tp(tfe(cg1, (2,)), cg2), tp(cg2, tfe(dg0, (2,)))]
        out += [tp(enriched(cg1, leaf("Bubble", INT, 2)), cg2), tp(cg2, disc(cg1))]
        out += [tp(tets[0], cg1)]
    return out


def _model(spec):
    from mc import ref
    return ref.model(spec)


def wrappers(tier):
    """All valid H(div)/H(curl) wrappers of two-factor products with an interval."""
    out = []
    for p in products(tier):
        if len(p[1]) != 2 or p[1][1][0] not in ("leaf",) or p[1][1][2] != INT:
            continue
        m = _model(p)
        if m.formdegree is None:
            continue
        d = m.dim
        ks = tuple(f.formdegree for f in m.factors)
        if m.formdegree == d - 1 and (m.value_shape == () or m.mapping in ("contravariant piola", "covariant piola")):
            if m.value_shape == () and ks in ((0, 1), (1, 0), (2, 0)) and d - 1 in (1, 2):
                out.append(hdiv(p))
            elif m.value_shape == (2,) and ks == (1, 1):
                out.append(hdiv(p))
        if m.formdegree == 1:
            if m.value_shape == () and m.mapping == "affine" and (ks == (0, 1) or (ks == (1, 0) and d == 2)):
                out.append(hcurl(p))
            elif m.value_shape == (2,) and m.mapping in ("covariant piola", "contravariant piola"):
                out.append(hcurl(p))
    return out


def cubes(tier):
    """Flattened products, wrappers and unions of wrappers on hypercubes."""
    ints, _, _ = base_leaves(tier)
    T = tier == "thorough"
    cg1, cg2, dg0, dg1 = ints[:4]
    out = [flat(tp(a, b)) for a in ints for b in ints]
    sub = (cg1, cg2, dg0, dg1) if T else (cg1, dg0, cg2)
    out += [flat(tp(a, b, c)) for a in sub for b in sub for c in sub]
    # (wrappers need a two-factor product: unflattened)
    out += [flat(w) for w in ()]
    # RTCF / RTCE style unions
    for k in (1, 2):
        c, d = leaf("Lagrange", INT, k), leaf("DiscontinuousLagrange", INT, k - 1)
        out.append(enriched(hdiv(tp(c, d)), hdiv(tp(d, c))))
        out.append(enriched(hcurl(tp(c, d)), hcurl(tp(d, c))))
        out.append(flat(enriched(hdiv(tp(c, d)), hdiv(tp(d, c)))))
        out.append(flat(enriched(hcurl(tp(c, d)), hcurl(tp(d, c)))))
        out.append(enriched(tp(c, d), tp(d, c)))
    return out


def composites(tier):
    """All composite element trees up to the bound (depth 2 over the
    composition operators, depth 3 along the towers used in practice)."""
    T = tier == "thorough"
    ints, tris, tets = base_leaves(tier)
    out = []
    prods = products(tier)
    wraps = wrappers(tier)
    cub = cubes(tier)
    out += prods + wraps + cub
    level1 = ints + tris + tets + prods[::1 if T else 5] + wraps[::1 if T else 2] + cub[::1 if T else 4]
    # vector/tensor valued
    shapes = [(2,), (3,), (2, 2)] + ([(1,), (3, 3), (2, 3)] if T else [(2, 3)])
    for e in level1:
        for s in shapes:
            for t in (False, True):
                if not T and len(s) == 2 and e[0] != "leaf" and (s != (2, 3)):
                    continue
                out.append(tfe(e, s, t))
    # enriched: pairs with the same cell and value shape
    from mc import ref
    groups = {}
    small = level1 if T else ints + tris + tets + prods[::7] + wraps[::3] + cub[::9]
    for e in small:
        m = _model(e)
        groups.setdefault((m.name, m.value_shape), []).append(e)
    for g in groups.values():
        g = g[:8 if T else 6]
        for a, b in itertools.product(g, g):
            out.append(enriched(a, b))
        for a, b, c in itertools.product(g[:2], repeat=3):
            out.append(enriched(a, enriched(b, c)))
    # mixed: pairs and triples on the same cell, any value shapes
    groups = {}
    for e in small:
        groups.setdefault(_model(e).name, []).append(e)
    for g in groups.values():
        g = g[:8 if T else 6]
        for a, b in itertools.product(g, g):
            out.append(mixed(a, b))
        for a, b in itertools.product(g[:3], g[-2:]):
            out.append(mixed(a, tfe(b, (2,)), b))
            out.append(mixed(mixed(a, b), a))
            out.append(mixed(tfe(a, (2, 2), True), b))
        out.append(mixed(g[0]))
    # discontinuous / nested value wrappers
    for e in level1[::1 if T else 3]:
        out.append(disc(e))
        out.append(tfe(disc(e), (2,), True))
        out.append(disc(tfe(e, (2,))))
        out.append(tfe(tfe(e, (2,)), (3,), True))
        out.append(tfe(tfe(e, (2,), True), (3,)))
    # towers over enriched/mixed
    e2 = enriched(leaf("Lagrange", TRI, 1), leaf("Bubble", TRI, 3))
    for t in (False, True):
        out += [tfe(e2, (2,), t), tfe(e2, (2, 2), t), mixed(tfe(e2, (2,), t), leaf("Lagrange", TRI, 1)),
                tfe(mixed(leaf("Lagrange", TRI, 1), leaf("DiscontinuousLagrange", TRI, 0)), (2,), t)]
    out += [tp(e2, leaf("Lagrange", INT, 1)), tp(e2, leaf("DiscontinuousLagrange", INT, 0)),
            disc(e2), enriched(disc(leaf("Lagrange", TRI, 1)), leaf("DiscontinuousLagrange", TRI, 0))]
    seen = set()
    uniq = []
    for s in out:
        if s not in seen:
            seen.add(s)
            uniq.append(s)
    return uniq
