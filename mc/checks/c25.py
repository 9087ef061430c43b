"""C25: the reported degree and cell complex describe the space of functions.

State: (element, cell of the complex it reports).  Transition: one basis
function fitted by a polynomial of the reported degree on one cell of the
reported complex, or one entry of the Gram matrix integrated with the rule the
library makes for that complex at twice that degree.  The oracle is the degree
and subdivision of the parts, composed by the published rules (a tuple per
direction in products, the largest in unions, the largest direction when
flattened), fits on independent lattices, and Gauss rules built here.
"""
import itertools

import FIAT
import numpy
from finat.point_set import PointSet
from finat.quadrature import make_quadrature

from mc import alphabet as al
from mc import build, geometry, ref, zany
from mc.gemeval import evaluate_many

CHUNK = 4
ASSUMPTIONS = ["degrees and subdivisions of FIAT's elements are taken from FIAT",
               "products of reported degrees are per direction, also on quadrilaterals and hexahedra",
               "direct serendipity elements are rational: their degree is only compared with the nominal one"]


def bound(tier):
    return ("all leaves, composites and macro composites of the alphabets (%s), all physically mapped elements on one cell: "
            "every cell of the reported complex, every basis function and value component, every entry of the Gram matrix" % tier)


def macros(tier):
    """Elements over subdivided cells inside every kind of composition."""
    L = al.leaf
    I, T, K = al.INT, al.TRI, al.TET
    mi = [L("Lagrange", I, k, v) for k in (1, 2) for v in ("alfeld", "iso", "iso(3)")]
    mt = [L("Lagrange", T, k, v) for k in (1, 2) for v in ("alfeld", "iso", "powell-sabin")] + \
        [L("DiscontinuousLagrange", T, k, "alfeld,equispaced_interior") for k in (0, 1)] + [L("Lagrange", T, 1, "powell-sabin(12)")]
    mk = [L("Lagrange", K, 1, "alfeld"), L("Lagrange", K, 1, "iso")]
    pi, pt, pk, rt = L("Lagrange", I, 2), L("Lagrange", T, 2), L("Lagrange", K, 1), L("RaviartThomas", T, 1)
    dg0, dg = L("DiscontinuousLagrange", I, 0), L("DiscontinuousLagrange", I, 1)
    out = list(mi + mt + mk)
    for m, p in [(m, pi) for m in mi] + [(m, pt) for m in mt] + [(m, pk) for m in mk]:
        out += [al.tfe(m, (2,)), al.tfe(m, (2, 2), True), al.disc(m), al.enriched(m, p), al.enriched(p, m), al.mixed(m, p), al.mixed(p, m),
                al.mixed(al.tfe(m, (2,)), p), al.enriched(al.tfe(m, (2,)), al.tfe(p, (2,))), al.mixed(m, m), al.tfe(al.enriched(p, m), (2,)),
                al.disc(al.enriched(m, p))]
    for m in mi:
        out += [al.tp(m, pi), al.tp(pi, m), al.tp(m, m), al.flat(al.tp(m, dg)), al.flat(al.tp(dg, m)), al.tp(pt, m), al.tp(rt, m),
                al.tp(m, pi, dg), al.flat(al.tp(pi, m, dg)), al.tp(al.tp(pi, m), dg), al.tp(al.flat(al.tp(m, m)), dg),
                al.enriched(al.tp(m, pi), al.tp(m, dg)), al.tfe(al.flat(al.tp(m, m)), (2,)), al.hdiv(al.tp(m, dg0)),
                al.flat(al.enriched(al.hdiv(al.tp(m, dg0)), al.hdiv(al.tp(m, dg)))), al.enriched(al.hdiv(al.tp(m, dg)), al.hdiv(al.tp(m, dg0)))]
    for m in mt:
        out += [al.tp(m, pi), al.tp(m, mi[0]), al.tp(pi, m)]
    for m, n in itertools.product(mi, repeat=2):    # subdivided in different directions: no common complex on offer
        out += [al.enriched(al.tp(m, dg), al.tp(dg, n)), al.mixed(al.flat(al.tp(dg, m)), al.flat(al.tp(n, dg))),
                al.flat(al.enriched(al.hdiv(al.tp(m, dg0)), al.hdiv(al.tp(dg0, n))))]
    # unions of finer and coarser subdivisions, and of different degrees per direction
    out += [al.enriched(a, b) for ms in (mi, mt, mk) for a in ms for b in ms if a != b]
    out += [al.mixed(a, b) for ms in (mi, mt, mk) for a in ms for b in ms if a != b]
    degs = [L("Lagrange", I, k) for k in (1, 2, 3)]
    for a, b, c, d in itertools.product(degs, repeat=4):
        out.append(al.enriched(al.tp(a, b), al.tp(c, d)))
        if tier != "quick":
            out.append(al.mixed(al.flat(al.tp(a, b)), al.flat(al.tp(c, d))))
    for a, b, c in itertools.product(degs, repeat=3):
        out += [al.flat(al.tp(a, b, c)), al.enriched(al.tp(al.tp(a, b), c), al.tp(al.tp(c, a), b)), al.tp(al.flat(al.tp(a, b)), c),
                al.mixed(al.tp(al.flat(al.tp(a, b)), c), al.tp(al.flat(al.tp(c, b)), a)), al.flat(al.tp(al.tp(a, b), c)),
                al.tp(al.tp(a, b), al.tp(c, a))]
    return out


def specs(tier):
    seen, out = set(), []
    for s in al.simplex_leaves(tier) + al.cube_leaves(tier) + al.composites(tier) + macros(tier):
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def tasks(tier):
    out = [["finat", s] for s in specs(tier)]
    out += [["zany", s] for s, _ in zany.catalogue(tier)]
    out += [["wrapzany", s] for s, _ in zany.catalogue(tier) if s[2] == al.TRI or tier != "quick"]
    out += [["dser", k] for k in range(1, 6)]
    out += [["nodalenriched", s] for s in nodal(tier)]
    out += [["runtime", [a, b]] for a in range(4) for b in range(4)]
    out += [["quadrature", [c, k]] for c in (al.INT, al.TRI, al.TET, (al.INT, al.INT), (al.TRI, al.INT), al.QUAD, al.HEX) for k in (0, 1, 2, 3)]
    return out


def nodal(tier):
    L = al.leaf
    I, T, K = al.INT, al.TRI, al.TET
    out = [("nodalenriched", (L("Lagrange", c, k), L("Bubble", c, b))) for c, n in ((I, 1), (T, 2), (K, 3)) for k in (1, 2) for b in (n + 1, n + 2)
           if k <= n and not (c == K and b > 4)]
    out += [("nodalenriched", (L("Lagrange", T, 1), L("FacetBubble", T, 2), L("Bubble", T, 3))), ("nodalenriched", (L("RaviartThomas", T, 1), L("Nedelec", T, 1)))]
    return out[:-1]


def cost(task):
    s = ref.tup(task[1]) if task[0] not in ("dser", "runtime", "quadrature") else None
    return 0 if s is None else ref.cell_dim(ref.cell_of(s)) * 10 + len(str(task[1]))


# ------------------------------------------------------------- the composition rules

def flat(d):
    return [y for x in d for y in flat(x)] if isinstance(d, tuple) else [d]


def treemax(ds):
    if isinstance(ds[0], tuple):
        return tuple(treemax(c) for c in zip(*ds))
    return max(ds)


def degree(m):
    if isinstance(m, ref.Leaf) and "BrezziDouglasMariniCube" in type(m.el).__name__:
        return m.el.degree() + 1    # FIAT's degree is nominal: the functions are curls of degree k + 2
    if isinstance(m, (ref.Leaf, ref.NodalEnriched)):
        return m.el.degree()
    if isinstance(m, ref.Product):
        return tuple(degree(f) for f in m.factors)
    if isinstance(m, ref.Flat):
        return max(flat(degree(m.product)))
    if isinstance(m, ref.Enriched):
        return treemax([degree(p) for p in m.parts])
    return degree(m.base)


def subdivision(cell):
    """Cells of a FIAT complex as a nested value (vertex coordinates of every cell, as numbered)."""
    if cell.get_shape() == FIAT.reference_element.TENSORPRODUCT:
        return tuple(subdivision(c) for c in cell.cells)
    if hasattr(cell, "product"):
        return subdivision(cell.product)
    top = cell.get_topology()
    v = cell.get_vertices()
    d = max(top)
    return tuple(tuple(tuple(round(float(x), 9) for x in v[i]) for i in top[d][e]) for e in sorted(top[d]))


def divides(s, t):
    """s is t, or divides what is undivided in t.

    Subdivisions that refine each other geometrically, but are made differently,
    have no maximal complex in FIAT."""
    if nested(s):
        return all(map(divides, s, t))
    return s == t or len(t) == 1


def nested(s):
    """Subdivisions of products are tuples of subdivisions."""
    return isinstance(s[0][0][0], tuple)


def complex_of(m):
    if isinstance(m, (ref.Leaf, ref.NodalEnriched)):
        return subdivision(m.el.get_reference_complex())
    if isinstance(m, ref.Product):
        return tuple(complex_of(f) for f in m.factors)
    if isinstance(m, ref.Flat):
        return complex_of(m.product)
    if isinstance(m, ref.Enriched):
        parts = [complex_of(p) for p in m.parts]
        if None in parts:
            return None
        return next((s for s in parts if all(divides(s, t) for t in parts)), None)
    return complex_of(m.base)


def pieces(s):
    """Cells of a (product) complex: lists of simplices, one per factor."""
    if not nested(s):
        return [[c] for c in s]
    return [sum(c, []) for c in itertools.product(*[pieces(x) for x in s])]


# ------------------------------------------------------------- polynomials and integrals

def fits(simplices, degs, n):
    """Lattice points in a product of simplices, and the monomials of the given degrees there."""
    pts, cols = [numpy.zeros((1, 0))], [numpy.ones((1, 1))]
    P, V = numpy.zeros((1, 0)), numpy.ones((1, 1))
    for verts, k in zip(simplices, degs):
        verts = numpy.asarray(verts, dtype=float)
        d = verts.shape[1]
        m = max(k, 0) + n
        bary = numpy.array([a for a in itertools.product(range(m + 1), repeat=d + 1) if sum(a) == m], dtype=float) if d else numpy.ones((1, 1))
        bary = (bary + 0.5) / (m + 0.5 * (d + 1))
        x = bary @ verts
        c = verts.mean(0)
        y = 2 * (x - c)
        mono = numpy.array([numpy.prod(y ** numpy.array(a), axis=1) for a in itertools.product(range(k + 1), repeat=d) if sum(a) <= k]).T
        mono = mono.reshape(len(x), -1)
        P = numpy.array([numpy.concatenate([p, q]) for p in P for q in x])
        V = (V[:, None, :, None] * mono[None, :, None, :]).reshape(len(V) * len(mono), -1)
    return P, V


def gauss(simplices, n):
    """Gauss rule on a product of simplices, by collapsing cubes."""
    P, W = numpy.zeros((1, 0)), numpy.ones(1)
    for verts in simplices:
        verts = numpy.asarray(verts, dtype=float)
        d = verts.shape[1]
        g, w = numpy.polynomial.legendre.leggauss(n + d)
        g, w = (g + 1) / 2, w / 2
        x, ww = [], []
        for idx in itertools.product(range(len(g)), repeat=d):
            lam, rest, weight = [], 1.0, 1.0
            for j, i in enumerate(idx):
                lam.append(rest * g[i])
                weight *= w[i] * rest
                rest = rest - lam[-1]
            x.append(lam)
            ww.append(weight)
        J = (verts[1:] - verts[0]).T
        x = verts[0] + numpy.array(x).reshape(-1, d) @ J.T
        ww = numpy.array(ww) * abs(numpy.linalg.det(J)) if d else numpy.ones(1)
        P = numpy.array([numpy.concatenate([p, q]) for p in P for q in x])
        W = (W[:, None] * ww[None, :]).ravel()
    return P, W


def per_factor(d, s):
    """A degree, or tree of degrees, as one number per simplex factor of a complex (None: not of its structure)."""
    if not nested(s):
        return [d] if not isinstance(d, tuple) else None
    if isinstance(d, tuple) and len(d) != len(s):
        return None
    parts = [per_factor(x, y) for x, y in zip(d if isinstance(d, tuple) else (d,) * len(s), s)]
    return None if None in parts else sum(parts, [])


def times(d, k):
    return tuple(times(x, k) for x in d) if isinstance(d, tuple) else d * k


def listed(d):
    return [listed(x) for x in d] if isinstance(d, tuple) else d


def explore(ctx, case, el, tab, want_degree, want_complex, exact=True):
    """Degree, complex, containment and Gram matrix of one element."""
    got = el.degree
    ctx.state(case)
    ctx.step()
    ctx.equal(got, want_degree, case, "degree")
    if want_complex is None:    # parts on subdivisions of which none refines the others
        try:
            got_complex = subdivision(el.complex)
        except Exception:  # noqa: BLE001 - refused
            return
    else:
        got_complex = subdivision(el.complex)
        ctx.equal(got_complex, want_complex, case, "complex")
    ctx.outcome((str(got), len(pieces(got_complex))))
    if not exact:
        return
    gram = 0.0
    degs = per_factor(got, got_complex)
    if degs is None:
        ctx.fail(case, "degree %s does not have the structure of the cell" % (got,))
        return
    for k, piece in enumerate(pieces(got_complex)):
        X, V = fits(piece, degs, 2)
        A = tab(X)
        A = A.reshape(-1, len(X)).T
        Q, _ = numpy.linalg.qr(V)
        res = numpy.abs(A - Q @ (Q.T @ A)).max(0)
        scale = max(1.0, numpy.abs(A).max())
        ctx.state((case, k))
        ctx.step(A.shape[1])
        bad = numpy.flatnonzero(~(res <= 1e-7 * scale))
        ctx.expect(len(bad) == 0, case, lambda: "function %d is not a polynomial of degree %s on cell %d of the complex (distance %.3g)"
                   % (bad[0], got, k, res[bad[0]]))
        G, w = gauss(piece, max(degs) + 1)
        B = tab(G).reshape(-1, len(G))
        gram = gram + (B * w) @ B.T
    rule = make_quadrature(el.complex, listed(times(got, 2)))
    pts, wts = flat_rule(rule)
    B = tab(pts).reshape(-1, len(pts))
    ctx.step(gram.size)
    ctx.close((B * wts) @ B.T, gram, case, "Gram matrix with the rule of degree 2*%s on the complex" % (got,), rtol=1e-8, atol=1e-10)


def flat_rule(rule):
    if hasattr(rule, "factors"):
        parts = [flat_rule(f) for f in rule.factors]
        P, W = numpy.zeros((1, 0)), numpy.ones(1)
        for x, w in parts:
            P = numpy.array([numpy.concatenate([p, q]) for p in P for q in x])
            W = (W[:, None] * w[None, :]).ravel()
        return P, W
    return numpy.asarray(rule.point_set.points, dtype=float), numpy.asarray(rule.weights, dtype=float)


def real(el, mapping=None, bindings=None):
    """Values of the implementation at arbitrary points: (.., points)."""
    def tab(X):
        ps = PointSet(X)
        table, = el.basis_evaluation(0, ps, None, coordinate_mapping=mapping).values()
        beta = el.get_indices() + el.get_value_indices()
        import gem
        expr = gem.Indexed(table, beta)
        r = evaluate_many([expr], beta + ps.indices, bindings)
        return numpy.asarray(r[0], dtype=float).reshape(-1, len(X))
    return tab


def opaque(kind, spec, ctx):
    """Elements without a space of polynomials to compare with: only what they and their composites report."""
    import finat
    if kind == "runtime":
        a, b = spec
        cell = ref.make_cell(al.INT)
        A, B, L = finat.RuntimeTabulated(cell, a, variant="x"), finat.RuntimeTabulated(cell, b, variant="y"), finat.Lagrange(cell, 3)
        I = subdivision(cell)
        P, F = finat.TensorProductElement, finat.FlattenedDimensions
        made = [("A", A, a, I), ("AxB", P([A, B]), (a, b), (I, I)), ("AxP3", P([A, L]), (a, 3), (I, I)), ("P3xA", P([L, A]), (3, a), (I, I)),
                ("(AxB)xA", P([P([A, B]), A]), ((a, b), a), ((I, I), I)), ("flat AxB", F(P([A, B])), max(a, b), (I, I)),
                ("flat AxBxB", F(P([A, B, B])), max(a, b), (I, I, I)), ("vector A", finat.TensorFiniteElement(A, (2,)), a, I),
                ("A+B", finat.EnrichedElement([A, B]), max(a, b), I), ("AxB+BxA", finat.EnrichedElement([P([A, B]), P([B, A])]), (max(a, b),) * 2, (I, I)),
                ("mixed A B", finat.MixedElement([A, B]), max(a, b), I), ("mixed AxB BxB", finat.MixedElement([P([A, B]), P([B, B])]), (max(a, b), b), (I, I)),
                ("discontinuous A", finat.DiscontinuousElement(A), a, I)]
    else:
        name, k = spec
        cell = ref.make_cell(name)
        q = finat.make_quadrature_element(cell, k)
        S = subdivision(cell)
        made = [("Q", q, None, S), ("vector Q", finat.TensorFiniteElement(q, (2,)), None, S), ("mixed Q Q", finat.MixedElement([q, q]), None, S)]
    for what, el, degree_, complex_ in made:
        case = "%s %s %s" % (kind, spec, what)
        ctx.state(case)
        ctx.step(2)
        with ctx.guard(case, "metadata"):
            if degree_ is None:
                try:
                    ctx.fail(case, "degree of a quadrature element: %s" % (el.degree,))
                except NotImplementedError:
                    pass
            else:
                ctx.equal(el.degree, degree_, case, "degree")
            ctx.equal(subdivision(el.complex), complex_, case, "complex")
    ctx.sample(case)


def run(task, ctx):
    kind = task[0]
    spec = ref.tup(task[1])
    if kind in ("runtime", "quadrature"):
        return opaque(kind, spec, ctx)
    if kind in ("finat", "nodalenriched"):
        case = ref.show(spec)
        with ctx.guard(case, "metadata"):
            m = ref.model(spec)
            el = build.element(spec)
            trace = "HDivTrace" in str(spec)
            explore(ctx, case, el, real(el), degree(m), complex_of(m), exact=not trace)
    elif kind in ("zany", "wrapzany"):
        import finat
        case = ref.show(spec)
        name = spec[2]
        geo = geometry.Symbolic(name)
        import gem
        idx = gem.Index(extent=1)
        verts = geometry.cells(name, "quick")[0] if name == al.INT else geometry.SKEW2[0] if name == al.TRI else geometry.SKEW3[0]
        q = geometry.quantities(name, verts, (1.0,) * (ref.cell_dim(name) + 1))
        base = build.element(spec)
        d = base.degree
        made = {"": lambda: base}
        if kind == "wrapzany":
            p = lambda: finat.DiscontinuousLagrange(base.cell, 0)
            made = {"vector of ": lambda: finat.TensorFiniteElement(base, (2,)), "transposed vector of ": lambda: finat.TensorFiniteElement(base, (2,), transpose=True),
                    "mixed after ": lambda: finat.MixedElement([p(), base]), "mixed before ": lambda: finat.MixedElement([base, p()]),
                    "sum with ": lambda: finat.EnrichedElement([base, base]), "discontinuous ": lambda: finat.DiscontinuousElement(base)}
        for what, f in made.items():
            with ctx.guard(what + case, "metadata"):
                el = f()
                explore(ctx, what + case, el, real(el, geo, q), base._element.degree(), subdivision(base._element.get_reference_complex()))
    else:
        el = build.element(("dser", spec))
        ctx.state(spec)
        ctx.step()
        ctx.equal(el.degree, spec, "direct serendipity %d" % spec, "degree")
        ctx.equal(subdivision(el.complex), subdivision(ref.make_cell("quadrilateral")), "direct serendipity %d" % spec, "complex")
        case = "direct serendipity"
    ctx.sample(case)
