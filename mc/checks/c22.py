"""C22: the FIAT element an element offers as its equivalent is the same element.

State: (element tree, entity, derivative order).  Transition: one query put
to both - the FInAT element, whose tables are gem expressions evaluated at a
point set, and the FIAT element it offers, which tabulates numpy arrays at the
same points.  Wherever the FIAT library itself can compose the parts (decided
by composing an independent FIAT element from the specification) the FInAT
element has to offer a twin.
"""
import itertools

import FIAT
import finat
import numpy

from mc import alphabet, build, points, ref
from mc.gemeval import evaluate

CHUNK = 8
ASSUMPTIONS = ["FIAT's tabulation at points of an entity is correct where it does not raise",
               "an element that offers no twin where FIAT cannot build one refuses legitimately"]
L = alphabet.leaf
I, T, S, Q, H = "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"


def bound(tier):
    return ("all leaves and composites(%r), unions of mixed elements, restrictions, quadrature elements; all entities; "
            "derivative orders 0..1 (0..2 on the interior)" % tier)


def extra(tier):
    full = tier == "thorough"
    P1, P2, D0, D1, B3 = (L("Lagrange", T, 1), L("Lagrange", T, 2), L("DiscontinuousLagrange", T, 0),
                          L("DiscontinuousLagrange", T, 1), L("Bubble", T, 3))
    RT = L("RaviartThomas", T, 1)
    i1, i2, d0 = L("Lagrange", I, 1), L("Lagrange", I, 2), L("DiscontinuousLagrange", I, 0)
    mixed, enr, tp, flat, disc = (alphabet.mixed, alphabet.enriched, alphabet.tp, alphabet.flat, alphabet.disc)
    out = []
    ms = [mixed(P1, P2), mixed(P2, D0), mixed(RT), mixed(D0, RT), mixed(P1), mixed(B3)]
    for a in ms:
        for b in ms:
            if ref.model(a).value_shape == ref.model(b).value_shape:
                out.append(enr(a, b))
    out += [mixed(mixed(P1, P2), RT), mixed(enr(P1, B3), P2), enr(mixed(P1, P1), RT), mixed(enr(mixed(P1, P1), RT), P1),
            mixed(disc(RT), P1), disc(mixed(P1, RT)), disc(mixed(P1, P2)), enr(disc(P1), B3), enr(P1, B3, D0)]
    out += [("nodalenriched", (P1, B3)), ("nodalenriched", (P2, B3)), ("nodalenriched", (B3, P2)),
            ("nodalenriched", (L("Lagrange", I, 1), L("Bubble", I, 2)))]
    for a in (P1, L("Lagrange", T, 3), D1, RT, L("Nedelec", T, 2), L("Lagrange", S, 2), L("RaviartThomas", S, 1)):
        for b in (i1, d0, L("GaussLobattoLegendre", I, 3), L("Bubble", I, 2)):
            out += [tp(a, b), tp(b, a), disc(tp(a, b)), tp(disc(a), b)]
            if full:
                out += [tp(a, disc(b)), mixed(tp(a, b), tp(a, b)), enr(tp(a, b), tp(a, d0))]
    quads = [flat(tp(i1, i2)), flat(tp(i2, d0)), flat(alphabet.hdiv(tp(i1, d0))), flat(alphabet.hcurl(tp(d0, i1))),
             flat(enr(alphabet.hdiv(tp(i1, d0)), alphabet.hdiv(tp(d0, i1)))), L("Serendipity", Q, 2), L("DPC", Q, 1)]
    for q in quads:
        out += [q, disc(q), mixed(q, q), mixed(flat(tp(i1, i1)), q), enr(q, disc(q))]
        out += [tp(q, i1), flat(tp(q, d0))]
    cuboid = [tp(flat(tp(i1, i1)), d0), tp(flat(tp(d0, i1)), i2)]
    out += [flat(p) for p in cuboid]
    out += [flat(alphabet.hdiv(tp(flat(tp(d0, d0)), i1))), flat(alphabet.hcurl(tp(flat(tp(i1, i1)), d0)))]
    for w in (flat(alphabet.hdiv(tp(d0, i1))), flat(alphabet.hcurl(tp(i1, d0)))):
        for b in (i1, d0):
            out += [tp(w, b)]
    facets = [L("Lagrange", T, 3), L("Lagrange", S, 4), L("Lagrange", I, 3), RT, L("Nedelec", T, 2), tp(L("Lagrange", T, 3), i2),
              flat(tp(i2, L("Lagrange", I, 3))), mixed(P2, RT), disc(P2), enr(P1, B3), mixed(P2, RT, P2), mixed(RT, P2, L("Nedelec", T, 1)), mixed(P2, L("Bubble", T, 4)),
              alphabet.hdiv(tp(i2, L("DiscontinuousLagrange", I, 1)))]
    out += [("restricted", e, d) for e in facets for d in ("interior", "facet", "edge", "vertex", "face")]
    for c, ks in ((I, (0, 1, 3)), (T, (0, 1, 2, 3)), (S, (1, 2)), (Q, (1, 2, 3)), (H, (1, 2)), ((T, I), (1, 2)), ((I, I), (2, 3)),
                  ((I, I, I), (1,))):
        out += [("quad", c, k, "default") for k in ks]
    # anisotropic rules: every combination of degrees per direction
    ds = (1, 3, 5) if tier == "quick" else (0, 1, 2, 3, 5, 7)
    for c in ((I, I), Q, (T, I), (I, T), (I, I, I), H):
        n = 3 if c in ((I, I, I), H) else 2
        out += [("quad", c, k, "default") for k in itertools.product(ds, repeat=n)]
    out += [("quad", T, k, "KMV") for k in (1, 2, 3)]
    return out


def tasks(tier):
    specs = alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) + alphabet.composites(tier) + extra(tier)
    # (FIAT mixes up the components of vector-valued products in four dimensions)
    return [list(s) for s in dict.fromkeys(specs) if ref.cell_dim(cell_of(s)) <= 3]


def cost(task):
    s = ref.tup(task)
    return ref.cell_dim(cell_of(s)), len(str(s))


def cell_of(s):
    return s[1] if s[0] == "quad" else cell_of(s[1]) if s[0] == "restricted" else ref.cell_of(s[1][0]) if s[0] == "nodalenriched" else ref.cell_of(s)


def composed(spec):
    """The FIAT element of a specification, composed with FIAT alone."""
    op = spec[0]
    if op == "leaf":
        return ref.model(spec).el
    if op == "tp":
        a, b = spec[1]
        return FIAT.TensorProductElement(composed(a), composed(b))
    if op == "flat":
        return FIAT.tensor_product.FlattenedDimensions(composed(spec[1]))
    if op == "enriched":
        return FIAT.EnrichedElement(*[composed(s) for s in spec[1]])
    if op == "mixed":
        return FIAT.MixedElement([composed(s) for s in spec[1]], ref_el=ref.make_cell(ref.cell_of(spec)))
    if op == "nodalenriched":
        return FIAT.NodalEnrichedElement(*[composed(s) for s in spec[1]])
    if op in ("hdiv", "hcurl"):
        return {"hdiv": FIAT.Hdiv, "hcurl": FIAT.Hcurl}[op](composed(spec[1]))
    if op == "disc":
        return FIAT.DiscontinuousElement(composed(spec[1]))
    raise NotImplementedError(op)


def sole(spec):
    """A mixed element of one part occurs (it is its MixedSubElement, which offers no twin)."""
    return isinstance(spec, tuple) and (spec[:1] == ("mixed",) and len(spec[1]) == 1 or any(map(sole, spec)))


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def normal(dofs):
    return {d: {e: sorted(map(int, v)) for e, v in es.items()} for d, es in dofs.items()}


def run(task, ctx):
    spec = ref.tup(task)
    case0 = show(spec)
    el, err = attempt(lambda: build.element(spec))
    if spec[0] == "restricted" and (err is not None or isinstance(el, (str, type(None))) or not isinstance(el, finat.finiteelementbase.FiniteElementBase)):
        ctx.skip("refused restriction")
        return
    if err is not None:
        with ctx.guard(case0, "construction"):
            raise err
    ctx.state(spec)
    ctx.step()
    twin, refusal = attempt(lambda: el.fiat_equivalent)
    own, _ = attempt(lambda: composed(spec))
    if twin is None:
        ctx.expect(own is None or sole(spec), case0, "no twin offered although FIAT composes one: %r" % (refusal,))
        ctx.skip("no twin")
        return
    n = int(el.space_dimension())
    name = cell_of(spec)
    with ctx.guard(case0, "twin"):
        ctx.equal(int(twin.space_dimension()), n, case0, "dimension of the twin")
        ctx.equal(normal(twin.entity_dofs()), normal(el.entity_dofs()), case0, "attachment of degrees of freedom of the twin")
        ctx.equal(twin.get_reference_element(), el.cell, case0, "cell of the twin")
        ctx.equal(tuple(twin.value_shape()), tuple(el.value_shape), case0, "value shape of the twin")
        ctx.expect(el.fiat_equivalent.space_dimension() == n, case0, "second query")
        if spec[0] == "quad":
            quadrature(ctx, case0, spec, el, twin)
            return
        maps = set(twin.mapping())
        if el.mapping is not None and None not in maps:
            ctx.equal(maps, {el.mapping}, case0, "mapping of the twin")
    ctx.sample({"element": case0, "twin": type(twin).__name__})
    ref_own = own
    top = ref.top_entity(name)
    dim = ref.cell_dim(name)
    full = ctx.tier == "thorough"
    for ent, _, _ in ref.entities(name):
        kind = ref.entity_kind(name, ent[0])
        interior = ent == top
        sets = [p for p in points.point_sets(kind) if p[0] in (("plain", "tensor") if full or interior else ("plain",))]
        for label, ps in sets:
            for e in ([ent, None] if interior and label == "plain" else [ent]):
                order = (2 if full or dim < 3 else 1) if interior else 1
                case = "%s entity=%s order=%d ps=%s" % (case0, e, order, label)
                ctx.state((spec, e, order, label))
                pts = [tuple(p) for p in points.flat_points(ps)]
                want, err = attempt(lambda: twin.tabulate(order, pts, e))
                if err is not None or any(isinstance(v, Exception) for v in want.values()):
                    # FIAT cannot tabulate this; then the twin composed by FIAT must fail as well
                    if ref_own is not None:
                        mine, err2 = attempt(lambda: ref_own.tabulate(order, pts, e))
                        ctx.expect(err2 is not None or any(isinstance(v, Exception) for v in mine.values()), case,
                                   "the twin does not tabulate (%r), the FIAT element of the same parts does" % (err,))
                    ctx.skip("FIAT does not tabulate the twin here")
                    continue
                with ctx.guard(case, "tabulation"):
                    got = el.basis_evaluation(order, ps, entity=e)
                    ctx.equal(set(map(tuple, got)), set(map(tuple, want)), case, "derivatives")
                    for alpha in sorted(want):
                        ctx.step()
                        g = evaluate(got[alpha], ps.indices)
                        g = g.reshape((len(pts), n) + tuple(el.value_shape))
                        w = numpy.moveaxis(numpy.asarray(want[alpha]).reshape((n,) + tuple(el.value_shape) + (len(pts),)), -1, 0)
                        undefined = numpy.isnan(w)   # (traces have no derivatives)
                        if ctx.expect(g.shape == w.shape and bool((numpy.isnan(g) == undefined).all()), case, "undefined values"):
                            ctx.close(numpy.where(undefined, 0, g), numpy.where(undefined, 0, w), case,
                                      "table %s" % (alpha,), rtol=1e-9, atol=1e-9)
                        ctx.outcome((g.shape, numpy.round(g, 6).tobytes()))


def quadrature(ctx, case, spec, el, twin):
    """The twin of a quadrature element: deltas at the same points, same weights."""
    rule = FIATrule(spec)
    if rule is None:
        return
    pts, wts = rule
    ctx.state((spec, "rule"))
    ctx.close(numpy.asarray(twin._points), pts, case, "points of the twin")
    ctx.close(numpy.asarray(twin._weights, dtype=float).ravel(), wts, case, "weights of the twin")
    nodes = [list(L.get_point_dict().items()) for L in twin.dual_basis()]
    ctx.equal([len(x) for x in nodes], [1] * len(pts), case, "one point per degree of freedom of the twin")
    ctx.close([x[0][0] for x in nodes], pts, case, "degrees of freedom of the twin")
    ctx.close([x[0][1][0][0] for x in nodes], numpy.ones(len(pts)), case, "degrees of freedom of the twin")
    ps = el._rule.point_set
    for e in (None, (el.cell.get_dimension(), 0)):
        (alpha, g), = el.basis_evaluation(0, ps, entity=e).items()
        (beta, w), = twin.tabulate(0, [tuple(p) for p in ps.points], e).items()
        ctx.equal(alpha, beta, case, "derivative")
        ctx.close(evaluate(g, ps.indices).reshape(len(pts), len(pts)), w.T, case, "table")


def FIATrule(spec):
    from mc.checks.c20 import published
    p, w, _ = published(spec[1:])
    return p, w


def show(s):
    if s[0] == "quad":
        return "quadrature %s degree %s" % (s[1], s[2])
    if s[0] == "restricted":
        return "%s to %s" % (show(s[1]), s[2])
    if s[0] == "nodalenriched":
        return "nodal enriched of %s" % ", ".join(map(show, s[1]))
    return ref.show(s)
