"""C10: a restricted element is the sub-basis attached to the chosen entities.

State: (element, chain of restriction domains).  Transition: one retained basis
function.  Restrictions to every domain name are applied, and restrictions of
the results up to depth two.  Oracle: the degrees of
freedom of the unrestricted reference model selected by the dimension of the
entity they are attached to; entity by entity and in order, values and
derivatives of the retained functions must be those of the original.
"""
import numpy

from mc import alphabet, build, points, ref
from mc.checks.c03 import leaves_of
from mc.gemeval import evaluate

CHUNK = 8
ASSUMPTIONS = ["leaves FIAT cannot restrict are out of scope (the refusal is checked)",
               "across entities the order of a restricted product may differ from the original's"]
DOMAINS = ("interior", "facet", "face", "edge", "vertex")


def bound(tier):
    return "all leaves and composites(%r), unsupported classes; all domains; chains of 2 restrictions" % tier


def tasks(tier):
    specs = alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) + alphabet.composites(tier)
    L = alphabet.leaf
    I, T = "interval", "triangle"
    cg = [L("Lagrange", I, k) for k in range(1, 5)]
    specs += [alphabet.flat(alphabet.tp(a, b)) for a in cg for b in cg]
    specs += [alphabet.tp(L("Lagrange", T, k), b) for k in (3, 4) for b in cg[1:3]]
    specs += [alphabet.flat(alphabet.tp(a, b, c)) for a in cg[1:3] for b in cg[1:3] for c in cg[1:4]]
    specs += [("nodalenriched", (L("Lagrange", T, 2), L("Bubble", T, 3)))]
    specs = list(dict.fromkeys(specs))
    from mc.zany import catalogue
    out = [["ok", list(s)] for s in specs]
    out += [["refuse", list(s)] for s in [c[0] for c in catalogue("quick") if c[0][1] != "ArnoldQin"] + [("dser", 1), ("dser", 2)]
            + [("quad", c, 2, "default") for c in ("interval", "triangle", "quadrilateral")]]
    return out


def cost(task):
    s = ref.tup(task[1])
    return ref.cell_dim(ref.cell_of(s)), len(str(s))


def selected(name, ent, domain):
    d = ref.entity_dim(name, ent)
    n = ref.cell_dim(name)
    if domain == "interior":
        return d == n
    return d <= {"facet": n - 1, "face": 2, "edge": 1, "vertex": 0}[domain]


def domain_dim(domain, n):
    return {"interior": n, "facet": n - 1, "face": 2, "edge": 1, "vertex": 0}[domain]


def fiat_can(spec):
    """Leaves FIAT can restrict (independently of the domain)."""
    import FIAT
    m = ref.model(spec)
    try:
        FIAT.RestrictedElement(m.el, indices=list(range(m.ndofs)))
        return True
    except Exception:
        return False


def fiat_chain(leaf):
    """How many restrictions in a row FIAT supports: the dual set of a twice
    restricted element recurses without end in FIAT itself."""
    from FIAT.restricted import RestrictedDualSet
    return 1 if isinstance(ref.model(leaf).el.dual, RestrictedDualSet) else 2


def all_leaves(spec):
    if spec[0] == "nodalenriched":
        return list(spec[1])
    return leaves_of(spec)


def run(task, ctx):
    kind, spec = task[0], ref.tup(task[1])
    case0 = ref.show(spec)
    import finat
    if kind == "refuse":
        with ctx.guard(case0, "construction"):
            el = build.element(spec)
            for dom in DOMAINS:
                ctx.state((spec, dom))
                ctx.step()
                refused(ctx, "%s to %s" % (case0, dom), el, dom)
        return
    m = ref.model(spec)
    with ctx.guard(case0, "construction"):
        el = build.element(spec)
    supported = all(fiat_can(l) or l[1] in ("DiscontinuousLagrange", "Legendre", "Real") for l in all_leaves(spec))
    if not supported:
        ctx.skip("leaf that FIAT cannot restrict")
        for dom in DOMAINS:
            ctx.state((spec, dom))
            ctx.step()
            try:
                r = finat.RestrictedElement(el, dom)
            except Exception:
                ctx.compared += 1
                continue
            # (may be legitimate where only some parts cannot be restricted)
            ctx.expect(isinstance(r, finat.finiteelementbase.FiniteElementBase), "%s to %s" % (case0, dom),
                       lambda: "not an element: %r" % (r,))
        return
    top = ref.top_entity(m.name)
    trace = leaves_of(spec)[0][1] == "HDivTrace" if spec[0] != "nodalenriched" else False
    ent = next(e for e, o, a in ref.entities(m.name) if a.shape[0] == m.dim - 1) if trace else top
    kindname = ref.entity_kind(m.name, ent[0])
    ps = points.plain(kindname, 3)
    order = 0 if trace else 1
    table = m.tab(order, ref.map_points(m.name, ent, points.flat_points(ps)))
    table = {a: t.reshape((m.ndofs,) + m.value_shape + (t.shape[-1],)) for a, t in table.items()}
    orig = m.entity_dofs()
    depth = min(fiat_chain(l) for l in all_leaves(spec))
    if depth < 2:
        ctx.skip("chains of restrictions of elements FIAT cannot restrict twice")
    work = [((), el, orig)]
    while work:
        chain, e, dofs = work.pop()
        for dom in DOMAINS:
            c2 = chain + (dom,)
            case = "%s to %s" % (case0, " to ".join(c2))
            ctx.state((spec, c2))
            if dom != "interior" and domain_dim(dom, m.dim) > m.dim:
                ctx.step()
                refused(ctx, case, e, dom)
                continue
            want = {x: (d if selected(m.name, x, dom) else []) for x, d in dofs.items()}
            n = sum(map(len, want.values()))
            if n == 0:
                ctx.step()
                refused(ctx, case, e, dom, ValueError)
                continue
            ok = False
            with ctx.guard(case, "RestrictedElement"):
                r = finat.RestrictedElement(e, dom)
                ok = compare(ctx, case, r, m, want, n, table, ps, ent, order, spec)
            if ok and len(c2) < depth:
                work.append((c2, r, want))
    ctx.sample(case0)


def refused(ctx, case, el, dom, exc=Exception):
    import finat
    ctx.compared += 1
    try:
        r = finat.RestrictedElement(el, dom)
    except exc:
        return
    except Exception as e:
        ctx.fail(case, "refused with %s instead of %s" % (type(e).__name__, exc.__name__))
        return
    ctx.fail(case, "returned %s instead of raising" % type(r).__name__)


def compare(ctx, case, r, m, want, n, table, ps, ent, order, spec):
    ctx.step(n)
    if not ctx.equal(int(r.space_dimension()), n, case, "dimension"):
        return False
    ctx.equal(int(numpy.prod(r.index_shape, dtype=int)), n, case, "index shape")
    ctx.equal(tuple(r.value_shape), m.value_shape, case, "value shape")
    ctx.expect(r.cell.get_topology() == ref.make_cell(m.name).get_topology(), case, "cell")
    if m.mapping is not None:
        # (a union of which parts vanish may gain a mapping)
        ctx.equal(r.mapping, m.mapping, case, "mapping")
    ed = r.entity_dofs()
    got = {(d, e): [int(i) for i in v] for d in ed for e, v in ed[d].items()}
    if not ctx.equal(sorted(got, key=repr), sorted(want, key=repr), case, "entities"):
        return False
    if not ctx.equal(sorted(i for v in got.values() for i in v), list(range(n)), case, "numbering"):
        return False
    for x in want:
        if not ctx.equal(len(got[x]), len(want[x]), case, "dofs on %s" % (x,)):
            return False
    res = r.basis_evaluation(order, ps, entity=ent)
    for a, t in table.items():
        if numpy.isnan(t).any():
            continue
        g = evaluate(res[a], ps.indices)
        g = numpy.moveaxis(g.reshape((len(ps.points),) + (n,) + m.value_shape), 0, -1)
        for x in want:
            if want[x]:
                ctx.close(g[sorted(got[x])], t[sorted(want[x])], case, "basis functions of %s, derivative %s" % (x, a))
        ctx.outcome(numpy.round(g, 6).tobytes())
    if spec[0] in ("leaf", "nodalenriched") and n:
        # one numbering throughout: the original order is kept
        flat = sorted(i for v in want.values() for i in v)
        order_ = [None] * n
        for x in want:
            for i, j in zip(sorted(got[x]), sorted(want[x])):
                order_[i] = j
        ctx.equal(order_, flat, case, "order of the retained basis functions")
    duals(ctx, case, r, m, want, got, spec, n)
    return True


def duals(ctx, case, r, m, want, got, spec, n):
    """Where a dual basis is offered, it is the original functionals of the
    retained degrees of freedom."""
    from mc.checks import c07
    try:
        pts, W = c07.dual(spec)
    except c07.NoDual:
        return
    try:
        Q, x = r.dual_basis
    except NotImplementedError:
        return
    C = evaluate(Q, x.indices)
    X = numpy.asarray(x.points, dtype=float)
    C = C.reshape((len(X), n) + m.value_shape)
    W = W.reshape((m.ndofs, len(pts)) + m.value_shape)
    mons = c07.monomials(m.dim, min(3, m.polydegree))
    V = lambda y: numpy.array([numpy.prod(y ** numpy.array(a), axis=1) for a in mons])
    A = numpy.tensordot(V(X), C, axes=(1, 0))                       # [mon, n, val]
    B = numpy.tensordot(V(pts), numpy.moveaxis(W, 1, 0), axes=(1, 0))
    for x_ in want:
        if want[x_]:
            ctx.close(A[:, sorted(got[x_])], B[:, sorted(want[x_])], case, "functionals of %s" % (x_,))
