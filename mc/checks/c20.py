"""C20: quadrature elements are deltas at their own points and refuse all else.

State: a quadrature rule (cell, degree or per-direction degrees, scheme, or an
explicit rule) and the element built from it, bare or below the combinators
that accept it.  Transition: one query - tabulation at one candidate point
set, on one entity, to one derivative order; dual evaluation of one function;
publication of points, weights and attachment.  The oracle is the list of
points and weights FIAT publishes for the factors of the cell.
"""
import itertools

import FIAT
import finat
import gem
import numpy
from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton, TensorPointSet, UnknownPointSet
from finat.quadrature import AbstractQuadratureRule, QuadratureRule, TensorProductQuadratureRule, make_quadrature
from finat.quadrature_element import QuadratureElement, make_quadrature_element

from mc import ref
from mc.gemeval import evaluate

CHUNK = 4
ASSUMPTIONS = ["point sets agreeing to 1e-11 count as the same; a set of the same points with another structure may be refused or accepted",
               "refusal is any exception"]
SAME = 1e-11

I, T, S, Q, H = "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"


def splits(name):
    out = {I: ["AlfeldSplit", "IsoSplit"], T: ["AlfeldSplit", "IsoSplit", "PowellSabinSplit"], S: ["AlfeldSplit"]}
    return out.get(name, [])


def parent(name):
    """The cell the element lives on (the rule may live on its split)."""
    if isinstance(name, tuple):
        return FIAT.reference_element.TensorProductCell(*[parent(n) for n in name])
    return ref.make_cell(name.split(":")[-1])


def is_split(name):
    return any(map(is_split, name)) if isinstance(name, tuple) else ":" in name


def make_cell(name):
    if isinstance(name, str) and ":" in name:
        split, base = name.split(":")
        return getattr(FIAT.macro, split)(ref.make_cell(base))
    if isinstance(name, tuple):
        return FIAT.reference_element.TensorProductCell(*[make_cell(n) for n in name])
    return ref.make_cell(name)


def rules(tier):
    """[(cell name, degree, scheme)]"""
    out = []
    top = {I: 9, T: 8, S: 6, Q: 5, H: 3} if tier == "quick" else {I: 20, T: 20, S: 10, Q: 8, H: 4}
    for c, d in top.items():
        out += [(c, k, s) for k in range(d + 1) for s in (("default", "canonical") if k <= 6 else ("default",))]
    out += [(T, k, "KMV") for k in range(1, 6)] + [(S, k, "KMV") for k in range(1, 4)]
    prods = [(I, I), (T, I), (I, T), (I, I, I), (Q, I), ((I, I), I)]
    degs = (0, 1, 2, 3, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5, 7)
    for p in prods:
        out += [(p, k, "default") for k in degs[:4]]
        n = len(p)
        for ds in itertools.product(degs[:3] if tier == "quick" or n > 2 else degs, repeat=n):
            if len(set(ds)) > 1:
                out.append((p, ds, "default"))
    out += [(Q, (1, 2), "default"), (Q, (3, 0), "default"), (H, (0, 1, 2), "default"), (H, (3, 1, 1), "default")]
    for b in (I, T, S):
        out += [("%s:%s" % (s, b), k, "default") for s in splits(b) for k in range(4)]
    out += [(("AlfeldSplit:interval", I), 2, "default"), ((I, "IsoSplit:interval"), 1, "default")]
    return list(dict.fromkeys(out))


def bound(tier):
    return "%d rules; every pair of rules on cells of one dimension; every permutation (<= 4 points) or transposition, every single coordinate moved; all entities; orders 0..2" % len(rules(tier))


def tasks(tier):
    n = len(rules(tier))
    return [["rule", k] for k in range(n)] + [["explicit"], ["unknown"], ["construct"], ["combine"]]


def cost(task):
    return task[0] in ("combine", "explicit")


def show(r):
    return "%s degree %s %s" % (r[0] if isinstance(r[0], str) else "x".join(map(str, r[0])), r[1], r[2])


def factors(name, degree):
    """Leaves of the product with their degrees."""
    if isinstance(name, tuple) or name in (Q, H):
        parts = name if isinstance(name, tuple) else (I,) * ref.cell_dim(name)
        ds = degree if isinstance(degree, tuple) else (degree,) * len(parts)
        return [f for p, d in zip(parts, ds) for f in factors(p, d)]
    return [(name, degree)]


def published(rule):
    """Points and weights of the rule, from FIAT's rules on the factors; shape of the tensor of points."""
    name, degree, scheme = rule
    pts, wts, shape = numpy.zeros((1, 0)), numpy.ones(1), []
    for f, d in factors(name, degree):
        q = FIAT.quadrature_schemes.create_quadrature(make_cell(f), d, scheme)
        p, w = numpy.asarray(q.get_points()), numpy.asarray(q.get_weights())
        pts = numpy.array([numpy.concatenate([a, b]) for a in pts for b in p])
        wts = numpy.array([a * b for a in wts for b in w])
        shape.append(len(p))
    return pts, wts, tuple(shape)


def dim(cell):
    return cell.get_spatial_dimension()


def flat(a):
    return [a] if isinstance(a, int) else [x for b in a for x in flat(b)]


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def accept(ctx, case, el, ps, entity=None, value_shape=(), copies=None):
    """Tabulation at the element's own points is the identity."""
    ctx.step()
    with ctx.guard(case, "tabulation at its own points"):
        res = el.basis_evaluation(0, ps, entity=entity)
        ctx.equal(list(res), [(0,) * dim(el.cell)], case, "derivatives returned")
        n = len(ps.points)
        v = evaluate(res[(0,) * dim(el.cell)], ps.indices)
        ctx.equal(tuple(v.shape), tuple(i.extent for i in ps.indices) + el.index_shape + el.value_shape, case, "shape")
        ctx.equal(v.reshape(n, -1).tolist(), numpy.eye(n).tolist(), case, "table is not the identity")


def shape_of(ps):
    return tuple(i.extent for i in ps.indices)


def candidates(ctx, pts, ps, factor_sets):
    """[(name, point set)] of other point sets: permuted, truncated, extended, moved."""
    n, d = pts.shape
    out = []
    if n <= 4:
        perms = [p for p in itertools.permutations(range(n)) if list(p) != list(range(n))]
    else:
        perms = []
        for a, b in itertools.combinations(range(n), 2):
            if ctx.tier == "quick" and n > 12 and b != a + 1 and a:
                continue
            p = list(range(n))
            p[a], p[b] = p[b], p[a]
            perms.append(p)
        perms += [list(range(n))[::-1], list(range(1, n)) + [0]]

    def like(x):
        return type(ps)(x) if isinstance(ps, PointSet) else PointSet(x)
    for p in perms:
        out.append(("permuted %s" % (tuple(p),) if n <= 4 else "permuted", like(pts[list(p)])))
    if n > 1:
        out += [("without the first", like(pts[1:])), ("without the last", like(pts[:-1])), ("every other", like(pts[::2]))]
    out += [("one twice", like(numpy.concatenate([pts, pts[:1]]))), ("all twice", like(numpy.concatenate([pts, pts])))]
    for k in range(n):
        for j in range(d):
            for eps in (1e-7, -1e-3, 0.25):
                x = pts.copy()
                x[k, j] += eps
                out.append(("point %d moved" % k, like(x)))
    out.append(("all moved", like(pts + 0.125)))
    out.append(("mirrored", like(1 - pts)))
    out.append(("one point", PointSingleton(pts[0])))
    out.append(("flat", PointSet(pts.copy())))
    out.append(("coordinates missing", PointSet(pts[:, 1:])))
    if d > 1:
        out.append(("coordinates swapped", like(pts[:, ::-1].copy())))
    if d == 1:
        out += [("as Gauss-Legendre", GaussLegendrePointSet(pts)), ("as Gauss-Lobatto", GaussLobattoLegendrePointSet(pts))]
    if factor_sets:
        k = len(factor_sets)
        for p in itertools.permutations(range(k)):
            if list(p) != list(range(k)):
                out.append(("factors permuted %s" % (p,), TensorPointSet([fresh(factor_sets[q]) for q in p])))
        out.append(("factor missing", TensorPointSet(factor_sets[:-1])))
        out.append(("factor added", TensorPointSet(list(factor_sets) + [PointSet(numpy.array([[0.5]]))])))
        out.append(("factors flattened", TensorPointSet([PointSet(f.points) for f in factor_sets])))
        for j, f in enumerate(factor_sets):
            if isinstance(f, TensorPointSet):
                continue
            for a in range(len(f.points)):
                for b in range(f.dimension):
                    x = numpy.array(f.points)
                    x[a, b] += 1e-6
                    fs = [fresh(g) for g in factor_sets]
                    fs[j] = type(f)(x)
                    out.append(("factor %d moved" % j, TensorPointSet(fs)))
            if len(f.points) > 1:
                fs = [fresh(g) for g in factor_sets]
                fs[j] = type(f)(f.points[::-1].copy())
                out.append(("factor %d reversed" % j, TensorPointSet(fs)))
    return out


def fresh(ps):
    if isinstance(ps, TensorPointSet):
        return TensorPointSet([fresh(f) for f in ps.factors])
    return type(ps)(ps.points.copy())


def judge(ctx, case, el, pts, ps):
    """A candidate set is accepted only if it consists of the element's points in order."""
    ctx.step()
    try:
        res = el.basis_evaluation(0, ps)
    except Exception:
        ctx.compared += 1
        return
    x = ps.points
    if not ctx.expect(not isinstance(x, finat.point_set.UnknownPointsArray) and x.shape == pts.shape and abs(x - pts).max() <= SAME, case,
                      "tabulated at points that are not its own"):
        return
    n = len(pts)
    with ctx.guard(case, "equal points"):
        v = evaluate(res[(0,) * dim(el.cell)], ps.indices)
        ctx.equal(v.reshape(n, -1).tolist(), numpy.eye(n).tolist(), case, "table is not the identity")


def functions(pts):
    """(name, fn(point set) -> gem expression, values)"""
    d = pts.shape[1]
    out = []
    for a in itertools.product(range(3), repeat=d):
        if sum(a) > 2:
            continue

        def fn(ps, a=a):
            e = gem.Literal(1.5)
            for j, k in enumerate(a):
                for _ in range(k):
                    e = gem.Product(e, gem.Indexed(ps.expression, (j,)))
            return e
        out.append(("monomial %s" % (a,), fn, 1.5 * numpy.prod(pts ** numpy.array(a), axis=1)))
    return out


def queries(ctx, case, el, pts, wts, shape, own):
    cell = el.cell
    n = len(pts)
    # -- published data
    ctx.step()
    with ctx.guard(case, "published data"):
        ctx.equal(el.space_dimension(), n, case, "dimension")
        ctx.equal(tuple(el.index_shape), shape, case, "index shape")
        ctx.equal(tuple(el.value_shape), (), case, "value shape")
        ctx.equal(el.formdegree, None, case, "form degree")
        ctx.equal(el.mapping, "affine", case, "mapping")
        top = cell.get_topology()
        want = {a: {e: [] for e in top[a]} for a in top}
        want[cell.get_dimension()] = {0: list(range(n))}
        ctx.equal(el.entity_dofs(), want, case, "entity dofs")
        closure = el.entity_closure_dofs()
        ctx.equal({a: {e: sorted(v) for e, v in closure[a].items()} for a in closure}, want, case, "closure dofs")
        ctx.expect(refused(lambda: el.degree), case, "has a polynomial degree")
        twin = el.fiat_equivalent
        ctx.close(numpy.asarray(twin._points), pts, case, "points of the twin", rtol=0, atol=1e-13)
        ctx.close(numpy.asarray(twin._weights), wts, case, "weights of the twin", rtol=1e-12, atol=1e-14)
        ctx.equal(twin.space_dimension(), n, case, "dimension of the twin")
        ctx.equal(twin.entity_dofs(), want, case, "entity dofs of the twin")
        ctx.close(twin.tabulate(0, pts)[(0,) * dim(cell)], numpy.eye(n), case, "table of the twin")
        nodes = twin.dual_basis()
        for k in range(n):
            (p, w), = nodes[k].get_point_dict().items()
            ctx.close(numpy.array(p), pts[k], case, "node %d of the twin" % k, rtol=0, atol=1e-13)
            ctx.equal([(float(a), b) for a, b in w], [(1.0, ())], case, "node %d of the twin" % k)
    # -- its own points, under every name for the cell itself
    accept(ctx, case, el, own)
    accept(ctx, case + " on the cell", el, own, entity=(cell.get_dimension(), 0))
    accept(ctx, case + " copied points", el, fresh(own))
    # -- derivatives and entities
    for order in (1, 2):
        ctx.step()
        ctx.expect(refused(lambda: el.basis_evaluation(order, own)), case, "derivatives of order %d" % order)
        ctx.expect(refused(lambda: el.basis_evaluation(order, own, entity=(cell.get_dimension(), 0))), case, "derivatives of order %d" % order)
    for a in sorted(top):
        for e in sorted(top[a]):
            if (a, e) == (cell.get_dimension(), 0):
                continue
            ctx.step()
            ctx.state((case, "entity", a, e))
            ctx.expect(refused(lambda: el.basis_evaluation(0, own, entity=(a, e))), "%s entity %s" % (case, (a, e)), "tabulated on an entity")
            if not numpy.any(numpy.hstack(flat(a))):
                ctx.expect(refused(lambda: el.basis_evaluation(0, PointSingleton(numpy.zeros(0)), entity=(a, e))), "%s entity %s" % (case, (a, e)), "tabulated on an entity")
    ctx.expect(refused(lambda: el.point_evaluation(0, gem.Variable("X", (dim(cell),)))), case, "point evaluation")
    # -- dual: point values
    with ctx.guard(case, "dual"):
        Qt, x = el.dual_basis
        ctx.close(x.points, pts, case, "points of the dual", rtol=0, atol=1e-13)
        v = evaluate(Qt, x.indices)
        ctx.equal(v.reshape(n, -1).tolist(), numpy.eye(n).tolist(), case, "dual table")
    for what, fn, vals in functions(pts):
        ctx.step()
        with ctx.guard(case, "dual of " + what):
            expr, idx = el.dual_evaluation(fn)
            ctx.close(evaluate(expr, idx).reshape(-1), vals, case, "dual of " + what, rtol=1e-12, atol=1e-13)
    with ctx.guard(case, "dual of its own basis"):
        b = el.get_indices()
        expr, idx = el.dual_evaluation(lambda ps: gem.Indexed(el.basis_evaluation(0, ps)[(0,) * dim(cell)], b))
        v = evaluate(expr, tuple(idx) + tuple(b))
        ctx.equal(v.reshape(n, n).tolist(), numpy.eye(n).tolist(), case, "dual of its own basis")


def run(task, ctx):
    {"rule": one_rule, "explicit": explicit, "unknown": unknown, "construct": construct, "combine": combine}[task[0]](task, ctx)


def one_rule(task, ctx):
    R = rules(ctx.tier)
    r = R[task[1]]
    case = show(r)
    ctx.state(case)
    with ctx.guard(case, "construction"):
        pts, wts, shape = published(r)
        cell = make_cell(r[0])
        if is_split(r[0]):
            el = QuadratureElement(parent(r[0]), make_quadrature(cell, r[1], r[2]))
        elif r[2] == "default":
            el = make_quadrature_element(cell, r[1])
        else:
            el = make_quadrature_element(cell, r[1], r[2])
        own = make_quadrature(cell, r[1], r[2]).point_set
        ctx.close(own.points, pts, case, "points of the rule", rtol=0, atol=1e-13)
        queries(ctx, case, el, pts, wts, shape, own)
        el2 = QuadratureElement(parent(r[0]), make_quadrature(cell, r[1], r[2]))
        accept(ctx, case + " from the rule", el2, own)
        fs = own.factors if isinstance(own, TensorPointSet) else ()
        for what, ps in candidates(ctx, pts, own, fs):
            ctx.state((case, what, ps.points.tobytes()))
            judge(ctx, "%s at %s" % (case, what), el, pts, ps)
        # every other rule on cells of the same dimension
        for other in R:
            c2 = make_cell(other[0])
            if dim(c2) != dim(cell):
                continue
            ps = make_quadrature(c2, other[1], other[2]).point_set
            ctx.state((case, "rule", other))
            judge(ctx, "%s at the points of %s" % (case, show(other)), el, pts, ps)
        ctx.outcome((shape, numpy.round(pts, 10).tobytes()))
        ctx.sample("%s: %d points" % (case, len(pts)))


class Opaque(AbstractQuadratureRule):
    """A rule without stored weights, as a form compiler may provide."""

    def __init__(self, ps, expr):
        self.ps, self.expr = ps, expr

    @property
    def point_set(self):
        return self.ps

    @property
    def weight_expression(self):
        return self.expr


def explicit(task, ctx):
    """Rules given by points and weights, of every kind of point set."""
    for name in (I, T, S, Q, (I, I), (T, I)):
        cell = make_cell(name)
        d = dim(cell)
        for n in (1, 2, 3, 5):
            pts = numpy.array([[((3 * k + 2 * j + 1) % 7) / 11 for j in range(d)] for k in range(n)])
            wts = numpy.array([0.25 + 0.5 * k - k * k / 8 for k in range(n)])
            kinds = [PointSet] + ([GaussLegendrePointSet, GaussLobattoLegendrePointSet] if d == 1 else [])
            for K in kinds:
                for how in ("rule", "opaque"):
                    case = "explicit %s %s %d points %s" % (name, K.__name__, n, how)
                    ctx.state(case)
                    ctx.step()
                    with ctx.guard(case, "construction"):
                        ps = K(pts)
                        rule = QuadratureRule(ps, wts, ref_el=cell) if how == "rule" else Opaque(ps, gem.Indexed(gem.Literal(wts), ps.indices))
                        el = QuadratureElement(cell, rule)
                        queries(ctx, case, el, pts, wts, (n,), ps)
                        for what, c in candidates(ctx, pts, ps, ()):
                            judge(ctx, "%s at %s" % (case, what), el, pts, c)
    # tensor rules with asymmetric factors
    for sizes in itertools.product((1, 2, 3), repeat=2):
        for name in (Q, (I, I)):
            case = "explicit %s %s" % (name, sizes)
            ctx.state(case)
            ctx.step()
            with ctx.guard(case, "construction"):
                fs, ws = [], []
                for j, n in enumerate(sizes):
                    fs.append(PointSet(numpy.array([[(k + 1) / (n + 1 + j)] for k in range(n)])))
                    ws.append(numpy.array([0.5 + k + 2 * j for k in range(n)]))
                rule = TensorProductQuadratureRule([QuadratureRule(p, w) for p, w in zip(fs, ws)])
                pts = numpy.array([[a[0], b[0]] for a in fs[0].points for b in fs[1].points])
                wts = numpy.array([a * b for a in ws[0] for b in ws[1]])
                el = QuadratureElement(make_cell(name), rule)
                queries(ctx, case, el, pts, wts, sizes, rule.point_set)
                for what, c in candidates(ctx, pts, rule.point_set, rule.point_set.factors):
                    judge(ctx, "%s at %s" % (case, what), el, pts, c)


def unknown(task, ctx):
    for name in (I, T, (I, I)):
        cell = make_cell(name)
        d = dim(cell)
        for n in (1, 3):
            case = "run-time points on %s (%d)" % (name, n)
            ctx.state(case)
            ctx.step()
            with ctx.guard(case):
                var = gem.Variable("rt_X", (n, d))
                ps = UnknownPointSet(var)
                el = QuadratureElement(cell, Opaque(ps, gem.Indexed(gem.Variable("rt_w", (n,)), ps.indices)))
                ctx.equal(el.space_dimension(), n, case, "dimension")
                for what, c in (("own", ps), ("same variable", UnknownPointSet(gem.Variable("rt_X", (n, d))))):
                    ctx.step()
                    v = evaluate(el.basis_evaluation(0, c)[(0,) * d], c.indices)
                    ctx.equal(v.tolist(), numpy.eye(n).tolist(), case, what)
                for what, c in (("other variable", UnknownPointSet(gem.Variable("rt_Y", (n, d)))), ("other number", UnknownPointSet(gem.Variable("rt_X", (n + 1, d)))),
                                ("points", PointSet(numpy.full((n, d), 0.25))), ("point", PointSingleton(numpy.full(d, 0.25)))):
                    ctx.step()
                    ctx.expect(refused(lambda: el.basis_evaluation(0, c)), "%s at %s" % (case, what), "tabulated")
                ctx.expect(refused(lambda: el.fiat_equivalent), case, "twin of an element with unknown points")
                known = QuadratureElement(cell, QuadratureRule(PointSet(numpy.full((n, d), 0.25)), numpy.ones(n)))
                ctx.expect(refused(lambda: known.basis_evaluation(0, ps)), case, "known element tabulated at unknown points")
                Qt, x = el.dual_basis
                ctx.equal(evaluate(Qt, x.indices).tolist(), numpy.eye(n).tolist(), case, "dual table")
                expr, idx = el.dual_evaluation(lambda p: gem.Indexed(p.expression, (0,)))
                X = numpy.arange(1.0, n * d + 1).reshape(n, d)
                ctx.equal(evaluate(expr, idx, {"rt_X": X}).tolist(), X[:, 0].tolist(), case, "dual of a coordinate")
    ctx.sample("run-time points")


def construct(task, ctx):
    cells = [I, T, S, Q, H, (I, I), (T, I)]
    for a, b in itertools.product(cells, repeat=2):
        ca, cb = make_cell(a), make_cell(b)
        rule = make_quadrature(cb, 2)
        case = "rule of %s on %s" % (b, a)
        ctx.step()
        ctx.state(case)
        if dim(ca) != dim(cb):
            ctx.expect(refused(lambda: QuadratureElement(ca, rule)), case, "accepted a rule of the wrong dimension")
        else:
            with ctx.guard(case):
                accept(ctx, case, QuadratureElement(ca, rule), rule.point_set)
    cell = make_cell(T)
    fiat_rule = FIAT.quadrature_schemes.create_quadrature(cell, 2)
    for bad in (fiat_rule, fiat_rule.get_points(), make_quadrature(cell, 2).point_set, None, 2):
        ctx.step()
        ctx.expect(refused(lambda: QuadratureElement(cell, bad)), "constructed from %s" % type(bad).__name__, "accepted")
    ctx.expect(refused(lambda: make_quadrature_element(cell, -1)), "negative degree", "accepted")
    ctx.expect(refused(lambda: make_quadrature_element(cell, 2, "no such scheme")), "unknown scheme", "accepted")
    ctx.sample("construction")


def combine(task, ctx):
    """Below the combinators: vectors and tensors, discontinuous versions, products, flattened products, mixed spaces."""
    small = [(I, 2, "default"), (T, 2, "default"), (T, 3, "canonical"), (S, 1, "default"), (Q, 3, "default"), ((I, I), (1, 3), "default"), ((T, I), 2, "default")]
    if ctx.tier != "quick":
        small += [(T, 5, "default"), (S, 3, "default"), (H, 1, "default"), ((I, I, I), (0, 2, 1), "default"), ("AlfeldSplit:triangle", 2, "default")]
    for r in small:
        cell = make_cell(r[0])
        pts, wts, shape = published(r)
        n = len(pts)
        z = (0,) * dim(cell)
        for vs in ((1,), (2,), (2, 3)):
            for transpose in (False, True):
                case = "%s x %s%s" % (show(r), vs, " transposed" if transpose else "")
                ctx.step()
                ctx.state(case)
                with ctx.guard(case):
                    el = finat.TensorFiniteElement(make_quadrature_element(cell, r[1], r[2]), vs, transpose=transpose)
                    ps = make_quadrature(cell, r[1], r[2]).point_set
                    v = evaluate(el.basis_evaluation(0, ps)[z], ps.indices)
                    m = int(numpy.prod(vs))
                    e = numpy.eye(n * m).reshape(n, m, n, m)     # point, value, node, copy
                    want = e.transpose(0, 3, 2, 1) if transpose else e.transpose(0, 2, 3, 1)
                    ctx.equal(v.reshape(want.shape).tolist(), want.tolist(), case, "table")
                    ctx.equal(el.space_dimension(), n * m, case, "dimension")
                    for what, c in candidates(ctx, pts, ps, ())[:6]:
                        if c.points.shape != pts.shape or abs(c.points - pts).max() > SAME:
                            ctx.expect(refused(lambda: el.basis_evaluation(0, c)), "%s at %s" % (case, what), "tabulated")
                    ctx.expect(refused(lambda: el.basis_evaluation(1, ps)), case, "derivatives")
                    Qt, x = el.dual_basis
                    ctx.close(x.points, pts, case, "points of the dual", rtol=0, atol=1e-13)

                    def fn(p):
                        i = gem.indices(len(vs))
                        c = gem.Literal(numpy.arange(1.0, m + 1).reshape(vs))
                        return gem.ComponentTensor(gem.Product(gem.Indexed(p.expression, (0,)), gem.Indexed(c, i)), i)
                    expr, idx = el.dual_evaluation(fn)
                    got = evaluate(expr, idx).reshape(want.shape[1:3])
                    val = pts[:, :1] * numpy.arange(1.0, m + 1)
                    ctx.close(got, val.T if transpose else val, case, "dual", rtol=1e-12, atol=1e-13)
        case = "discontinuous " + show(r)
        ctx.step()
        ctx.state(case)
        with ctx.guard(case):
            el = finat.DiscontinuousElement(make_quadrature_element(cell, r[1], r[2]))
            ps = make_quadrature(cell, r[1], r[2]).point_set
            accept(ctx, case, el, ps)
            ctx.expect(refused(lambda: el.basis_evaluation(0, PointSet(pts + 0.01))), case, "other points")
            ctx.expect(refused(lambda: el.basis_evaluation(1, ps)), case, "derivatives")
    # products of quadrature elements
    for (a, b) in itertools.product([(I, 1, "default"), (I, 2, "default"), (T, 2, "default"), (I, 3, "default")], repeat=2):
        case = "product of %s and %s" % (show(a), show(b))
        ctx.step()
        ctx.state(case)
        with ctx.guard(case):
            ea, eb = (make_quadrature_element(make_cell(q[0]), q[1], q[2]) for q in (a, b))
            el = finat.TensorProductElement([ea, eb])
            pa, pb = (make_quadrature(make_cell(q[0]), q[1], q[2]).point_set for q in (a, b))
            ps = TensorPointSet([pa, pb])
            accept(ctx, case, el, ps)
            ctx.equal(el.space_dimension(), len(pa.points) * len(pb.points), case, "dimension")
            for what, c in (("swapped", TensorPointSet([fresh(pb), fresh(pa)])), ("moved", TensorPointSet([pa, PointSet(pb.points + 0.01)])),
                            ("moved", TensorPointSet([PointSet(pa.points + 0.01), pb]))):
                if c.points.shape == ps.points.shape and abs(c.points - ps.points).max() <= SAME:
                    continue
                ctx.expect(refused(lambda: el.basis_evaluation(0, c)), "%s at %s" % (case, what), "tabulated")
            ctx.expect(refused(lambda: el.basis_evaluation(1, ps)), case, "derivatives")
            Qt, x = el.dual_basis
            ctx.close(x.points, ps.points, case, "points of the dual", rtol=0, atol=1e-13)
            n = len(ps.points)
            ctx.equal(evaluate(Qt, x.indices).reshape(n, n).tolist(), numpy.eye(n).tolist(), case, "dual table")
    ctx.sample("combinators")
