"""C21: run-time tabulated elements name and shape their tables correctly.

State: the parameters of a run-time tabulated element (variant, degree, axis
shift, side, continuity), alone or as factor of a product.  Transition: one
request for tables - a derivative order at a point set of some structure.  All
names requested over the whole parameter space are collected and must be
pairwise different; the oracle for values binds every requested name to the
table of a known family of polynomials and compares with those polynomials.
"""
import itertools

import FIAT
import finat
import gem
import numpy
from finat.point_set import (GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton, TensorPointSet, UnknownPointSet)
from finat.runtime_tabulated import RuntimeTabulated

from mc import ref
from mc.gemeval import evaluate

CHUNK = 1
ASSUMPTIONS = ["a kernel has one point set per integral and tells the sides of a facet apart by the restriction: tables of different points or entities are "
               "supplied by the caller under one name", "refusal is any exception"]

SIDES = (None, "+", "-")


def variants(tier):
    out = ["", "a", "b", "A", "a_1", "1", "_", "__", "1_0", "0_0_c_", "c", "d", "cp", "d_p", "m", "mgd", "feec", "a_1_0_0_c_p", "rt_a", "10", "01", "a__1", "_a", "a_"]
    return out if tier == "quick" else out + ["%s_%s" % p for p in itertools.product(["0", "1", "2", "10", "c", "d", "p", ""], repeat=2)]


def numbers(tier):
    return (0, 1, 2, 3, 9, 10, 11, 12, 100) if tier == "quick" else tuple(range(13)) + (20, 100, 101, 110, 111)


def bound(tier):
    return ("%d variants x degrees and shifts %s x sides x continuity x derivatives 0..%d: all names pairwise different; products of two and three factors to "
            "derivative order 2 against FIAT's polynomials" % (len(variants(tier)), numbers(tier), order(tier)))


def order(tier):
    return 12 if tier == "quick" else 30


def tasks(tier):
    return [["names", k] for k in range(len(numbers(tier)))] + [["injective"], ["shapes"], ["values"], ["products"], ["refused"]]


def cost(task):
    return task[0] in ("injective", "products")


def line():
    return ref.make_cell("interval")


def one_name(t):
    names = set()
    for n in gem.node.traversal([t]):
        if isinstance(n, gem.Variable):
            names.add((n.name, n.shape))
    (name, shape), = names
    return name, shape


def requests(el, k, ps, entity=None):
    return {a: one_name(t) for a, t in el.basis_evaluation(k, ps, entity=entity).items()}


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def run(task, ctx):
    {"names": names, "injective": injective, "shapes": shapes, "values": values, "products": products, "refused": refusals}[task[0]](task, ctx)


def names(task, ctx):
    """Within one degree: every request is one variable of the right shape; the same request twice has the same name."""
    deg = numbers(ctx.tier)[task[1]]
    cell = line()
    ps = PointSet(numpy.array([[0.25], [0.5], [0.75]]))
    K = order(ctx.tier)
    for v, s, c, r in itertools.product(variants(ctx.tier), numbers(ctx.tier), (True, False), SIDES):
        case = "variant=%r degree=%d shift=%d continuous=%s restriction=%s" % (v, deg, s, c, r)
        ctx.state(case)
        with ctx.guard(case):
            a = requests(RuntimeTabulated(cell, deg, variant=v, shift_axes=s, restriction=r, continuous=c), K, ps)
            b = requests(RuntimeTabulated(cell, deg, v, s, r, c), K, ps)
            ctx.step(len(a))
            ctx.equal(list(a), [(k,) for k in range(K + 1)], case, "derivatives")
            ctx.equal(a, b, case, "equal elements request other tables")
            ctx.equal({sh for _, sh in a.values()}, {(3, deg + 1)}, case, "shape of the tables")
            ctx.equal(len({n for n, _ in a.values()}), K + 1, case, "number of different tables")
            ctx.expect(all(isinstance(n, str) and n.startswith("rt_") for n, _ in a.values()), case, "not marked as run-time tables")
    ctx.outcome(sorted(a.values()))
    ctx.sample("%s -> %s" % (case, a[(0,)][0]))


def injective(task, ctx):
    """Every two different requests have different names (the entity being the same)."""
    cell = line()
    ps = PointSet(numpy.array([[0.5]]))
    K = order(ctx.tier)
    for entity in (None, (1, 0), (0, 0), (0, 1)):
        p = PointSingleton(numpy.zeros(0)) if entity and entity[0] == 0 else ps
        seen = {}
        for deg, v, s, c, r in itertools.product(numbers(ctx.tier), variants(ctx.tier), numbers(ctx.tier), (True, False), SIDES):
            if entity is not None and (s > 2 or deg > 3):
                continue
            el = RuntimeTabulated(cell, deg, variant=v, shift_axes=s, restriction=r, continuous=c)
            with ctx.guard("request of %s" % ((v, deg, s, c, r),)):
                for a, (n, _) in requests(el, K, p, entity).items():
                    key = (v, deg, s, c, r, a)
                    ctx.step()
                    ctx.compared += 1
                    if n in seen:
                        ctx.fail("table %s" % n, "requested both for %s and for %s" % (seen[n], key))
                    seen[n] = key
        ctx.state(("names", entity, len(seen)))
        ctx.outcome(len(seen))
    ctx.sample("%d names" % len(seen))


def point_sets():
    x = numpy.array([[0.1], [0.4], [0.8], [0.95]])
    return [("points", PointSet(x)), ("one point", PointSet(x[:1])), ("singleton", PointSingleton(x[0])), ("Gauss-Legendre", GaussLegendrePointSet(x[:3])),
            ("Gauss-Lobatto", GaussLobattoLegendrePointSet(x[:2])), ("run-time", UnknownPointSet(gem.Variable("rt_:X", (5, 1)))),
            ("tensor", TensorPointSet([PointSet(x[:3])]))]


def shapes(task, ctx):
    """Tables are indexed by the points, then by the basis functions, in that order."""
    cell = line()
    for deg, (what, ps), c, r in itertools.product(range(6), point_sets(), (True, False), SIDES):
        case = "degree %d at %s continuous=%s restriction=%s" % (deg, what, c, r)
        ctx.state(case)
        ctx.step()
        with ctx.guard(case):
            el = RuntimeTabulated(cell, deg, variant="v", restriction=r, continuous=c)
            ext = tuple(i.extent for i in ps.indices)
            ctx.equal(el.space_dimension(), deg + 1, case, "dimension")
            ctx.equal((tuple(el.index_shape), tuple(el.value_shape)), ((deg + 1,), ()), case, "shapes")
            ctx.equal(el.formdegree, 0 if c else 1, case, "form degree")
            ctx.equal(el.degree, deg, case, "degree")
            ctx.equal(el.mapping, "affine", case, "mapping")
            for a, t in el.basis_evaluation(2, ps).items():
                name, shape = one_name(t)
                ctx.equal(shape, ext + (deg + 1,), case, "shape of the table")
                ctx.equal(t.shape, (deg + 1,), case, "shape of the result")
                ctx.equal(set(t.free_indices), set(ps.indices), case, "free indices")
                table = numpy.arange(1.0, 1 + numpy.prod(shape)).reshape(shape)
                ctx.equal(evaluate(t, ps.indices, {name: table}).tolist(), table.tolist(), case, "value")
            ctx.expect(refused(lambda: el.entity_dofs()), case, "claims to know where its functions are")
            ctx.expect(refused(lambda: el.point_evaluation(0, gem.Variable("X", (1,)))), case, "point evaluation")
    ctx.sample(case)


def family(deg, c, x, k):
    """A family of deg + 1 polynomials, tabulated by FIAT: (points, functions)."""
    cell = line()
    el = FIAT.Lagrange(cell, deg) if c and deg > 0 else FIAT.DiscontinuousLagrange(cell, deg)
    return numpy.asarray(el.tabulate(k, [tuple(p) for p in x])[(k,)]).T


SCALE = {None: 1.0, "+": 2.0, "-": -3.0}


def table(key, x):
    """The table for a request: depends on every parameter."""
    v, deg, s, c, r, k = key
    return (1 + len(v) + s) * SCALE[r] * (1.0 if c else 0.5) * family(deg, c, x, k)


def bindings(keys, K, x):
    """Names of all tables of these elements, bound to what they stand for."""
    cell = line()
    out = {}
    for v, deg, s, c, r in keys:
        el = RuntimeTabulated(cell, deg, variant=v, shift_axes=s, restriction=r, continuous=c)
        for (k,), (n, _) in requests(el, K, PointSet(x)).items():
            out[n] = table((v, deg, s, c, r, k), x)
    return out


def params(degs):
    return [(v, d, s, c, r) for v in ("a", "bb") for d in degs for s in (0, 1) for c in (True, False) for r in SIDES]


def values(task, ctx):
    """All tables of all elements given at once: each element reads its own."""
    x = numpy.array([[0.1], [0.4], [0.8]])
    for d in range(0, 5):
        P = params((d, d + 1))
        b = bindings(P, 3, x)
        for p in P:
            case = "element %s" % (p,)
            ctx.state(case)
            el = RuntimeTabulated(line(), p[1], variant=p[0], shift_axes=p[2], restriction=p[4], continuous=p[3])
            with ctx.guard(case):
                ps = PointSet(x)
                for (k,), t in el.basis_evaluation(3, ps).items():
                    ctx.step()
                    ctx.close(evaluate(t, ps.indices, b), table(p + (k,), x), case, "derivative %d" % k)
                    ctx.outcome(table(p + (k,), x).tobytes())
    ctx.sample(case)


def factor(p):
    return RuntimeTabulated(line(), p[1], variant=p[0], shift_axes=p[2], restriction=p[4], continuous=p[3])


def products(task, ctx):
    """Factors of products: derivatives and points go to the right factor."""
    x = [numpy.array([[0.1], [0.4], [0.8]]), numpy.array([[0.3], [0.6]]), numpy.array([[0.05], [0.5], [0.55], [0.9]])]
    pairs = [(("a", d, 0, c, r), ("a", e, 1, f, q)) for d, e in itertools.product((0, 1, 2, 3), repeat=2) for c, f in itertools.product((True, False), repeat=2)
             for r, q in ((None, None), ("+", "+"), ("-", "-"), ("+", None), (None, "-"))]
    triples = [(("a", d, 0, True, r), ("a", e, 1, c, r), ("bb", f, 2, False, r)) for d, e, f in itertools.product((0, 1, 2), repeat=3) for c in (True, False) for r in SIDES]
    for ps_ in pairs + triples:
        case = "product of %s" % (ps_,)
        ctx.state(case)
        with ctx.guard(case):
            el = finat.TensorProductElement([factor(p) for p in ps_])
            n = [p[1] + 1 for p in ps_]
            ctx.equal(tuple(el.index_shape), tuple(n), case, "index shape")
            ctx.equal(el.space_dimension(), int(numpy.prod(n)), case, "dimension")
            b = {}
            for j, p in enumerate(ps_):
                b.update(bindings([p], 2, x[j]))
            ps = TensorPointSet([PointSet(x[j]) for j in range(len(ps_))])
            res = el.basis_evaluation(2, ps)
            ctx.equal(sorted(res), sorted(a for a in itertools.product(range(3), repeat=len(ps_)) if sum(a) <= 2), case, "derivatives")
            for a, t in res.items():
                ctx.step()
                want = numpy.ones(())
                for j, p in enumerate(ps_):
                    want = numpy.multiply.outer(want, table(p + (a[j],), x[j]))
                m = len(ps_)
                want = want.transpose([2 * j for j in range(m)] + [2 * j + 1 for j in range(m)])
                ctx.close(evaluate(t, ps.indices, b), want, case, "derivative %s" % (a,))
            if len(ps_) == 2 and ps_[0][1] == ps_[1][1]:
                t2 = finat.TensorFiniteElement(el, (2,))
                v = evaluate(t2.basis_evaluation(0, ps)[(0, 0)], ps.indices, b)
                base = evaluate(res[(0, 0)], ps.indices, b)
                want = numpy.einsum("pqij,ab->pqijab", base, numpy.eye(2))
                ctx.close(v, want, case, "vector of the product")
    ctx.sample(case)


def refusals(task, ctx):
    cell = line()
    for name in ("vertex", "triangle", "tetrahedron", "quadrilateral", "hexahedron", ("interval", "interval"), ("triangle", "interval"), ("interval", "vertex")):
        ctx.step()
        ctx.state(("cell", name))
        ctx.expect(refused(lambda: RuntimeTabulated(ref.make_cell(name), 1, variant="a")), "cell %s" % (name,), "accepted")
    bad = [("variant", None), ("variant", 1), ("variant", b"a"), ("shift_axes", -1), ("shift_axes", None), ("shift_axes", "0"), ("shift_axes", 0.0),
           ("restriction", "p"), ("restriction", "m"), ("restriction", ""), ("restriction", "+-"), ("restriction", True), ("continuous", None), ("continuous", 1),
           ("continuous", "c")]
    for k, v in bad:
        ctx.step()
        ctx.state((k, v))
        ctx.expect(refused(lambda: RuntimeTabulated(cell, 1, **dict(dict(variant="a"), **{k: v}))), "%s=%r" % (k, v), "accepted")
    ctx.expect(refused(lambda: RuntimeTabulated(cell, 1)), "no variant", "accepted")
    ctx.sample("arguments")
