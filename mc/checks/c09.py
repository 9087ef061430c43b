"""C09: point sets agree with themselves.

State: a point set (every atom of the coordinate alphabet and every product of
up to three factors, also nested).  Transitions: one coordinate of one point,
and one ordered pair of point sets compared for approximate equality.
Oracle: the coordinates the sets were built from, and for equality the kind
(class and factor structure) together with the coordinates.
"""
import itertools

import numpy

from mc.gemeval import evaluate
from mc.points import gauss, lobatto

CHUNK = 1
ASSUMPTIONS = ["the factors of a product are distinct objects (they carry the free indices)"]


def bound(tier):
    return "atoms: %d; products of %s factors, nested products; all ordered pairs" % (
        len(atoms(tier)), "2 and 3" if tier == "thorough" else "2 (and 3 over a sub-alphabet)")


EPS = 1e-13      # below the default tolerance
BIG = 1e-6       # above it


def atoms(tier):
    """[(spec)] spec = (class, nested list of coordinates)"""
    A = [0.25, 0.5]
    out = []
    # 1D: orders, counts, perturbations
    for pts in ([[.25]], [[.5]], [[.25], [.5]], [[.5], [.25]], [[.25], [.25]], [[.25], [.5], [.75]],
                [[.25 + EPS], [.5]], [[.25 + BIG], [.5]], [[.25], [.5 - BIG]], [[0], [1]]):
        out.append(("PointSet", pts))
    out.append(("PointSet", [[]]))
    for pts in ([[.25, .5]], [[.5, .25]], [[.25, .5], [.5, .25]], [[.5, .25], [.25, .5]], [[.25, .5], [.5, .25 + EPS]],
                [[.25, .25], [.5, .5]], [[.25, .5, .125]], [[.25, .5, .125], [.5, .125, .25]]):
        out.append(("PointSet", pts))
    for n in (1, 2, 3):
        out.append(("GaussLegendrePointSet", gauss(n).tolist()))
    out.append(("PointSet", gauss(2).tolist()))
    for n in (2, 3):
        out.append(("GaussLobattoLegendrePointSet", lobatto(n).tolist()))
    out.append(("GaussLobattoLegendrePointSet", gauss(2).tolist()))
    for p in ([], [.25], [.25 + EPS], [.25 + BIG], [.5], [.25, .5], [.5, .25], [.25, .5, .125]):
        out.append(("PointSingleton", p))
    out.append(("Unknown", ("a", 2, 1)))
    out.append(("Unknown", ("b", 2, 1)))
    out.append(("Unknown", ("a", 3, 1)))
    out.append(("Unknown", ("a", 2, 2)))
    if tier == "thorough":
        for pts in itertools.product(A + [.75], repeat=2):
            out.append(("PointSet", [[p] for p in pts]))
        for pts in itertools.permutations([[.25, .5], [.5, .125], [.125, .25]]):
            out.append(("PointSet", list(pts)))
    return list(dict.fromkeys((c, freeze(p)) for c, p in out))


def freeze(x):
    return tuple(freeze(i) for i in x) if isinstance(x, (list, tuple)) else x


def alphabet(tier):
    at = atoms(tier)
    known = [a for a in at if a[0] != "Unknown"]
    sub = [a for a in known if a[1] not in ((), ((),))][::3] + [("PointSet", ((),)), ("PointSingleton", ())]
    out = list(at)
    out += [("Tensor", p) for p in itertools.product(known, repeat=2)] if tier == "thorough" else \
        [("Tensor", p) for p in itertools.product(sub, repeat=2)]
    out += [("Tensor", (a,)) for a in known[:4]]
    tri = sub[:6] + sub[-2:] if tier == "thorough" else sub[:3] + sub[-2:]
    out += [("Tensor", p) for p in itertools.product(tri, repeat=3)]
    for a, b, c in itertools.product(tri[:3] + tri[-1:], repeat=3):
        out += [("Tensor", (("Tensor", (a, b)), c)), ("Tensor", (a, ("Tensor", (b, c))))]
    # products of which one coordinate of one factor is moved a little
    p2, q1, t2 = ("PointSet", ((.25,), (.5,))), ("PointSet", ((.125,),)), ("PointSet", ((.25, .5), (.5, .125)))
    g2 = ("GaussLegendrePointSet", freeze(gauss(2).tolist()))
    bases = [("Tensor", (p2, q1)), ("Tensor", (t2, p2)), ("Tensor", (g2, g2)), ("Tensor", (p2,)),
             ("Tensor", (("PointSingleton", (.25, .5)), p2)), ("Tensor", (p2, q1, g2)),
             ("Tensor", (("Tensor", (p2, q1)), g2)), ("Tensor", (q1, ("Tensor", (p2, t2))))]
    for b in bases:
        out.append(b)
        for eps in (1e-9, 1e-4) + ((EPS, -1e-6, 1e-2) if tier == "thorough" else ()):
            out += moved(b, eps)
    return list(dict.fromkeys(out))


def moved(spec, eps):
    """Every spec obtained by moving one number in ``spec`` by ``eps``."""
    if isinstance(spec, float):
        return [spec + eps]
    if not isinstance(spec, tuple):
        return []
    return [spec[:k] + (v,) + spec[k + 1:] for k, part in enumerate(spec) for v in moved(part, eps)]


def tasks(tier):
    n = len(alphabet(tier))
    k = 16 if tier == "quick" else 64
    return [["block", i, k] for i in range(k) if i < n]


def make(spec):
    import gem
    from finat import point_set as P
    cls, arg = spec
    if cls == "Tensor":
        return P.TensorPointSet(make(s) for s in arg)
    if cls == "Unknown":
        name, n, d = arg
        return P.UnknownPointSet(gem.Variable("rt_:" + name, (n, d)))
    if cls == "PointSingleton":
        return P.PointSingleton(numpy.array(arg, dtype=float))
    return getattr(P, cls)(coords(spec))


def coords(spec):
    cls, arg = spec
    if cls == "Tensor":
        cs = [coords(s) for s in arg]
        return numpy.array([numpy.concatenate(p) for p in itertools.product(*cs)])
    if cls == "PointSingleton":
        return numpy.array(arg, dtype=float).reshape(1, -1)
    if cls == "Unknown":
        name, n, d = arg
        return ((numpy.arange(n * d) + 1.0) / (n * d + ord(name[0]))).reshape(n, d)
    return numpy.array(arg, dtype=float).reshape(len(arg), -1)


def extents(spec):
    cls, arg = spec
    if cls == "Tensor":
        return sum((extents(s) for s in arg), ())
    return () if cls == "PointSingleton" else (len(coords(spec)),)


def same(a, b, tol=1e-12):
    if a[0] != b[0]:
        return False
    if a[0] == "Tensor":
        return len(a[1]) == len(b[1]) and all(same(x, y, tol) for x, y in zip(a[1], b[1]))
    if a[0] == "Unknown":
        return a[1] == b[1]
    x, y = coords(a), coords(b)
    return x.shape == y.shape and bool((numpy.abs(x - y) <= tol).all())


def bindings(spec):
    if spec[0] == "Tensor":
        return {k: v for s in spec[1] for k, v in bindings(s).items()}
    return {"rt_:" + spec[1][0]: coords(spec)} if spec[0] == "Unknown" else {}


def run(task, ctx):
    _, i, k = task
    al = alphabet(ctx.tier)
    mine = al[i::k]
    objs = [make(s) for s in al]
    for spec in mine:
        case = repr(spec)
        ctx.state(spec)
        want = coords(spec)
        with ctx.guard(case, "point set"):
            ps = make(spec)
            ctx.equal(ps.dimension, want.shape[1], case, "dimension")
            ctx.equal(tuple(ps.points.shape), want.shape, case, "shape of the points")
            ctx.equal(len(ps.points), len(want), case, "number of points")
            if spec[0] != "Unknown":
                ctx.close(ps.points, want, case, "points", atol=0, rtol=0)
            ctx.equal(tuple(j.extent for j in ps.indices), extents(spec), case, "extents")
            ctx.expect(len(set(map(id, ps.indices))) == len(ps.indices), case, "repeated free indices")
            ctx.expect(all(a is b for a, b in zip(ps.indices, ps.indices)), case, "indices change between queries")
            e = ps.expression
            ctx.equal(tuple(e.shape), (want.shape[1],), case, "shape of the expression")
            ctx.expect(all(any(f is j for j in ps.indices) for f in e.free_indices), case, "free indices of the expression")
            got = evaluate(e, ps.indices, bindings(spec)).reshape(want.shape)
            ctx.close(got, want, case, "symbolic points", atol=0, rtol=0)
            ctx.step(want.size + 1)
            ctx.outcome(got.tobytes())
            ctx.equal(make(spec).almost_equal(ps), True, case, "equality with a rebuilt set")
        for s2, o in zip(al, objs):
            c2 = "%s ~ %r" % (case, s2)
            with ctx.guard(c2, "almost_equal"):
                w = same(spec, s2)
                ctx.step()
                ctx.equal(bool(ps.almost_equal(o)), w, c2, "almost_equal")
                ctx.equal(bool(o.almost_equal(ps)), w, c2, "almost_equal (swapped)")
                for tol in (1e-3, 1e-8, 1e-15) if spec[0] != "Tensor" or s2[0] != "Tensor" or ctx.tier == "thorough" else (1e-3, 1e-8):
                    ctx.equal(bool(ps.almost_equal(o, tolerance=tol)), same(spec, s2, tol), c2, "almost_equal(tolerance=%g)" % tol)
    ctx.sample(repr(mine[0]))
