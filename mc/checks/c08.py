"""C08: quadrature rules integrate polynomials exactly up to the requested degree.

State: (cell, degree or per-direction degrees, scheme).  Transition: one
monomial of the polynomial space the rule promises to integrate.  Oracle:
closed-form integrals of monomials over intervals, simplices, products and the
pieces of split cells.
"""
import itertools
from math import factorial

import numpy

from mc import ref
from mc.gemeval import evaluate

CHUNK = 4
ASSUMPTIONS = ["accuracy 1e-11 relative to the cell volume (FIAT's tabulated rules are given to about 1e-15)"]
MAXDEG = {"quick": {"vertex": 4, "interval": 40, "triangle": 26, "tetrahedron": 17, "quadrilateral": 9, "hexahedron": 5},
          "thorough": {"vertex": 9, "interval": 80, "triangle": 56, "tetrahedron": 24, "quadrilateral": 16, "hexahedron": 9}}
# spectral lumped rules exist up to this degree parameter
KMV = {"triangle": 5, "tetrahedron": 3}
ATOMS = ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral")


def product_cells(tier):
    I, T, Q, V = "interval", "triangle", "quadrilateral", "vertex"
    out = [c for c in itertools.product(ATOMS, repeat=2) if 1 <= ref.cell_dim(c) <= (3 if tier == "quick" else 4)]
    out += [c for c in itertools.product((V, I, T) if tier == "thorough" else (V, I), repeat=3) if 1 <= ref.cell_dim(c) <= 4]
    out += [((I, I), I), (I, (I, I)), ((T, I), I), (I, (T, I)), ((I, I), (I, I)), (Q, (I, V)), ((V, I), T),
            (((I, I), I), I), (I,)]
    return [c for c in out if c != (I,)]


def nested_degrees(cell, degs):
    """All per-direction degree specifications with entries from ``degs``:
    an int for simplices, an int or a tuple for products."""
    if isinstance(cell, tuple):
        parts = [nested_degrees(c, degs) for c in cell]
        out = [(d, d) for d in degs]
        out += [(tuple(x[0] for x in combo), tuple(x[1] for x in combo)) for combo in itertools.product(*parts)]
        return out
    if cell in ("quadrilateral", "hexahedron"):
        return nested_degrees(ref.unflattened(cell), degs)
    return [(d, d) for d in degs]


def tasks(tier):
    out = []
    for c in ("vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        for d in range(0, MAXDEG[tier][c] + 1):
            for s in ("default", "canonical"):
                if c in ("triangle", "tetrahedron") and s == "canonical" and d > (12 if tier == "quick" else 30):
                    continue
                out.append(["cell", c, d, s])
        for d in range(1, KMV.get(c, 0) + 1):
            out.append(["cell", c, d, "KMV"])
    for c in ("triangle", "tetrahedron", "interval"):
        for d in (-1, -3):
            out.append(["negative", c, d])
    for c in ("quadrilateral", "hexahedron"):
        out.append(["nested", c])
    for c in product_cells(tier):
        out.append(["nested", c])
    for c in ("interval", "triangle", "tetrahedron"):
        for split in ("AlfeldSplit", "IsoSplit") + (("PowellSabinSplit", "PowellSabin12Split") if c == "triangle" else ()) \
                + (("PowellSabinSplit", "WorseyFarinSplit") if c == "tetrahedron" else ()):
            for d in range(0, 6 if tier == "quick" else 10):
                out.append(["macro", c, split, d])
    for d in (1, 2, 3):
        for k in range(0, 7):
            out.append(["physical", d, k])
    for c in ("interval", "triangle"):
        for split in ("AlfeldSplit", "IsoSplit"):
            out.append(["macroproduct", c, split])
    return out


def exact(cell, a):
    """Integral of the monomial over a reference cell."""
    if isinstance(cell, tuple):
        v, k = 1.0, 0
        for c in cell:
            d = ref.cell_dim(c)
            v *= exact(c, a[k:k + d])
            k += d
        return v
    if cell in ("quadrilateral", "hexahedron"):
        return exact(ref.unflattened(cell), a)
    v = 1.0
    for i in a:
        v *= factorial(i)
    return v / factorial(sum(a) + len(a))


def space(cell, deg):
    """Exponents of the polynomial space of (per-direction) degree ``deg``."""
    if isinstance(cell, tuple):
        degs = deg if isinstance(deg, tuple) else (deg,) * len(cell)
        return [sum(c, ()) for c in itertools.product(*[space(x, d) for x, d in zip(cell, degs)])]
    if cell in ("quadrilateral", "hexahedron"):
        return space(ref.unflattened(cell), deg)
    n = ref.cell_dim(cell)
    return [a for k in range(deg + 1) for a in ref.mis(n, k)]


def check_rule(ctx, case, rule, cell, deg):
    ps = rule.point_set
    X = numpy.asarray(ps.points, dtype=float)
    n = ref.cell_dim(cell)
    if not ctx.equal(X.shape[1:], (n,), case, "point dimension"):
        return
    w = rule.weight_expression
    ctx.equal(tuple(w.shape), (), case, "weight shape")
    ctx.expect(all(any(f is i for i in ps.indices) for f in w.free_indices), case, "weights use the point indices")
    ctx.equal(int(numpy.prod([i.extent for i in ps.indices], dtype=int)), len(X), case, "extents of the point indices")
    W = evaluate(w, ps.indices).reshape(-1)
    # the points as seen by generated code, in the same index order
    Y = evaluate(ps.expression, ps.indices).reshape(-1, n) if n else X
    ctx.close(Y, X, case, "symbolic points")
    labels(ctx, case, ps)
    vol = exact(cell, (0,) * n)
    exps = space(cell, deg)
    P = {}
    maxe = max([max(a, default=0) for a in exps], default=0)
    powers = Y[:, :, None] ** numpy.arange(maxe + 1)
    got = numpy.zeros(len(exps))
    for k, a in enumerate(exps):
        v = W
        for i, e in enumerate(a):
            if e:
                v = v * powers[:, i, e]
        got[k] = v.sum()
    ctx.step(len(exps))
    want = numpy.array([exact(cell, a) for a in exps])
    ctx.close(got, want, case, "integrals of the monomials", rtol=0, atol=1e-11 * max(vol, 1e-3))
    ctx.outcome((len(X), numpy.round(W, 9).tobytes()))
    return X, W


def labels(ctx, case, ps):
    """A point set labelled (Lobatto-)Legendre holds those points."""
    from finat.point_set import GaussLegendrePointSet, GaussLobattoLegendrePointSet
    from mc.points import gauss, lobatto
    for f in getattr(ps, "factors", ()):
        labels(ctx, case, f)
    if isinstance(ps, GaussLegendrePointSet):
        ctx.close(ps.points, gauss(len(ps.points)), case, "points labelled Gauss-Legendre")
    if isinstance(ps, GaussLobattoLegendrePointSet):
        ctx.close(ps.points, lobatto(len(ps.points)), case, "points labelled Gauss-Lobatto-Legendre")


def orientation(ctx, case, rule, axes):
    """Reversal of each axis permutes the points of that axis and keeps weights."""
    maps = rule.intrinsic_orientation_permutation_map_tuple
    if not ctx.equal(len(maps), axes, case, "orientation maps per axis"):
        return
    ps = rule.point_set
    ext = tuple(i.extent for i in ps.indices)
    X = numpy.asarray(ps.points, dtype=float).reshape(ext + (axes,))
    W = evaluate(rule.weight_expression, ps.indices)
    for ax, m in enumerate(maps):
        for io, p in enumerate(m):
            ctx.step()
            p = [int(i) for i in p]
            if not ctx.equal(sorted(p), list(range(ext[ax])), case, "orientation %d of axis %d" % (io, ax)):
                continue
            Z = numpy.take(X, p, axis=ax)
            want = X.copy()
            if io == 1:
                want[..., ax] = 1 - want[..., ax]
            ctx.close(Z, want, case, "points under orientation %d of axis %d" % (io, ax), atol=1e-12)
            ctx.close(numpy.take(W, p, axis=ax), W, case, "weights under orientation %d of axis %d" % (io, ax), atol=1e-12)


def run(task, ctx):
    from finat.quadrature import make_quadrature, TensorProductQuadratureRule, QuadratureRule
    from finat.point_set import PointSet, TensorPointSet
    kind = task[0]
    case = "%s %s" % (kind, task[1:])
    if kind == "cell":
        _, c, d, s = task
        with ctx.guard(case, "make_quadrature"):
            ctx.state((c, d, s))
            rule = make_quadrature(ref.make_cell(c), d, s) if s != "default" else make_quadrature(ref.make_cell(c), d)
            check_rule(ctx, case, rule, c, d if s != "KMV" else kmv_degree(c, d))
            if c in ("interval", "quadrilateral", "hexahedron") and s == "default":
                orientation(ctx, case, rule, ref.cell_dim(c))
        ctx.sample(case)
    elif kind == "negative":
        _, c, d = task
        ctx.state((c, d))
        ctx.step()
        try:
            make_quadrature(ref.make_cell(c), d)
            ctx.fail(case, "a negative degree is accepted")
        except ValueError:
            ctx.compared += 1
    elif kind == "nested":
        c = ref.tup(task[1])
        n = ref.cell_dim(c)
        degs = (0, 1, 2, 3) if n <= 2 or ctx.tier == "thorough" else (0, 1, 3)
        specs = nested_degrees(c, degs if len(str(c)) < 60 else degs[-2:])
        cell = ref.make_cell(c)
        for d, exp in dict.fromkeys(specs):
            ctx.state((c, d))
            cs = "%s degree=%s" % (case, d)
            with ctx.guard(cs, "make_quadrature"):
                rule = make_quadrature(cell, d)
                check_rule(ctx, cs, rule, c, exp)
                if isinstance(d, tuple):
                    # per-direction degrees given as a list
                    rule2 = make_quadrature(cell, list(d))
                    ctx.close(rule2.point_set.points, rule.point_set.points, cs, "degrees given as a list")
        # mixed-up degree tuples are refused, not misread
        k = n if c in ("quadrilateral", "hexahedron") else len(c)
        for bad in ((2,) * (k + 1), (2,) * (k - 1)):
            ctx.step()
            try:
                make_quadrature(cell, bad)
                ctx.fail(case, "a degree tuple of the wrong length is accepted: %r" % (bad,))
            except Exception:
                ctx.compared += 1
        if set(str(c).replace("'", "").replace("(", "").replace(")", "").replace(",", "").split()) == {"interval"} \
                and not any(isinstance(x, tuple) for x in c):
            orientation(ctx, case, make_quadrature(cell, tuple(range(2, 2 + len(c)))), n)
        ctx.sample(case)
    elif kind == "macro":
        from FIAT import macro
        _, c, split, d = task
        with ctx.guard(case, "make_quadrature on a split cell"):
            ctx.state((c, split, d))
            split_cell = getattr(macro, split)(ref.make_cell(c))
            rule = make_quadrature(split_cell, d)
            X, W = check_rule(ctx, case, rule, c, d)
            check_pieces(ctx, case, split_cell, X, W, d)
    elif kind == "macroproduct":
        from FIAT import macro
        from FIAT.reference_element import TensorProductCell
        _, c, split = task
        for d in ((1, 2), (3, 1), (2, 2)):
            with ctx.guard(case, "make_quadrature on a product of split cells"):
                ctx.state((c, split, d))
                cell = TensorProductCell(getattr(macro, split)(ref.make_cell(c)), ref.make_cell("interval"))
                check_rule(ctx, case + str(d), make_quadrature(cell, d), (c, "interval"), d)
    elif kind == "physical":
        # a non-reference simplex: integrals by the affine map from the reference cell
        from FIAT.reference_element import default_simplex
        _, n, k = task
        with ctx.guard(case, "make_quadrature on the biunit simplex"):
            ctx.state((n, k))
            rule = make_quadrature(default_simplex(n), k)
            name = {1: "interval", 2: "triangle", 3: "tetrahedron"}[n]
            ps = rule.point_set
            X = (numpy.asarray(ps.points, dtype=float) + 1) / 2
            W = evaluate(rule.weight_expression, ps.indices).reshape(-1) / 2 ** n
            for a in space(name, k):
                ctx.step()
                got = (W * numpy.prod(X ** numpy.array(a), axis=1)).sum()
                ctx.close(got, exact(name, a), case, "monomial %s" % (a,), rtol=0, atol=1e-11)


def kmv_degree(c, d):
    """Degree of exactness of the lumped rule used with degree-d elements is at
    least d for mass lumping (the rule argument is the element degree)."""
    return d


def check_pieces(ctx, case, split_cell, X, W, d):
    """Exact for polynomials on every piece of the split separately."""
    verts = numpy.array(split_cell.get_vertices(), dtype=float)
    top = split_cell.get_topology()
    n = verts.shape[1]
    seen = numpy.zeros(len(X), dtype=bool)
    name = {1: "interval", 2: "triangle", 3: "tetrahedron"}[n]
    for cell in top[n]:
        v = verts[list(top[n][cell])]
        A = (v[1:] - v[0])
        xi = numpy.linalg.solve(A.T, (X - v[0]).T).T
        bary = numpy.column_stack([1 - xi.sum(axis=1), xi])
        inside = (bary > -1e-10).all(axis=1)
        mine = inside & ~seen if (bary[inside] > 1e-10).all() else inside & ~seen
        seen |= mine
        det = abs(numpy.linalg.det(A))
        for a in space(name, d):
            ctx.step()
            got = (W[mine] * numpy.prod(xi[mine] ** numpy.array(a), axis=1)).sum() / det
            ctx.close(got, exact(name, a), case, "monomial %s on piece %d" % (a, cell), rtol=0, atol=1e-10)
    ctx.expect(bool(seen.all()), case, "points outside the cell")
