"""C16: metadata of element descriptions match the elements they denote.

State: (description, [implementation]).  Transition: one reported attribute
compared with a model that derives it from the structure of the description
(own table of families, own rules for combinators), with the element that
FInAT implements for it, or with the description under its canonical name.
The families, names, cells, degrees, form degrees and description trees within
the bound are enumerated completely.
"""
import itertools
import math

import finat
import finat.ufl as fu
import numpy
import ufl
from finat.point_set import PointSet
from ufl.cell import Cell, TensorProductCell
from ufl.sobolevspace import DirectionalSobolevSpace

from mc import geometry, ref
from mc import uflfamilies as fam
from mc import uflspec as us
from mc.checks import c11
from mc.gemeval import evaluate

ASSUMPTIONS = ["families whose degree bounds are not polynomial (traces, direct serendipity, quadrature) are only "
               "checked against the table", "degree bounds on hypercubes are per direction for FiniteElement and "
               "total for tensor products"]
DEG = {"quick": 5, "thorough": 8}


def bound(tier):
    return ("every registered family and name x every UFL cell x degrees none and -1..%d; exterior-calculus names x dimension 1..3 "
            "x all form degrees x degree 0..4; product-cell names x 7 product cells; implemented spaces of every family "
            "up to degree %d; all description trees of mc/uflspec (%s)" % (DEG[tier], 3 if tier == "quick" else 5, tier))


def tasks(tier):
    out = [["names", f] for f in fam.FAMILIES] + [["feec"], ["expand"], ["constructors"]]
    out += [["space", f] for f in fam.FAMILIES if fam.FAMILIES[f][6]]
    n = len(us.trees(tier))
    out += [["trees", i, i + 300] for i in range(0, n, 300)]
    return out


def cost(task):
    return {"space": 2, "trees": 1}.get(task[0], 0)


# ------------------------------------------------------------ Sobolev spaces

SUPER = {"L2": set(), "HDiv": {"L2"}, "HCurl": {"L2"}, "HEin": {"L2"}, "HDivDiv": {"L2"}, "HCurlDiv": {"L2"},
         "H1": {"HDiv", "HCurl", "L2"}, "H2": {"H1", "HDiv", "HCurl", "L2"}, "HInf": {"H2", "H1", "HDiv", "HCurl", "L2"}}
ORDER = {"H1": 1, "H2": 2, "HInf": math.inf}
NAMED = {n: getattr(ufl.sobolevspace, n) for n in SUPER}


def directional(orders):
    orders = tuple(orders)
    for n, o in (("L2", 0), ("H1", 1), ("H2", 2), ("HInf", math.inf)):
        if all(x == o for x in orders):
            return n
    return orders


def along(space, dim):
    return (ORDER.get(space, 0),) * dim if isinstance(space, str) else space


def common(spaces, dim):
    spaces = set(spaces)
    if len(spaces) == 1:
        return spaces.pop()
    if any(not isinstance(s, str) for s in spaces):
        return directional(map(min, zip(*[along(s, dim) for s in spaces])))
    shared = set.intersection(*[{s} | SUPER[s] for s in spaces])
    best, = [s for s in shared if shared <= {s} | SUPER[s]] or ["L2"]
    return best


def sobolev(e):
    s = e.sobolev_space
    if isinstance(s, DirectionalSobolevSpace):
        return directional(s._orders)
    return s.name


# --------------------------------------------------------------- degrees

def dmax(ds):
    ds = [d for d in ds if d is not None]
    if not ds:
        return None
    ts = [d for d in ds if isinstance(d, tuple)]
    if not ts:
        return max(ds)
    return tuple(dmax([d[i] if isinstance(d, tuple) else d for d in ds]) for i in range(len(ts[0])))


# ------------------------------------------------------------------ model

class Unspecified(Exception):
    pass


def size(shape):
    return int(numpy.prod(shape, dtype=int))


PULLBACK = {"identity": "IdentityPullback()", "L2 Piola": "L2Piola()", "covariant Piola": "CovariantPiola()",
            "contravariant Piola": "ContravariantPiola()", "double covariant Piola": "DoubleCovariantPiola()",
            "double contravariant Piola": "DoubleContravariantPiola()",
            "covariant contravariant Piola": "CovariantContravariantPiola()",
            "custom": "CustomPullback()", "physical": "PhysicalPullback()"}


def physical(shape, mapping, g):
    if mapping in ("covariant Piola", "contravariant Piola"):
        return shape[:-1] + (g,)
    if mapping in ("double covariant Piola", "double contravariant Piola", "covariant contravariant Piola"):
        return shape[:-2] + (g, g)
    return shape


def model(spec):
    """Metadata of a description: rvs, mapping, pullback, phys (function of the
    geometric dimension), space, degree, sup, sub (range), const."""
    op = spec[0]
    tdim = us.tdim(us.cell_of(spec))
    if op == "F":
        _, f, c, k, _, v = spec
        _, rank, space, mapping, _, _, _, sup = fam.FAMILIES[f]
        rvs = (tdim,) * rank
        s = sup(k, tdim)
        exact = f in ("Lagrange", "Discontinuous Lagrange", "Q", "DQ", "Bernstein")
        return dict(family=f, rvs=rvs, mapping=mapping, pullback=PULLBACK[mapping], space=space, degree=k, sup=s,
                    phys=lambda g: physical(rvs, mapping, g),
                    sub=(k, k) if exact else (-1, s), const=s == 0, variant=v)
    ms = [model(s) for s in us.subs(spec)]
    m = ms[0]
    out = dict(m)
    variants = {x["variant"] for x in ms}
    if op in ("V", "T"):
        shape = (spec[2],) if op == "V" else tuple(spec[2])
        sym = () if op == "V" else us.canonical(spec)[3]
        n = size(shape) - len(sym)
        if m["pullback"] is None:
            raise Unspecified("vector of an element without pullback")
        if sym:
            out.update(rvs=(n,) + m["rvs"], mapping="symmetries", pullback="Symmetric",
                       phys=lambda g: shape + m["phys"](g))
        else:
            out.update(rvs=shape + m["rvs"])
            if m["pullback"] in ("Mixed", "Symmetric"):
                raise Unspecified("vector of mixed")
            out["phys"] = lambda g: physical(out["rvs"], m["mapping"], g)
    elif op == "M":
        ident = all(x["mapping"] == "identity" for x in ms)
        out.update(family="Mixed", rvs=(sum(size(x["rvs"]) for x in ms),), mapping="identity" if ident else "undefined",
                   pullback="Mixed", phys=lambda g: (sum(size(x["phys"](g)) for x in ms),))
    elif op == "TP":
        out["family"] = "TensorProductElement"
        out["rvs"] = rvs = tuple(itertools.chain(*[x["rvs"] for x in ms]))
        mp = {x["mapping"] for x in ms}
        out["mapping"] = mp.pop() if mp in ({"identity"}, {"L2 Piola"}) else "undefined"
        out["pullback"] = PULLBACK.get(out["mapping"])
        out["phys"] = lambda g: rvs
        dims = [us.tdim(us.cell_of(s)) for s in us.subs(spec)]
        if len({x["space"] for x in ms}) == 1 and isinstance(m["space"], str):
            out["space"] = m["space"]
        else:
            out["space"] = directional(itertools.chain(*[along(x["space"], d) for x, d in zip(ms, dims)]))
        out["degree"] = tuple(x["degree"] for x in ms)
        out["sup"] = sum(x["sup"] for x in ms)
        out["sub"] = (min(x["sub"][0] for x in ms), min(x["sub"][1] for x in ms))
        # (constancy may be under-reported for products: True is never wrong here)
        out["const"] = False if any(not x["const"] for x in ms) else None
        out["variant"] = variants.pop() if len(variants) == 1 else None
        return out
    elif op in ("E", "N"):
        if len({x["mapping"] for x in ms}) > 1:
            raise Unspecified("sum of differently mapped elements")
        out["family"] = "EnrichedElement" if op == "E" else "NodalEnrichedElement"
        if m["pullback"] in ("Mixed", "Symmetric"):
            out["pullback"] = None
            out["phys"] = lambda g: m["phys"](g)
    elif op in ("HD", "HC"):
        out["family"] = "TensorProductElement"
        mp = "contravariant Piola" if op == "HD" else "covariant Piola"
        out.update(rvs=(tdim,), mapping=mp, pullback=PULLBACK[mp], phys=lambda g: (g,), space="HDiv" if op == "HD" else "HCurl")
    elif op == "R":
        out["family"] = "RestrictedElement"
        if spec[2] == "interior":
            out["space"] = "L2"
        if m["pullback"] in ("Mixed", "Symmetric"):
            out["pullback"] = None
    elif op == "B":
        out["family"] = "BrokenElement"
        out["space"] = "L2"
        if m["pullback"] in ("Mixed", "Symmetric"):
            out["pullback"] = None
        out["variant"] = Ellipsis
    elif op == "W":
        mp = spec[2]
        rank = {"identity": None, "covariant Piola": 1, "double contravariant Piola": 2}[mp]
        if rank is not None and m["rvs"] != (tdim,) * rank:
            raise Unspecified("pullback for another value rank")
        out.update(mapping=mp, pullback=PULLBACK[mp], phys=lambda g: physical(m["rvs"], mp, g))
        if mp != m["mapping"]:
            out["space"] = "L2"
    if op in ("M", "E", "N"):
        out["space"] = common([x["space"] for x in ms], tdim)
        out["degree"] = dmax([x["degree"] for x in ms])
        out["sup"] = max(x["sup"] for x in ms)
        lo = min(x["sub"][0] for x in ms)
        out["sub"] = (lo, (min if op == "M" else max)(x["sub"][1] for x in ms))
        consts = {x["const"] for x in ms}
        out["const"] = True if consts == {True} else False if False in consts else None
        if op == "N":
            out["const"] = None if out["const"] else False
        out["variant"] = variants.pop() if len(variants) == 1 else None
    return out


def domain(cell, g, cache={}):
    key = (cell, g)
    if key not in cache:
        c = us.cell(cell)
        cache[key] = ufl.Mesh(fu.VectorElement("Lagrange", c, 1, dim=g))
    return cache[key]


def report(ctx, case, e, m, cell):
    """Compare a description with its model."""
    tdim = us.tdim(cell)
    ok = ctx.equal(tuple(e.reference_value_shape), m["rvs"], case, "reference value shape")
    ok &= ctx.equal(e.reference_value_size, size(m["rvs"]), case, "reference value size")
    ok &= ctx.equal(e.mapping(), m["mapping"], case, "mapping")
    ok &= ctx.equal(e.degree(), m["degree"], case, "degree")
    ok &= ctx.equal(e.family(), m["family"], case, "family")
    if m["variant"] is not Ellipsis:
        ok &= ctx.equal(e.variant(), m["variant"], case, "variant")
    with ctx.guard(case, "Sobolev space"):
        ok &= ctx.equal(sobolev(e), m["space"], case, "Sobolev space")
        if isinstance(m["space"], str):
            for n, s in NAMED.items():
                ok &= ctx.equal(e in s, n == m["space"] or n in SUPER[m["space"]], case, "membership in " + n)
    with ctx.guard(case, "embedded degrees"):
        sub, sup = e.embedded_subdegree, e.embedded_superdegree
        ok &= ctx.equal(sup, m["sup"], case, "degree of the smallest complete space containing the element")
        ok &= ctx.expect(m["sub"][0] <= sub <= m["sub"][1], case, lambda: "embedded subdegree %s outside %s" % (sub, m["sub"]))
    with ctx.guard(case, "is_cellwise_constant"):
        c = e.is_cellwise_constant()
        ok &= ctx.expect(m["const"] is None or bool(c) == m["const"], case,
                         lambda: "is_cellwise_constant() is %s for degree %s" % (c, m["sup"]))
    try:
        p = e.pullback
    except ValueError:
        ok &= ctx.expect(m["pullback"] is None, case, "has no pullback")
        return ok
    name = repr(p)
    if m["pullback"] in ("Mixed", "Symmetric"):
        ok &= ctx.expect(name.startswith(m["pullback"]), case, "pullback is %s" % name)
    elif m["pullback"]:
        ok &= ctx.equal(name, m["pullback"], case, "pullback")
    for g in (tdim, tdim + 1, tdim + 2):
        if g > 3 + (tdim > 3):
            continue
        with ctx.guard(case, "physical value shape"):
            ok &= ctx.equal(tuple(p.physical_value_shape(e, domain(cell, g))), tuple(m["phys"](g)), case,
                            "physical value shape in dimension %d" % g)
            V = ufl.FunctionSpace(domain(cell, g), e)
            ok &= ctx.equal(tuple(V.value_shape), tuple(m["phys"](g)), case, "value shape of the function space in dimension %d" % g)
    return ok


# ------------------------------------------------- the implemented elements

def implementation(f, c, k):
    """(FInAT element, FIAT twin on the reference cell or None)"""
    cls = fam.FAMILIES[f][6]
    args = (ref.make_cell(c),) if k is None else (ref.make_cell(c), k)
    return getattr(finat, cls)(*args)


MACRO = {"Johnson-Mercier", "Hsieh-Clough-Tocher", "Reduced-Hsieh-Clough-Tocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12",
         "Arnold-Qin", "Reduced-Arnold-Qin", "Christiansen-Hu", "Alfeld-Sorokina", "Guzman-Neilan 1st kind H1",
         "Guzman-Neilan 2nd kind H1", "Guzman-Neilan H1(div)", "Guzman-Neilan Bubble"}


def subcells(f, c, k):
    cell = ref.make_cell(c)
    if f in MACRO:
        d = ref.cell_dim(c)
        kk = {"Johnson-Mercier": 1, "Christiansen-Hu": 1, "Alfeld-Sorokina": 2}.get(f, k)
        if "Guzman" in f and "2nd" not in f:
            kk = None if "H1(div)" in f or "Bubble" in f else k
        spec = ("zany", fam.FAMILIES[f][6], c, kk, ())
        el = c11.physical(spec, cell.vertices)
        cpx = el.get_reference_complex()
        top = cpx.get_topology()
        return [cpx.get_vertices_of_subcomplex(top[d][i]) for i in sorted(top[d])]
    return [cell.vertices]


def inner_points(c, verts, n):
    d = ref.cell_dim(c)
    if c in ("quadrilateral", "hexahedron"):
        g = numpy.linspace(0.03, 0.97, n)
        return numpy.stack(numpy.meshgrid(*[g] * d, indexing="ij"), -1).reshape(-1, d)
    v = numpy.asarray(verts, dtype=float)
    w = [e for e in itertools.product(range(1, n + 1), repeat=d + 1) if sum(e) == n + d]
    return numpy.array(w, dtype=float) / (n + d) @ v


def complete(c, pts, k):
    d = pts.shape[1]
    cube = c in ("quadrilateral", "hexahedron")
    lo, hi = pts.min(axis=0), pts.max(axis=0)
    x = 2 * (pts - lo) / (hi - lo) - 1
    leg = [[numpy.polynomial.legendre.legval(x[:, i], [0] * j + [1]) for j in range(k + 1)] for i in range(d)]
    return numpy.stack([numpy.prod([leg[i][e] for i, e in enumerate(es)], axis=0)
                        for es in itertools.product(range(k + 1), repeat=d) if cube or sum(es) <= k])


def contained(tables, c, k):
    worst = 0.0
    for pts, t in tables:
        if k < 0:
            return numpy.inf
        q, _ = numpy.linalg.qr(complete(c, pts, k).T)
        rows = t.reshape(-1, len(pts))
        worst = max(worst, numpy.abs(rows - (rows @ q) @ q.T).max() / max(1e-12, numpy.abs(rows).max()))
    return worst


def tables_of(f, el, c, k, n):
    out = []
    for verts in subcells(f, c, k):
        pts = inner_points(c, verts, n)
        ps = PointSet(pts)
        geo = geometry.Symbolic(c) if c in ("interval", "triangle", "tetrahedron") else None
        import inspect
        kw = {}
        bindings = None
        if isinstance(el, finat.physically_mapped.PhysicallyMappedElement):
            kw["coordinate_mapping"] = geo
            bindings = geometry.quantities(c, ref.make_cell(c).vertices, (1.0,) * geo.nv)
        r = el.basis_evaluation(0, ps, **kw)
        (g,) = r.values()
        t = evaluate(g, ps.indices, bindings)
        # [P, idx, val] -> [idx, val, P]
        t = numpy.moveaxis(t.reshape((len(pts),) + tuple(g.shape)), 0, -1)
        out.append((pts, t))
    return out


FINAT_MAPPING = {"identity": "affine", "covariant Piola": "covariant piola", "contravariant Piola": "contravariant piola",
                 "double covariant Piola": "double covariant piola", "double contravariant Piola": "double contravariant piola",
                 "covariant contravariant Piola": "covariant contravariant piola"}


def spaces(ctx, f):
    _, rank, space, mapping, (lo, hi), cells, cls, sup = fam.FAMILIES[f]
    top = 3 if ctx.tier == "quick" else 5
    for c in cells:
        if c not in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
            continue
        d = ref.cell_dim(c)
        if lo is None:
            ks = [0, 1, d, d + 1]
        else:
            ks = range(lo, max(lo, top - (d == 3)) + 1)
        for k in ks:
            if hi is not None and k > hi:
                continue
            case = "%s(%s,%s)" % (f, c, k)
            if f in fam.ON_CUBES and c in fam.CUBES[1:]:
                continue
            try:
                el = implementation(f, c, k)
                el.space_dimension()
            except (ValueError, RuntimeError, NotImplementedError):
                ctx.skip("not implemented: " + case)
                continue
            except Exception as exc:
                if "only valid" in str(exc):
                    ctx.skip("not implemented: " + case)
                    continue
                raise
            ctx.state(case)
            with ctx.guard(case, "description"):
                e = fu.FiniteElement(f, c, k)
                ctx.step()
                ctx.equal(tuple(el.value_shape), tuple(e.reference_value_shape), case, "value shape of the implementation and reference value shape")
                if mapping in FINAT_MAPPING:
                    ctx.equal(el.mapping, FINAT_MAPPING[e.mapping()], "mapping of the implementation of " + case)
                elif mapping == "physical":
                    ctx.equal(el.mapping, "physical", case, "mapping of the implementation")
                if f == "Direct Serendipity" or (c == "interval" and f in ("S", "DPC")):
                    continue
                n = max(sup(k, d) + 3, 5)
                t = tables_of(f, el, c, k, n)
                ctx.step(len(t))
                S = e.embedded_superdegree
                err = contained(t, c, S)
                ctx.compared += 1
                if err > 1e-7:
                    ctx.fail(case, "the implemented space is not contained in the complete space of degree %s (distance %.2g)" % (S, err))
                low = contained(t, c, S - 1)
                # (families parameterised by a nominal degree may over-report)
                ctx.compared += 1
                if low < 1e-9 and lo is not None and f != "Guzman-Neilan H1(div)":
                    ctx.fail(case, "the implemented space is even contained in the complete space of degree %s" % (S - 1))
                ctx.equal(e.is_cellwise_constant(), S == 0, case, "cellwise constant")
                sub = e.embedded_subdegree
                ctx.expect(isinstance(sub, int) and sub <= S, case, "subdegree %r above superdegree %r" % (sub, S))


# ------------------------------------------------------------------- names

ALLCELLS = ("vertex", "interval", "triangle", "tetrahedron", "pentatope", "quadrilateral", "hexahedron", "tesseract", "prism", "pyramid")


def names(ctx, f):
    data = fam.FAMILIES[f]
    for c in ALLCELLS:
        cell = Cell(c)
        tdim = cell.topological_dimension()
        for k in (None,) + tuple(range(-1, DEG[ctx.tier] + 1)):
            for name in (f,) + data[0]:
                case = "%s on %s degree %s" % (name, c, k)
                ctx.state((name, c, k))
                ctx.step()
                want = fam.describe(name, c, k)
                try:
                    e = fu.FiniteElement(name, c, k)
                except ValueError:
                    ctx.expect(want is None, case, "refused")
                    continue
                except Exception as exc:
                    ctx.fail(case, "raised %s: %s" % (type(exc).__name__, exc))
                    continue
                if not ctx.expect(want is not None, case, "accepted although the family is not defined there"):
                    continue
                _, rank, space, mapping, _, _, _, sup = fam.FAMILIES[want]
                ok = ctx.equal(e.family(), want, case, "family")
                ok &= ctx.equal(e.degree(), k, case, "degree")
                ok &= ctx.equal(e.mapping(), mapping, case, "mapping")
                ok &= ctx.equal(e.sobolev_space.name, space, case, "Sobolev space")
                ok &= ctx.equal(tuple(e.reference_value_shape), (tdim,) * rank, case, "reference value shape")
                ok &= ctx.equal(repr(e.pullback), PULLBACK[mapping], case, "pullback")
                ok &= ctx.equal(e, fu.FiniteElement(want, cell, k), case, "the element under its canonical name")
                ctx.equal(str(e).split("(")[0], str(fu.FiniteElement(want, cell, k)).split("(")[0], case, "printed name")
                if k is not None and not (want == "Kong-Mulder-Veldhuizen" and (tdim > 3 or k >= (7, 4)[tdim - 2])):
                    with ctx.guard(case, "embedded degree"):
                        ctx.equal(e.embedded_superdegree, sup(k, tdim), case, "embedded superdegree")
                elif k is None and data[4] == (None, None):
                    with ctx.guard(case, "embedded degree"):
                        ctx.equal(e.embedded_superdegree, tdim, case, "embedded superdegree")
                for v in (None, "spectral"):
                    for qs in (None, "default"):
                        with ctx.guard(case, "variant"):
                            x = fu.FiniteElement(name, c, k, variant=v, quad_scheme=qs)
                            ctx.equal((x.variant(), x.quadrature_scheme(), x.family(), x.degree()), (v, qs, want, k), case, "variant and scheme")


def feec(ctx):
    for name, table in sorted(fam.FEEC.items()):
        for n in (1, 2, 3):
            for cells in (("interval",), ("triangle", "quadrilateral"), ("tetrahedron", "hexahedron"))[n - 1:n]:
                for c in cells:
                    for form in range(n + 1):
                        for r in range(0, 5):
                            if not name.startswith(("P- ", "Q- ", "P Lambda", "S Lambda")) and name not in ("P-", "Q-", "P", "S", "P L2", "S L2"):
                                continue
                            other, dr = table[n - 1][form]
                            case = "%s on %s degree %d form degree %d" % (name, c, r, form)
                            ctx.state((name, c, r, form))
                            ctx.step()
                            try:
                                want = fu.FiniteElement(other, c, r + dr)
                            except ValueError:
                                want = None
                            try:
                                got = fu.FiniteElement(name, c, r, form_degree=form)
                            except ValueError:
                                ctx.expect(want is None, case, "refused")
                                continue
                            except Exception as exc:
                                ctx.fail(case, "raised %s: %s" % (type(exc).__name__, exc))
                                continue
                            if not ctx.expect(want is not None, case, "accepted although %s is not defined" % other):
                                continue
                            ctx.equal(got, want, case, "exterior-calculus name")
                            ctx.equal((got.family(), got.degree(), got.sobolev_space, got.mapping()),
                                      (want.family(), want.degree(), want.sobolev_space, want.mapping()), case, "metadata")
                            # k-forms live in the space of the exterior derivative
                            space = "H1" if form == 0 else "L2" if form == n else "HCurl" if form == 1 else "HDiv"
                            ctx.equal(sobolev(got), space, case, "space of %d-forms" % form)
                            with ctx.guard(case, "vector element"):
                                ctx.equal(fu.VectorElement(name, c, r, dim=2, form_degree=form), fu.VectorElement(want, dim=2), case, "vector of forms")


# ---------------------------------------------------------- product cells

def expand(ctx):
    I, T, Q = "interval", "triangle", "quadrilateral"
    F = us.F

    def on(kind, c, k, v):
        """Element of the family on one cell, expanded"""
        if isinstance(c, tuple):
            return ("TP", tuple(on(kind, x, k, v) for x in c), c)
        if kind == "CG":
            return F("Q" if c == Q else "Lagrange", c, k, None, v)
        if kind == "DG":
            return F("DQ" if c == Q else "Discontinuous Lagrange", c, k, None, v)
        return F("DQ L2" if c == Q else "Discontinuous Lagrange L2", c, k, None, v)

    cells = [(I, I), (T, I), (Q, I), (I, I, I), ((I, I), I), (I, T), (I, Q)]
    kinds = {"CG": ("Lagrange", "CG", "P", "Q"), "DG": ("Discontinuous Lagrange", "DG", "DP", "DQ"),
             "DG L2": ("Discontinuous Lagrange L2", "DG L2", "DP L2", "DQ L2")}
    for c in cells:
        for k in (0, 1, 2, 3):
            for v in (None, "spectral"):
                for kind, ns in kinds.items():
                    for n in ns:
                        case = "%s on %s degree %d variant %s" % (n, c, k, v)
                        ctx.state((n, c, k, v))
                        ctx.step()
                        if kind == "CG" and k == 0:
                            try:
                                fu.FiniteElement(n, us.cell(c), k, variant=v)
                            except ValueError:
                                ctx.expect(True, case)
                            else:
                                ctx.fail(case, "degree 0 continuous element accepted")
                            continue
                        with ctx.guard(case, "product cell"):
                            e = fu.FiniteElement(n, us.cell(c), k, variant=v)
                            spec = on(kind, c, k, v)
                            if ctx.equal(e, us.build(spec), case, "expansion"):
                                report(ctx, case, e, model(spec), c)
                for n in ("RTCF", "RTCE", "NCF", "NCE"):
                    case = "%s on %s degree %d variant %s" % (n, c, k, v)
                    ctx.state((n, c, k, v))
                    ctx.step()
                    fits = k >= 1 and c == ((I, I) if n[0] == "R" else (Q, I))
                    try:
                        e = fu.FiniteElement(n, us.cell(c), k, variant=v)
                    except ValueError:
                        ctx.expect(not fits, case, "refused")
                        continue
                    if not ctx.expect(fits, case, "accepted on an unsuitable cell"):
                        continue
                    C, D = F("Lagrange", I, k, None, v), F("Discontinuous Lagrange", I, k - 1, None, v)
                    w = "HC" if n[-1] == "E" else "HD"
                    if n[0] == "R":
                        parts = [(C, D), (D, C)]
                    elif n == "NCF":
                        parts = [(F("RTCF", Q, k, None, v), D), (F("DQ", Q, k - 1, None, v), C)]
                    else:
                        parts = [(F("Q", Q, k, None, v), D), (F("RTCE", Q, k, None, v), C)]
                    spec = ("E", tuple((w, ("TP", p, c)) for p in parts))
                    with ctx.guard(case, "product cell"):
                        if ctx.equal(e, us.build(spec), case, "expansion"):
                            report(ctx, case, e, model(spec), c)


def constructors(ctx):
    """Vector and tensor elements from family names; defaults."""
    for c in ("interval", "triangle", "tetrahedron", "quadrilateral"):
        d = us.tdim(c)
        for f in ("Lagrange", "DG", "Raviart-Thomas", "Regge", "Q", "Bubble"):
            for k in (1, 2, 3):
                for v in (None, "spectral"):
                    for qs in (None, "default"):
                        try:
                            sub = fu.FiniteElement(f, c, k, quad_scheme=qs, variant=v)
                        except ValueError:
                            continue
                        case = "%s(%s,%d,%s,%s)" % (f, c, k, qs, v)
                        for dim in (None, 1, 2, 3, 4):
                            ctx.state((case, dim))
                            ctx.step()
                            e = fu.VectorElement(f, c, k, dim=dim, quad_scheme=qs, variant=v)
                            ctx.equal(e, fu.VectorElement(sub, dim=d if dim is None else dim), case, "vector by name")
                            ctx.equal((e.num_sub_elements, tuple(e.sub_elements)), ((dim or d), (sub,) * (dim or d)), case, "parts")
                            ctx.equal(e, fu.VectorElement(f, Cell(c), k, dim=dim, quad_scheme=qs, variant=v), case, "vector on a cell object")
                        for shape in (None, (2, 2), (3,), (2, 1, 2)):
                            for sym in (None, True):
                                if sym and shape is not None and (len(shape) != 2):
                                    continue
                                ctx.step()
                                e = fu.TensorElement(f, c, k, shape=shape, symmetry=sym, quad_scheme=qs, variant=v)
                                s = shape or (d, d)
                                ctx.equal(e, fu.TensorElement(sub, shape=s, symmetry=sym), case, "tensor by name")
                                n = size(s) - (s[0] * (s[0] - 1) // 2 if sym else 0)
                                ctx.equal((e.num_sub_elements, tuple(e.sub_elements)), (n, (sub,) * n), case, "parts")


def run(task, ctx):
    kind = task[0]
    if kind == "names":
        names(ctx, task[1])
    elif kind == "space":
        spaces(ctx, task[1])
    elif kind == "feec":
        feec(ctx)
    elif kind == "expand":
        expand(ctx)
    elif kind == "constructors":
        constructors(ctx)
    else:
        for spec, e in us.valid(us.trees(ctx.tier)[task[1]:task[2]]):
            case = us.show(spec)
            try:
                m = model(spec)
            except Unspecified as exc:
                ctx.skip(str(exc))
                continue
            ctx.state(us.canonical(spec))
            ctx.step()
            with ctx.guard(case, "metadata"):
                report(ctx, case, e, m, us.cell_of(spec))
            ctx.outcome(repr((m["rvs"], m["mapping"], m["space"], m["degree"], m["sup"])))
            ctx.sample(case)
