"""C24: ill-formed elements and requests are refused, well-formed ones are not.

State: a request, that is a constructor or query together with its arguments.
Transition: putting the request to the real code and observing whether it
answers or raises.  The oracle is a validity model written from the published
rules (which elements can be added, stacked, multiplied, wrapped, which
component indices exist, which point sets fit, ..): a request the model calls
meaningless must raise, one it calls meaningful must be answered with the
shape the model predicts, and nothing is claimed where the rules are silent.
"""
import itertools

import gem
import numpy

import finat
import finat.ufl as fu
import ufl

from mc import alphabet as al
from mc import build, ref, uflspec as us, zany
from mc.checks import c17
from mc.uflspec import F

CHUNK = 1
BLOCK = 60
ASSUMPTIONS = ["a refusal is any exception, raised by the constructor or by the first query",
               "elements without a cell, or with and without a quadrature scheme side by side, are not claimed either way",
               "H(div) and H(curl) descriptions of things that are not products are not claimed either way"]


def bound(tier):
    return ("descriptions: all ordered pairs and triples of the alphabets under mixed, enriched, nodal enriched, product, + and *; "
            "all restriction domains; all symmetry maps with one or two entries over index tuples in and just outside the shape; all "
            "component indices in -2..n+1 of ranks 0..4 on every description of uflspec.trees; elements: all ordered pairs and "
            "triples of the alphabet under enriched, mixed and product; all H(div)/H(curl) wrappers of all products; all sizes and "
            "offsets in -1..6; all point arrays of rank 0..3; all point dimensions up to 4 on every product; all degrees -3..3 "
            "and tuples of length 1..4 on every cell; every physically mapped element without geometry (%s)" % tier)


def tasks(tier):
    out = [["u2", op, k] for op in ("M", "E", "N", "TP", "+", "*") for k in range(0, len(pairs_base(tier)), 12)]
    out += [["u3", op] for op in ("M", "E", "N", "TP")]
    out += [["u1"], ["uargs"]]
    out += [["usym", i] for i in range(len(SHAPES[tier]))]
    n = len(us.trees(tier))
    out += [["ulook", k, min(n, k + 4 * BLOCK)] for k in range(0, n, 4 * BLOCK)]
    out += [["enr2", k] for k in range(0, len(elements(tier)), 8)]
    out += [["tp2", k] for k in range(0, len(elements(tier)), 8)]
    out += [["elem3"], ["sub"], ["points"], ["rules"]]
    w = wrappables(tier)
    out += [["wrap", k, min(len(w), k + 30)] for k in range(0, len(w), 30)]
    p = al.products(tier)
    out += [["tpps", k, min(len(p), k + 30)] for k in range(0, len(p), 30)]
    out += [["quadrature", c] for c in range(len(CELLS))]
    out += [["mapped", k, k + 6] for k in range(0, len(zany.catalogue(tier)) + 4, 6)]
    d = duals(tier)
    out += [["dual", k, min(len(d), k + 25)] for k in range(0, len(d), 25)]
    out += [["domains"]]
    return out


def cost(task):
    return {"ulook": 3, "mapped": 5, "tp2": 2}.get(task[0], 1)


def attempt(thunk):
    try:
        return True, thunk()
    except Exception as exc:  # noqa: BLE001 - any exception is a refusal
        return False, exc


def judge(ctx, case, valid, thunk, check=None):
    """Put one request; compare refusal with the model."""
    ctx.step()
    ctx.state(case)
    ok, res = attempt(thunk)
    ctx.outcome((case.split("(")[0], valid, ok))
    if valid is None:
        ctx.skip("not claimed")
        return None
    if valid:
        if ctx.expect(ok, case, lambda: "well-formed, but refused: %s: %s" % (type(res).__name__, res)) and check is not None:
            check(res)
    else:
        ctx.expect(not ok, case, lambda: "ill-formed, but answered: %r" % (res,))
    return ok


# ------------------------------------------------------------- descriptions

RANK1 = {"Raviart-Thomas", "Nedelec 1st kind H(curl)", "Nedelec 2nd kind H(curl)", "Brezzi-Douglas-Marini", "RTCE", "RTCF", "NCE", "NCF"}
RANK2 = {"Regge", "Hellan-Herrmann-Johnson"}


def shape_of(spec):
    """Reference value shape of a well-formed description."""
    op = spec[0]
    if op == "F":
        d = us.tdim(spec[2])
        return (d,) if spec[1] in RANK1 else (d, d) if spec[1] in RANK2 else ()
    if op == "V":
        return (spec[2],) + shape_of(spec[1])
    if op == "T":
        sym = c17.symmap(spec)
        head = (int(numpy.prod(spec[2])) - len(sym),) if sym else tuple(spec[2])
        return head + shape_of(spec[1])
    if op == "M":
        return (sum(int(numpy.prod(shape_of(s))) for s in spec[1]),)
    if op in ("E", "N"):
        return shape_of(spec[1][0])
    if op == "TP":
        return sum((shape_of(s) for s in spec[1]), ())
    if op in ("HD", "HC"):
        return (us.tdim(us.cell_of(spec)),)
    if op == "W":
        d = us.tdim(us.cell_of(spec))
        if spec[2] in ("covariant Piola", "contravariant Piola"):
            return (d,)
        if spec[2].startswith("double"):
            return (d, d)
    return shape_of(spec[1])


def scheme_of(spec):
    op = spec[0]
    if op == "F":
        return spec[4]
    if op == "TP":
        return None
    if op in ("E", "N"):
        return next((q for q in map(scheme_of, spec[1]) if q is not None), None)
    if op == "M":
        return scheme_of(spec[1][0])
    return scheme_of(spec[1])


DOMAINS = ("interior", "facet", "face", "edge", "vertex", "reduced")


def valid(spec):
    """True: meaningful, False: meaningless, None: not claimed."""
    op = spec[0]
    if op == "F":
        return True
    below = [valid(s) for s in us.subs(spec)]
    if False in below:
        return False
    if None in below:
        return None
    if op in ("M", "E", "N"):
        if len({us.cell_of(s) for s in spec[1]}) > 1:
            return False
        q = {scheme_of(s) for s in spec[1]}
        if len(q - {None}) > 1:
            return False
        if op == "M":
            return True if len(q) == 1 else None
        return len({shape_of(s) for s in spec[1]}) == 1
    if op == "TP":
        return len(shape_of(spec)) <= 1
    if op == "T":
        if spec[3] is True and not (len(spec[2]) == 2 and spec[2][0] == spec[2][1]):
            return False
        return c17.legal(spec[2], c17.symmap(spec))
    if op == "R":
        return spec[2] in DOMAINS
    if op == "W":
        return spec[2] != "symmetries"
    if op in ("HD", "HC"):
        return True if spec[1][0] == "TP" else None
    return True


def pairs_base(tier):
    P = lambda c, k, q=None, v=None: F("Lagrange", c, k, q, v)
    D = lambda c, k: F("Discontinuous Lagrange", c, k)
    I, T, K, Q = "interval", "triangle", "tetrahedron", "quadrilateral"
    RT, N1, RE = F("Raviart-Thomas", T, 1), F("Nedelec 1st kind H(curl)", T, 1), F("Regge", T, 1)
    II = ("TP", (P(I, 1), D(I, 0)), None)
    TI = ("TP", (P(T, 1), D(I, 0)), None)
    RI = ("TP", (RT, P(I, 1)), None)
    out = [P(I, 1), D(I, 0), P(T, 1), P(T, 2, "canonical"), P(T, 2, "default"), P(T, 2, None, "spectral"), RT, N1, RE, P(K, 1),
           F("Raviart-Thomas", K, 1), F("Q", Q, 1), F("RTCF", Q, 1), F("Quadrature", T, 2, "default"), F("Real", T, 0),
           ("V", P(T, 1), 2), ("V", P(T, 1), 3), ("V", P(T, 2, "canonical"), 2), ("V", P(I, 1), 2), ("V", RT, 2), ("V", P(T, 1), 1),
           ("T", P(T, 1), (2, 2), None), ("T", P(T, 1), (2, 2), True), ("T", P(T, 2), (3,), None), ("T", RT, (2,), None),
           ("M", (P(T, 1), P(T, 2))), ("M", (P(T, 1), RT)), ("M", (P(I, 1), D(I, 0))), ("M", (P(T, 1),)),
           ("E", (P(T, 1), F("Bubble", T, 3))), ("E", (RT, N1)), ("E", (P(T, 2, "canonical"), P(T, 1))),
           ("N", (P(T, 1), F("Bubble", T, 3))), II, TI, RI, ("HD", II), ("HC", TI), ("TP", (P(I, 1), P(I, 1)), Q), ("HC", II),
           ("R", P(T, 2), "facet"), ("R", RT, "interior"), ("B", RT), ("B", P(I, 1)), ("W", RT, "identity"), ("W", RT, "double covariant Piola"),
           ("R", ("V", P(T, 2), 2), "facet"), ("B", P(T, 2, "canonical")), ("TP", (II, P(I, 1)), None)]
    if tier != "quick":
        out += [P(T, 3), D(T, 1), ("V", ("V", P(T, 1), 2), 2), ("T", P(T, 1), (2, 3), None), ("M", (("V", P(T, 1), 2), P(T, 1))),
                ("HD", TI), ("TP", (P(I, 1), P(I, 1), D(I, 0)), None), ("TP", (F("RTCF", Q, 1), P(I, 1)), None), ("W", P(T, 1), "L2 Piola"),
                F("NCF", "hexahedron", 1), F("Q", "hexahedron", 1), ("V", F("Q", Q, 1), 2), ("B", ("V", P(T, 1), 2)), ("E", (II, II)),
                ("N", (RT, N1)), ("R", II, "vertex"), ("M", (II, II)), ("V", II, 2)]
    return out


def triples_base(tier):
    b = pairs_base(tier)
    pick = [0, 2, 3, 4, 6, 11, 15, 18, 29, 33, 40] if tier == "quick" else list(range(0, len(b), 3)) + [2, 4]
    return [b[i] for i in pick]


def check_description(ctx, case, spec):
    def check(e):
        ctx.equal(tuple(e.reference_value_shape), shape_of(spec), case, "reference value shape")
        ctx.equal(e.cell, us.cell(us.cell_of(spec)), case, "cell")
        if spec[0] in ("E", "N", "M"):
            ctx.equal(e.quadrature_scheme(), scheme_of(spec), case, "quadrature scheme")
    return check


def u2(task, ctx):
    _, op, k = task
    base = pairs_base(ctx.tier)
    for a in base[k:k + 12]:
        for b in base:
            tag = {"+": "E", "*": "M"}.get(op, op)
            spec = (tag, (a, b)) + ((None,) if tag == "TP" else ())
            case = "%s(%s, %s)" % (op, us.show(a), us.show(b))

            def request():
                if op == "+":
                    return us.build(a) + us.build(b)
                if op == "*":
                    return us.build(a) * us.build(b)
                return us.build(spec)
            judge(ctx, case, valid(spec), request, check_description(ctx, case, spec))
    ctx.sample(case)


def u3(task, ctx):
    op = task[1]
    for c in itertools.product(triples_base(ctx.tier), repeat=3):
        spec = (op, c) + ((None,) if op == "TP" else ())
        case = us.show(spec)
        judge(ctx, case, valid(spec), lambda: us.build(spec), check_description(ctx, case, spec))
    ctx.sample(case)


def u1(task, ctx):
    domains = DOMAINS + ("bogus", "", "cell", "Interior", "facets", "ridge", None, 0, 1, ("facet",))
    for s in pairs_base(ctx.tier):
        for d in domains:
            spec = ("R", s, d)
            case = "restricted(%s, %r)" % (us.show(s), d)
            judge(ctx, case, valid(spec), lambda: us.build(spec), check_description(ctx, case, spec))
            case = "%s[%r]" % (us.show(s), d)
            judge(ctx, case, valid(spec), lambda: us.build(s)[d], check_description(ctx, case, spec))
        for m in ("identity", "covariant Piola", "contravariant Piola", "double covariant Piola", "double contravariant Piola",
                  "L2 Piola", "symmetries"):
            spec = ("W", s, m)
            judge(ctx, "mapped(%s, %s)" % (us.show(s), m), valid(spec), lambda: us.build(spec))
        judge(ctx, "iterate(%s)" % us.show(s), False, lambda: list(us.build(s)))
        judge(ctx, "unpack(%s)" % us.show(s), False, lambda: (lambda *a: a)(*us.build(s)))
    ctx.sample("restricted(%s, 'bogus')" % us.show(s))


def uargs(task, ctx):
    T = us.cell("triangle")
    P1 = lambda: fu.FiniteElement("Lagrange", T, 1)
    P2 = lambda: fu.FiniteElement("Lagrange", T, 2)
    other = {"None": None, "1": 1, "'CG'": "CG", "object": object(), "list": [], "cell": T, "degree": 1.5, "space": ufl.H1}
    for name, x in other.items():
        for what, f in {
                "+": lambda: P1() + x, "*": lambda: P1() * x, "E": lambda: fu.EnrichedElement(P1(), x), "E'": lambda: fu.EnrichedElement(x, P1()),
                "N": lambda: fu.NodalEnrichedElement(P1(), x), "TP": lambda: fu.TensorProductElement(P1(), x),
                "TP'": lambda: fu.TensorProductElement(x, P1()), "R": lambda: fu.RestrictedElement(x, "facet"), "B": lambda: fu.BrokenElement(x),
                "HD": lambda: fu.HDivElement(x), "HC": lambda: fu.HCurlElement(x),
                "div": lambda: fu.HDiv(x), "curl": lambda: fu.HCurl(x),
                "E(x)": lambda: fu.EnrichedElement(x), "T": lambda: fu.TensorElement(x), "V": lambda: fu.VectorElement(x)}.items():
            judge(ctx, "%s(%s)" % (what, name), False, f)
        if name != "list":
            judge(ctx, "M(%s)" % name, False, lambda: fu.MixedElement(P1(), x))
            judge(ctx, "M'(%s)" % name, False, lambda: fu.MixedElement(x))
    # keywords
    for kw in ({"dim": 2}, {"cell": T}, {"degree": 1}, {"quad_scheme": "default"}, {"reference_value_shape": (2,)}, {"variant": "spectral"}, {"family": "CG"}):
        judge(ctx, "M(%s)" % kw, False, lambda: fu.MixedElement(P1(), P2(), **kw))
        judge(ctx, "E(%s)" % kw, False, lambda: fu.EnrichedElement(P1(), P2(), **kw))
        judge(ctx, "TP(%s)" % kw, "cell" in kw, lambda: fu.TensorProductElement(fu.FiniteElement("CG", "interval", 1), fu.FiniteElement("CG", "interval", 1), **kw))
        kw2 = dict(kw, cell=us.cell("quadrilateral"))
        judge(ctx, "TP2(%s)" % kw2, set(kw2) == {"cell"},
              lambda: fu.TensorProductElement(fu.FiniteElement("CG", "interval", 1), fu.FiniteElement("CG", "interval", 1), **kw2))
    judge(ctx, "TP()", False, lambda: fu.TensorProductElement())
    judge(ctx, "TP(cell)", False, lambda: fu.TensorProductElement(cell=T))
    judge(ctx, "E()", False, lambda: fu.EnrichedElement())
    judge(ctx, "N()", False, lambda: fu.NodalEnrichedElement())
    # vectors and tensors whose size cannot be known
    for name in ("CG", "DG", "Real"):
        judge(ctx, "V(%s, no cell)" % name, False, lambda: fu.VectorElement(name, None, 0 if name == "Real" else 1))
        judge(ctx, "T(%s, no cell)" % name, False, lambda: fu.TensorElement(name, None, 0 if name == "Real" else 1))
        judge(ctx, "V(%s, no cell, dim)" % name, True, lambda: fu.VectorElement(name, None, 0 if name == "Real" else 1, dim=2),
              lambda e: ctx.equal(e.reference_value_shape, (2,), name, "shape"))
        judge(ctx, "T(%s, no cell, shape)" % name, True, lambda: fu.TensorElement(name, None, 0 if name == "Real" else 1, shape=(2, 3)),
              lambda e: ctx.equal(e.reference_value_shape, (2, 3), name, "shape"))
    for c in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"):
        d = us.tdim(c)
        fam = "Q" if c in ("quadrilateral", "hexahedron") else "CG"
        judge(ctx, "V(%s)" % c, True, lambda: fu.VectorElement(fam, c, 1), lambda e: ctx.equal(e.reference_value_shape, (d,), c, "vector shape"))
        judge(ctx, "T(%s)" % c, True, lambda: fu.TensorElement(fam, c, 1), lambda e: ctx.equal(e.reference_value_shape, (d, d), c, "tensor shape"))
    # simple elements
    for k in (1.5, "1", [1], "one", 2 + 0j):
        judge(ctx, "degree %r" % (k,), False, lambda: fu.FiniteElement("CG", "triangle", k))
    for v in (1, 1.5, ["spectral"], ("spectral",), object()):
        judge(ctx, "variant %r" % (type(v).__name__,), False, lambda: fu.FiniteElement("CG", "triangle", 1, variant=v))
    for c in ("bogus", "square", 3, 2.5, "Triangle"):
        judge(ctx, "cell %r" % (c,), False, lambda: fu.FiniteElement("CG", c, 1))
    for fam in ("bogus", "lagrange", "", "CG ", None, 1):
        for c in ("triangle", "quadrilateral", None):
            judge(ctx, "family %r on %s" % (fam, c), False, lambda: fu.FiniteElement(fam, c, 1))
    # products of cells
    cells = {"II": ("interval", "interval"), "TI": ("triangle", "interval"), "QI": ("quadrilateral", "interval"), "IT": ("interval", "triangle"),
             "IQ": ("interval", "quadrilateral"), "TT": ("triangle", "triangle"), "III": ("interval",) * 3, "QQ": ("quadrilateral",) * 2}
    fits = {"RTCF": ("II",), "RTCE": ("II",), "NCF": ("QI",), "NCE": ("QI",), "Q": tuple(cells), "DQ": tuple(cells)}
    for fam, good in fits.items():
        for name, c in cells.items():
            judge(ctx, "%s on %s" % (fam, name), name in good, lambda: fu.FiniteElement(fam, us.cell(c), 1))
    # spaces that build no elements
    for s in ("H1", "L2", "H2"):
        judge(ctx, "%s(element)" % s, False, lambda: fu.hdivcurl.CallableSobolevSpace(s)(us.build(("TP", (F("CG", "interval", 1), F("DG", "interval", 0)), None))))
    II = ("TP", (F("Lagrange", "interval", 1), F("Discontinuous Lagrange", "interval", 0)), None)
    judge(ctx, "HDiv(element)", True, lambda: fu.HDiv(us.build(II)), lambda e: ctx.equal(e, us.build(("HD", II)), "HDiv(element)", "description"))
    judge(ctx, "HCurl(element)", True, lambda: fu.HCurl(us.build(II)), lambda e: ctx.equal(e, us.build(("HC", II)), "HCurl(element)", "description"))
    ctx.sample("family 'bogus'")


SHAPES = {"quick": [(2,), (3,), (2, 2), (2, 3), (3, 3)], "thorough": [(2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (3, 3), (2, 2, 2)]}


def usym(task, ctx):
    shape = SHAPES[ctx.tier][task[1]]
    P1 = fu.FiniteElement("Lagrange", "triangle", 1)

    def request(sym):
        def check(e):
            ctx.equal(e.reference_value_shape, shape_of(("T", F("Lagrange", "triangle", 1), shape, tuple(sym.items()))), case, "shape")
        case = "T(%s, %s)" % (shape, sym)
        judge(ctx, case, c17.legal(shape, sym), lambda: fu.TensorElement(P1, shape=shape, symmetry=dict(sym)), check)
    n = max(shape)
    near = list(itertools.product(range(-1, n + 1), repeat=len(shape)))
    odd = [()] + [i + (0,) for i in itertools.product(range(n), repeat=len(shape))][:6] + [i[1:] for i in near][:4]
    inside = list(numpy.ndindex(*shape))
    request({})
    for a, b in itertools.product(near + odd, repeat=2):
        request({a: b})
    if len(inside) <= 6 or ctx.tier != "quick":
        limit = near if len(inside) <= 4 else inside + [i for i in near if i not in inside][:3]
        limit = limit if len(inside) <= 6 else inside
        keys = list(itertools.combinations(limit, 2))
        for a, c in keys:
            for b, d in itertools.product(limit, repeat=2):
                request({a: b, c: d})
    for sym in (True,):
        judge(ctx, "T(%s, True)" % (shape,), len(shape) == 2 and shape[0] == shape[1], lambda: fu.TensorElement(P1, shape=shape, symmetry=True))
    for sym in (((0, 0), (0, 0)), [], "symmetric", 1, {((0,) * len(shape),)}):
        judge(ctx, "T(%s, %r)" % (shape, sym), False, lambda: fu.TensorElement(P1, shape=shape, symmetry=sym))
    ctx.sample("T(%s, {%s: %s})" % (shape, near[0], near[-1]))


def rank_indices(shape):
    """Index tuples in and around a shape."""
    out = list(itertools.product(*[range(-2, n + 2) for n in shape])) if len(shape) <= 2 else \
        list(itertools.product(*[(-1, 0, n - 1, n) for n in shape]))
    for r in range(5):
        if r != len(shape):
            out += list(itertools.product((0, 1, -1), repeat=r))[:9]
    return out


def inside(i, shape):
    return len(i) == len(shape) and all(0 <= j < n for j, n in zip(i, shape))


def ulook(task, ctx):
    for spec in us.trees(ctx.tier)[task[1]:task[2]]:
        if valid(spec) is not True:
            continue
        ok, e = attempt(lambda: us.build(spec))
        if not ok:
            ctx.fail(us.show(spec), "well-formed, but refused: %s" % e)
            continue
        name = us.show(spec)
        shape = shape_of(spec)
        for i in rank_indices(shape):
            judge(ctx, "reference component %s of %s" % (i, name), inside(i, shape), lambda: e.extract_reference_component(i))
            judge(ctx, "reference part %s of %s" % (i, name), inside(i, shape), lambda: e.extract_subelement_reference_component(i))
            if isinstance(e, fu.MixedElement):
                judge(ctx, "degree of %s of %s" % (i, name), inside(i, shape), lambda: e.degree(i))
                judge(ctx, "constancy of %s of %s" % (i, name), inside(i, shape), lambda: e.is_cellwise_constant(i))
        for i in range(-2, (shape[0] if shape else 0) + 2):
            judge(ctx, "reference component int %d of %s" % (i, name), inside((i,), shape), lambda: e.extract_reference_component(i))
            judge(ctx, "reference part int %d of %s" % (i, name), inside((i,), shape), lambda: e.extract_subelement_reference_component(i))
        c = us.cell(us.cell_of(spec))
        for gdim in (c.topological_dimension(), c.topological_dimension() + 1):
            domain = domain_on(c, gdim)
            if domain is None:
                continue
            ok, vs = attempt(lambda: e._value_shape(domain))
            if not ok:
                ctx.skip("no pull back")
                continue
            for i in rank_indices(vs):
                judge(ctx, "component %s of %s in %dD" % (i, name, gdim), inside(i, vs), lambda: e.extract_component(domain, i))
                judge(ctx, "part %s of %s in %dD" % (i, name, gdim), inside(i, vs), lambda: e.extract_subelement_component(domain, i))
            for i in range(-2, (vs[0] if vs else 0) + 2):
                judge(ctx, "component int %d of %s in %dD" % (i, name, gdim), inside((i,), vs), lambda: e.extract_component(domain, i))
        ctx.sample(name)


DOM = {}


def domain_on(c, gdim):
    key = (repr(c), gdim)
    if key not in DOM:
        name = "Q" if c.cellname() in ("quadrilateral", "hexahedron", "TensorProductCell") or not c.cellname() else "Lagrange"
        ok, coords = attempt(lambda: fu.VectorElement(fu.FiniteElement(name, c, 1), dim=gdim))
        ok, dom = attempt(lambda: ufl.Mesh(coords)) if ok else (False, None)
        DOM[key] = dom if ok else None
    return DOM[key]


# ------------------------------------------------------------- elements

def elements(tier):
    L = al.leaf
    I, T, K, Q = al.INT, al.TRI, al.TET, al.QUAD
    cg, dg = L("Lagrange", I, 1), L("DiscontinuousLagrange", I, 0)
    p1, rt, n1, re = L("Lagrange", T, 1), L("RaviartThomas", T, 1), L("Nedelec", T, 1), L("Regge", T, 0)
    out = [cg, dg, L("Lagrange", I, 2), L("GaussLegendre", I, 1), p1, L("DiscontinuousLagrange", T, 0), rt, n1, re, L("Bubble", T, 3),
           L("Lagrange", K, 1), L("RaviartThomas", K, 1), L("Serendipity", Q, 1), L("BrezziDouglasMariniCubeFace", Q, 1),
           al.tp(cg, dg), al.flat(al.tp(cg, dg)), al.flat(al.tp(cg, cg)), al.tp(p1, cg), al.tp(rt, dg), al.tp(cg, cg, dg),
           al.tfe(cg, (2,)), al.tfe(p1, (2,)), al.tfe(p1, (2,), True), al.tfe(p1, (3,)), al.tfe(p1, (2, 2)), al.tfe(rt, (2,)),
           al.enriched(p1, L("Bubble", T, 3)), al.mixed(p1, p1), al.mixed(p1, rt), al.mixed(cg, dg), al.disc(p1), al.disc(rt),
           al.hdiv(al.tp(cg, dg)), al.hcurl(al.tp(cg, dg)), al.hdiv(al.tp(rt, dg)), al.flat(al.enriched(al.hdiv(al.tp(cg, dg)), al.hdiv(al.tp(dg, cg)))),
           al.tfe(al.tp(cg, dg), (2,)), al.mixed(al.tfe(p1, (2,)), p1)]
    if tier != "quick":
        out += [al.tp(cg, p1), al.tp(al.tp(cg, dg), cg), al.flat(al.tp(cg, cg, cg)), L("Serendipity", al.HEX, 1), al.tfe(p1, (1,)),
                al.disc(al.tfe(p1, (2,))), al.tp(L("Serendipity", Q, 1), cg), al.tfe(al.tfe(p1, (2,)), (2,)), al.hcurl(al.tp(n1, cg)),
                al.tfe(al.flat(al.tp(cg, dg)), (2,)), al.mixed(rt, n1), L("Lagrange", T, 2, "alfeld"), L("HDivTrace", T, 0)]
    return out


def describe(e):
    """Everything asked of an element here: its shapes and its values at a point."""
    dim = e.cell.get_spatial_dimension()
    point = numpy.full(dim, 1.0 / (dim + 1)) * (1 + 0.1 * numpy.arange(dim))
    from finat.point_set import PointSingleton
    ps = PointSingleton(point)
    vs = tuple(e.value_shape)
    shape = tuple(e.index_shape) + vs
    entity = e.cell.get_dimension(), 0
    table, = e.basis_evaluation(0, ps, entity).values()
    return shape, tuple(table.shape), vs, e.cell


def check_element(ctx, case, m):
    def check(res):
        shape, tshape, vs, cell = res
        ctx.equal(shape, tuple(m.index_shape) + tuple(m.value_shape), case, "shape of the table")
        ctx.equal(tshape, shape, case, "shape of the evaluated table")
    return check


def model(spec, ok):
    return ref.model(spec) if ok else None


def request(ctx, spec, ok):
    case = show(spec)
    judge(ctx, case, ok, lambda: describe(build.element(spec)), check_element(ctx, case, model(spec, ok)))


def show(spec):
    op = spec[0]
    if op == "leaf":
        return "%s(%s,%s%s)" % (spec[1], spec[2] if isinstance(spec[2], str) else "x".join(spec[2]), spec[3], "," + spec[4] if spec[4] else "")
    if op in ("tp", "enriched", "mixed"):
        return "%s(%s)" % (op, ", ".join(map(show, spec[1])))
    return "%s(%s)" % (op, ", ".join([show(spec[1])] + [str(x) for x in spec[2:]]))


def same_cell(ms):
    return len({m.name for m in ms}) == 1


def enr2(task, ctx):
    base = elements(ctx.tier)
    for a in base[task[1]:task[1] + 8]:
        for b in base:
            ms = [ref.model(a), ref.model(b)]
            request(ctx, al.enriched(a, b), same_cell(ms) and ms[0].value_shape == ms[1].value_shape)
            request(ctx, al.mixed(a, b), same_cell(ms))
    ctx.sample(show(al.enriched(a, b)))


def tp2(task, ctx):
    base = elements(ctx.tier)
    for a in base[task[1]:task[1] + 8]:
        for b in base:
            ms = [ref.model(a), ref.model(b)]
            ok = sum(m.value_shape != () for m in ms) <= 1
            spec = al.tp(a, b)
            case = show(spec)
            judge(ctx, case, ok, lambda: shapes(build.element(spec)), lambda r: ctx.equal(r, sum_shapes(ms), case, "shapes"))
    ctx.sample(case)


def shapes(e):
    return tuple(e.index_shape), tuple(e.value_shape)


def sum_shapes(ms):
    return sum((tuple(m.index_shape) for m in ms), ()), sum((tuple(m.value_shape) for m in ms), ())


def elem3(task, ctx):
    base = [elements(ctx.tier)[i] for i in (0, 4, 6, 15, 21, 22, 26, 27)]
    for c in itertools.product(base, repeat=3):
        ms = [ref.model(s) for s in c]
        request(ctx, al.enriched(*c), same_cell(ms) and len({m.value_shape for m in ms}) == 1)
        request(ctx, al.mixed(*c), same_cell(ms))
        spec = al.tp(*c)
        case = show(spec)
        judge(ctx, case, sum(m.value_shape != () for m in ms) <= 1, lambda: shapes(build.element(spec)),
              lambda r: ctx.equal(r, sum_shapes(ms), case, "shapes"))
    ctx.sample(case)


def sub(task, ctx):
    from finat.mixed import MixedSubElement
    for spec in [s for s in elements(ctx.tier) if s[0] in ("leaf", "tfe", "tp")]:
        m = ref.model(spec)
        n = int(numpy.prod(m.value_shape, dtype=int))
        e = build.element(spec)
        for size in range(-1, 7):
            for offset in range(-2, 7):
                ok = 0 <= offset and offset + n <= size
                case = "part(%s, size %d, offset %d)" % (show(spec), size, offset)
                judge(ctx, case, ok, lambda: describe(MixedSubElement(e, size, offset)),
                      lambda r: ctx.equal(r[1], tuple(m.index_shape) + (size,), case, "shape"))
    ctx.sample(case)


def wrappables(tier):
    out = al.products(tier)
    L = al.leaf
    base = [L("Lagrange", al.INT, 1), L("DiscontinuousLagrange", al.INT, 0), L("Lagrange", al.INT, 2), L("Bubble", al.INT, 2),
            L("IntegratedLegendre", al.INT, 2), L("Legendre", al.INT, 1)]
    tri = [L("Lagrange", al.TRI, 1), L("DiscontinuousLagrange", al.TRI, 0), L("RaviartThomas", al.TRI, 1), L("Nedelec", al.TRI, 1),
           L("CrouzeixRaviart", al.TRI, 1), L("Bubble", al.TRI, 3), L("Real", al.TRI, 0), L("Regge", al.TRI, 0), L("BrezziDouglasMarini", al.TRI, 1)]
    out = out + [al.tp(a, b) for a in base + tri for b in base + tri[:3]]
    out += [al.tp(al.flat(al.tp(a, b)), c) for a in base[:2] for b in base[:2] for c in base[:2]]
    out += [e for e in elements(tier) if e[0] != "tp"]
    return sorted(set(out), key=repr)


def wrappable(spec, op):
    """Can the thing be made H(div)/H(curl) conforming?"""
    if spec[0] != "tp":
        return False
    m = ref.model(spec)
    ks = [f.formdegree for f in m.factors]
    if None in ks:
        return False
    if not all(isinstance(k, int) for k in ks):
        return None
    target = m.dim - 1 if op == "hdiv" else 1
    if sum(ks) != target:
        return False
    if len(ks) != 2 or m.factors[1].name not in (al.INT,):
        return False     # the wrappers are defined for extrusions only
    if m.value_shape == ():
        if op == "hdiv":
            return ks != [1, 1]     # (a scalar 1-form cannot be turned into a vector)
        return ks[1] == 1 or m.dim == 2
    if m.value_shape == (2,) and m.mapping in ("covariant piola", "contravariant piola") and ks[0] == 1 and m.factors[0].dim == 2:
        return True
    return None


def wrap(task, ctx):
    for spec in wrappables(ctx.tier)[task[1]:task[2]]:
        for op in ("hdiv", "hcurl"):
            w = (op, spec)
            ok = wrappable(spec, op)
            case = show(w)
            judge(ctx, case, ok, lambda: describe(build.element(w)),
                  lambda r: ctx.equal(r[2], (ref.model(spec).dim,), case, "value shape"))
    ctx.sample(case)


# ------------------------------------------------------------- points

def points(task, ctx):
    from finat.point_set import (GaussLegendrePointSet, GaussLobattoLegendrePointSet, PointSet, PointSingleton,
                                 TensorPointSet, UnknownPointsArray, UnknownPointSet)
    shp = [()] + [s for r in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=r)]
    for s in shp:
        x = numpy.arange(int(numpy.prod(s, dtype=int)), dtype=float).reshape(s)
        full = lambda ps: (tuple(ps.points.shape), ps.dimension, tuple(ps.expression.shape))
        for cls, ok in ((PointSet, len(s) == 2), (GaussLegendrePointSet, len(s) == 2 and s[1] == 1), (GaussLobattoLegendrePointSet, len(s) == 2 and s[1] == 1)):
            case = "%s(array of shape %s)" % (cls.__name__, s)
            judge(ctx, case, ok, lambda: full(cls(x)), lambda r: ctx.equal(r, (s, s[1], (s[1],)), case, "shapes"))
            judge(ctx, case + " as list", ok, lambda: full(cls(x.tolist())), lambda r: ctx.equal(r, (s, s[1], (s[1],)), case, "shapes"))
        case = "PointSingleton(array of shape %s)" % (s,)
        judge(ctx, case, len(s) == 1, lambda: full(PointSingleton(x)), lambda r: ctx.equal(r, ((1,) + s, s[0], s), case, "shapes"))
        case = "UnknownPointsArray(%s)" % (s,)
        judge(ctx, case, len(s) == 2, lambda: UnknownPointsArray(s), lambda r: ctx.equal((r.shape, len(r)), (s, s[0]), case, "shape"))
        case = "UnknownPointSet(variable of shape %s)" % (s,)
        judge(ctx, case, len(s) == 2, lambda: full(UnknownPointSet(gem.Variable("rt_X", s))), lambda r: ctx.equal(r, (s, s[1], (s[1],)), case, "shapes"))
        case = "UnknownPointSet(literal of shape %s)" % (s,)
        judge(ctx, case, False, lambda: full(UnknownPointSet(gem.Literal(x))))
    # (an expression with free indices is not a variable)
    i = gem.Index(extent=2)
    v = gem.Variable("rt_X", (2, 3, 2))
    judge(ctx, "UnknownPointSet(slice of a variable)", False, lambda: UnknownPointSet(gem.partial_indexed(v, (i,))))
    judge(ctx, "UnknownPointSet(None)", False, lambda: UnknownPointSet(None))
    # weights
    from finat.quadrature import QuadratureRule
    for n in range(1, 5):
        for k in range(0, 6):
            for ps in (PointSet(numpy.arange(2. * n).reshape(n, 2)), GaussLegendrePointSet(numpy.arange(1. * n).reshape(n, 1))):
                case = "rule(%s of %d points, %d weights)" % (type(ps).__name__, n, k)
                judge(ctx, case, n == k, lambda: QuadratureRule(ps, numpy.ones(k)).weight_expression)
                judge(ctx, case + " as list", n == k, lambda: QuadratureRule(ps, [1.0] * k).weight_expression)
    ctx.sample(case)


def rules(task, ctx):
    """Orientation data is refused where it is not there."""
    from finat.point_set import PointSet
    from finat.quadrature import QuadratureRule, TensorProductQuadratureRule, make_quadrature
    cell = build.make_cell("interval")
    known = lambda: make_quadrature(cell, 2)
    plain = lambda ref_el=None: QuadratureRule(PointSet([[0.25], [0.75]]), [0.5, 0.5], ref_el=ref_el)
    made = lambda f, ref_el=None: TensorProductQuadratureRule(f, ref_el=ref_el)
    rect = make_quadrature(build.make_cell(("interval", "interval")), 2)
    tri = make_quadrature(build.make_cell("triangle"), 2)
    cases = {"interval rule": (known, True, True), "rule without a cell": (plain, False, False), "rule with a cell only": (lambda: plain(cell), True, False),
             "square rule": (lambda: rect, True, True), "triangle rule": (lambda: tri, True, None)}
    for nf in (1, 2, 3):
        for choice in itertools.product((True, False), repeat=nf):
            for with_cell in (True, False):
                c = build.make_cell(("interval",) * nf) if with_cell and nf > 1 else (cell if with_cell else None)
                cases["product of %s rules, %s" % (choice, "cell" if with_cell else "no cell")] = \
                    (lambda choice=choice, c=c: made([known() if k else plain() for k in choice], c), with_cell and nf > 1 or (with_cell and nf == 1), all(choice))
                cases["product of %s rules from an iterator, %s" % (choice, "cell" if with_cell else "no cell")] = \
                    (lambda choice=choice, c=c: made((known() if k else plain() for k in choice), c), with_cell, all(choice))
    for name, (f, ext, intr) in cases.items():
        judge(ctx, "extrinsic orientations of " + name, ext, lambda: f().extrinsic_orientation_permutation_map)

        def check(r):
            q = f()
            n = len(q.factors) if hasattr(q, "factors") else 1
            ctx.equal(len(r), n, name, "number of orientation maps")
        judge(ctx, "intrinsic orientations of " + name, intr, lambda: f().intrinsic_orientation_permutation_map_tuple, check)
    ctx.sample(name)


CELLS = ["interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", ("interval", "interval"), ("triangle", "interval"),
         ("interval", "interval", "interval"), ("quadrilateral", "interval"), (("interval", "interval"), "interval")]


def parts(c):
    """Number of degrees a cell takes as a tuple (0: a number only)."""
    return {"quadrilateral": 2, "hexahedron": 3}.get(c, 0) if isinstance(c, str) else len(c)


def nested(c):
    return [] if isinstance(c, str) else list(c)


def degree_ok(c, d):
    if isinstance(d, tuple):
        n = parts(c)
        if n == 0 or len(d) != n:
            return False
        kids = nested(c) or ["interval"] * n
        return all(degree_ok(k, x) for k, x in zip(kids, d))
    return d >= 0


def quadrature(task, ctx):
    from finat.quadrature import make_quadrature
    c = CELLS[task[1]]
    cell = build.make_cell(c)
    for d in range(-4, 4):
        judge(ctx, "quadrature(%s, %d)" % (c, d), degree_ok(c, d), lambda: make_quadrature(cell, d),
              lambda q: ctx.expect(len(q.point_set.points) >= 1, "quadrature(%s, %d)" % (c, d), "no points"))
    for n in range(1, 5):
        vals = (-2, -1, 0, 2) if n < 4 else (-1, 1)
        for d in itertools.product(vals, repeat=n):
            judge(ctx, "quadrature(%s, %s)" % (c, d), degree_ok(c, d), lambda: make_quadrature(cell, d))
            judge(ctx, "quadrature(%s, %s)" % (c, list(d)), degree_ok(c, d), lambda: make_quadrature(cell, list(d)))
    if isinstance(c, tuple) and any(isinstance(k, tuple) for k in c):
        for d in itertools.product((-1, 0, 1, 2), repeat=3):
            for e in ((d[:2], d[2]), (d[0], d[1]), (d, d[0]), (d[:1], d[1])):
                judge(ctx, "quadrature(%s, %s)" % (c, e), degree_ok(c, e), lambda: make_quadrature(cell, e))
    if c in ("triangle", "tetrahedron"):
        for s, ok in (("default", True), ("canonical", True), ("KMV", True), ("bogus", False), ("", False), ("Default", False)):
            judge(ctx, "quadrature(%s, 2, %r)" % (c, s), ok, lambda: make_quadrature(cell, 2, s))
    ctx.sample("quadrature(%s, -1)" % (c,))


def tpps(task, ctx):
    """Point sets that do not fit a product."""
    from finat.point_set import PointSet, PointSingleton, TensorPointSet
    mk = lambda d, n=2: PointSet(numpy.linspace(0.1, 0.3, n * d).reshape(n, d)) if d else PointSet(numpy.zeros((n, 0)))
    for spec in al.products(ctx.tier)[task[1]:task[2]]:
        m = ref.model(spec)
        e = build.element(spec)
        dims = tuple(f.dim for f in m.factors)
        name = show(spec)
        cand = [(d,) for d in range(1, 5)] + list(itertools.product((1, 2, 3), repeat=2)) + list(itertools.product((1, 2), repeat=3))
        for ds in cand:
            ps = TensorPointSet([mk(d) for d in ds])
            case = "%s at a product of points of dimensions %s" % (name, ds)
            # (a product of another number of factors counts as plain points)
            judge(ctx, case, ds == dims if len(ds) == len(dims) else sum(ds) == sum(dims),
                  lambda: e.basis_evaluation(0, ps), lambda r: ctx.equal([tuple(t.shape) for t in r.values()], [tuple(m.index_shape) + tuple(m.value_shape)], case, "shape"))
        for d in range(1, 5):
            case = "%s at points of dimension %d" % (name, d)
            judge(ctx, case, d == m.dim, lambda: e.basis_evaluation(0, mk(d)))
            judge(ctx, case + " (single)", d == m.dim, lambda: e.basis_evaluation(0, PointSingleton(numpy.full(d, 0.2))))
            judge(ctx, case + " (run time)", d == m.dim, lambda: e.point_evaluation(0, gem.Variable("X", (d,))))
        judge(ctx, "%s at run-time points" % name, False, lambda: e.point_evaluation(0, gem.Variable("X", ())))
        judge(ctx, "%s at run-time points 2" % name, False, lambda: e.point_evaluation(0, gem.Variable("X", (m.dim, m.dim))))
        # entities that do not exist
        top = e.cell.get_topology()
        dimensions = set(top) | {(0,) * k for k in range(1, 5)} | {(1,) * k for k in range(1, 5)} | {m.dim, 0}
        for ed in sorted(dimensions, key=repr):
            if ed in top:
                continue
            case = "%s on entity %s" % (name, (ed, 0))
            d = sum(ed) if isinstance(ed, tuple) else ed
            judge(ctx, case, False, lambda: e.basis_evaluation(0, mk(d), entity=(ed, 0)))
    ctx.sample(case)


# ------------------------------------------------------------- mapped elements

def around(spec):
    """Wrappers that pass the coordinate mapping on."""
    e = lambda: build.element(spec)
    cell = e().cell
    out = {"": e, "vector of ": lambda: finat.TensorFiniteElement(e(), (2,)), "transposed vector of ": lambda: finat.TensorFiniteElement(e(), (2,), transpose=True),
           "sum with ": lambda: finat.EnrichedElement([e(), e()]), "mixed with ": lambda: finat.MixedElement([finat.Lagrange(cell, 1), e()]),
           "discontinuous ": lambda: finat.DiscontinuousElement(e())}
    return out


def mapped(task, ctx):
    from finat.point_set import PointSet
    cat = [s for s, _ in zany.catalogue(ctx.tier)] + [("dser", k) for k in (1, 2, 3, 4)]
    for spec in cat[task[1]:task[2]]:
        ok, probe = attempt(lambda: build.element(spec))
        name = repr(spec[1:])
        if not ctx.expect(ok, name, lambda: "refused: %s" % probe):
            continue
        if spec[0] == "zany" and spec[1] == "ArnoldQin":
            continue    # (not physically mapped)
        dim = probe.cell.get_spatial_dimension()
        ps = PointSet(numpy.linspace(0.1, 0.3, 2 * dim).reshape(2, dim))
        for what, make in around(spec).items():
            if spec[0] == "dser" and what == "mixed with ":
                make = lambda: finat.MixedElement([build.element(("dser", 1)), build.element(spec)])
            for order in (0, 1):
                case = "%s%s without geometry, order %d" % (what, name, order)
                judge(ctx, case, False, lambda: make().basis_evaluation(order, ps))
                judge(ctx, case + " on the cell", False, lambda: make().basis_evaluation(order, ps, entity=(dim, 0)))
                judge(ctx, case + " (run time)", False, lambda: make().point_evaluation(order, gem.Variable("X", (dim,))))
        if spec[0] == "zany":
            for dom in ("interior", "facet", "vertex"):
                judge(ctx, "%s restricted to %s" % (name, dom), False, lambda: finat.RestrictedElement(build.element(spec), dom))
    ctx.sample(name)


# ------------------------------------------------------------- duals

def duals(tier):
    return [s for s in al.simplex_leaves(tier) if s[3] is None or s[3] <= 3] + [s for s, _ in zany.catalogue(tier)]


def dual(task, ctx):
    """Functionals that take derivatives have no point-evaluation dual; functions of another shape are not accepted."""
    for spec in duals(ctx.tier)[task[1]:task[2]]:
        name = repr(spec[1:])
        e = build.element(spec)
        fe = e._element if spec[0] == "zany" else ref.model(spec).el
        ok, nodes = attempt(lambda: [n for n in fe.dual_basis()])
        if not ok or any(n is None or not hasattr(n, "deriv_dict") for n in nodes):
            ctx.skip("no functionals")
            continue
        deriv = any(len(n.deriv_dict) > 0 for n in nodes)
        judge(ctx, "dual of " + name, False if deriv else None if spec[0] == "zany" else True, lambda: e.dual_basis)
        if deriv or spec[0] == "zany":
            continue
        vs = tuple(e.value_shape)
        dim = e.cell.get_spatial_dimension()
        for shape in ((), (1,), (2,), (3,), (dim,), (dim, dim), (2, 3), (3, 2)):
            valid = shape == vs
            expr = gem.ListTensor(numpy.array([gem.Literal(1.0 + i) for i in range(int(numpy.prod(shape)))], dtype=object).reshape(shape)) if shape else gem.Literal(1.0)
            judge(ctx, "dual of %s applied to a function of shape %s" % (name, shape), valid, lambda: e.dual_evaluation(lambda ps: expr))
        v = finat.TensorFiniteElement(e, (2,))
        for shape in ((), (2,), (3,), (2,) + vs, vs + (2,), (2, 2) + vs, (2, 3)):
            expr = gem.ListTensor(numpy.array([gem.Literal(1.0 + i) for i in range(int(numpy.prod(shape)))], dtype=object).reshape(shape)) if shape else gem.Literal(1.0)
            if shape == (2,) + vs:
                ok, _ = attempt(lambda: v.dual_basis)
                valid = True if ok else None
            else:
                valid = False
            judge(ctx, "dual of a vector of %s applied to a function of shape %s" % (name, shape), valid, lambda: v.dual_evaluation(lambda ps: expr))
    ctx.sample(name)


def domains(task, ctx):
    base = [s for s in elements(ctx.tier)] + [al.leaf("HDivTrace", al.TRI, 1), al.tp(al.leaf("Lagrange", al.INT, 3), al.leaf("Lagrange", al.INT, 2))]
    for spec in base:
        for d in (None, "bogus", "", "cell", "Interior", "facets", 0, 1, "reduced"):
            case = "%s restricted to %r" % (show(spec), d)
            judge(ctx, case, None if d == "reduced" else False, lambda: finat.RestrictedElement(build.element(spec), d))
        judge(ctx, "%s restricted to indices" % show(spec), False, lambda: finat.RestrictedElement(build.element(spec), "facet", indices=[0]))
    ctx.sample(case)


RUN = {"u2": u2, "u3": u3, "u1": u1, "uargs": uargs, "usym": usym, "ulook": ulook, "enr2": enr2, "tp2": tp2, "elem3": elem3, "sub": sub,
       "points": points, "rules": rules, "wrap": wrap, "tpps": tpps, "quadrature": quadrature, "mapped": mapped, "dual": dual, "domains": domains}


def run(task, ctx):
    RUN[task[0]](task, ctx)
