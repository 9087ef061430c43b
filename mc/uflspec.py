"""Element descriptions (finat.ufl): specifications, construction, alphabets.

spec ::= ("F", family, cell, degree, quad_scheme, variant)
       | ("V", spec, dim) | ("T", spec, shape, symmetry)
       | ("M", (specs)) | ("E", (specs)) | ("N", (specs)) | ("TP", (specs), cell|None)
       | ("R", spec, domain) | ("B", spec) | ("HD", spec) | ("HC", spec) | ("W", spec, mapping)
cell ::= name | tuple of cells;  symmetry ::= None | True | tuple of pairs
"""
import itertools
import warnings

import finat.ufl as fu
import ufl
from ufl.cell import Cell, TensorProductCell

warnings.simplefilter("ignore")

UNARY_TAGS = ("V", "T", "R", "B", "HD", "HC", "W")


def cell(c):
    if c is None:
        return None
    if isinstance(c, tuple):
        return TensorProductCell(*[cell(x) for x in c])
    return Cell(c)


def tdim(c):
    if isinstance(c, tuple):
        return sum(tdim(x) for x in c)
    return {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[c]


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def subs(spec):
    if spec[0] == "F":
        return ()
    if spec[0] in ("M", "E", "N", "TP"):
        return spec[1]
    return (spec[1],)


def cell_of(spec):
    if spec[0] == "F":
        return spec[2]
    if spec[0] == "TP":
        return spec[2] if spec[2] is not None else tuple(cell_of(s) for s in spec[1])
    return cell_of(subs(spec)[0])


def symdict(sym):
    if sym is None or sym is True:
        return sym
    return {tuple(a): tuple(b) for a, b in sym}


def build(spec):
    op = spec[0]
    if op == "F":
        _, family, c, degree, qs, variant = spec
        return fu.FiniteElement(family, cell(c), degree, quad_scheme=qs, variant=variant)
    if op == "V":
        return fu.VectorElement(build(spec[1]), dim=spec[2])
    if op == "T":
        return fu.TensorElement(build(spec[1]), shape=spec[2], symmetry=symdict(spec[3]))
    if op == "M":
        return fu.MixedElement(*[build(s) for s in spec[1]])
    if op == "E":
        return fu.EnrichedElement(*[build(s) for s in spec[1]])
    if op == "N":
        return fu.NodalEnrichedElement(*[build(s) for s in spec[1]])
    if op == "TP":
        kw = {} if spec[2] is None else {"cell": cell(spec[2])}
        return fu.TensorProductElement(*[build(s) for s in spec[1]], **kw)
    if op == "R":
        return fu.RestrictedElement(build(spec[1]), spec[2])
    if op == "B":
        return fu.BrokenElement(build(spec[1]))
    if op == "HD":
        return fu.HDivElement(build(spec[1]))
    if op == "HC":
        return fu.HCurlElement(build(spec[1]))
    if op == "W":
        return fu.WithMapping(build(spec[1]), spec[2])
    raise ValueError(op)


def canonical(spec):
    """Normal form: two specifications denote the same description iff these agree."""
    op = spec[0]
    if op == "F":
        return spec
    if op == "T":
        shape, sym = spec[2], spec[3]
        if sym is True:
            sym = tuple(((i, j), (j, i)) for i in range(shape[0]) for j in range(shape[1]) if i > j)
        return ("T", canonical(spec[1]), shape, tuple(sorted(tup(sym or ()))))
    if op in ("M", "E", "N"):
        return (op, tuple(canonical(s) for s in spec[1]))
    if op == "TP":
        return (op, tuple(canonical(s) for s in spec[1]), cell_of(spec))
    return (op, canonical(spec[1])) + tuple(spec[2:])


def show(spec):
    op = spec[0]
    if op == "F":
        _, f, c, d, q, v = spec
        return "%s(%s,%s%s%s)" % (f, c if isinstance(c, str) or c is None else "x".join(map(str, c)), d,
                                  ",qs=%s" % q if q else "", ",%s" % v if v else "")
    if op in ("M", "E", "N"):
        return "%s[%s]" % (op, ", ".join(map(show, spec[1])))
    if op == "TP":
        return "TP[%s%s]" % (", ".join(map(show, spec[1])), "" if spec[2] is None else "; cell")
    return "%s[%s]" % (op, ", ".join([show(spec[1])] + [str(s) for s in spec[2:]]))


def F(family, c, degree, qs=None, variant=None):
    return ("F", family, c, degree, qs, variant)


def leaves(tier):
    """{cell: leaf specifications (canonical family names)}"""
    out = {
        "interval": [F("Lagrange", "interval", 1), F("Discontinuous Lagrange", "interval", 0), F("Lagrange", "interval", 2),
                     F("Lagrange", "interval", 2, None, "spectral"), F("Discontinuous Lagrange", "interval", 1)],
        "triangle": [F("Lagrange", "triangle", 1), F("Raviart-Thomas", "triangle", 1), F("Discontinuous Lagrange", "triangle", 0),
                     F("Lagrange", "triangle", 2), F("Lagrange", "triangle", 2, None, "spectral"),
                     F("Lagrange", "triangle", 2, "canonical"), F("Nedelec 1st kind H(curl)", "triangle", 2),
                     F("Real", "triangle", 0), F("Quadrature", "triangle", 2, "default"), F("Regge", "triangle", 1),
                     F("Bubble", "triangle", 3), F("Brezzi-Douglas-Marini", "triangle", 1), F("Crouzeix-Raviart", "triangle", 1)],
        "quadrilateral": [F("Q", "quadrilateral", 1), F("RTCF", "quadrilateral", 1), F("DQ", "quadrilateral", 0),
                          F("RTCE", "quadrilateral", 1), F("S", "quadrilateral", 2), F("DPC", "quadrilateral", 1)],
        "tetrahedron": [F("Lagrange", "tetrahedron", 1), F("Raviart-Thomas", "tetrahedron", 2)],
    }
    if tier != "quick":
        out["triangle"] += [F("Argyris", "triangle", 5), F("HDiv Trace", "triangle", 0), F("Bell", "triangle", 5),
                            F("Lagrange", "triangle", 2, None, "gll"), F("Lagrange", "triangle", 3)]
        out["hexahedron"] = [F("Q", "hexahedron", 1), F("NCF", "hexahedron", 1), F("DQ", "hexahedron", 0), F("NCE", "hexahedron", 2)]
        out["tetrahedron"] += [F("Discontinuous Lagrange", "tetrahedron", 0), F("Nedelec 1st kind H(curl)", "tetrahedron", 1)]
    return out


SYMS = {(2, 2): [None, True, (((0, 1), (1, 0)),), (((1, 1), (0, 0)),)],
        (2,): [None, (((1,), (0,)),)],
        (3, 3): [True, (((1, 0), (0, 1)), ((2, 0), (0, 2)), ((2, 1), (1, 2))), (((2, 1), (1, 2)), ((2, 0), (0, 2)), ((1, 0), (0, 1)))],
        (2, 3): [None]}


def unary(s, tier):
    out = [("V", s, 2), ("V", s, 3), ("V", s, 1), ("B", s)]
    out += [("T", s, sh, sym) for sh in SYMS for sym in SYMS[sh]]
    out += [("R", s, d) for d in ("interior", "facet", "edge", "vertex", "reduced", "face")]
    out += [("W", s, m) for m in ("identity", "covariant Piola", "double contravariant Piola")]
    return out


def few_unary(s, tier):
    return [("V", s, 2), ("T", s, (2, 2), True), ("T", s, (2, 2), None), ("B", s), ("R", s, "facet"), ("R", s, "interior"), ("W", s, "covariant Piola")]


def products(tier):
    """Tensor-product descriptions over products of cells."""
    L = leaves(tier)
    I, T, Q = L["interval"], L["triangle"], L["quadrilateral"]
    out = [("TP", (a, b), None) for a in I for b in I]
    out += [("TP", (a, b), None) for a in T[:5] for b in I]
    out += [("TP", (a, b), None) for a in Q[:4] for b in I[:3]]
    out += [("TP", (a, b, c), None) for a in I[:2] for b in I[:2] for c in I[:2]]
    out += [("TP", (("TP", (a, b), None), c), None) for a in I[:2] for b in I[:2] for c in I[:2]]
    out += [("TP", (a, b), "quadrilateral") for a in I[:2] for b in I[:2]]
    out += [("TP", (I[0], I[0]), ("interval", "interval"))]
    return out


def dedupe(specs):
    seen, out = set(), []
    for s in specs:
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def trees(tier):
    """Every description up to the depth bound (some may be refused by the code)."""
    L = leaves(tier)
    out = [s for c in L for s in L[c]]
    P = products(tier)
    out += P
    HP = [(w, p) for p in P for w in ("HD", "HC")]
    out += HP
    level1 = []
    for c in L:
        ls = L[c]
        for s in ls:
            level1 += unary(s, tier)
        few = ls[:5]
        for a, b in itertools.product(few, repeat=2):
            level1 += [("M", (a, b)), ("E", (a, b)), ("N", (a, b))]
        level1 += [("M", (ls[0],)), ("E", (ls[0],)), ("M", (ls[0], ls[1], ls[0])), ("M", (ls[0], ls[0], ls[1])), ("E", (ls[0], ls[1], ls[0]))]
    for p in (P if tier != "quick" else P[::4]) + HP[::1 if tier != "quick" else 12]:
        level1 += few_unary(p, tier)
    for a, b in itertools.product(P[:4] + HP[:4], repeat=2):
        level1 += [("E", (a, b)), ("M", (a, b))]
    out += level1
    level2 = []
    for c in L:
        a, b = L[c][:2]
        base = few_unary(a, tier) + few_unary(b, tier) + [("M", (a, b)), ("E", (a, a)), ("N", (a, a)), ("E", (a, b)), ("M", (a, a))]
        for s in base:
            level2 += few_unary(s, tier) if tier == "quick" else unary(s, tier)
            level2 += [("M", (s, a)), ("M", (a, s)), ("E", (s, s)), ("M", (s, s)), ("E", (s, a)), ("M", (b, s, a))]
        if tier != "quick":
            for s, t in itertools.product(base, repeat=2):
                level2 += [("M", (s, t)), ("E", (s, t)), ("N", (s, t))]
    if tier != "quick":
        level3 = []
        for s in level2[::5]:
            level3 += few_unary(s, tier) + [("M", (s, s))]
        level2 += level3
    return dedupe(out + level2)


def valid(specs):
    """[(spec, description)] for those the code accepts (ValueError/assert = refused)."""
    out = []
    for s in specs:
        try:
            out.append((s, build(s)))
        except (ValueError, AssertionError):
            continue
    return out
