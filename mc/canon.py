"""Canonical signatures of answers, comparable across objects and processes.

A signature is a nested tuple of plain data in which GEM indices are replaced
by numbers (in order of first use, indices the caller knows by fixed labels)
and floating-point data is kept aside for comparison with a tolerance.
"""
import hashlib
import numbers

import gem
import numpy
from gem.node import Node


class Labels:
    """Fixed labels of the indices the caller knows (e.g. those of a point set)."""

    def __init__(self):
        self.known = {}

    def add(self, name, indices):
        for k, i in enumerate(indices):
            self.known.setdefault(i, "%s%d" % (name, k))


def graph(roots, labels=None):
    """(digest, [numeric arrays]) of expressions up to the naming of indices."""
    known = dict(labels.known) if labels is not None else {}
    idx = {}
    done = {}
    keys = []
    arrays = []
    table = {}

    def attr(a):
        if isinstance(a, gem.Index):
            if a in known:
                return known[a]
            return ("i", idx.setdefault(a, len(idx)), a.extent)
        if isinstance(a, gem.gem.VariableIndex):
            return ("vi", type(a).__name__, visit(a.expression))
        if isinstance(a, Node):
            return ("n", visit(a))
        if isinstance(a, numpy.ndarray):
            if a.dtype == object:
                return ("o", a.shape, tuple(attr(x) for x in a.flat))
            arrays.append(numpy.array(a))
            return ("a", a.shape, a.dtype.kind)
        if isinstance(a, (tuple, list)):
            return tuple(attr(x) for x in a)
        if isinstance(a, numpy.dtype):
            return str(a)
        if isinstance(a, (float, complex)):
            arrays.append(numpy.asarray(a))
            return ("a", (), "f")
        if isinstance(a, (bool, str, type(None))):
            return a
        if isinstance(a, numbers.Integral):
            return int(a)
        return str(a)

    def visit(n):
        if id(n) in done:
            return done[id(n)]
        lit = None
        if isinstance(n, gem.Literal):
            lit = (numpy.asarray(n.array).tobytes(), n.shape)
            if lit in table:
                done[id(n)] = table[lit]
                return table[lit]
        me = [type(n).__name__, tuple(getattr(n, "shape", ()))]
        for name in type(n).__front__ + type(n).__back__:
            me.append(attr(getattr(n, name, None)))
        me.append(tuple(visit(c) for c in n.children))
        key = tuple(me)
        k = lit if lit is not None else key
        if k not in table:
            table[k] = len(keys)
            keys.append(key)
        done[id(n)] = table[k]
        return table[k]

    top = tuple(visit(r) for r in roots)
    return hashlib.md5(repr((top, keys)).encode()).hexdigest(), arrays


def cell_key(c):
    if c is None:
        return None
    try:
        v = c.get_vertices()
    except Exception:
        v = None
    if hasattr(c, "cells"):
        return (type(c).__name__, tuple(cell_key(x) for x in c.cells))
    return (type(c).__name__, tuple(tuple(float(y) for y in x) for x in v) if v is not None else None,
            getattr(c, "product", None) is not None)


def sig(x, labels=None, depth=0):
    """Signature of an answer (nested tuples; ("num", array) leaves)."""
    import FIAT
    from finat.finiteelementbase import FiniteElementBase
    from finat.point_set import AbstractPointSet, UnknownPointSet
    from finat.quadrature import AbstractQuadratureRule
    if depth > 12:
        return "..."
    r = lambda y: sig(y, labels, depth + 1)
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, (float, complex, numpy.floating)):
        return ("num", numpy.asarray(x))
    if isinstance(x, numpy.ndarray):
        if x.dtype == object:
            return ("oarr", x.shape, tuple(r(y) for y in x.flat))
        if x.dtype.kind in "iub":
            return ("iarr", x.shape, x.dtype.kind, tuple(x.ravel().tolist()))
        return ("num", numpy.array(x))
    if isinstance(x, gem.Index):
        if labels is not None and x in labels.known:
            return ("index", labels.known[x])
        return ("index", x.extent)
    if isinstance(x, Node):
        free = tuple(labels.known.get(i, "?") for i in x.free_indices) if labels is not None else len(x.free_indices)
        if isinstance(free, tuple):
            free = tuple(sorted(free))
        digest, arrays = graph([x], labels)
        return ("gem", tuple(x.shape), free, digest, tuple(("num", a) for a in arrays))
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, tuple(r(y) for y in x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(r(k)), r(v)) for k, v in x.items()), key=lambda t: t[0])))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, map(r, x)))))
    if isinstance(x, type):
        return ("class", x.__name__)
    if isinstance(x, AbstractPointSet):
        if isinstance(x, UnknownPointSet):
            return ("ps", type(x).__name__, x.points.shape, r(x.expression))
        return ("ps", type(x).__name__, r(numpy.asarray(x.points, dtype=float)), tuple(i.extent for i in x.indices))
    if isinstance(x, AbstractQuadratureRule):
        lab = labels or Labels()
        lab.add("q", x.point_set.indices)
        return ("rule", type(x).__name__, r(x.point_set), sig(x.weight_expression, lab, depth + 1))
    if isinstance(x, FiniteElementBase):
        return ("element", type(x).__name__, cell_key(x.cell), tuple(x.index_shape), tuple(x.value_shape),
                int(x.space_dimension()), r(attempt(lambda: x.degree)), r(attempt(lambda: x.mapping)),
                r(attempt(x.entity_dofs)), r(attempt(lambda: x.formdegree)))
    if isinstance(x, FIAT.finite_element.FiniteElement):
        out = ["fiat", type(x).__name__, cell_key(x.ref_el), int(x.space_dimension()), r(attempt(x.value_shape)),
               r(attempt(x.mapping)), r(attempt(x.entity_dofs))]

        def tabulate():
            d = x.ref_el.get_spatial_dimension()
            p = numpy.array([[0.21 + 0.17 * i + 0.05 * j for j in range(d)] for i in range(2)]) / max(1, d - 1)
            return x.tabulate(1, p)
        out.append(r(attempt(tabulate)))
        return tuple(out)
    if hasattr(x, "get_vertices"):
        return ("cell", cell_key(x))
    import ufl
    if isinstance(x, (ufl.AbstractFiniteElement,)):
        return ("ufl", type(x).__name__, repr(x))
    if isinstance(x, ufl.sobolevspace.SobolevSpace):
        # (UFL prints the unordered set of superspaces)
        return (type(x).__name__, x.name, tuple(sorted(p.name for p in x.parents)),
                repr(getattr(x, "_orders", None)), repr(getattr(x, "_spatial_indices", None)))
    if isinstance(x, ufl.cell.AbstractCell):
        return (type(x).__name__, repr(x))
    if isinstance(x, ufl.pullback.AbstractPullback):
        return (type(x).__name__, repr(x).split(" object at ")[0])
    if isinstance(x, Raised):
        return ("raised", x.kind)
    return ("object", type(x).__name__)


class Raised:
    """An answer that is an exception."""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.text = str(exc)[:200]


def attempt(f):
    try:
        return f()
    except Exception as exc:
        return Raised(exc)


def differ(a, b, path="", rtol=1e-9):
    """None if the signatures agree, otherwise where they differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and len(b) == 2 and a[0] == "num" and b[0] == "num":
            x, y = a[1], b[1]
            if x.shape != y.shape:
                return "%s: shapes %s and %s" % (path, x.shape, y.shape)
            if x.size == 0:
                return None
            if numpy.isnan(x).any() or numpy.isnan(y).any():
                return None if (numpy.isnan(x) == numpy.isnan(y)).all() else path + ": not a number"
            s = max(1.0, float(numpy.max(numpy.abs(y))))
            e = float(numpy.max(numpy.abs(x - y)))
            return None if e <= rtol * s else "%s: values differ by %.3g" % (path, e)
        if len(a) != len(b):
            return "%s: %d entries instead of %d" % (path, len(a), len(b))
        tag = a[0] if a and isinstance(a[0], str) else ""
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s/%s%d" % (path, tag, k), rtol)
            if d:
                return d
        return None
    if type(a) is not type(b) or a != b:
        return "%s: %s instead of %s" % (path, str(a)[:160], str(b)[:160])
    return None
