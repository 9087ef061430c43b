"""Point-set alphabet: every structure of point set the library distinguishes."""
import itertools

import numpy
from finat.point_set import (GaussLegendrePointSet, GaussLobattoLegendrePointSet,
                             PointSet, PointSingleton, TensorPointSet)
from finat.quadrature import make_quadrature  # noqa: F401
from mc.ref import sample_points, entity_kind, cell_dim, make_cell  # noqa: F401


def gauss(n):
    x, _ = numpy.polynomial.legendre.leggauss(n)
    return ((x + 1) / 2).reshape(-1, 1)


def lobatto(n):
    c = numpy.zeros(n)
    c[-1] = 1
    inner = numpy.polynomial.legendre.legroots(numpy.polynomial.legendre.legder(c)) if n > 2 else []
    x = numpy.concatenate([[-1.0], numpy.sort(numpy.real(inner)), [1.0]])
    return ((x + 1) / 2).reshape(-1, 1)


def base_kind(kind):
    """Product decomposition of an entity (quads/hexes are products)."""
    if kind == "quadrilateral":
        return ("interval", "interval")
    if kind == "hexahedron":
        return ("interval",) * 3
    return kind


def flat_factors(kind):
    kind = base_kind(kind)
    if isinstance(kind, tuple):
        out = []
        for k in kind:
            out += flat_factors(k)
        return out
    return [kind]


def plain(kind, n=3):
    return PointSet(sample_points(kind, n))


def singleton(kind):
    return PointSingleton(sample_points(kind, 3)[-1])


def tensor(kind, sizes):
    """One factor per top-level component of the (product) kind."""
    facs = []
    for j, k in enumerate(base_kind(kind)):
        n = sizes[j % len(sizes)]
        pts = sample_points(k, 5)
        pts = pts[(numpy.arange(n) + j) % len(pts)]
        facs.append(PointSet(pts))
    return TensorPointSet(facs)


def tensor_flat(kind, sizes):
    """One factor per atomic component (deeper than the product structure)."""
    facs = []
    for j, k in enumerate(flat_factors(kind)):
        n = sizes[j % len(sizes)]
        pts = sample_points(k, 5)
        facs.append(PointSet(pts[(numpy.arange(n) + j) % len(pts)]))
    return TensorPointSet(facs)


def point_sets(kind, full=False):
    """[(label, point set)] of every structure applicable to ``kind``."""
    out = [("plain", plain(kind, 3))]
    out.append(("single", singleton(kind)))
    bk = base_kind(kind)
    if isinstance(bk, tuple):
        out.append(("tensor", tensor(kind, (2, 3))))
        if full:
            out.append(("tensor321", tensor(kind, (3, 2, 1))))
            facs = []
            for j, k in enumerate(bk):
                facs.append(PointSingleton(sample_points(k, 3)[j % 3 if k != "vertex" else 0])
                            if j % 2 else PointSet(sample_points(k, 2)))
            out.append(("tensor-single", TensorPointSet(facs)))
        if any(isinstance(k, tuple) for k in bk):
            out.append(("tensorflat", tensor_flat(kind, (2, 1, 3))))
            out.append(("tensornest", TensorPointSet([tensor(k, (2, 3)) if isinstance(k, tuple)
                                                      else PointSet(sample_points(k, 2)) for k in bk])))
    elif kind == "interval":
        for n in ((1, 2, 3, 4, 5) if full else (2, 3)):
            out.append(("gauss%d" % n, GaussLegendrePointSet(gauss(n))))
            if n >= 2:
                out.append(("lobatto%d" % n, GaussLobattoLegendrePointSet(lobatto(n))))
    elif kind in ("triangle", "tetrahedron") and full:
        d = cell_dim(kind)
        out.append(("tensoraxes", TensorPointSet([PointSet(numpy.array([[0.11 + 0.07 * i + 0.13 * j] for i in range(2 + (j == 0))]))
                                                  for j in range(d)])))
    return out


def index_extents(ps):
    return tuple(i.extent for i in ps.indices)


def flat_points(ps):
    return numpy.asarray(ps.points, dtype=float)


def shaped(table, nb, ps):
    """Model table [basis+value..., npts] -> [point structure..., basis+value...]."""
    t = numpy.moveaxis(table, -1, 0)
    return t.reshape(index_extents(ps) + t.shape[1:])
