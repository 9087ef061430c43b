"""Physical cells and the geometric oracle handed to physically mapped elements.

The geometry is symbolic (GEM variables), so that one generated expression is
evaluated on every cell of the alphabet, as in generated code.
"""
import itertools

import FIAT
import gem
import numpy
from finat.physically_mapped import PhysicalGeometry

from mc import ref


class Symbolic(PhysicalGeometry):
    """Affine simplex geometry with every quantity a run-time variable."""

    def __init__(self, cell_name, prefix=""):
        self.name = cell_name
        self.prefix = prefix
        self.ref_cell = ref.make_cell(cell_name)
        self.d = ref.cell_dim(cell_name)
        top = self.ref_cell.get_topology()
        self.nv = len(top[0])
        self.nf = len(top[self.d - 1])
        self.ne = len(top[1])
        self.asked = []

    def cell_size(self):
        return gem.Variable(self.prefix + "h", (self.nv,))

    def jacobian_at(self, point):
        self.asked.append(tuple(float(x) for x in point))
        return gem.Variable(self.prefix + "J", (self.d, self.d))

    def detJ_at(self, point):
        return gem.Variable(self.prefix + "detJ", ())

    def reference_normals(self):
        return gem.Literal(numpy.asarray([self.ref_cell.compute_normal(i) for i in range(self.nf)]))

    def physical_normals(self):
        return gem.Variable(self.prefix + "pn", (self.nf, self.d))

    def physical_tangents(self):
        return gem.Variable(self.prefix + "pt", (self.ne, self.d))

    def physical_edge_lengths(self):
        return gem.Variable(self.prefix + "pel", (self.ne,))

    def physical_points(self, ps, entity=None):
        raise NotImplementedError

    def physical_vertices(self):
        return gem.Variable(self.prefix + "pv", (self.nv, self.d))


def phys_cell(name, verts):
    cell = FIAT.ufc_simplex(ref.cell_dim(name))
    cell.vertices = tuple(tuple(float(x) for x in v) for v in verts)
    return cell


def quantities(name, verts, h):
    """Values of the geometric variables on one cell, computed from scratch."""
    verts = numpy.asarray(verts, dtype=float)
    d = ref.cell_dim(name)
    J = (verts[1:] - verts[0]).T
    top = ref.make_cell(name).get_topology()
    t = numpy.array([verts[top[1][e][1]] - verts[top[1][e][0]] for e in sorted(top[1])])
    length = numpy.linalg.norm(t, axis=1)
    out = {"J": J, "detJ": numpy.linalg.det(J), "pel": length, "h": numpy.asarray(h, dtype=float),
           "pt": t / length[:, None], "pv": verts}
    if d == 2:
        out["pn"] = numpy.stack([t[:, 1], -t[:, 0]], axis=1) / length[:, None]
    elif d == 1:
        out["pn"] = numpy.array([[-1.0], [1.0]])
        out["pt"] = t / length[:, None]
    else:
        n = []
        for f in sorted(top[2]):
            a, b, c = (verts[v] for v in top[2][f])
            m = -numpy.cross(b - a, c - a)
            n.append(m / numpy.linalg.norm(m))
        out["pn"] = numpy.array(n)
    return out


def batch(name, cells, idx):
    """Bindings for a batch [(verts, h)] along the gem index ``idx``."""
    qs = [quantities(name, v, h) for v, h in cells]
    return {k: (idx, numpy.array([q[k] for q in qs])) for k in qs[0]}


# ------------------------------------------------------------- the alphabets

SKEW2 = [((0.0, 0.1), (1.17, -0.09), (0.15, 1.84)), ((0.3, 0.2), (2.5, 0.4), (2.9, 1.1))]
SKEW3 = [((0, 0, 0), (1., 0.1, -0.37), (0.01, 0.987, -.23), (-0.1, -0.2, 1.38)),
         ((0.2, 0, 0.1), (2.1, 0.3, 0.4), (0.5, 0.8, 0.2), (0.9, 0.1, 0.7)),
         ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)),
         ((0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1))]


def triangles(tier):
    """All lattice triangles up to translation (every vertex order, both
    orientations) plus every vertex order of skew triangles."""
    r = 1 if tier == "quick" else 2
    vecs = [v for v in itertools.product(range(-r, r + 1), repeat=2) if any(v)]
    out = []
    for a, b in itertools.product(vecs, vecs):
        if a[0] * b[1] - a[1] * b[0]:
            out.append(((0, 0), a, b))
    for s in SKEW2:
        out += list(itertools.permutations(s))
    return out


def tetrahedra(tier):
    out = []
    for k, s in enumerate(SKEW3):
        out += list(itertools.permutations(s)) if tier != "quick" or k == 0 else [s, s[1:] + s[:1]]
    if tier != "quick":
        vecs = [v for v in itertools.product((0, 1), repeat=3) if any(v)]
        for t in itertools.product(vecs, repeat=3):
            if abs(numpy.linalg.det(numpy.array(t, dtype=float))) > 0.5:
                out.append(((0, 0, 0),) + t)
    return out


def intervals(tier):
    return [((0.0,), (1.0,)), ((0.25,), (2.0,)), ((1.0,), (0.5,)), ((3.0,), (-1.0,)), ((-0.5,), (-0.25,))]


def cells(name, tier):
    return {"interval": intervals, "triangle": triangles, "tetrahedron": tetrahedra}[name](tier)


def sizes(nv, tier):
    """Assignments of cell sizes to vertices: all of {1/2, 2}^nv, and distinct
    ones (only these on tetrahedra in the quick tier)."""
    out = [] if tier == "quick" and nv == 4 else [tuple(s) for s in itertools.product((0.5, 2.0), repeat=nv)]
    out += [(1.0,) * nv, (2.0, 3.0, 5.0, 7.0)[:nv], (7.0, 1.5, 3.0, 0.25)[:nv]]
    if tier != "quick":
        out += [tuple(p) for p in itertools.permutations((0.75, 1.25, 3.0, 5.0)[:nv])]
    return out
