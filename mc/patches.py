"""Two-cell patches: every pair of cells sharing a facet in the alphabet.

A cell is ``(vertex coordinates, global vertex numbers, cell sizes)`` for
simplices - local vertices are ordered by global number, as in a mesh - and
``(origin, J)`` for product cells, whose directions are aligned.
"""
import itertools

import numpy

from mc import ref

H = (2.0, 3.0, 5.0, 7.0, 1.5)

TRI = [  # shared edge P, Q and the opposite vertices A, B
    ((0, 0), (1, 0), (0, 1), (1, -1)),
    ((0, 0), (2, 1), (0, 2), (1, -1)),
    ((0, 0), (1, 1), (-1, 2), (3, 0)),
    ((0.1, 0.2), (1.3, -0.4), (0.7, 1.9), (0.2, -1.1)),
    ((0, 0), (0, 3), (-1, 1), (2, 2)),
    ((0.5, 0.25), (-1, 1), (-2, -1), (1, 2)),
]
TET = [  # shared face P, Q, R and the opposite vertices A, B
    ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0.2, 0.3, 1), (0.5, 0.6, -0.8)),
    ((0.1, 0, 0.2), (1.2, 0.3, -0.1), (0.2, 1.4, 0.3), (0.4, 0.1, 1.7), (0.9, 1.1, -1.2)),
]


def triangles(tier):
    out = list(TRI)
    if tier != "quick":
        pts = list(itertools.product((-1, 0, 1, 2), repeat=2))
        for Q in ((1, 0), (1, 1), (2, 1)):
            side = lambda X: Q[0] * X[1] - Q[1] * X[0]
            for A in pts:
                for B in pts:
                    if side(A) > 0 and side(B) < 0:
                        out.append(((0, 0), Q, A, B))
    return out


def tetrahedra(tier):
    out = list(TET)
    if tier != "quick":
        out += [((0, 0, 0), (1, 1, 0), (0, 1, 1), (1, 0, 2), (-1, 1, 0)),
                ((0, 0, 0), (2, 0, 1), (1, 2, 0), (0, 0, 1), (1, 1, -1))]
    return out


def simplex_patches(name, tier):
    """[(label, (cellA, facetA), (cellB, facetB))] for all numberings."""
    d = ref.cell_dim(name)
    if d == 1:
        pos = [((0.0,), (1.0,), (-2.0,)), ((0.5,), (0.25,), (2.0,))]
    else:
        pos = triangles(tier) if d == 2 else tetrahedra(tier)
    top = ref.make_cell(name).get_topology()
    out = []
    for p in pos:
        n = len(p)          # shared vertices first, then A, B
        # thorough position lists are long: keep all numberings for all of them
        for num in itertools.permutations(range(n)):
            # vertex k (of p) has global number num[k]
            sides = []
            for opp in (n - 2, n - 1):
                ids = sorted([k for k in range(n - 2)] + [opp], key=lambda k: num[k])
                verts = tuple(tuple(float(x) for x in p[k]) for k in ids)
                glob = tuple(num[k] for k in ids)
                h = tuple(H[k] for k in ids)
                local = tuple(i for i, k in enumerate(ids) if k < n - 2)
                facet = next(e for e, vs in top[d - 1].items() if tuple(sorted(vs)) == local)
                sides.append(((verts, glob, h), (d - 1, facet)))
            out.append(("%s numbered %s" % (p, num), sides[0], sides[1]))
    return out


def atoms(name):
    if isinstance(name, tuple):
        return [a for n in name for a in atoms(n)]
    if name in ("quadrilateral", "hexahedron"):
        return ["interval"] * ref.cell_dim(name)
    return [name]


def product_patches(name, tier):
    """Aligned patches of product cells: [(label, (cell, facet), (cell, facet))]
    with cell = (origin, J)."""
    ats = atoms(name)
    d = ref.cell_dim(name)
    base = numpy.array([[1.0, 0.3, -0.2], [0.1, 1.4, 0.25], [-0.3, 0.2, 0.8]])[:d, :d]
    alts = numpy.array([[0.7, 0.5, 0.4], [-0.4, 0.9, -0.3], [0.35, 0.15, 1.2]])[:d, :d]
    ents = [(e, o, a) for e, o, a in ref.entities(name) if a.shape[0] == d - 1]

    def facet(test):
        for e, o, a in ents:
            pts = o + ref._corner_points(ref.entity_kind(name, e[0])) @ a
            if all(test(x) for x in pts):
                return e
        raise ValueError

    out = []
    off = 0
    for at in ats:
        w = ref.cell_dim(at)
        if at == "interval":
            for scale in (1.0, 2.5):
                JA = base.copy()
                JB = base.copy()
                JB[:, off] = alts[:, off] * scale
                x0 = numpy.zeros(d)
                x1 = x0 + JA[:, off]
                out.append(("direction %d scale %g" % (off, scale), ((x0, JA), facet(lambda x: abs(x[off] - 1) < 1e-9)),
                            ((x1, JB), facet(lambda x: abs(x[off]) < 1e-9))))
        elif at == "triangle":
            # triangles of a 2-d patch, extruded along the other directions
            for label, (ca, fa), (cb, fb) in simplex_patches(at, "quick")[::1 if tier != "quick" else 5]:
                sides = []
                for (verts, glob, h), f in ((ca, fa), (cb, fb)):
                    V = numpy.zeros((3, d))
                    V[:, :2] = numpy.array(verts)
                    V[:, 2:] += numpy.array(verts)[:, :1] * 0.3       # tilt the base plane
                    J = base.copy()
                    J[:, off:off + 2] = (V[1:] - V[0]).T
                    rest = [k for k in range(d) if k < off or k >= off + 2]
                    J[:, rest] = numpy.array([[0.2], [0.1], [1.3]])[:d] * numpy.ones(len(rest))
                    loc = {0: (1, 2), 1: (0, 2), 2: (0, 1)}[f[1]]
                    miss = f[1]
                    bary = lambda x, off=off: (1 - x[off] - x[off + 1], x[off], x[off + 1])
                    sides.append(((V[0], J), facet(lambda x: abs(bary(x)[miss]) < 1e-9)))
                out.append((label,) + tuple(sides))
        off += w
    return out


def cell_map(name, cell):
    """(origin, J) of any cell of a patch."""
    if isinstance(cell[0], tuple) and isinstance(cell[0][0], tuple):
        v = numpy.array(cell[0])
        return v[0], (v[1:] - v[0]).T
    return cell


def match_entities(name, a, b):
    """Pairs of entities of the two cells that coincide in the shared facet."""
    (ca, fa), (cb, fb) = a, b
    out = []
    bary = []
    for c, f in (a, b):
        x0, J = cell_map(name, c)
        lst = []
        for e in ref.sub_entities(name, f):
            o, ax = ref.entity_map(name)[e]
            pts = o + ref._corner_points(ref.entity_kind(name, e[0])) @ ax
            lst.append((e, x0 + (pts @ J.T).mean(axis=0), ax.shape[0]))
        bary.append(lst)
    for e, x, k in bary[0]:
        hit = [e2 for e2, y, k2 in bary[1] if k2 == k and numpy.allclose(x, y, atol=1e-9)]
        assert len(hit) == 1, (name, e, hit)
        out.append((e, hit[0]))
    return out
