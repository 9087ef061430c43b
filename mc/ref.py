"""Reference models of finite elements, independent of FInAT.

A model is built from the same specification (a nested tuple) as the FInAT
element under test, using only FIAT leaf elements, numpy and the textbook
definition of each composition.  ``tab(order, pts)`` returns
``{alpha: array[index_shape + value_shape + (npts,)]}`` in cell coordinates.
"""
import itertools
from functools import lru_cache

import numpy
import FIAT
from FIAT.reference_element import TensorProductCell, UFCHexahedron, UFCQuadrilateral


# ---------------------------------------------------------------- cells

@lru_cache(maxsize=None)
def make_cell(name):
    if isinstance(name, tuple):
        return TensorProductCell(*[make_cell(n) for n in name])
    if name == "quadrilateral":
        return UFCQuadrilateral()
    if name == "hexahedron":
        return UFCHexahedron()
    return FIAT.ufc_cell(name)


CELL_DIM = {"vertex": 0, "interval": 1, "triangle": 2, "tetrahedron": 3,
            "quadrilateral": 2, "hexahedron": 3}


def cell_dim(name):
    if isinstance(name, tuple):
        return sum(cell_dim(n) for n in name)
    return CELL_DIM[name]


def unflattened(name):
    """The product cell a hypercube is the flattening of."""
    return ("interval",) * cell_dim(name)


def entity_kind(name, dim):
    """Reference shape of an entity of dimension ``dim``."""
    if isinstance(name, tuple):
        return tuple(entity_kind(n, d) for n, d in zip(name, dim))
    if name in ("quadrilateral", "hexahedron"):
        return {0: "vertex", 1: "interval", 2: "quadrilateral", 3: "hexahedron"}[dim]
    return {0: "vertex", 1: "interval", 2: "triangle", 3: "tetrahedron"}[dim]


@lru_cache(maxsize=None)
def entities(name):
    """All (dim, number) of a cell, with the affine map from the reference
    entity: list of ((dim, e), origin, axes) with x = origin + xi @ axes."""
    if isinstance(name, tuple):
        out = {}
        per = []
        for n in name:
            d = {}
            for (dim, e), o, a in entities(n):
                d.setdefault(dim, []).append((e, o, a))
            per.append(d)
        for dims in itertools.product(*[sorted(p) for p in per]):
            lst = []
            for combo in itertools.product(*[sorted(p[d], key=lambda t: t[0]) for p, d in zip(per, dims)]):
                o = numpy.concatenate([c[1] for c in combo])
                tot = len(o)
                rows = []
                off = 0
                for c in combo:
                    blk = numpy.zeros((c[2].shape[0], tot))
                    blk[:, off:off + len(c[1])] = c[2]
                    rows.append(blk)
                    off += len(c[1])
                a = numpy.concatenate(rows) if rows else numpy.zeros((0, tot))
                lst.append((o, a))
            out[dims] = lst
        return [((dims, e), o, a) for dims, lst in out.items() for e, (o, a) in enumerate(lst)]
    cell = make_cell(name)
    verts = numpy.array(cell.get_vertices(), dtype=float)
    top = cell.get_topology()
    if name in ("quadrilateral", "hexahedron"):
        prod = unflattened(name)
        pverts = {}
        for (dims, e), o, a in entities(prod):
            corners = frozenset(tuple(numpy.round(o + numpy.array(b) @ a, 9))
                                for b in itertools.product((0, 1), repeat=a.shape[0]))
            pverts[corners] = (o, a)
        out = []
        for dim in sorted(top):
            for e in sorted(top[dim]):
                corners = frozenset(tuple(numpy.round(verts[v], 9)) for v in top[dim][e])
                o, a = pverts[corners]
                out.append(((dim, e), o, a))
        return out
    out = []
    for dim in sorted(top):
        for e in sorted(top[dim]):
            vs = verts[list(top[dim][e])]
            out.append(((dim, e), vs[0], vs[1:] - vs[0]))
    return out


@lru_cache(maxsize=None)
def entity_map(name):
    return {ent: (o, a) for ent, o, a in entities(name)}


@lru_cache(maxsize=None)
def top_entity(name):
    return max(entities(name), key=lambda t: t[2].shape[0])[0]


def entity_dim(name, entity):
    """Topological dimension of an entity as an integer."""
    return entity_map(name)[entity][1].shape[0]


def map_points(name, entity, pts):
    o, a = entity_map(name)[entity]
    pts = numpy.asarray(pts, dtype=float).reshape(len(pts), a.shape[0])
    return o + pts @ a


def flatten_entity_map(name):
    """{flattened entity: product entity} of a hypercube by geometry."""
    prod = unflattened(name)
    key = lambda o, a: (tuple(numpy.round(o, 9)), tuple(numpy.round(a, 9).ravel()))
    byshape = {key(o, a): ent for ent, o, a in entities(prod)}
    return {ent: byshape[key(o, a)] for ent, o, a in entities(name)}


def sub_entities(name, entity):
    """Entities in the closure of ``entity`` (by vertex containment)."""
    cell = make_cell(name)
    top = cell.get_topology()
    if isinstance(name, tuple):
        o, a = entity_map(name)[entity]
        kinds = entity_kind(name, entity[0])
        pts = _corner_points(kinds)
        V = {tuple(numpy.round(p, 9)) for p in o + pts @ a}
        out = []
        for (ent, o2, a2) in entities(name):
            p2 = _corner_points(entity_kind(name, ent[0]))
            W = {tuple(numpy.round(p, 9)) for p in o2 + p2 @ a2}
            if W <= V:
                out.append(ent)
        return out
    V = set(top[entity[0]][entity[1]])
    return [(d, e) for d in top for e in top[d] if set(top[d][e]) <= V]


def _corner_points(kind):
    if isinstance(kind, tuple):
        parts = [_corner_points(k) for k in kind]
        return numpy.array([numpy.concatenate(c) for c in itertools.product(*parts)])
    if kind == "vertex":
        return numpy.zeros((1, 0))
    if kind in ("quadrilateral", "hexahedron"):
        return _corner_points(("interval",) * CELL_DIM[kind])
    d = CELL_DIM[kind]
    return numpy.concatenate([numpy.zeros((1, d)), numpy.eye(d)])


def mis(dim, order):
    """All multi-indices of length dim and total order, any order of listing."""
    if dim == 0:
        return [()] if order == 0 else []
    return [a for a in itertools.product(range(order + 1), repeat=dim) if sum(a) == order]


# ---------------------------------------------------------------- lattices

LINE_PTS = [0.1307, 0.3911, 0.7213, 0.8871, 0.2718]
TRI_PTS = [(0.1307, 0.2591), (0.5117, 0.1719), (0.2273, 0.6113), (0.3519, 0.3037), (0.0713, 0.0931)]
TET_PTS = [(0.1307, 0.2591, 0.1117), (0.4517, 0.1019, 0.1931), (0.1273, 0.5113, 0.0871),
           (0.2219, 0.1637, 0.4903), (0.0613, 0.0831, 0.0427)]


def sample_points(kind, n=3):
    """Generic points strictly inside a reference entity."""
    if isinstance(kind, tuple):
        d = [sample_points(k, n) for k in kind]
        pts = []
        for i in range(n):
            pts.append(numpy.concatenate([p[(i + j) % len(p)] for j, p in enumerate(d)]))
        return numpy.array(pts).reshape(n, -1)
    if kind == "vertex":
        return numpy.zeros((1, 0))
    if kind == "interval":
        return numpy.array(LINE_PTS[:n]).reshape(-1, 1)
    if kind == "triangle":
        return numpy.array(TRI_PTS[:n])
    if kind == "tetrahedron":
        return numpy.array(TET_PTS[:n])
    if kind in ("quadrilateral", "hexahedron"):
        return sample_points(("interval",) * CELL_DIM[kind], n)
    raise ValueError(kind)


def lattice(kind, k):
    """Points unisolvent for degree k polynomials, off the boundary."""
    if isinstance(kind, tuple):
        parts = [lattice(x, k) for x in kind]
        return numpy.array([numpy.concatenate(c) for c in itertools.product(*parts)])
    if kind == "vertex":
        return numpy.zeros((1, 0))
    if kind == "interval":
        return ((numpy.arange(k + 1) + 0.5) / (k + 1)).reshape(-1, 1)
    if kind in ("quadrilateral", "hexahedron"):
        return lattice(("interval",) * CELL_DIM[kind], k)
    d = CELL_DIM[kind]
    pts = [numpy.array(a) for a in itertools.product(range(k + 1), repeat=d) if sum(a) <= k]
    return (numpy.array(pts) + 1.0 / (d + 1)) / (k + 1)


# ---------------------------------------------------------------- models

class Ref:
    name = None        # cell name
    index_shape = None
    value_shape = None
    mapping = None
    formdegree = None

    @property
    def dim(self):
        return cell_dim(self.name)

    @property
    def ndofs(self):
        return int(numpy.prod(self.index_shape, dtype=int))

    def tab(self, order, pts):
        raise NotImplementedError

    def entity_dofs(self):
        """{(dim, e): [flat dof]}"""
        raise NotImplementedError

    def closure_dofs(self):
        ed = self.entity_dofs()
        return {ent: sorted(d for s in sub_entities(self.name, ent) for d in ed[s]) for ent in ed}

    @property
    def polydegree(self):
        """Upper bound of the per-direction degree (for support lattices)."""
        raise NotImplementedError

    def support(self):
        """{(dim, e): [flat dof nonzero there]} by exhaustive lattice sampling
        (a polynomial of degree k vanishing on the k-lattice vanishes)."""
        out = {}
        for ent, o, a in entities(self.name):
            pts = lattice(entity_kind(self.name, ent[0]), self.polydegree + 1)
            xs = o + pts @ a
            t = self.tab(0, xs)[(0,) * self.dim]
            if not numpy.isfinite(t).all():
                out[ent] = None
                continue
            m = numpy.abs(t.reshape(self.ndofs, -1)).max(axis=1)
            out[ent] = ([int(i) for i in numpy.flatnonzero(m > 1e-6)],
                        [int(i) for i in numpy.flatnonzero((m > 1e-11) & (m <= 1e-6))])
        return out


FIAT_NAME = {"Real": "DiscontinuousLagrange"}


def fiat_leaf(spec):
    _, family, cname, degree, variant = spec
    cls = getattr(FIAT, FIAT_NAME.get(family, family))
    kw = {} if variant is None else {"variant": variant}
    args = (make_cell(cname),) if degree is None else (make_cell(cname), degree)
    return cls(*args, **kw)


class Leaf(Ref):
    def __init__(self, spec):
        self.spec = spec
        self.name = spec[2]
        self.el = fiat_leaf(spec)
        self.index_shape = (self.el.space_dimension(),)
        self.value_shape = tuple(self.el.value_shape())
        ms = set(self.el.mapping())
        self.mapping = ms.pop() if len(ms) == 1 else None
        self.formdegree = self.el.get_formdegree()

    def tab(self, order, pts):
        pts = numpy.asarray(pts, dtype=float)
        res = self.el.tabulate(order, [tuple(p) for p in pts])
        out = {}
        for a, t in res.items():
            if isinstance(t, Exception):
                out[a] = numpy.full(self.index_shape + self.value_shape + (len(pts),), numpy.nan)
            else:
                out[a] = numpy.asarray(t, dtype=float).reshape(self.index_shape + self.value_shape + (len(pts),))
        return out

    def entity_dofs(self):
        ed = self.el.entity_dofs()
        return {(d, e): sorted(v) for d in ed for e, v in ed[d].items()}

    @property
    def polydegree(self):
        d = self.el.degree() + 2
        # piecewise polynomials: refine the lattice
        return 3 * d if self.el.get_reference_complex().is_macrocell() else d


class Product(Ref):
    def __init__(self, factors):
        self.factors = factors
        self.name = tuple(f.name for f in factors)
        self.index_shape = sum((f.index_shape for f in factors), ())
        self.value_shape = sum((f.value_shape for f in factors), ())
        ms = [f.mapping for f in factors if f.mapping != "affine"]
        self.mapping = "affine" if not ms else (ms[0] if len(ms) == 1 else None)
        fds = [f.formdegree for f in factors]
        self.formdegree = None if any(not isinstance(k, int) for k in fds) else sum(fds)

    def tab(self, order, pts):
        pts = numpy.asarray(pts, dtype=float)
        off = 0
        tabs, sl = [], []
        for f in self.factors:
            d = f.dim
            tabs.append(f.tab(order, pts[:, off:off + d]))
            sl.append(slice(off, off + d))
            off += d
        out = {}
        for k in range(order + 1):
            for alpha in mis(self.dim, k):
                ops = []
                letter = 0
                idx, val = [], []
                P = 51
                for f, t, s in zip(self.factors, tabs, sl):
                    a = t[alpha[s]]
                    ni, nv = len(f.index_shape), len(f.value_shape)
                    ii = list(range(letter, letter + ni))
                    letter += ni
                    vv = list(range(letter, letter + nv))
                    letter += nv
                    idx += ii
                    val += vv
                    ops += [a, ii + vv + [P]]
                out[alpha] = numpy.einsum(*ops, idx + val + [P])
        return out

    def entity_dofs(self):
        eds = [f.entity_dofs() for f in self.factors]
        shape = tuple(f.ndofs for f in self.factors)
        nums = []
        for f, ed in zip(self.factors, eds):
            c = {}
            for (d, e) in ed:
                c.setdefault(d, []).append(e)
            nums.append({d: sorted(v) for d, v in c.items()})
        out = {}
        for dims in itertools.product(*nums):
            k = 0
            for es in itertools.product(*[n[d] for n, d in zip(nums, dims)]):
                dofs = [int(numpy.ravel_multi_index(c, shape))
                        for c in itertools.product(*[ed[(d, e)] for ed, d, e in zip(eds, dims, es)])]
                out[(dims, k)] = sorted(dofs)
                k += 1
        return out

    @property
    def polydegree(self):
        return max(f.polydegree for f in self.factors)


class Flat(Ref):
    def __init__(self, product):
        self.product = product
        self.name = {2: "quadrilateral", 3: "hexahedron"}[product.dim]
        for k in ("index_shape", "value_shape", "mapping", "formdegree"):
            setattr(self, k, getattr(product, k))

    def tab(self, order, pts):
        return self.product.tab(order, pts)

    def entity_dofs(self):
        ed = {}
        # (product cells may be nested: match entities by geometry)
        key = lambda o, a: (tuple(numpy.round(o, 9)), tuple(numpy.round(a, 9).ravel()))
        byshape = {key(o, a): ent for ent, o, a in entities(self.product.name)}
        ped = self.product.entity_dofs()
        for ent, o, a in entities(self.name):
            ed[ent] = sorted(ped[byshape[key(o, a)]])
        return ed

    @property
    def polydegree(self):
        return self.product.polydegree


class Enriched(Ref):
    def __init__(self, parts):
        self.parts = parts
        self.name = parts[0].name
        self.value_shape = parts[0].value_shape
        assert all(p.value_shape == self.value_shape and p.name == self.name for p in parts)
        self.index_shape = (sum(p.ndofs for p in parts),)
        ms = {p.mapping for p in parts}
        self.mapping = ms.pop() if len(ms) == 1 else None
        fds = [p.formdegree for p in parts]
        self.formdegree = None if any(not isinstance(k, int) for k in fds) else max(fds)

    def tab(self, order, pts):
        tabs = [p.tab(order, pts) for p in self.parts]
        return {a: numpy.concatenate([t[a].reshape((p.ndofs,) + self.value_shape + (len(pts),))
                                      for t, p in zip(tabs, self.parts)]) for a in tabs[0]}

    def entity_dofs(self):
        out = {}
        off = 0
        for p in self.parts:
            for ent, ds in p.entity_dofs().items():
                out.setdefault(ent, []).extend(off + d for d in ds)
            off += p.ndofs
        return out

    @property
    def polydegree(self):
        return max(p.polydegree for p in self.parts)


class Tensor(Ref):
    def __init__(self, base, shape, transpose):
        self.base, self.shape, self.transpose = base, tuple(shape), transpose
        self.name = base.name
        self.index_shape = (self.shape + base.index_shape) if transpose else (base.index_shape + self.shape)
        self.value_shape = self.shape + base.value_shape
        self.mapping, self.formdegree = base.mapping, base.formdegree

    def tab(self, order, pts):
        n = int(numpy.prod(self.shape, dtype=int))
        eye = numpy.eye(n).reshape(self.shape + self.shape)
        out = {}
        nb, nv, ns = len(self.base.index_shape), len(self.base.value_shape), len(self.shape)
        ib = list(range(nb))
        iv = list(range(nb, nb + nv))
        si = list(range(nb + nv, nb + nv + ns))
        sv = list(range(nb + nv + ns, nb + nv + 2 * ns))
        P = 51
        for a, t in self.base.tab(order, pts).items():
            o = (si + ib if self.transpose else ib + si) + sv + iv + [P]
            out[a] = numpy.einsum(t, ib + iv + [P], eye, si + sv, o)
        return out

    def entity_dofs(self):
        n = int(numpy.prod(self.shape, dtype=int))
        nb = self.base.ndofs
        out = {}
        for ent, ds in self.base.entity_dofs().items():
            if self.transpose:
                out[ent] = sorted(c * nb + d for d in ds for c in range(n))
            else:
                out[ent] = sorted(d * n + c for d in ds for c in range(n))
        return out

    @property
    def polydegree(self):
        return self.base.polydegree


class Padded(Ref):
    """One block of a mixed element."""

    def __init__(self, base, size, offset):
        self.base, self.size, self.offset = base, size, offset
        self.name = base.name
        self.index_shape = base.index_shape
        self.value_shape = (size,)
        self.mapping, self.formdegree = base.mapping, base.formdegree

    def tab(self, order, pts):
        out = {}
        nb = len(self.base.index_shape)
        vs = int(numpy.prod(self.base.value_shape, dtype=int))
        for a, t in self.base.tab(order, pts).items():
            r = numpy.zeros(self.index_shape + (self.size, len(pts)))
            r[(slice(None),) * nb + (slice(self.offset, self.offset + vs),)] = \
                t.reshape(self.index_shape + (vs, len(pts)))
            out[a] = r
        return out

    def entity_dofs(self):
        return self.base.entity_dofs()

    @property
    def polydegree(self):
        return self.base.polydegree


def Mixed(parts):
    sizes = [int(numpy.prod(p.value_shape, dtype=int)) for p in parts]
    offs = numpy.cumsum([0] + sizes)
    blocks = [Padded(p, int(offs[-1]), int(o)) for p, o in zip(parts, offs)]
    return blocks[0] if len(blocks) == 1 else Enriched(blocks)


class Wrapped(Ref):
    def __init__(self, base, kind):
        self.base = base
        self.kind = kind
        self.name = base.name
        self.index_shape = base.index_shape
        self.value_shape = (self.dim,)
        self.formdegree = self.dim - 1 if kind == "hdiv" else 1
        self.mapping = "contravariant piola" if kind == "hdiv" else "covariant piola"
        ks = tuple(f.formdegree for f in base.factors)
        d = self.dim
        M = numpy.zeros((d, max(1, int(numpy.prod(base.value_shape, dtype=int)))))
        if kind == "hdiv":
            if ks == (0, 1):
                M[0, 0] = -1
            elif ks == (1, 0):
                M[1, 0] = 1
            elif ks == (2, 0):
                M[2, 0] = 1
            elif ks == (1, 1) and base.mapping == "contravariant piola":
                M[0, 0] = M[1, 1] = 1
            elif ks == (1, 1) and base.mapping == "covariant piola":
                M[0, 1] = 1
                M[1, 0] = -1
            else:
                raise ValueError
        else:
            if base.mapping == "affine" and ks == (1, 0):
                M[0, 0] = 1
            elif base.mapping == "affine" and ks == (0, 1):
                M[d - 1, 0] = 1
            elif base.mapping == "covariant piola":
                M[0, 0] = M[1, 1] = 1
            elif base.mapping == "contravariant piola":
                M[0, 1] = -1
                M[1, 0] = 1
            else:
                raise ValueError
        self.M = M

    def tab(self, order, pts):
        out = {}
        for a, t in self.base.tab(order, pts).items():
            t = t.reshape(self.index_shape + (self.M.shape[1], len(pts)))
            out[a] = numpy.einsum("vw,...wp->...vp", self.M, t)
        return out

    def entity_dofs(self):
        return self.base.entity_dofs()

    @property
    def polydegree(self):
        return self.base.polydegree


class Disc(Ref):
    def __init__(self, base):
        self.base = base
        self.name = base.name
        self.index_shape, self.value_shape, self.mapping = base.index_shape, base.value_shape, base.mapping
        self.formdegree = self.dim

    def tab(self, order, pts):
        return self.base.tab(order, pts)

    def entity_dofs(self):
        top = top_entity(self.name)
        return {ent: (list(range(self.ndofs)) if ent == top else []) for ent in self.base.entity_dofs()}

    @property
    def polydegree(self):
        return self.base.polydegree


class NodalEnriched(Ref):
    """Union of the parts' nodes with the basis made nodal: values solve the
    generalised Vandermonde system of all nodes against all bases."""

    def __init__(self, parts):
        assert all(isinstance(p, Leaf) for p in parts)
        self.el = FIAT.NodalEnrichedElement(*[p.el for p in parts])
        self.parts = parts
        self.name = parts[0].name
        self.index_shape = (sum(p.ndofs for p in parts),)
        self.value_shape = parts[0].value_shape
        ms = {p.mapping for p in parts}
        self.mapping = ms.pop() if len(ms) == 1 else None
        fds = [p.formdegree for p in parts]
        self.formdegree = None if any(not isinstance(k, int) for k in fds) else max(fds)

    tab = Leaf.tab
    entity_dofs = Leaf.entity_dofs

    @property
    def polydegree(self):
        return max(p.polydegree for p in self.parts)


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


@lru_cache(maxsize=4096)
def model(spec):
    op = spec[0]
    if op == "leaf":
        return Leaf(spec)
    if op == "tp":
        return Product([model(s) for s in spec[1]])
    if op == "flat":
        return Flat(model(spec[1]))
    if op == "enriched":
        parts = []
        for s in spec[1]:
            m = model(s)
            parts += m.parts if isinstance(m, Enriched) else [m]
        return Enriched(parts) if len(parts) > 1 else parts[0]
    if op == "mixed":
        return Mixed([model(s) for s in spec[1]])
    if op == "tfe":
        return Tensor(model(spec[1]), spec[2], spec[3])
    if op in ("hdiv", "hcurl"):
        return Wrapped(model(spec[1]), op)
    if op == "disc":
        return Disc(model(spec[1]))
    if op == "nodalenriched":
        return NodalEnriched([model(s) for s in spec[1]])
    raise ValueError(op)


def cell_of(spec):
    op = spec[0]
    if op == "leaf":
        return spec[2]
    if op == "tp":
        return tuple(cell_of(s) for s in spec[1])
    if op == "flat":
        return {2: "quadrilateral", 3: "hexahedron"}[cell_dim(cell_of(spec[1]))]
    if op in ("enriched", "mixed", "nodalenriched"):
        return cell_of(spec[1][0])
    if op == "zany":
        return spec[2]
    if op == "dser":
        return "quadrilateral"
    if op == "quad":
        return spec[1]
    return cell_of(spec[1])


def show(spec):
    op = spec[0]
    if op == "leaf":
        _, fam, c, deg, var = spec
        c = c if isinstance(c, str) else "x".join(map(str, c))
        return "%s(%s,%s%s)" % (fam, c, deg, "," + var if var else "")
    if op in ("tp", "enriched", "mixed", "nodalenriched"):
        return "%s[%s]" % (op, ", ".join(show(s) for s in spec[1]))
    if op == "tfe":
        return "tfe[%s, %s%s]" % (show(spec[1]), spec[2], ", T" if spec[3] else "")
    if op == "restricted":
        return "restricted[%s, %s]" % (show(spec[1]), spec[2])
    if op == "zany":
        return "%s(%s,%s%s)" % (spec[1], spec[2], spec[3], "".join(",%s=%s" % k for k in spec[4]))
    if op in ("dser", "quad"):
        return "%s%s" % (op, spec[1:])
    return "%s[%s]" % (op, show(spec[1]))
