"""C03: run-time point evaluation agrees with tabulation.

State: (element, entity, derivative order, form of the run-time coordinates).
Transition: one derivative multi-index.  The coordinates are GEM expressions
with unknown (variable) entries; the generated code is evaluated afterwards at
several values of the unknowns and compared with the reference model (mc.ref)
at those points.  Forms of the coordinates: constants without free indices,
one free index, components depending on different free indices (in both
orders) combined arithmetically, and an index shared by all components.
"""
import itertools

import gem
import numpy

from mc import alphabet, build, ref
from mc.gemeval import evaluate

CHUNK = 4
ASSUMPTIONS = ["elements whose FIAT implementation rejects symbolic points (trimmed serendipity) are out of scope"]
# FIAT converts the symbolic points to floats and refuses
REFUSED = {"TrimmedSerendipityFace", "TrimmedSerendipityEdge", "TrimmedSerendipityDiv",
           "TrimmedSerendipityCurl"}


_memo = {}


def _memoise_fiat():
    """FIAT's symbolic tabulation dominates the cost: share it between equal
    FIAT elements (equal coefficients and equal values at generic points)."""
    from FIAT.finite_element import CiarletElement
    if getattr(CiarletElement.tabulate, "memoised", False):
        return
    orig = CiarletElement.tabulate

    def tabulate(self, order, points, entity=None):
        if len(points) != 1 or any(isinstance(x, (int, float)) for x in points[0]):
            return orig(self, order, points, entity)
        cell = self.get_reference_element()
        gen = [tuple((0.07 + 0.011 * k + 0.13 * i) for i in range(cell.get_spatial_dimension())) for k in range(4)]
        key = (type(self).__name__, str(points), order, entity, self.degree(), tuple(map(tuple, cell.get_vertices())),
               numpy.asarray(self.get_coeffs(), dtype=float).tobytes(),
               numpy.asarray(orig(self, 0, gen)[(0,) * len(gen[0])], dtype=float).tobytes())
        if key not in _memo:
            _memo[key] = orig(self, order, points, entity)
        return {a: (t if isinstance(t, Exception) else numpy.array(t)) for a, t in _memo[key].items()}

    tabulate.memoised = True
    CiarletElement.tabulate = tabulate


def bound(tier):
    return ("all leaves (%s degrees) and composites; all entities; orders 0..2 on the interior, 0..1 "
            "elsewhere (quick: interior only for three-dimensional unions, blocks and value tensors); 4 coordinate forms" % tier)


def leaves_of(spec):
    if spec[0] == "leaf":
        return [spec]
    if isinstance(spec[1], tuple) and spec[1] and isinstance(spec[1][0], tuple):
        return [l for s in spec[1] for l in leaves_of(s)]
    return leaves_of(spec[1])


def tasks(tier):
    out = [["leaf", list(s)] for s in alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier)]
    out += [["comp", list(s)] for s in alphabet.composites("quick")]
    return out


def cost(task):
    s = ref.tup(task[1])
    return (task[0] == "leaf"), ref.cell_dim(ref.cell_of(s)), s[3] or 0 if s[0] == "leaf" else 0, len(str(s))


def forms(esd, pts, full):
    """[(label, refcoords, indices, bindings, points[index structure + (esd,)])]"""
    n = len(pts)
    if esd == 0:
        return [("vertex", gem.Literal(numpy.zeros(0)), (), {}, numpy.zeros((0,)))]
    out = []
    # components moving along different indices: x_c = A[c, i_(c mod 2)] + ..., exact on a grid
    i, j = gem.Index(name="i", extent=2), gem.Index(name="j", extent=n)
    A = gem.Variable("A", (2,))
    X = gem.Variable("X", (n, esd))
    comp = []
    for c in range(esd):
        x = gem.Indexed(X, (j, c))
        # contract towards a fixed interior point by a factor depending on i only
        if c % 2 == 0:
            x = gem.Sum(gem.Product(gem.Indexed(A, (i,)), x),
                        gem.Product(gem.Literal(0.05), gem.Sum(gem.Literal(1), gem.Product(gem.Literal(-1), gem.Indexed(A, (i,))))))
        comp.append(x)
    a = numpy.array([1.0, 0.9])
    grid = numpy.broadcast_to(pts[None], (2, n, esd)).copy()
    for c in range(0, esd, 2):
        grid[:, :, c] = a[:, None] * pts[None, :, c] + 0.05 * (1 - a[:, None])
    out.append(("mixed-indices", gem.ListTensor(comp), (i, j), {"A": a, "X": pts}, grid))
    if not full:
        return out
    q = gem.Index(name="q", extent=n)
    X1 = gem.Variable("Y", (n, esd))
    out.append(("one-index", gem.partial_indexed(X1, (q,)), (q,), {"Y": pts}, pts))
    x0 = gem.Variable("x0", (esd,))
    out.append(("unknown", x0, (), {"x0": pts[0]}, pts[0]))
    out.append(("constant", gem.Literal(pts[-1]), (), {}, pts[-1]))
    return out


def run(task, ctx):
    _memoise_fiat()
    kind, spec = task[0], ref.tup(task[1])
    case0 = ref.show(spec)
    fams = {l[1] for l in leaves_of(spec)}
    if fams & REFUSED:
        ctx.skip("symbolic points rejected by FIAT")
        return
    model = ref.model(spec)
    name = model.name
    dim = model.dim
    top = ref.top_entity(name)
    macro = any(ref.model(l).el.get_reference_complex().is_macrocell() for l in leaves_of(spec))
    with ctx.guard(case0, "construction"):
        el = build.element(spec)
        made = {}       # entities of one kind are asked with the very same coordinate expressions
        for ent, _, _ in ref.entities(name):
            interior = ent == top
            ekind = ref.entity_kind(name, ent[0])
            esd = ref.entity_dim(name, ent)
            pts = ref.sample_points(ekind, 3 if dim < 3 else 2)
            order = (2 if kind == "leaf" or ctx.tier == "thorough" else 1) if interior else \
                (1 if kind == "leaf" or ctx.tier == "thorough" else 0)
            if fams == {"HDivTrace"}:
                order = 0
            if macro and not interior:
                order = 0       # derivatives are two-valued between the pieces
            if fams & {"HDivTrace"} and not interior:
                ctx.skip("symbolic points on facets rejected by FIAT")
                continue
            heavy = kind == "leaf" and (spec[3] or 0) * dim >= 6 and dim > 1
            light = False
            if light and not interior:
                continue       # the same evaluation code as the parts, composed as in C02
            if heavy and ctx.tier == "quick":
                order = min(order, 1) if interior else 0
            full = interior and not light and not (heavy and ctx.tier == "quick")
            for label, x, indices, bindings, P in made.setdefault((ekind, full), forms(esd, pts, full)):
                o = order if label == "mixed-indices" or ctx.tier == "thorough" else (min(order, 1) if kind == "leaf" else 0)
                case = "%s entity=%s order=%d coords=%s" % (case0, ent, o, label)
                ctx.state((spec, ent, o, label))
                with ctx.guard(case, "point_evaluation"):
                    X = ref.map_points(name, ent, P.reshape((-1, esd) if esd else (1, 0)))
                    want = model.tab(o, X)
                    res = el.point_evaluation(o, x, ent)
                    compare(ctx, case, model, res, want, o, dim, indices, bindings)
                    if interior and label == "unknown":
                        res = el.point_evaluation(0, x)
                        compare(ctx, case + " (default entity)", model, res, want, 0, dim, indices, bindings)
    ctx.sample(case0)


def compare(ctx, case, model, res, want, order, dim, indices, bindings):
    keys = {a for k in range(order + 1) for a in ref.mis(dim, k)}
    ctx.equal(set(map(tuple, res)), keys, case, "derivative multi-indices")
    shape = model.index_shape + model.value_shape
    ext = tuple(i.extent for i in indices)
    for alpha in sorted(keys & set(res)):
        g = res[alpha]
        ctx.step()
        w = want[alpha]
        if isinstance(g, gem.Failure) or numpy.isnan(w).any():
            ctx.expect(isinstance(g, gem.Failure) == bool(numpy.isnan(w).any()), case, "failure table %s" % (alpha,))
            ctx.equal(tuple(g.shape), shape, case, "shape of table %s" % (alpha,))
            continue
        if not ctx.equal(tuple(g.shape), shape, case, "shape of table %s" % (alpha,)):
            continue
        if not ctx.expect(all(any(f is i for i in indices) for f in g.free_indices), case,
                          "table %s: free indices not carried by the coordinates" % (alpha,)):
            continue
        got = evaluate(g, indices, bindings)
        w = numpy.moveaxis(w, -1, 0).reshape(ext + shape)
        ctx.close(got, w, case, "table %s" % (alpha,), rtol=1e-7, atol=1e-8)
        ctx.outcome((got.shape, numpy.round(got, 5).tobytes()))
