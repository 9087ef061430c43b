"""C06: entity permutations describe the action of reorienting an entity.

State: (element, entity, orientation); transitions: one permuted degree of
freedom and one composition of two orientations.  Oracle: leaves act on their
nodes' coordinates (point-nodal families, decided geometrically) or as FIAT
says; products, flattenings, unions and wrappers act as defined by
``canonical[ap[i]] = p_i(local[i])`` over all factor orientations, evaluated by
explicit enumeration of multi-indices.
"""
import itertools

import numpy

from mc import alphabet, build, ref

CHUNK = 16
ASSUMPTIONS = ["FIAT's permutations of moment and modal leaves are correct"]
NO_PERMS = {"Serendipity", "DPC", "BrezziDouglasMariniCubeEdge", "BrezziDouglasMariniCubeFace",
            "TrimmedSerendipityFace", "TrimmedSerendipityEdge", "TrimmedSerendipityDiv",
            "TrimmedSerendipityCurl"}


class Unsupported(Exception):
    pass


def bound(tier):
    return "all leaves and composites(%r); all entities; all orientations; all pairs of orientations" % tier


def tasks(tier):
    specs = alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) + alphabet.composites(tier)
    L, tp, flat = alphabet.leaf, alphabet.tp, alphabet.flat
    I = "interval"
    for k in range(1, 6 if tier == "thorough" else 5):
        for v in (None, "spectral"):
            e = L("Lagrange", I, k, v)
            specs += [tp(e, e), flat(tp(e, e)), tp(e, L("GaussLegendre", I, k)),
                      tp(e, L("Lagrange", "triangle", k)), tp(L("Lagrange", "triangle", k), e)]
            if k < 4:
                specs += [tp(e, e, e), flat(tp(e, e, e)), tp(flat(tp(e, e)), e)]
    out = []
    for s in specs:
        if s not in out[-1:]:
            out.append(s)
    seen = set()
    return [list(s) for s in out if not (s in seen or seen.add(s))]


def orientation_vertex_maps(kind):
    n = {"vertex": 1, "interval": 2, "triangle": 3, "tetrahedron": 4}[kind]
    return dict(enumerate(sorted(itertools.permutations(range(n)))))


def leaf_perms(spec, ctx, case):
    if spec[1] in NO_PERMS:
        raise Unsupported("family without permutations")
    m = ref.model(spec)
    try:
        perms = m.el.entity_permutations()
    except NotImplementedError:
        raise Unsupported("leaf without permutations")
    return {(d, e): {o: list(p) for o, p in om.items()} for d in perms for e, om in perms[d].items()}


def geometric(spec):
    """{entity: {o: perm}} from the coordinates of the nodes, or None."""
    m = ref.model(spec)
    if m.el.get_reference_complex().is_macrocell() or isinstance(spec[2], tuple):
        return None
    nodes = m.el.dual_basis()
    pts = []
    for node in nodes:
        if node.deriv_dict or len(node.pt_dict) != 1:
            return None
        (x, w), = node.pt_dict.items()
        if len(w) != 1 or abs(w[0][0] - 1) > 1e-12 or w[0][1] not in ((), (0,)):
            return None
        pts.append(numpy.array(x, dtype=float))
    raw = m.el.entity_dofs()
    out = {}
    for (ent, o, a) in ref.entities(spec[2]):
        dofs = raw[ent[0]][ent[1]]
        kind = ref.entity_kind(spec[2], ent[0])
        if kind not in ("vertex", "interval", "triangle", "tetrahedron"):
            return None
        bary = []
        for d in dofs:
            if a.shape[0]:
                xi = numpy.linalg.lstsq(a.T, pts[d] - o, rcond=None)[0]
                if numpy.abs(o + xi @ a - pts[d]).max() > 1e-9:
                    return None
            else:
                xi = numpy.zeros(0)
            bary.append(numpy.concatenate([[1 - xi.sum()], xi]))
        res = {}
        for orient, sigma in orientation_vertex_maps(kind).items():
            p = []
            for b in bary:
                c = numpy.zeros_like(b)
                for i, s in enumerate(sigma):
                    c[s] = b[i]
                k = [j for j, q in enumerate(bary) if numpy.abs(q - c).max() < 1e-9]
                if len(k) != 1:
                    return None      # node set not invariant under reorientation
                p.append(k[0])
            res[orient] = p
        out[ent] = res
    return out


def product_perms(spec, perms, names, dofcounts):
    """Permutations of the product from those of the factors."""
    n = len(names)
    same = all(x == names[0] for x in names)
    if n == 1 or len(set(names)) == n:
        def axis_perms(dims):
            return [tuple(range(n))]
    elif same and names[0] == "interval":
        def axis_perms(dims):
            return [p for p in sorted(itertools.permutations(range(n)))
                    if all(p[i] == i for i in range(n) if dims[i] == 0)]
    else:
        raise Unsupported("orientations of this product cell are not defined")
    nums = []
    for p in perms:
        c = {}
        for d, e in p:
            c.setdefault(d, []).append(e)
        nums.append({d: sorted(v) for d, v in c.items()})
    out = {}
    for dims in itertools.product(*nums):
        number = 0
        for es in itertools.product(*[m[d] for m, d in zip(nums, dims)]):
            maps = [p[d, e] for p, d, e in zip(perms, dims, es)]
            res = {}
            for eo, ap in enumerate(axis_perms(dims)):
                for os_ in itertools.product(*maps):
                    ps = [m[o] for m, o in zip(maps, os_)]
                    local = [len(p) for p in ps]
                    canon = [0] * n
                    for i in range(n):
                        canon[ap[i]] = local[i]
                    perm = []
                    for k in itertools.product(*[range(x) for x in local]):
                        flatidx = 0
                        c = [0] * n
                        for i in range(n):
                            c[ap[i]] = ps[i][k[i]]
                        for x, ext in zip(c, canon):
                            flatidx = flatidx * ext + x
                        perm.append(flatidx)
                    res[(eo,) + os_] = perm
            out[dims, number] = res
            number += 1
    return out


def expected(spec, ctx, case):
    op = spec[0]
    if op == "leaf":
        return leaf_perms(spec, ctx, case)
    if op == "tp":
        perms = [expected(s, ctx, case) for s in spec[1]]
        return product_perms(spec, perms, [ref.cell_of(s) for s in spec[1]], None)
    if op == "flat":
        p = expected(spec[1], ctx, case)
        name = ref.cell_of(spec)
        key = lambda o, a: (tuple(numpy.round(o, 9)), tuple(numpy.round(a, 9).ravel()))
        byshape = {key(o, a): ent for ent, o, a in ref.entities(ref.cell_of(spec[1]))}
        return {ent: {i: p[byshape[key(o, a)]][k] for i, k in enumerate(sorted(p[byshape[key(o, a)]]))}
                for ent, o, a in ref.entities(name)}
    if op == "enriched":
        parts = [expected(s, ctx, case) for s in spec[1]]
        out = {}
        for ent in parts[0]:
            res = {}
            for o in parts[0][ent]:
                perm = []
                for p in parts:
                    off = len(perm)
                    perm += [off + q for q in p[ent][o]]
                res[o] = perm
            out[ent] = res
        return out
    if op in ("hdiv", "hcurl"):
        return expected(spec[1], ctx, case)
    if op == "disc":
        m = ref.model(spec[1])
        top = ref.top_entity(m.name)
        if any(v for k, v in m.entity_dofs().items() if k != top):
            raise Unsupported("discontinuous element with dofs below the cell")
        return expected(spec[1], ctx, case)
    raise Unsupported("permutations of %s are not implemented" % op)


def run(task, ctx):
    spec = ref.tup(task)
    case = ref.show(spec)
    try:
        want = expected(spec, ctx, case)
    except Unsupported as e:
        ctx.skip(str(e))
        want = None
    with ctx.guard(case, "entity_permutations"):
        el = build.element(spec)
        try:
            got = el.entity_permutations
        except NotImplementedError:
            ctx.step()
            ctx.state((spec, "refused"))
            ctx.expect(want is None, case, "permutations exist but are refused")
            return
        got = {(d, e): {o: [int(i) for i in p] for o, p in om.items()} for d in got for e, om in got[d].items()}
        if want is not None:
            ctx.equal(sorted(got, key=repr), sorted(want, key=repr), case, "entities listed")
            for ent in want:
                ctx.equal(sorted(got[ent], key=repr), sorted(want[ent], key=repr), case, "orientations of %s" % (ent,))
                for o, p in want[ent].items():
                    ctx.state((spec, ent, o))
                    ctx.step(len(p))
                    ctx.equal(got[ent].get(o), p, case, "permutation of %s under %s" % (ent, o))
        if spec[0] == "leaf":
            geo = geometric(spec)
            if geo is not None:
                for ent in geo:
                    for o, p in geo[ent].items():
                        ctx.step(len(p))
                        if p or got[ent].get(o):
                            ctx.equal(got[ent].get(o), p, case, "action on the nodes of %s under %s" % (ent, o))
        laws(ctx, case, spec, el, got)
        ctx.sample({"element": case, "orientations": str({str(k): list(v) for k, v in list(got.items())[-1:]})})


def laws(ctx, case, spec, el, got):
    ed = el.entity_dofs()
    for ent, om in got.items():
        n = len(ed[ent[0]][ent[1]])
        perms = {o: tuple(p) for o, p in om.items()}
        for o, p in perms.items():
            if not ctx.expect(sorted(p) == list(range(n)) or (n and not p), case,
                              lambda: "%s under %s: %s is not a permutation of %d dofs" % (ent, o, p, n)):
                return
            ctx.outcome((n, p))
        ident = min(perms, key=lambda o: str(o))
        ctx.equal(perms[ident], tuple(range(n)), case, "orientation %s of %s is not the identity" % (ident, ent))
        values = set(perms.values())
        # unequal factors swap between different spaces: no composition there
        key = [o for o in perms if not isinstance(o, tuple) or o[0] == 0]
        sub = {perms[o] for o in key}
        for a, b in itertools.product(sub, sub):
            ctx.step()
            ctx.expect(tuple(a[i] for i in b) in (sub if len(key) < len(perms) else values), case,
                       lambda: "permutations of %s do not compose: %s o %s" % (ent, a, b))
