"""C01: tabulation of FIAT-wrapped elements.

State: (element, entity, point-set structure).  Transition: one requested
derivative multi-index.  The alphabet of elements is every wrapped family x
cell x degree x variant up to the bound; for each the whole product of
entities, derivative orders 0..degree+1 and point-set structures is explored
on the real code and every table is compared with the FIAT element built
independently and evaluated at independently mapped points.
"""
from mc import alphabet, ref, points, tables, build

ASSUMPTIONS = ["FIAT's own tabulation in cell coordinates is correct",
               "degrees and variants beyond the bound behave like those within it"]
CHUNK = 1


def bound(tier):
    return ("all wrapped families, degrees as in mc.alphabet (%s tier), all entities, "
            "derivative orders 0..degree+1 (cell interior) / 0..2 (sub-entities), all point-set structures" % tier)


def specs(tier):
    return alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier)


def tasks(tier):
    return [list(s) for s in specs(tier)]


def cost(task):
    c = ref.cell_dim(ref.tup(task[2]))
    return (c, task[3] or 0)


def run(task, ctx):
    spec = ref.tup(task)
    case0 = ref.show(spec)
    with ctx.guard(case0, "construction"):
        model = ref.model(spec)
        el = build.element(spec)
        ctx.state(spec)
        ctx.equal(tuple(el.index_shape), model.index_shape, case0, "index_shape")
        ctx.equal(tuple(el.value_shape), model.value_shape, case0, "value_shape")
        ctx.equal(int(el.space_dimension()), model.ndofs, case0, "space_dimension")
        ctx.equal(el.mapping, model.mapping, case0, "mapping")
        ctx.equal(el.formdegree, model.formdegree, case0, "formdegree")
        ctx.sample({"element": case0, "index_shape": el.index_shape, "value_shape": el.value_shape})
        deg = model.el.degree()
        deg = max(deg) if isinstance(deg, tuple) else deg
        name = spec[2]
        full = ctx.tier == "thorough"
        dim = ref.cell_dim(name)
        top = ref.top_entity(name)
        explore(ctx, case0, spec, el, model, deg, name, full, dim, top)


def explore(ctx, case0, spec, el, model, deg, name, full, dim, top):
    trace = spec[1] == "HDivTrace"
    for ent, _, _ in ref.entities(name):
        kind = ref.entity_kind(name, ent[0])
        interior = ent == top
        if trace:
            # the trace element is only defined on facets, without derivatives
            if interior or ent[0] != dim - 1:
                continue
            maxorder = 0
        else:
            maxorder = (min(deg + 1, 6 if full else 5) if interior else (2 if full else 1))
            if model.el.get_reference_complex().is_macrocell():
                maxorder = min(maxorder, 2)
            if ref.cell_dim(name) == 3 and not full:
                maxorder = min(maxorder, 3 if "Trimmed" in spec[1] else 4)
        for label, ps in points.point_sets(kind, full or dim == 1):
            X = ref.map_points(name, ent, points.flat_points(ps))
            if trace:
                want = trace_tab(model, ent, points.flat_points(ps))
            else:
                want = model.tab(maxorder, X)
            for order in range(maxorder + 1):
                if 0 < order < maxorder and (not interior or label != "plain"):
                    continue
                for e in ([ent, None] if interior else [ent]):
                    if e is None and label not in ("plain", "gauss2", "lobatto3"):
                        continue
                    case = "%s entity=%s order=%d ps=%s" % (case0, e, order, label)
                    ctx.state((spec, e, order, label))
                    with ctx.guard(case, "basis_evaluation"):
                        res = el.basis_evaluation(order, ps, entity=e)
                        tables.check_tables(ctx, case, el, (model.index_shape, model.value_shape),
                                            res, want, order, dim, ps)


def trace_tab(model, ent, pts):
    """The trace element tabulates on one facet at a time."""
    import numpy
    t = model.el.tabulate(0, [tuple(p) for p in pts], ent)
    return {a: numpy.asarray(v, dtype=float).reshape(model.index_shape + (len(pts),)) for a, v in t.items()}
