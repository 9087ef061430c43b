"""C02: tabulation of composed elements.

State: (element tree, entity, derivative order, point-set structure).
Transition: one derivative multi-index.  The alphabet is every tree of
composition operators up to the depth bound over a leaf alphabet with one
representative of each behaviour; each is built with FInAT and, separately,
with the reference model (mc.ref), which evaluates the textbook definition of
the composition with FIAT leaves and numpy.
"""
from mc import alphabet, ref, points, tables, build

ASSUMPTIONS = ["the leaf tables are those of FIAT (established by C01)",
               "trees deeper than the bound behave like those within it"]
CHUNK = 8


def bound(tier):
    return "all trees of mc.alphabet.composites(%r); all entities; derivative orders 0..2 (3 for products in thorough)" % tier


def tasks(tier):
    return [list(s) for s in alphabet.composites(tier)]


def cost(task):
    s = ref.tup(task)
    c = ref.cell_of(s)
    return ref.cell_dim(c), len(str(task))


def run(task, ctx):
    spec = ref.tup(task)
    case0 = ref.show(spec)
    full = ctx.tier == "thorough"
    with ctx.guard(case0, "construction"):
        model = ref.model(spec)
        el = build.element(spec)
        ctx.state(spec)
        ctx.equal(tuple(el.index_shape), model.index_shape, case0, "index_shape")
        ctx.equal(tuple(el.value_shape), model.value_shape, case0, "value_shape")
        ctx.equal(int(el.space_dimension()), model.ndofs, case0, "space_dimension")
        ctx.equal(el.mapping, model.mapping, case0, "mapping")
        ctx.equal(el.formdegree, model.formdegree, case0, "formdegree")
        bi = el.get_indices()
        ctx.equal(tuple(i.extent for i in bi), model.index_shape, case0, "extents of get_indices()")
        ctx.equal(tuple(i.extent for i in el.get_value_indices()), model.value_shape, case0,
                  "extents of get_value_indices()")
        cell = ref.make_cell(model.name)
        ctx.expect(el.cell.get_topology() == cell.get_topology(), case0, "cell")
    dim = model.dim
    top = ref.top_entity(model.name)
    for ent, _, _ in ref.entities(model.name):
        kind = ref.entity_kind(model.name, ent[0])
        interior = ent == top
        for label, ps in points.point_sets(kind, full):
            if not full and dim == 3 and label not in ("plain", "tensor", "tensorflat") \
                    and not (interior and label == "tensornest"):
                continue
            if not interior and not full and label not in ("plain", "tensor", "tensor-single"):
                continue
            X = ref.map_points(model.name, ent, points.flat_points(ps))
            maxorder = 2 if (interior and (full or label in ("plain", "tensor", "tensorflat"))) else 1
            if interior and full and dim <= 2 and label == "plain":
                maxorder = 3
            want = model.tab(maxorder, X)
            for order in range(maxorder + 1):
                if order < maxorder and not (interior and label == "plain"):
                    continue
                for e in ([ent, None] if interior and label == "plain" else [ent]):
                    case = "%s entity=%s order=%d ps=%s" % (case0, e, order, label)
                    ctx.state((spec, e, order, label))
                    with ctx.guard(case, "basis_evaluation"):
                        res = el.basis_evaluation(order, ps, entity=e)
                        tables.check_tables(ctx, case, el, (model.index_shape, model.value_shape),
                                            res, want, order, dim, ps)
    ctx.sample({"element": case0, "index_shape": model.index_shape, "value_shape": model.value_shape})
