"""C05: reported support is exactly where the basis functions do not vanish.

State: (element, entity).  Transition: one (basis function, lattice point)
evaluation of the reference model; a polynomial of the element's degree that
vanishes on the whole lattice of the entity vanishes on the entity.
"""
from mc import alphabet, build, ref

CHUNK = 8
ASSUMPTIONS = ["elements are (macro-)polynomial of degree at most their reported degree + 3",
               "basis functions with maximum between 1e-11 and 1e-6 on an entity are treated as undetermined"]


def bound(tier):
    return "all leaves and composites(%r) except the trace element; all entities" % tier


def tasks(tier):
    specs = [s for s in alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) if s[1] != "HDivTrace"]
    specs += alphabet.composites(tier)
    return [list(s) for s in specs]


def cost(task):
    return ref.cell_dim(ref.cell_of(ref.tup(task))), len(str(task))


def run(task, ctx):
    spec = ref.tup(task)
    case = ref.show(spec)
    model = ref.model(spec)
    want = model.support()
    for ent in want:
        ctx.state((spec, ent))
        ctx.step(model.ndofs)
    with ctx.guard(case, "entity_support_dofs"):
        el = build.element(spec)
        from finat.finiteelementbase import entity_support_dofs
        esd = el.entity_support_dofs()
        got = {(d, e): [int(i) for i in esd[d][e]] for d in esd for e in esd[d]}
        ctx.equal(sorted(got, key=repr), sorted(want, key=repr), case, "entities listed")
        for ent, w in want.items():
            if w is None:
                ctx.skip("basis undefined on the entity")
                continue
            yes, maybe = w
            g = sorted(set(got[ent]) - set(maybe))
            ctx.equal(len(got[ent]), len(set(got[ent])), case, "repeated dofs on %s" % (ent,))
            ctx.equal(g, [i for i in yes if i not in maybe], case, "support on %s" % (ent,))
            if maybe:
                ctx.notes["undetermined"] = ctx.notes.get("undetermined", 0) + len(maybe)
            ctx.outcome((ent, tuple(g)))
        for d in esd:
            ctx.equal({int(e): sorted(map(int, v)) for e, v in entity_support_dofs(el, d).items()},
                      {int(e): sorted(got[d, e]) for e in esd[d]}, case, "entity_support_dofs(el, %s)" % (d,))
        ctx.sample({"element": case, "support": {str(k): v for k, v in list(got.items())[:3]}})
