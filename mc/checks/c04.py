"""C04: degrees of freedom partition over the entities of the cell.

State: (element, entity).  Transition: one degree of freedom attached or one
(entity, sub-entity) closure step.  Partition, numbering and closure laws are
checked for every element; the attachment itself is compared with the
attachment implied by the parts (reference models) or, for the physically
mapped families, with the published number of degrees of freedom per entity.
"""
import itertools

from mc import alphabet, build, ref, zany

CHUNK = 16
ASSUMPTIONS = ["FIAT's leaf attachment is correct (composites are compared against its composition)"]


def bound(tier):
    return "all leaves, composites(%r), physically mapped, serendipity and quadrature elements; all entities" % tier


def extra(tier):
    T = tier == "thorough"
    out = [("dser", r) for r in range(1, 8 if T else 6)]
    for c in ("interval", "triangle", "tetrahedron", ("interval", "interval"), ("triangle", "interval"),
              "quadrilateral", "hexahedron", ("quadrilateral", "interval"), ("interval",) * 3):
        for d in range(0, 7 if T else 4):
            out.append(("quad", c, d, "default"))
    L = alphabet.leaf
    for c, k, b in (("triangle", 1, 3), ("triangle", 2, 3), ("tetrahedron", 1, 4), ("interval", 1, 2), ("tetrahedron", 3, 4)):
        out.append(("nodalenriched", (L("Lagrange", c, k), L("Bubble", c, b))))
        out.append(("tfe", out[-1], (2,), True))
    for s in [("nodalenriched", (L("Lagrange", "triangle", 1), L("Bubble", "triangle", 3)))]:
        out.append(("mixed", (s, L("Lagrange", "triangle", 2))))
        out.append(("tp", (s, L("Lagrange", "interval", 1))))
    Z = [s for s, _ in zany.catalogue(tier)]
    # composites of physically mapped elements
    for s in Z:
        if s[1] in ("Argyris", "Bell", "Morley", "HsiehCloughTocher", "Hermite", "MardalTaiWinther") or T:
            out.append(("tfe", s, (2,), False))
            out.append(("tfe", s, (2,), True))
            out.append(("mixed", (s, s)))
            out.append(("disc", s))
            dg = L("DiscontinuousLagrange", s[2], 0)
            out.append(("mixed", (s, dg)))
            if s[1] in ("Argyris", "Bell", "Morley", "Hermite"):
                out.append(("enriched", (s, dg)))
    return out


def tasks(tier):
    specs = alphabet.simplex_leaves(tier) + alphabet.cube_leaves(tier) + alphabet.composites(tier)
    specs += [s for s, _ in zany.catalogue(tier)] + extra(tier)
    return [list(s) for s in specs]


_COUNTS = None


class Published(ref.Ref):
    """Attachment implied by published counts: consecutive numbering entity by
    entity in order of dimension."""

    def __init__(self, spec, counts):
        self.name = spec[2]
        self.counts = counts
        self.value_shape = ()
        top = ref.make_cell(self.name).get_topology()
        self.index_shape = (sum(c * len(top[d]) for d, c in enumerate(counts)),)

    def counts_per_entity(self):
        return {ent: self.counts[ent[0]] for ent, _, _ in ref.entities(self.name)}


def count_model(spec):
    """{entity: number of dofs} and total, for trees with FInAT-only leaves."""
    global _COUNTS
    op = spec[0]
    if op == "zany":
        if _COUNTS is None:
            _COUNTS = dict(zany.catalogue("thorough"))
        return Published(spec, _COUNTS[spec]).counts_per_entity()
    if op == "dser":
        r = spec[1]
        inner = max(0, (r - 2) * (r - 3) // 2) if r > 1 else 0
        c = (1, r - 1, inner)
        return {ent: c[ent[0]] for ent, _, _ in ref.entities("quadrilateral")}
    if op == "quad":
        return None
    if op in ("tfe",):
        n = 1
        for s in spec[2]:
            n *= s
        return {k: n * v for k, v in count_model(spec[1]).items()}
    if op in ("mixed", "enriched"):
        parts = [count_model(s) for s in spec[1]]
        return {k: sum(p[k] for p in parts) for k in parts[0]}
    if op == "disc":
        b = count_model(spec[1])
        top = ref.top_entity(ref.cell_of(spec))
        return {k: (sum(b.values()) if k == top else 0) for k in b}
    m = ref.model(spec)
    return {k: len(v) for k, v in m.entity_dofs().items()}


def has_own_leaf(spec):
    if spec[0] in ("zany", "dser", "quad"):
        return True
    if spec[0] == "leaf":
        return False
    subs = spec[1] if spec[0] in ("tp", "enriched", "mixed", "nodalenriched") else (spec[1],)
    return any(has_own_leaf(s) for s in subs)


def run(task, ctx):
    spec = ref.tup(task)
    case = ref.show(spec)
    with ctx.guard(case, "construction and entity queries"):
        el = build.element(spec)
        name = ref.cell_of(spec)
        ents = [e for e, _, _ in ref.entities(name)]
        ed = el.entity_dofs()
        n = 1
        for s in el.index_shape:
            n *= int(s)
        ctx.equal(int(el.space_dimension()), n, case, "space_dimension vs product of index_shape")
        got = {(d, e): [int(i) for i in ed[d][e]] for d in ed for e in ed[d]}
        ctx.equal(sorted(got, key=repr), sorted(ents, key=repr), case, "entities listed by entity_dofs")
        flat = sorted(itertools.chain.from_iterable(got.values()))
        ctx.equal(flat, list(range(n)), case, "union of entity_dofs is each dof exactly once")
        for ent in ents:
            ctx.state((spec, ent))
            ctx.step(1 + len(got.get(ent, ())))
        cd = el.entity_closure_dofs()
        gotc = {(d, e): sorted(int(i) for i in cd[d][e]) for d in cd for e in cd[d]}
        for ent in ents:
            subs = ref.sub_entities(name, ent)
            ctx.step(len(subs))
            want = sorted(i for s in subs for i in got[s])
            ctx.equal(gotc.get(ent), want, case, "closure dofs of %s" % (ent,))
        if has_own_leaf(spec):
            want = count_model(spec)
            if want is not None:
                ctx.equal({k: len(v) for k, v in got.items()}, want, case, "number of dofs per entity")
            else:
                top = ref.top_entity(name)
                ctx.equal([k for k in got if got[k]], [top], case, "quadrature dofs live on the cell")
        else:
            model = ref.model(spec)
            want = {k: sorted(v) for k, v in model.entity_dofs().items()}
            for k in ents:
                ctx.equal(sorted(got[k]), want[k], case, "dofs attached to %s" % (k,))
        ctx.outcome(tuple(sorted(((repr(k), len(v)) for k, v in got.items()))))
        ctx.sample({"element": case, "dofs": {str(k): v for k, v in list(got.items())[:4]}})
