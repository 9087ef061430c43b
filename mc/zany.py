"""The physically mapped families, with their published degree-of-freedom
counts per entity dimension (from the papers that define the elements)."""

T, K, I = "triangle", "tetrahedron", "interval"


def z(cls, cell, degree, **kw):
    return ("zany", cls, cell, degree, tuple(sorted(kw.items())))


# (spec, dofs per entity of dimension 0, 1, .., dim); Pk dims for interiors
def catalogue(tier="quick"):
    out = []

    def add(spec, *counts):
        out.append((spec, counts))

    tri = lambda n: n * (n + 1) // 2 if n > 0 else 0
    hi = 1 if tier == "quick" else 3
    add(z("Hermite", I, 3), 2, 0)
    add(z("Hermite", T, 3), 3, 0, 1)
    add(z("Hermite", K, 3), 4, 0, 1, 0)
    add(z("Morley", T, 2), 1, 1, 0)
    for d in range(5, 6 + hi):
        for avg in (False, True):
            add(z("Argyris", T, d, variant="integral", avg=avg), 6, 2 * (d - 5) + 1, tri(d - 5))
    add(z("Argyris", T, 5, variant="point"), 6, 1, 0)
    add(z("Argyris", T, 5), 6, 1, 0)
    add(z("Bell", T, 5), 6, 0, 0)
    for d in range(3, 4 + hi):
        for avg in (False, True):
            add(z("HsiehCloughTocher", T, d, avg=avg), 3, 1 + 2 * (d - 3), tri(d - 3))
    add(z("ReducedHsiehCloughTocher", T, 3), 3, 0, 0)
    add(z("QuadraticPowellSabin6", T, 2), 3, 0, 0)
    for avg in (False, True):
        add(z("QuadraticPowellSabin12", T, 2, avg=avg), 3, 1, 0)
    add(z("MardalTaiWinther", T, 3), 0, 3, 0)
    add(z("ArnoldWinther", T, 3), 3, 4, 3)
    add(z("ArnoldWintherNC", T, 2), 0, 4, 3)
    for d in range(3, 4 + hi):
        for v in ("integral", "point"):
            add(z("HuZhang", T, d, variant=v), 3, 2 * (d - 1), 3 * (d - 1) * d // 2)
    add(z("JohnsonMercier", T, 1), 0, 4, 3)
    add(z("JohnsonMercier", K, 1), 0, 0, 9, 6)
    add(z("AlfeldSorokina", T, 2), 3, 2, 0)
    add(z("AlfeldSorokina", K, 2), 4, 3, 0, 0)
    add(z("ReducedArnoldQin", T, 2), 2, 1, 0)
    add(z("ArnoldQin", T, 2), 2, 2, 0)
    add(z("ChristiansenHu", T, 1), 2, 1, 0)
    add(z("ChristiansenHu", K, 1), 3, 0, 1, 0)
    add(z("BernardiRaugel", T, 1), 2, 1, 0)
    add(z("BernardiRaugel", K, 1), 3, 0, 1, 0)
    add(z("BernardiRaugel", K, 2), 3, 3, 1, 0)
    add(z("BernardiRaugelBubble", T, None), 0, 1, 0)
    add(z("BernardiRaugelBubble", K, None), 0, 0, 1, 0)
    add(z("GuzmanNeilanFirstKindH1", T, 1), 2, 1, 0)
    add(z("GuzmanNeilanFirstKindH1", K, 1), 3, 0, 1, 0)
    add(z("GuzmanNeilanFirstKindH1", K, 2), 3, 3, 1, 0)
    add(z("GuzmanNeilanSecondKindH1", T, 1), 2, 1, 2)
    add(z("GuzmanNeilanSecondKindH1", K, 1), 3, 0, 1, 3)
    add(z("GuzmanNeilanSecondKindH1", K, 2), 3, 3, 1, 15)
    add(z("GuzmanNeilanBubble", T, None), 0, 1, 0)
    add(z("GuzmanNeilanBubble", K, None), 0, 0, 1, 0)
    add(z("GuzmanNeilanH1div", T, None), 3, 1, 0)
    add(z("GuzmanNeilanH1div", K, None), 4, 3, 1, 0)
    return out
