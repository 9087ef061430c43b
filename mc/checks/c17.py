"""C17: mixed, vector and tensor descriptions decompose into components.

State: a description built from vector, tensor (with a symmetry map) and mixed
combinators over leaf elements, together with a component index.  Transition:
one look-up (reference component, value component, degree, constancy), or the
pull back of one component, on the real description.  The oracle is a list of
owners computed from the specification: which leaf block, and which component
of it, every entry of the reference and of the physical value is.
"""
import itertools

import numpy
import ufl
from ufl.utils.stacks import StackDict

from mc import uflspec as us
from mc.uflspec import F

CHUNK = 1
BLOCK = 150
ASSUMPTIONS = ["the pull back of a block that is itself mixed or symmetric is not claimed inside vectors and tensors",
               "restricted, enriched, broken and re-mapped elements count as simple elements when looking up components"]

LEAF = {
    "P1": (F("Lagrange", "triangle", 1), (), "identity"),
    "P2": (F("Lagrange", "triangle", 2), (), "identity"),
    "DG0": (F("Discontinuous Lagrange", "triangle", 0), (), "identity"),
    "RT": (F("Raviart-Thomas", "triangle", 1), (2,), "contra"),
    "N1": (F("Nedelec 1st kind H(curl)", "triangle", 2), (2,), "co"),
    "RE": (F("Regge", "triangle", 1), (2, 2), "coco"),
    "HHJ": (F("Hellan-Herrmann-Johnson", "triangle", 1), (2, 2), "contracontra"),
    "L2": (F("Discontinuous Lagrange L2", "triangle", 1), (), "l2"),
    "I1": (F("Lagrange", "interval", 1), (), "identity"),
    "T1": (F("Lagrange", "tetrahedron", 1), (), "identity"),
    "TRT": (F("Raviart-Thomas", "tetrahedron", 1), (3,), "contra"),
    "TN1": (F("Nedelec 1st kind H(curl)", "tetrahedron", 1), (3,), "co"),
    "Q1": (F("Q", "quadrilateral", 1), (), "identity"),
    "RTCF": (F("RTCF", "quadrilateral", 2), (2,), "contra"),
    "RTCE": (F("RTCE", "quadrilateral", 1), (2,), "co"),
    "BRT": (("B", F("Raviart-Thomas", "triangle", 1)), (2,), "contra"),
    "RP2": (("R", F("Lagrange", "triangle", 2), "facet"), (), "identity"),
    "PB": (("E", (F("Lagrange", "triangle", 1), F("Bubble", "triangle", 3))), (), "identity"),
    "WRT": (("W", F("Raviart-Thomas", "triangle", 1), "covariant Piola"), (2,), "co"),
}
CELLS = {"I1": "interval", "T1": "tetrahedron", "TRT": "tetrahedron", "TN1": "tetrahedron", "Q1": "quadrilateral",
         "RTCF": "quadrilateral", "RTCE": "quadrilateral"}
CONST = {"DG0"}
DEGREE = {"P1": 1, "P2": 2, "DG0": 0, "RT": 1, "N1": 2, "RE": 1, "HHJ": 1, "L2": 1, "I1": 1, "T1": 1, "TRT": 1, "TN1": 1,
          "Q1": 1, "RTCF": 2, "RTCE": 1, "BRT": 1, "RP2": 2, "PB": 3, "WRT": 1}


# tree ::= leaf name | ("V", tree, n) | ("T", tree, shape, symmetry or None) | ("M", trees)

def spec(t):
    if isinstance(t, str):
        return LEAF[t][0]
    if t[0] == "M":
        return ("M", tuple(spec(s) for s in t[1]))
    return (t[0], spec(t[1])) + tuple(t[2:])


def show(t):
    if isinstance(t, str):
        return t
    if t[0] == "M":
        return "M[%s]" % ", ".join(map(show, t[1]))
    return "%s[%s]" % (t[0], ", ".join([show(t[1])] + [str(x) for x in t[2:]]))


def cell_of(t):
    if isinstance(t, str):
        return CELLS.get(t, "triangle")
    return cell_of(t[1][0] if t[0] == "M" else t[1])


def symmap(t):
    sym = t[3]
    if sym is True:
        n = t[2][0]
        sym = tuple(((i, j), (j, i)) for i in range(n) for j in range(i))
    return dict(sym or ())


def legal(shape, sym):
    """Indices within the shape; every chain of identifications ends."""
    for a, b in sym.items():
        for i in (a, b):
            if len(i) != len(shape) or not all(0 <= k < n for k, n in zip(i, shape)):
                return False
    for a in sym:
        seen = set()
        while a in sym:
            if a in seen:
                return False
            seen.add(a)
            a = sym[a]
    return True


def well_formed(t):
    if isinstance(t, str):
        return True
    if t[0] == "T" and not legal(t[2], symmap(t)):
        return False
    return all(map(well_formed, t[1])) if t[0] == "M" else well_formed(t[1])


def blocks(t):
    """(number of the direct sub-element of each block, in the order of the physical value); sub-trees in order."""
    if t[0] == "V":
        return list(range(t[2])), [t[1]] * t[2]
    if t[0] == "M":
        return list(range(len(t[1]))), list(t[1])
    sym = symmap(t)
    number, order = {}, []
    for idx in numpy.ndindex(*t[2]):
        if idx not in sym:
            number[idx] = len(number)
    for idx in numpy.ndindex(*t[2]):
        a = idx
        while a in sym:
            a = sym[a]
        order.append(number[a])
    return order, [t[1]] * len(number)


def size(shape):
    return int(numpy.prod(shape, dtype=int))


def refshape(t):
    if isinstance(t, str):
        return LEAF[t][1]
    _, subs = blocks(t)
    if t[0] == "M":
        return (sum(size(refshape(s)) for s in subs),)
    if t[0] == "V" or not symmap(t):
        return ((t[2],) if t[0] == "V" else tuple(t[2])) + refshape(t[1])
    return (len(subs),) + refshape(t[1])


def refowners(t):
    """[(direct sub-element, component of it, leaf, component of the leaf)] per flat reference component."""
    if isinstance(t, str):
        return [(None, c, t, c) for c in numpy.ndindex(*LEAF[t][1])]
    out = []
    for k, s in enumerate(blocks(t)[1]):
        comps = list(numpy.ndindex(*refshape(s)))
        for c, o in zip(comps, refowners(s)):
            out.append((k, c, o[2], o[3]))
    return out


def leafphys(name, g):
    m = LEAF[name][2]
    return {"identity": (), "l2": (), "contra": (g,), "co": (g,), "coco": (g, g), "contracontra": (g, g)}[m]


def physshape(t, g):
    if isinstance(t, str):
        return leafphys(t, g)
    if t[0] == "V":
        return (t[2],) + physshape(t[1], g)
    if t[0] == "T":
        return tuple(t[2]) + physshape(t[1], g)
    return (sum(size(physshape(s, g)) for s in t[1]),)


def physowners(t, g):
    """[(direct sub-element, component of it, leaf, component of the leaf, id of the leaf block, flat)]."""
    if isinstance(t, str):
        return [(None, c, t, c, ()) for c in numpy.ndindex(*leafphys(t, g))]
    out = []
    order, subs = blocks(t)
    for k in order:
        s = subs[k]
        for c, o in zip(numpy.ndindex(*physshape(s, g)), physowners(s, g)):
            out.append((k, c, o[2], o[3], (k,) + o[4]))
    return out


def simple_blocks(t):
    """Blocks of vectors and tensors have a pull back of their own."""
    if isinstance(t, str):
        return True
    if t[0] == "M":
        return all(simple_blocks(s) for s in t[1])
    s = t[1]
    return simple_blocks(s) and not (not isinstance(s, str) and (s[0] == "M" or (s[0] == "T" and symmap(s))))


def maps(shape, most):
    """Every map from a subset of the indices (at most ``most`` of them) to indices."""
    idx = list(numpy.ndindex(*shape))
    for k in range(most + 1):
        for keys in itertools.combinations(idx, k):
            for vals in itertools.product(idx, repeat=k):
                yield tuple(zip(keys, vals))


def symmetries(tier):
    out = []
    full = {(2, 2): 4, (2,): 2, (3,): 3, (1, 2): 2, (2, 1): 2, (1,): 1, (1, 1): 1}
    part = {(2, 3): 2, (3, 2): 1, (2, 2, 2): 1, (3, 3): 1} if tier == "quick" else {(2, 3): 3, (3, 2): 3, (2, 2, 2): 2, (3, 3): 2, (2, 2, 3): 2, (4,): 4}
    for sh, n in list(full.items()) + list(part.items()):
        out += [(sh, s) for s in maps(sh, n)]
    up = tuple(((i, j), (j, i)) for i in range(3) for j in range(i))
    down = tuple((b, a) for a, b in up)
    chain = (((0, 0), (1, 1)), ((1, 1), (2, 2)))
    back = (((2, 2), (1, 1)), ((1, 1), (0, 0)))
    out += [((3, 3), s) for s in (True, up, down, chain, back, up + chain, down + back, up[:2] + back)]
    out += [((2, 2), True), ((4, 4), True)]
    return list(dict.fromkeys(out))


def trees(tier):
    tri = ["P1", "P2", "DG0", "RT", "N1", "RE", "HHJ", "L2", "BRT", "RP2", "PB", "WRT"]
    other = ["I1", "T1", "TRT", "TN1", "Q1", "RTCF", "RTCE"]
    out = []
    # every symmetry map
    for k, (sh, sym) in enumerate(symmetries(tier)):
        out.append(("T", "P1", sh, sym))
    for sh, sym in symmetries(tier):
        if sh in ((2, 2), (2,), (1, 2), (2, 1)):
            out += [("T", "RT", sh, sym), ("M", (("T", "P2", sh, sym), "DG0"))]
    # one combinator over every leaf
    good = [((2, 2), None), ((2, 2), True), ((2,), None), ((2,), (((1,), (0,)),)), ((2,), (((0,), (1,)),)),
            ((2, 3), None), ((3, 3), True), ((2, 2), (((0, 1), (1, 0)), ((1, 1), (0, 0)))), ((2, 2, 2), None), ((3, 3, 2), None),
            ((2, 2, 2), (((0, 0, 1), (1, 1, 0)), ((1, 0, 1), (0, 0, 1)))), ((1, 1), None), ((2, 2), (((0, 0), (1, 1)),))]

    def over(s):
        return [("V", s, 1), ("V", s, 2), ("V", s, 3)] + [("T", s, sh, sym) for sh, sym in good]
    one = {}
    for s in tri + other:
        one[s] = over(s)
        out += one[s] + [("M", (s,)), ("M", (s, s)), ("M", (s, s, s))]
    # mixed elements of leaves
    for n in (2, 3):
        pool = tri if n == 2 or tier != "quick" else ["P1", "DG0", "RT", "RE"]
        out += [("M", m) for m in itertools.product(pool, repeat=n)]
    out += [("M", m) for m in itertools.product(["TRT", "T1", "TN1"], repeat=3)] + [("M", m) for m in itertools.product(["RTCF", "Q1", "RTCE"], repeat=3)]
    # two and three levels
    few = [f for s in ("P1", "RT", "RE") for f in one[s]] + [("M", ("P1", "RT")), ("M", ("RE", "P2")), ("M", ("L2", "N1", "DG0"))]
    lv2 = few[::3] if tier == "quick" else few
    for a, b in itertools.product(few, ["P2", "RT", "DG0"] + lv2[:6]):
        out += [("M", (a, b)), ("M", (b, a))]
    for a in few:
        out += over(a) if tier != "quick" else [("V", a, 2), ("T", a, (2, 2), None), ("T", a, (2, 2), True), ("T", a, (2,), (((1,), (0,)),)), ("M", (a,)), ("M", ("N1", a, "P1", a))]
    for a, b in itertools.product(lv2, repeat=2):
        m = ("M", (a, b))
        out += [("M", (m, "RT")), ("M", ("P1", m, b))]
        if tier != "quick":
            out += [("V", m, 2), ("T", m, (2, 2), True), ("M", (m, m))]
    return list(dict.fromkeys(out))


def bound(tier):
    return ("%d descriptions: every symmetry map of shapes up to (2,2) and all partial ones with few entries of larger shapes; vectors, tensors and "
            "mixed elements over %d leaves to nesting depth 3; every component index; meshes of geometric dimension tdim and tdim + 1"
            % (len(trees(tier)), len(LEAF)))


def tasks(tier):
    n = len(trees(tier))
    return [["trees", k, min(k + BLOCK, n)] for k in range(0, n, BLOCK)] + [["illegal"]]


class Refused:
    pass


def attempt(f):
    try:
        return f()
    except ValueError:
        return Refused


_MESH = {}


def mesh(cell, g):
    if (cell, g) not in _MESH:
        _MESH[cell, g] = ufl.Mesh(us.build(("V", scalar(cell), g)))
    return _MESH[cell, g]


def pulled(name, c, val, J, K, det):
    """Component c of the push forward of the leaf's reference value."""
    m = LEAF[name][2]
    if m == "identity":
        return val
    if m == "l2":
        return val / det
    if m == "contra":
        return (J @ val / det)[c]
    if m == "co":
        return (K.T @ val)[c]
    if m == "coco":
        return (K.T @ val @ K)[c]
    return (J @ val @ J.T / det ** 2)[c]


def leafvalues(t, ref):
    """{path of the leaf block: its reference value}"""
    if isinstance(t, str):
        return {(): numpy.asarray(ref).reshape(LEAF[t][1])}
    out, k0 = {}, 0
    for k, s in enumerate(blocks(t)[1]):
        n = size(refshape(s))
        for p, v in leafvalues(s, ref[k0:k0 + n]).items():
            out[(k,) + p] = v
        k0 += n
    return out


def check(ctx, t):
    case = show(t)
    if not well_formed(t):
        ctx.step()
        ctx.expect(attempt(lambda: us.build(spec(t))) is Refused, case, "an ill-formed symmetry was accepted")
        ctx.outcome("refused")
        return
    with ctx.guard(case, "decomposition"):
        el = us.build(spec(t))
        order, subs = blocks(t)
        # -- structure
        ctx.step()
        ctx.equal(el.num_sub_elements, len(subs), case, "number of sub-elements")
        ctx.equal(list(el.sub_elements), [us.build(spec(s)) for s in subs], case, "sub-elements")
        rs = refshape(t)
        ctx.equal(tuple(el.reference_value_shape), rs, case, "reference value shape")
        ctx.equal(el.reference_value_size, size(rs), case, "reference value size")
        owners = refowners(t)
        ctx.equal(len(owners), size(rs), case, "number of reference components")
        if t[0] == "T":
            ctx.equal(list(el.flattened_sub_element_mapping()), order, case, "component numbering")
            ctx.equal({tuple(a): tuple(b) for a, b in el.symmetry().items()}, symmap(t), case, "declared symmetry")
        # -- reference components
        for i, (k, c, leaf, lc) in zip(numpy.ndindex(*rs), owners):
            ctx.step()
            ctx.state((case, i))
            forms = [i] + ([i[0]] if len(i) == 1 else [])
            for j in forms:
                ctx.equal(el.extract_subelement_reference_component(j), (k, c), case, "owner of reference component %s" % (j,))
                got = el.extract_reference_component(j)
                ctx.equal((tuple(got[0]), got[1]), (lc, us.build(spec(leaf))), case, "leaf of reference component %s" % (j,))
                ctx.equal(el.degree(j), DEGREE[leaf], case, "degree of component %s" % (j,))
                ctx.equal(bool(el.is_cellwise_constant(j)), leaf in CONST, case, "constancy of component %s" % (j,))
        bad = [tuple(n if a == b else 0 for b, n in enumerate(rs)) for a in range(len(rs))] + [(0,) * (len(rs) + 1), (0,) * (len(rs) - 1)]
        for j in bad:
            ctx.step()
            for f in (el.extract_subelement_reference_component, el.extract_reference_component):
                ctx.expect(attempt(lambda: f(j)) is Refused, case, lambda: "reference component %s does not exist" % (j,))
        # -- physical components
        cname = cell_of(t)
        td = us.tdim(cname)
        if not simple_blocks(t):
            ctx.skip("pull back of nested mixed/symmetric blocks")
            ctx.sample(case)
            return
        for g in (td, td + 1):
            M = mesh(cname, g)
            ps = physshape(t, g)
            V = ufl.FunctionSpace(M, el)
            ctx.step()
            ctx.equal(tuple(V.value_shape), ps, case, "value shape on a mesh of dimension %d" % g)
            own = physowners(t, g)
            for i, (k, c, leaf, lc, path) in zip(numpy.ndindex(*ps), own):
                ctx.step()
                forms = [i] + ([i[0]] if len(i) == 1 else [])
                for j in forms:
                    ctx.equal(el.extract_subelement_component(M, j), (k, c), case, "owner of component %s" % (j,))
                    got = el.extract_component(M, j)
                    ctx.equal((tuple(got[0]), got[1]), (lc, us.build(spec(leaf))), case, "leaf of component %s" % (j,))
            for j in [tuple(n if a == b else 0 for b, n in enumerate(ps)) for a in range(len(ps))] + [(0,) * (len(ps) + 1)]:
                ctx.step()
                for f in (el.extract_subelement_component, el.extract_component):
                    ctx.expect(attempt(lambda: f(M, j)) is Refused, case, lambda: "component %s does not exist" % (j,))
            # identified components are exactly those of one owner
            sym = el.symmetry(M)
            flat = {i: n for n, i in enumerate(numpy.ndindex(*ps))}
            root = list(range(len(flat)))

            def find(a):
                while root[a] != a:
                    a = root[a]
                return a
            for a, b in sym.items():
                tail = ps[len(a):]
                for x in numpy.ndindex(*tail):
                    root[find(flat[tuple(a) + x])] = find(flat[tuple(b) + x])
            classes = {}
            for n, o in enumerate(own):
                classes.setdefault((o[4], o[3]), set()).add(n)
            got = {}
            for n in range(len(flat)):
                got.setdefault(find(n), set()).add(n)
            ctx.equal(sorted(map(sorted, got.values())), sorted(map(sorted, classes.values())), case, "components identified by the symmetry")
            if t[0] == "T" and symmap(t):
                ctx.equal([V.components[i] for i in numpy.ndindex(*t[2])], order, case, "numbering of components")
            # -- pull back, at one generic reference value
            # (the reference value is represented by a function of that shape)
            f = ufl.Coefficient(ufl.FunctionSpace(M, us.build(("T", scalar(cname), rs, None) if rs else scalar(cname))))
            ref = numpy.array([3.0 + 0.7 * n + n * n for n in range(size(rs))])
            J = numpy.array([[1.0 + 0.3 * a - 0.2 * b + (a == b) for b in range(td)] for a in range(g)])
            K = numpy.array([[0.5 * a + 0.1 * b * b - 0.25 for b in range(g)] for a in range(td)])
            det = 1.75
            leafval = leafvalues(t, ref)
            want = numpy.array([pulled(o[2], o[3], leafval[o[4]], J, K, det) for o in own]).reshape(ps)
            mapping = {f: ref.reshape(rs) if rs else ref[0], ufl.classes.Jacobian(M): J, ufl.classes.JacobianInverse(M): K,
                       ufl.classes.JacobianDeterminant(M): det}
            expr = el.pullback.apply(f)
            ctx.equal(tuple(expr.ufl_shape), ps, case, "shape of the pulled back value")
            vals = numpy.array([value(expr, mapping, i) for i in numpy.ndindex(*ps)], dtype=float).reshape(ps)
            ctx.close(vals, want, case, "pull back on a mesh of dimension %d" % g)
            ctx.outcome((ps, numpy.round(want, 8).tobytes()))
    ctx.sample(case)


def value(expr, mapping, i):
    return expr.evaluate((), mapping, i, StackDict())


def scalar(cname):
    return F("Q" if cname == "quadrilateral" else "Lagrange", cname, 1)


def run(task, ctx):
    if task[0] == "trees":
        for t in trees(ctx.tier)[task[1]:task[2]]:
            check(ctx, t)
        return
    # -- arguments that must be refused
    import finat.ufl as fu
    P = us.build(LEAF["P1"][0])
    bad = {
        "index too short": dict(shape=(2, 2), symmetry={(1,): (0,)}),
        "index too long": dict(shape=(2, 2), symmetry={(1, 0, 0): (0, 1, 0)}),
        "key out of range": dict(shape=(2, 2), symmetry={(2, 0): (0, 0)}),
        "value out of range": dict(shape=(2, 2), symmetry={(1, 0): (0, 2)}),
        "negative": dict(shape=(2, 2), symmetry={(1, 0): (-1, 0)}),
        "non-square default": dict(shape=(2, 3), symmetry=True),
        "rank 3 default": dict(shape=(2, 2, 2), symmetry=True),
        "rank 1 default": dict(shape=(2,), symmetry=True),
        "identity": dict(shape=(2, 2), symmetry={(1, 0): (1, 0)}),
        "swap": dict(shape=(2, 2), symmetry={(1, 0): (0, 1), (0, 1): (1, 0)}),
        "not a mapping": dict(shape=(2, 2), symmetry=[((1, 0), (0, 1))]),
    }
    for what, kw in bad.items():
        ctx.step()
        ctx.state(what)
        ctx.expect(attempt(lambda: fu.TensorElement(P, **kw)) is Refused, "illegal symmetry: " + what, "accepted")
    ctx.step()
    ctx.expect(attempt(lambda: fu.MixedElement(P, us.build(LEAF["I1"][0]))) is Refused, "mixed: different cells", "accepted")
    ctx.expect(attempt(lambda: fu.MixedElement(P, us.build(F("Lagrange", "triangle", 1, "canonical")))) is Refused, "mixed: different schemes", "accepted")
    # default shapes
    for name in ("I1", "P1", "T1", "Q1"):
        ctx.step()
        e = us.build(LEAF[name][0])
        d = us.tdim(CELLS.get(name, "triangle"))
        with ctx.guard("defaults " + name):
            ctx.equal(fu.VectorElement(e), fu.VectorElement(e, dim=d), "default vector dimension " + name)
            ctx.equal(fu.TensorElement(e), fu.TensorElement(e, shape=(d, d)), "default tensor shape " + name)
            ctx.equal(fu.TensorElement(e, symmetry=True), fu.TensorElement(e, shape=(d, d), symmetry=True), "default symmetric tensor " + name)
            ctx.equal(fu.TensorElement(e).reference_value_shape, (d, d), "default tensor shape " + name)
            ctx.equal(fu.TensorElement(e, symmetry=True).num_sub_elements, d * (d + 1) // 2, "default symmetric tensor " + name)
            ctx.equal(e * e, fu.MixedElement(e, e), "product of elements " + name)
            ctx.equal(fu.MixedElement([e, [e, e]]), fu.MixedElement(e, fu.MixedElement(e, e)), "nested lists " + name)
