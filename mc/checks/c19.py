"""C19: translation of symbolic expressions to tensor code preserves values.

State: a symbolic expression (a term over two symbols, up to the depth bound)
in one of the two symbolic back ends.  Transition: translating it with the
real translator, under one way of binding its symbols.  The oracle evaluates
the term itself - not the symbolic object built from it - on every assignment
of a small alphabet; wherever the term is defined and real the translation
must have that value.  Terms with unsupported nodes may be refused.
"""
import itertools

import gem
import numpy
import sympy

from finat.sympy2gem import sympy2gem
from mc.gemeval import evaluate_many

try:
    import symengine
except ImportError:          # the translator treats it as optional too
    symengine = None

CHUNK = 1
BLOCK = 1500
ASSUMPTIONS = ["values are compared where the term is defined and real; 0**0 counts as undefined",
               "unsupported nodes may be refused with any exception"]

VALUES = (-2.0, -0.5, 0.0, 1.0, 1.5)
GRID = numpy.array(list(itertools.product(VALUES, repeat=2))).T
BIND = {"own": (0, 1), "swapped": (1, 0), "shared": (0, 0)}

# -- terms: ("x",) ("n", num, den) ("f", float) (op, args...)
#    conditions: ("<", a, b) ... ("and", c...) ("or", c...) ("not", c) ("true",) ("false",)
#    ("pw", ((value, condition), ...)) ("ite", c, c, c)
X, Y = ("x",), ("y",)


def N(a, b=1):
    return ("n", a, b)


def build(t, m):
    op = t[0]
    if op in ("x", "y"):
        return m.Symbol(op)
    if op == "n":
        return m.Integer(t[1]) if t[2] == 1 else m.Rational(t[1], t[2]) if m is sympy else m.Integer(t[1]) / m.Integer(t[2])
    if op == "f":
        return m.Float(t[1]) if m is sympy else m.RealDouble(t[1])
    if op == "true":
        return m.true
    if op == "false":
        return m.false
    if op == "pw":
        return m.Piecewise(*[(build(v, m), build(c, m)) for v, c in t[1]])
    a = [build(s, m) for s in t[1:]]
    if op == "neg":
        return -a[0]
    if op == "+":
        return m.Add(*a)
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return m.Mul(*a)
    if op == "/":
        return a[0] / a[1]
    if op == "^":
        return a[0] ** a[1]
    if op == "abs":
        return m.Abs(a[0])
    if op in ("<", "<=", ">", ">=", "==", "!="):
        f = {"<": m.Lt, "<=": m.Le, ">": m.Gt, ">=": m.Ge, "==": m.Eq, "!=": m.Ne}[op]
        return f(*a)
    if op == "and":
        return m.And(*a)
    if op == "or":
        return m.Or(*a)
    if op == "not":
        return m.Not(a[0])
    if op == "ite":
        return m.ITE(*a)
    raise ValueError(op)


def show(t):
    op = t[0]
    if op in ("x", "y", "true", "false"):
        return op
    if op == "n":
        return "%d" % t[1] if t[2] == 1 else "%d/%d" % t[1:]
    if op == "f":
        return repr(t[1])
    if op == "pw":
        return "pw(%s)" % ", ".join("%s if %s" % (show(v), show(c)) for v, c in t[1])
    return "%s(%s)" % (op, ", ".join(map(show, t[1:])))


def ev(t, x, y):
    """(value, defined) of a term on arrays of assignments."""
    op = t[0]
    one = numpy.ones(x.shape, dtype=bool)
    if op == "x":
        return x, one
    if op == "y":
        return y, one
    if op == "n":
        return numpy.full(x.shape, t[1] / t[2]), one
    if op == "f":
        return numpy.full(x.shape, t[1]), one
    if op in ("true", "false"):
        return numpy.full(x.shape, op == "true"), one
    if op == "pw":
        val = numpy.full(x.shape, numpy.nan)
        ok = numpy.zeros(x.shape, dtype=bool)
        done = numpy.zeros(x.shape, dtype=bool)
        for v, c in t[1]:
            (v, vok), (c, cok) = ev(v, x, y), ev(c, x, y)
            bad = ~done & ~cok
            take = ~done & cok & c
            val = numpy.where(take, v, val)
            ok = numpy.where(take, vok, ok)
            done = done | take | bad
        # no piece applies: the translation is not a number
        return numpy.where(done, val, numpy.nan), numpy.where(done, ok, True)
    args = [ev(s, x, y) for s in t[1:]]
    v = [a[0] for a in args]
    # (a term without an applicable piece is not a number, which the back ends may cancel further up)
    ok = numpy.logical_and.reduce([a[1] & ~numpy.isnan(a[0].astype(float)) for a in args])
    if op == "neg":
        return -v[0], ok
    if op == "+":
        return sum(v[1:], v[0]), ok
    if op == "-":
        return v[0] - v[1], ok
    if op == "*":
        r = v[0]
        for w in v[1:]:
            r = r * w
        return r, ok
    if op == "/":
        return v[0] / numpy.where(v[1] == 0, 1, v[1]), ok & (v[1] != 0)
    if op == "^":
        b, e = v
        integral = e == numpy.round(e)
        good = ok & ((b > 0) | ((b == 0) & (e > 0)) | ((b < 0) & integral))
        return numpy.where(good, numpy.power(numpy.where(good, b, 1.0), e), 0.0), good
    if op == "abs":
        return numpy.abs(v[0]), ok
    if op in ("<", "<=", ">", ">=", "==", "!="):
        a, b = v
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op], ok
    if op == "and":
        return numpy.logical_and.reduce(v), ok
    if op == "or":
        return numpy.logical_or.reduce(v), ok
    if op == "not":
        return ~v[0], ok
    if op == "ite":
        return numpy.where(v[0], v[1], v[2]), ok
    raise ValueError(op)


def atoms(tier):
    out = [X, Y, N(0), N(1), N(-1), N(2), N(1, 2), N(-3, 4), ("f", 0.25)]
    return out if tier == "quick" else out + [N(3), N(2, 3), ("f", -1.5)]


def unary(s):
    return [("neg", s), ("abs", s), ("^", s, N(2)), ("^", s, N(3)), ("^", s, N(-1)), ("^", s, N(1, 2)), ("^", s, N(-2)), ("^", s, N(0)),
            ("^", s, ("f", 0.5)), ("^", N(2), s)]


def binary(a, b):
    return [("+", a, b), ("-", a, b), ("*", a, b), ("/", a, b), ("^", a, b)]


def depth1(tier):
    A = atoms(tier)
    out = [u for s in A for u in unary(s)]
    out += [b for p in itertools.product(A, repeat=2) for b in binary(*p)]
    return out


RELS = ("<", "<=", ">", ">=", "==")


def relations(terms):
    return [(r, a, b) for r in RELS for a, b in itertools.product(terms, repeat=2)]


def scalars(tier):
    A, D = atoms(tier), depth1(tier)
    out = list(A) + D
    out += [u for s in D for u in unary(s)]
    small = [X, Y, N(2), N(-3, 4)] if tier == "quick" else A
    for s in D:
        for a in small:
            out += binary(s, a) + binary(a, s)
    out += [(op, a, b, c) for op in "+*" for a, b, c in itertools.product(A, repeat=3)]
    mid = D[::9] if tier == "quick" else D[::3]
    for a, b in itertools.product(mid, repeat=2):
        out += binary(a, b)[:4]
    return out


def conditions(tier):
    A = atoms(tier)
    arith = [X, Y, N(0), ("+", X, Y), ("*", X, Y), ("-", X, N(1)), ("abs", X), ("*", N(1, 2), Y), ("neg", Y)]
    R = relations(A if tier == "thorough" else [X, Y, N(0), N(1), N(1, 2)]) + relations(arith)
    few = [("<", X, Y), (">=", X, N(0)), ("==", X, Y), (">", Y, N(1)), ("<=", ("*", X, Y), N(1, 2)), ("true",), ("false",)]
    if tier == "thorough":
        few += [("==", ("+", X, Y), N(1)), (">", X, X), ("<=", Y, N(-1))]
    out = R + few
    out += [("not", c) for c in R]
    two = [(k, a, b) for k in ("and", "or") for a, b in itertools.product(few, repeat=2)]
    out += two + [("not", c) for c in two] + [(k, a, b, c) for k in ("and", "or") for a, b, c in itertools.product(few, repeat=3)]
    out += [(k, c, a) for k in ("and", "or") for c in two for a in few] + [(k, ("not", a), b) for k in ("and", "or") for a, b in itertools.product(few, repeat=2)]
    out += [("ite", a, b, c) for a, b, c in itertools.product(few, repeat=3)]
    return out


def pieces(tier):
    conds = [("<", X, Y), (">=", X, N(0)), ("==", X, Y), ("and", (">", X, N(0)), (">", Y, N(0))), ("or", ("<", X, N(0)), ("<=", Y, N(-1))),
             ("not", ("==", X, N(1))), ("true",), ("false",)]
    vals = [X, N(0), N(1), ("*", X, Y), ("/", N(1), X), ("^", Y, N(2)), ("^", X, N(1, 2))]
    out = [("pw", ((v, c),)) for v in vals for c in conds]
    out += [("pw", ((v, c), (w, d))) for v, w in itertools.product(vals, repeat=2) for c, d in itertools.product(conds, repeat=2)]
    v3 = vals[:3] if tier == "quick" else vals
    c3 = conds[:4] + conds[6:7] if tier == "quick" else conds
    out += [("pw", tuple(zip(v, c))) for v in itertools.product(v3, repeat=3) for c in itertools.product(c3, repeat=3)]
    inner = [("pw", ((X, ("<", X, Y)), (Y, ("true",)))), ("pw", ((X, (">", Y, N(0))),))]
    for i in inner:
        out += [b for a in vals for b in binary(i, a) + binary(a, i)] + unary(i)
        out += [("pw", ((i, c), (v, ("true",)))) for c in conds for v in vals] + [("pw", ((v, c), (i, ("true",)))) for c in conds for v in vals]
        out += [("pw", ((v, (r, i, N(0))), (N(2), ("true",)))) for v in vals for r in RELS]
    return out


SETS = {"scalars": scalars, "conditions": conditions, "pieces": pieces}


def bound(tier):
    return ("scalar terms to depth 2 (and sums/products of three and of two depth-1 terms), conditions, piecewise terms (1-3 pieces, nested): %s; both "
            "back ends; 25 assignments; bindings own/swapped/shared" % ", ".join("%d %s" % (len(f(tier)), k) for k, f in SETS.items()))


def tasks(tier):
    out = []
    for m in ("sympy", "symengine"):
        for k, f in SETS.items():
            n = len(f(tier))
            out += [[m, k, i, min(i + BLOCK, n)] for i in range(0, n, BLOCK)]
        out.append([m, "special"])
    return out


def cost(task):
    return (task[0] == "sympy", task[1] != "special")


def variables():
    return gem.Variable("X", ()), gem.Variable("Y", ())


def mapper(m, binding, XY):
    mp = gem.node.Memoizer(sympy2gem)
    b = BIND[binding]
    mp.bindings = {m.Symbol("x"): XY[b[0]], m.Symbol("y"): XY[b[1]]}
    return mp


def batch(exprs):
    """Values on every assignment of the grid."""
    p = gem.Index("p", extent=GRID.shape[1])
    return evaluate_many(exprs, (p,), {"X": (p, GRID[0]), "Y": (p, GRID[1])})


def compare(ctx, case, got, t, binding):
    x, y = GRID[BIND[binding][0]], GRID[BIND[binding][1]]
    want, ok = ev(t, x, y)
    got = numpy.asarray(got)
    ctx.compared += 1
    if got.dtype.kind == "c" and not numpy.all(got.imag == 0):
        return ctx.fail(case, "complex value of a real expression")
    want = numpy.asarray(want, dtype=float)
    g = numpy.broadcast_to(numpy.asarray(got.real, dtype=float), want.shape)
    nan = numpy.isnan(want)
    good = numpy.where(nan, numpy.isnan(g), numpy.abs(g - want) <= 1e-12 * (1 + numpy.abs(want)))
    if not numpy.all(good | ~ok):
        k = int(numpy.argmax(~good & ok))
        ctx.fail(case, "value at x=%g, y=%g: got %r, expected %r" % (x[k], y[k], float(g[k]), float(want[k])))
    ctx.outcome(numpy.round(want[ok], 9).tobytes())


def run(task, ctx):
    m = {"sympy": sympy, "symengine": symengine}[task[0]]
    if m is None:
        ctx.skip("symengine not installed")
        return
    if task[1] == "special":
        return special(ctx, m)
    XY = variables()
    shared = {b: mapper(m, b, XY) for b in BIND}
    todo = []
    for t in SETS[task[1]](ctx.tier)[task[2]:task[3]]:
        case = "%s %s" % (task[0], show(t))
        if not ctx.state(case):
            continue
        try:
            e = build(t, m)
        except Exception as exc:        # not expressible in this back end (x/0, no ITE)
            ctx.skip("not built by %s: %s" % (task[0], type(exc).__name__))
            continue
        if not supported(e, m):
            ctx.skip("%s evaluated to an unsupported constant" % task[0])
            continue
        for b in BIND:
            ctx.step()
            with ctx.guard(case + " bound " + b, "translation"):
                g = mapper(m, b, XY)(e)
                h = shared[b](e)
                if h != g:       # (equal symbolic terms may list their arguments in another order)
                    todo.append((case + " after others, bound " + b, h, t, b))
                ctx.expect(complex not in dtypes(g), case, "complex constant in a real expression")
                todo.append((case + " bound " + b, g, t, b))
    ctx.sample(todo[len(todo) // 2][0] if todo else "")
    for k in range(0, len(todo), 500):
        part = todo[k:k + 500]
        for (case, g, t, b), v in zip(part, batch([p[1] for p in part])):
            compare(ctx, case, v, t, b)


def dtypes(g):
    out = set()
    for n in gem.node.traversal([g]):
        if isinstance(n, gem.Literal) and n.array.dtype.kind == "c":
            out.add(complex)
    return out


def supported(e, m):
    """The back end may have turned a term into an infinity, an undefined or an imaginary constant."""
    bad = {"Infinity", "NegativeInfinity", "ComplexInfinity", "NaN", "ImaginaryUnit", "Complex", "ComplexDouble", "Pi", "Exp1", "sign", "Max", "Min",
           "Unequality", "exp", "log", "re", "im", "arg"}
    stack, seen = [e], set()
    while stack:
        n = stack.pop()
        if any(c.__name__ in bad for c in type(n).__mro__):
            return False
        if not isinstance(n, bool):
            for a in n.args:
                if isinstance(a, tuple):
                    stack.extend(a)
                else:
                    stack.append(a)
    return True


def special(ctx, m):
    """Constants of every kind, Python numbers, shared bindings to compound expressions, and nodes that must not be mistranslated."""
    XY = variables()
    name = m.__name__
    x, y = m.Symbol("x"), m.Symbol("y")
    consts = [0, 1, -1, 7, 2 ** 31, 2 ** 53 + 1, 2 ** 63, 2 ** 64, -2 ** 63 - 1, 10 ** 20, -10 ** 30, 3 ** 100]
    for c in consts:
        case = "%s integer %d" % (name, c)
        ctx.step()
        ctx.state(case)
        with ctx.guard(case, "translation"):
            for e, want in [(m.Integer(c), float(c)), (c, float(c)), (m.Integer(c) / m.Integer(3 ** 41), c / 3 ** 41), (m.Integer(2) / m.Integer(c) if c else m.Integer(0), 2 / c if c else 0.0)]:
                g = mapper(m, "own", XY)(e)
                v = evaluate_many([g], (), {})[0]
                ctx.expect(numpy.asarray(v).dtype.kind != "c", case, "complex constant")
                ctx.close(numpy.asarray(v).real, want, case, "value", rtol=1e-14, atol=0)
            g = mapper(m, "own", XY)(m.Integer(c) * x)
            ctx.expect(complex not in dtypes(g), case, "complex coefficient")
            compare(ctx, case + "*x", batch([g])[0], ("*", N(c), X), "own")
    for c in (0.0, 0.1, -1e-30, 1e300, numpy.float64(0.3), True, False):
        case = "%s number %r" % (name, c)
        ctx.step()
        ctx.state(case)
        with ctx.guard(case, "translation"):
            v = evaluate_many([mapper(m, "own", XY)(c)], (), {})[0]
            ctx.close(v, float(c), case, "value", rtol=1e-15, atol=0)
    # one memoiser, numbers that compare equal, in every order
    for perm in itertools.permutations([1, True, 1.0, m.Integer(1), x, m.true]):
        mp = mapper(m, "own", XY)
        ctx.step()
        with ctx.guard("%s order %s" % (name, [type(p).__name__ for p in perm])):
            for e in perm:
                if e is x:
                    ctx.expect(mp(e) is XY[0], "%s order" % name, "symbol not bound to its own expression")
                else:
                    v = evaluate_many([mp(e)], (), {})[0]
                    ctx.expect(float(v) == 1.0, "%s order %s" % (name, perm), "value %r" % v)
    # symbols bound to compound expressions sharing parts
    s = gem.Sum(XY[0], XY[1])
    d = gem.Product(s, s)
    for t in depth1(ctx.tier):
        ctx.step()
        case = "%s compound %s" % (name, show(t))
        try:
            e = build(t, m)
        except Exception:
            continue
        if not supported(e, m):
            continue
        with ctx.guard(case, "translation"):
            mp = gem.node.Memoizer(sympy2gem)
            mp.bindings = {x: s, y: d}
            v = batch([mp(e)])[0]
            a = GRID[0] + GRID[1]
            want, ok = ev(t, a, a * a)
            got = numpy.broadcast_to(numpy.asarray(v, dtype=float), want.shape)
            ctx.close(got[ok], want[ok], case, "value", rtol=1e-12, atol=1e-12)
    # an unbound symbol must not be invented
    z = m.Symbol("z")
    for e in (z, x + z, z ** 2, m.Abs(z), m.Piecewise((x, z > 0), (y, True))):
        ctx.step()
        try:
            mapper(m, "own", XY)(e)
            ctx.expect(False, "%s unbound %s" % (name, e), "translated")
        except Exception:
            ctx.compared += 1
    # nodes outside the documented set: refused, or of the right value
    f = lambda n: getattr(m, n)     # noqa: E731
    funs = {n: v for n, v in {
        "sin": numpy.sin, "cos": numpy.cos, "tan": numpy.tan, "exp": numpy.exp, "sinh": numpy.sinh, "cosh": numpy.cosh, "tanh": numpy.tanh,
        "sign": numpy.sign, "floor": numpy.floor, "ceiling": numpy.ceil, "atan": numpy.arctan, "asinh": numpy.arcsinh}.items() if hasattr(m, n)}
    two = {n: v for n, v in {"Max": numpy.maximum, "Min": numpy.minimum, "atan2": numpy.arctan2, "Ne": numpy.not_equal,
                             "Mod": lambda a, b: numpy.where(b == 0, numpy.nan, numpy.mod(a, numpy.where(b == 0, 1, b)))}.items() if hasattr(m, n)}
    X_, Y_ = GRID
    cases = []
    for n, v in funs.items():
        cases += [(n + "(x)", lambda n=n: f(n)(x), v(X_)), (n + "(x)+y", lambda n=n: f(n)(x) + y, v(X_) + Y_), (n + "(x)*y", lambda n=n: f(n)(x) * y, v(X_) * Y_),
                  (n + "(x*y)", lambda n=n: f(n)(x * y), v(X_ * Y_)), (n + " piece", lambda n=n: m.Piecewise((f(n)(x), x > 0), (y, True)), numpy.where(X_ > 0, v(X_), Y_)),
                  (n + " default", lambda n=n: m.Piecewise((y, x > 0), (f(n)(x), True)), numpy.where(X_ > 0, Y_, v(X_))),
                  (n + " condition", lambda n=n: m.Piecewise((x, f(n)(x) > y), (y, True)), numpy.where(v(X_) > Y_, X_, Y_)),
                  (n + " abs", lambda n=n: m.Abs(f(n)(x)), numpy.abs(v(X_))), (n + "^2", lambda n=n: f(n)(x) ** 2, v(X_) ** 2)]
    for n, v in two.items():
        w = numpy.asarray(v(X_, Y_), dtype=float)
        cases += [(n + "(x,y)", lambda n=n: f(n)(x, y), w)]
        if n != "Ne":
            cases += [(n + "(x,y)+y", lambda n=n: f(n)(x, y) + y, w + Y_)]
        else:
            cases += [("Ne piece", lambda: m.Piecewise((x, m.Ne(x, y)), (N_(m, 7), True)), numpy.where(X_ != Y_, X_, 7.0)),
                      ("not Eq piece", lambda: m.Piecewise((x, m.Not(m.Eq(x, y))), (N_(m, 7), True)), numpy.where(X_ != Y_, X_, 7.0)),
                      ("Ne and", lambda: m.And(m.Ne(x, y), x > 0), ((X_ != Y_) & (X_ > 0)).astype(float))]
    cases += [("xor", lambda: m.Xor(x > 0, y > 0), ((X_ > 0) ^ (Y_ > 0)).astype(float)),
              ("pi", lambda: m.pi + x, numpy.pi + X_), ("E", lambda: m.E * x, numpy.e * X_), ("oo", lambda: m.oo, None), ("zoo", lambda: m.zoo, None),
              ("nan", lambda: m.nan, None), ("I", lambda: m.I, None), ("I*x", lambda: m.I * x, None), ("sqrt(-1)", lambda: m.sqrt(m.Integer(-2)) * x, None),
              ("f(x)", lambda: m.Function("f")(x), None), ("derivative", lambda: m.Derivative(m.Function("f")(x), x), None),
              ("string", lambda: "x", None), ("none", lambda: None, None), ("list", lambda: [x], None), ("tuple", lambda: (x, y), None),
              ("matrix", lambda: m.Matrix([[x, y]]), None)]
    if m is sympy:
        cases += [("integral", lambda: sympy.Integral(x, x), None), ("sum", lambda: sympy.Sum(x, (z, 1, 2)), None), ("indexed", lambda: sympy.IndexedBase("a")[1], None),
                  ("heaviside", lambda: sympy.Heaviside(x), None), ("nand", lambda: sympy.Nand(x > 0, y > 0), ((~((X_ > 0) & (Y_ > 0)))).astype(float)),
                  ("implies", lambda: sympy.Implies(x > 0, y > 0), (~(X_ > 0) | (Y_ > 0)).astype(float)),
                  ("equivalent", lambda: sympy.Equivalent(x > 0, y > 0), ((X_ > 0) == (Y_ > 0)).astype(float)),
                  ("golden", lambda: sympy.GoldenRatio + x, float(sympy.GoldenRatio) + X_), ("order", lambda: sympy.Order(x), None),
                  ("dummy", lambda: sympy.Dummy("x") + x, None), ("interval", lambda: sympy.Interval(0, 1), None)]
    for what, mk, want in cases:
        case = "%s foreign %s" % (name, what)
        ctx.step()
        ctx.state(case)
        try:
            e = mk()
        except Exception:
            ctx.skip("not built by " + name)
            continue
        try:
            g = mapper(m, "own", XY)(e)
        except Exception:
            ctx.compared += 1
            ctx.outcome("refused")
            continue
        if not ctx.expect(want is not None and isinstance(g, gem.Node), case, lambda: "translated to %r" % (g,)):
            continue
        v = batch([g])[0]
        ok = ~numpy.isnan(want)
        ctx.close(numpy.broadcast_to(numpy.asarray(v, dtype=float), want.shape)[ok], want[ok], case, "value", rtol=1e-12, atol=1e-12)
    ctx.sample(case)


def N_(m, k):
    return m.Integer(k)
