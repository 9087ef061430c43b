"""Worker processes of C23: what one process observes.

``seeds``   asks every question of the items handed in and prints the answers.
``orders``  does so under every schedule of set iteration orders (mc.setorder)
            and prints where an answer depends on the schedule.
"""
import pickle
import sys


def noise(k):
    """Another layout of the heap (addresses and hence hashes of plain objects)."""
    keep = []
    for j in range(2000 * k):
        keep.append([object() for _ in range(1 + (7 * j + k) % 5)])
    return keep[::2]


def questions(item, tier):
    """(fresh objects, {name: signature of the answer})"""
    from mc import canon, ref
    kind = item[0]
    if kind == "element":
        from mc import build
        from mc.checks import c18
        spec = ref.tup(item[1])
        qs = c18.queries(spec, False, tier)
        if item[2] == "light":
            qs = {k: qs[k] for k in ("props", "entity_dofs", "dual", "basis1a", "permutations", "own points") if k in qs}

        def make():
            el = build.element(spec)
            return el, c18.Env(spec)
        return make, {n: (lambda o, f=f: c18.signature(canon.attempt(lambda: f(o[0], o[1])), o[1])) for n, f in qs.items()}
    from mc.checks.c18 import attempt_sig
    if kind == "ufl":
        from mc import uflspec
        from mc.checks import c18
        spec = uflspec.tup(item[1])
        qs = dict(c18.ufl_questions())
        qs["repr"] = lambda e: (repr(e), str(e))        # (hash values of strings belong to the process)
        return lambda: uflspec.build(spec), {n: (lambda o, f=f: attempt_sig(canon.attempt(lambda: f(o)), False)) for n, f in qs.items()}
    if kind == "rules":
        from mc.checks import c18
        make, qs = c18.rule_questions(item[1])
        return make, {n: (lambda o, f=f: attempt_sig(canon.attempt(lambda: f(o)), False)) for n, f in qs.items()}
    if kind == "registry":
        return registry()
    if kind == "sympy":
        return symbolic(item)
    raise ValueError(kind)


def registry():
    """The table of families and aliases."""
    from mc import canon
    import finat.ufl.elementlist as el

    def rows(_):
        out = []
        for k, v in el.ufl_elements.items():
            out.append((repr(k), [canon.sig(x) for x in (v if isinstance(v, (tuple, list)) else [v])]))
        return out
    qs = {"families": rows, "aliases": lambda _: sorted(map(repr, el.aliases)), "simplices": lambda _: repr(el.simplices), "cubes": lambda _: repr(el.cubes),
          "any": lambda _: repr(el.any_cell), "tensor": lambda _: repr(sorted(el.tensor_cells) if hasattr(el, "tensor_cells") else None),
          "show": lambda _: canon.attempt(el.show_elements)}
    return lambda: None, {n: (lambda o, f=f: canon.sig(canon.attempt(lambda: f(o)))) for n, f in qs.items()}


def symbolic(item):
    from mc import canon
    from mc.checks import c19
    from finat.sympy2gem import sympy2gem
    from gem.node import Memoizer
    _, back, table, lo, hi = item
    m = {"sympy": c19.sympy, "symengine": c19.symengine}[back]
    terms = TERMS[table]()[lo:hi] if m is not None else []
    XY = c19.variables()
    qs = {}
    for t in terms:
        def ask(o, t=t):
            try:
                e = c19.build(t, m)
            except Exception as exc:
                return ("raised", type(exc).__name__)
            return canon.sig(canon.attempt(lambda: c19.mapper(m, "own", XY)(e)))
        qs[c19.show(t)] = ask
    del sympy2gem, Memoizer
    return lambda: None, qs


def _some(name, n):
    def f():
        from mc.checks import c19
        a = c19.SETS[name]("quick")
        return a[::max(1, len(a) // n)]
    return f


TERMS = {"scalars": _some("scalars", 1500), "conditions": _some("conditions", 500), "pieces": _some("pieces", 700)}


def observe(item, tier):
    """[(question, signature)] asked one after the other of one set of objects."""
    from mc import canon
    make, qs = questions(item, tier)
    o = canon.attempt(make)
    if isinstance(o, canon.Raised):
        return [("construction", ("raised", o.kind, o.text if item[0] == "element" else ""))]
    out = []
    for n, f in qs.items():
        out.append((n, f(o)))
    return out


def seeds(arg):
    kept = noise(arg["noise"])
    items = list(enumerate(arg["items"]))
    if arg["reverse"]:
        items.reverse()
    out = {k: observe(i, arg["tier"]) for k, i in items}
    del kept
    return out


def orders(arg):
    from mc import setorder
    setorder.install()
    ch = setorder.chooser
    import finat  # noqa: F401
    from mc import canon
    depth = arg["depth"]
    out = []
    imported = list(ch.trace)
    for k, item in enumerate(arg["items"]):
        res = {"points": 0, "sites": {}, "schedules": 0, "compared": 0, "bad": []}

        if item[0] == "element" and "zany" in repr(item[1]):
            item = [item[0], item[1], "light"]

        def execute(**sched):
            ch.reset(**sched)
            res["schedules"] += 1
            return observe(item, arg["tier"])

        def against(base, ans, sched):
            res["compared"] += len(ans)
            d = canon.differ(tuple(ans), tuple(base))
            if d and len(res["bad"]) < 3:
                for (n, a), (m, b) in zip(ans, base):
                    if n != m or canon.differ(a, b):
                        res["bad"].append(("%s under order %s" % (n, sched), canon.differ((n, a), (m, b))))
                        return
                res["bad"].append((str(sched), d))
        base = execute()
        trace = list(ch.trace)
        res["points"] = len(trace)
        for s, n in trace:
            res["sites"][s] = max(n, res["sites"].get(s, 0))
        # the same schedule again: everything else is reproducible
        against(base, execute(), "unchanged")
        for s, n in res["sites"].items():
            for j in range(len(setorder.permutations(n))):
                against(base, execute(site=s, k=j), "%s:%s:%d number %d" % (s + (j,)))
        ch.everywhere = False
        for p in range(min(len(trace), arg["points"])):
            n = trace[p][1]
            for j in range(len(setorder.permutations(n)) if depth > 1 else 1):
                against(base, execute(point=p, k=j), "%s:%s:%d only at iteration %d, number %d" % (trace[p][0] + (p, j)))
        ch.reset()
        out.append(res)
    return {"imported": len(imported), "results": out}


def main():
    import os
    sys.setrecursionlimit(100000)
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    stdout = os.dup(1)
    os.dup2(2, 1)
    arg = pickle.load(sys.stdin.buffer)
    out = {"seeds": seeds, "orders": orders}[arg["mode"]](arg)
    with os.fdopen(stdout, "wb") as f:
        pickle.dump(out, f, protocol=4)


if __name__ == "__main__":
    main()
