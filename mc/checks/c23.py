"""C23: answers and generated expressions agree between processes.

Two kinds of nondeterminism are put under control and explored.  (a) Iteration
orders: the modules under test are compiled so that the order of every
iteration over a set is a choice of the explorer (mc.setorder); state:
(object, schedule), transition: one question asked under the schedule.
Schedules: every single source line that iterates over a set, and every single
iteration, takes every order of the bound while the rest keeps insertion
order.  (b) Processes: fresh interpreters with different hash seeds, heap
layouts and work histories ask all questions; state: (object, process).
Answers are compared structurally: expressions node by node up to the naming
of indices.
"""
import itertools
import os
import pickle
import subprocess
import sys

from mc import ref

CHUNK = 1
ASSUMPTIONS = ["two expressions differing only in the naming of indices are the same",
               "the order of entries in a returned dictionary or set is not part of the answer",
               "numbers agree to 1e-9 relative to their size"]
# (hash seed, heap layout, items in reverse)
PROCESSES = {"quick": [(0, 0, False), (1, 1, True), (2, 2, False), (12345, 3, True)],
             "thorough": [(0, 0, False)] + [(s, s % 4, bool(s % 2)) for s in list(range(1, 11)) + [12345, 4294967295]]}


def items(tier):
    from mc import alphabet, uflspec
    from mc.checks import c18
    A = alphabet
    out = [["element", s, "full"] for s in c18.elements(tier)]
    seen = {i[1] for i in out}
    rest = A.simplex_leaves("quick") + A.cube_leaves("quick") + A.composites("quick" if tier == "quick" else "thorough")
    rest = rest[:len(rest)] if tier != "quick" else A.simplex_leaves("quick")[::2] + A.cube_leaves("quick") + A.composites("quick")[::2] + \
        [s for s in A.composites("quick")[1::2] if s[0] in ("enriched", "mixed")][::2]
    out += [["element", s, "light"] for s in dict.fromkeys(rest) if s not in seen]
    trees = uflspec.trees("quick")
    out += [["ufl", s] for s in (trees if tier != "quick" else trees[::2])]
    out += [["ufl", s] for s in ufl_more()]
    out += [["rules", k] for k in range(3)] + [["registry"]]
    from mc import c23_worker
    for t in c23_worker.TERMS:
        n = len(c23_worker.TERMS[t]())
        for back in ("sympy", "symengine"):
            out += [["sympy", back, t, k, min(k + 50, n)] for k in range(0, n, 50)]
    return out


def ufl_more():
    """Descriptions built from parts on several cells or with many equal parts."""
    from mc.uflspec import F
    T, I, Q = "triangle", "interval", "quadrilateral"
    a, b, c, d = F("CG", T, 1), F("DG", T, 0), F("RT", T, 1), F("CG", T, 2)
    # parts that disagree about every attribute a compound description reports
    v = [F("CG", I, 2, variant=x) for x in ("spectral", "equispaced", "fdm", "integral", None)] + [F("DG", I, 1, variant=x) for x in ("point", "u")]
    q = [F("CG", I, 2, qs=x) for x in ("KMV", "default", "GLL", None)]
    odd = []
    for pool in (v, q):
        for x, y in itertools.combinations(pool, 2):
            odd += [("E", (x, y)), ("TP", (x, y), None), ("M", (x, y))]
        for x, y, z in itertools.combinations(pool[::2], 3):
            odd += [("E", (x, y, z)), ("N", (z, x, y)), ("TP", (x, y, z), None), ("M", (z, x, y))]
    odd += [("E", (x, F("RT", T, 1))) for x in (F("N1curl", T, 1), F("BDM", T, 2), F("Regge", T, 1))]
    return odd + [("M", (a, b, c, d)), ("M", (d, c, b, a)), ("M", (F("CG", T, 1), F("CG", I, 1))), ("M", (F("Q", Q, 1), F("CG", T, 1), F("CG", I, 2))),
            ("M", (F("CG", I, 1), F("Q", Q, 2))), ("E", (a, b, d)), ("E", (d, b, a)), ("N", (a, d, b))]


def bound(tier):
    n = len(items(tier))
    return ("%d objects (elements, descriptions, rules, tables, symbolic terms); %d processes; every order of up to 4 members (reversal, transpositions, "
            "rotations of more) at one source line or one iteration at a time" % (n, len(PROCESSES[tier])))


def tasks(tier):
    n = len(items(tier))
    k = min(n, 24 if tier == "quick" else 120)
    return [["seeds", j, k] for j in range(k)] + [["orders", j, k] for j in range(k)]


def cost(task):
    return (task[0] == "seeds", 0)


def worker(arg, seed=0):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, "-m", "mc.c23_worker"], input=pickle.dumps(arg, protocol=4), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    if p.returncode:
        raise RuntimeError("worker failed: " + p.stderr.decode()[-1200:])
    return pickle.loads(p.stdout)


def show(item):
    if item[0] == "element":
        return ref.show(ref.tup(item[1]))
    if item[0] == "ufl":
        from mc import uflspec
        return uflspec.show(uflspec.tup(item[1]))
    return " ".join(map(str, item))


def run(task, ctx):
    from mc import canon
    mode, j, k = task
    part = items(ctx.tier)[j::k]
    if mode == "seeds":
        procs = PROCESSES[ctx.tier]
        answers = []
        for seed, noise, rev in procs:
            rev = rev and True
            answers.append(worker({"mode": "seeds", "items": part, "tier": "quick", "noise": noise, "reverse": rev}, seed))
            ctx.step()
            for i in range(len(part)):
                ctx.state((part[i], seed, noise, rev))
        for i, item in enumerate(part):
            base = answers[0][i]
            for p, ans in zip(procs[1:], answers[1:]):
                ctx.step(len(base))
                ctx.compared += len(base)
                if canon.differ(tuple(ans[i]), tuple(base)) is None:
                    continue
                for (n, x), (m, y) in zip(ans[i], base):
                    w = canon.differ((n, x), (m, y))
                    if w:
                        ctx.fail("%s: %s" % (show(item), n), "process with hash seed %d (layout %d%s) answers differently: %s"
                                 % (p[0], p[1], ", other work first" if p[2] else "", w))
                        break
                break
            ctx.outcome(tuple(n for n, _ in base))
        ctx.sample({"processes": procs, "objects": [show(i) for i in part[:2]]})
        return
    try:
        res = worker({"mode": "orders", "items": part, "tier": "quick", "depth": 1 if ctx.tier == "quick" else 2,
                      "points": 12 if ctx.tier == "quick" else 200})
    except RuntimeError as exc:
        # (the seeds tasks drive the same objects without instrumentation)
        ctx.skip("the modules do not run with their sets under control: " + str(exc)[-200:])
        return
    sites = set()
    for item, r in zip(part, res["results"]):
        ctx.step(r["schedules"])
        ctx.compared += r["compared"]
        for s in range(r["schedules"]):
            ctx.state((item, "schedule", s))
        sites |= set(r["sites"])
        for where, what in r["bad"]:
            ctx.fail("%s: %s" % (show(item), where), "the answer depends on the order of a set: %s" % what)
    if res["imported"]:
        ctx.skip("iterations over sets while importing (explored through hash seeds only)")
    ctx.notes["source lines iterating over sets"] = ctx.notes.get("source lines iterating over sets", 0) + len(sites)
    for s in sites:
        ctx.outcome(s)
    ctx.sample({"sites": sorted(map(str, sites))[:5], "objects": [show(i) for i in part[:2]]})
