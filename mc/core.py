"""Exploration harness shared by all checks.

A check is a module ``mc.checks.<id>`` with

``tasks(tier)``  -> list of JSON-able task descriptions.  Together the tasks
                    enumerate the whole bounded space (never a sample).
``run(task, ctx)``  explores one task's part of the space on the real code and
                    reports states, transitions and comparisons on ``ctx``.

Every task is run in its own slot of a process pool; a violation is written
to /verif/replays/<id>-<n>.json which ``bin/check <id> --replay FILE``
re-executes without the explorer.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_VIOLATIONS_PER_TASK = 5


class StopTask(Exception):
    pass


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    """Collects what one task explored."""

    def __init__(self, task, tier, known):
        self.task = task
        self.tier = tier
        self.known = known
        self.states = set()
        self.transitions = 0
        self.compared = 0
        self.outcomes = set()
        self.violations = []
        self.known_hits = set()
        self.samples = []
        self.skipped = {}
        self.notes = {}

    # -- exploration bookkeeping
    def state(self, key):
        """Record that a configuration was reached; True if new."""
        h = hashlib.md5(repr(key).encode()).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(short(s, 400))

    def skip(self, reason):
        self.skipped[reason] = self.skipped.get(reason, 0) + 1

    def outcome(self, key):
        self.outcomes.add(hashlib.md5(repr(key).encode()).digest())

    # -- verdicts
    def fail(self, case, msg):
        """Report a violation for ``case`` (a short stable string)."""
        for k in self.known:
            if k["match"] == case or (k.get("prefix") and case.startswith(k["match"])):
                self.known_hits.add(k["id"])
                return
        self.violations.append({"case": case, "message": short(msg, 1500)})
        if len(self.violations) >= MAX_VIOLATIONS_PER_TASK:
            raise StopTask()

    def expect(self, cond, case, msg=""):
        self.compared += 1
        if not cond:
            self.fail(case, msg() if callable(msg) else msg)
            return False
        return True

    def equal(self, got, want, case, what=""):
        self.compared += 1
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            self.fail(case, "%s: got %s, expected %s" % (what, short(got), short(want)))
            return False
        return True

    def close(self, got, want, case, what="", rtol=1e-9, atol=1e-9, scale=None):
        """Numerical agreement of arrays, absolute w.r.t. the scale of ``want``."""
        import numpy
        self.compared += 1
        got = numpy.asarray(got)
        want = numpy.asarray(want)
        if got.shape != want.shape:
            self.fail(case, "%s: shape %s, expected %s" % (what, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        if got.dtype == object:
            got = got.astype(float)
        s = float(numpy.max(numpy.abs(want))) if scale is None else scale
        if not numpy.isfinite(s):
            s = 1.0
        err = numpy.abs(got - want)
        bad = ~(err <= atol + rtol * s)
        if bad.any():
            k = numpy.unravel_index(int(numpy.argmax(bad)), bad.shape)
            self.fail(case, "%s: at %s got %r, expected %r (max error %.3g, %d of %d entries wrong)"
                      % (what, tuple(int(i) for i in k), got[k].item(), want[k].item(),
                         float(numpy.nanmax(err)), int(bad.sum()), bad.size))
            return False
        return True

    def guard(self, case, what=""):
        return _Guard(self, case, what)


class _Guard:
    """Turns an unexpected exception of the code under test into a violation."""

    def __init__(self, ctx, case, what):
        self.ctx, self.case, self.what = ctx, case, what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or et is StopTask or not issubclass(et, Exception):
            return False
        last = traceback.format_exception(et, ev, tb)
        self.ctx.compared += 1
        self.ctx.fail(self.case, "%s: raised %s: %s\n%s"
                      % (self.what, et.__name__, short(str(ev), 200), "".join(last)[-900:]))
        return True


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def _setup_process():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(100000)
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")


def _run_task(arg):
    prop, tier, idx, task, known = arg
    mod = importlib.import_module("mc.checks." + prop.lower())
    ctx = Ctx(task, tier, known)
    t0 = time.time()
    try:
        mod.run(task, ctx)
    except StopTask:
        pass
    except Exception:
        # an exception that escaped every guard: the code under test could not
        # be driven through this task at all
        ctx.compared += 1
        try:
            ctx.fail("task:" + json.dumps(task, sort_keys=True),
                     "unexpected exception\n" + traceback.format_exc()[-1400:])
        except StopTask:
            pass
    return {
        "idx": idx, "states": len(ctx.states), "transitions": ctx.transitions,
        "compared": ctx.compared, "outcomes": list(ctx.outcomes),
        "violations": ctx.violations, "known": sorted(ctx.known_hits),
        "samples": ctx.samples, "skipped": ctx.skipped, "notes": ctx.notes,
        "wall": time.time() - t0,
    }


def _run_batch(batch):
    return [_run_task(w) for w in batch]


def main(prop, argv):
    _setup_process()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    verbose = False
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--jobs":
            jobs = int(args.pop(0))
        elif a == "-v":
            verbose = True
        else:
            raise SystemExit("unknown argument " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = load_known(prop)
    mod = importlib.import_module("mc.checks." + prop.lower())
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        tier = rec["tier"]
        tasks = [rec["task"]]
    else:
        tasks = list(mod.tasks(tier))
    if only:
        tasks = [t for t in tasks if only in json.dumps(t)]
    work = [(prop, tier, i, t, known) for i, t in enumerate(tasks)]
    results = []
    if jobs == 1 or len(work) <= 1:
        for w in work:
            results.append(_run_task(w))
    else:
        mp = multiprocessing.get_context("fork")
        chunk = getattr(mod, "CHUNK", 1)
        # expensive tasks first (modules may provide a cost estimate)
        cost = getattr(mod, "cost", None)
        if cost is not None:
            work.sort(key=lambda w: cost(w[3]), reverse=True)
        batches = [work[i:i + chunk] for i in range(0, len(work), chunk)]
        with ProcessPoolExecutor(jobs, mp_context=mp, initializer=_setup_process) as pool:
            for fut in as_completed([pool.submit(_run_batch, b) for b in batches]):
                results.extend(fut.result())
    results.sort(key=lambda r: r["idx"])
    wall = time.time() - t0

    states = sum(r["states"] for r in results)
    transitions = sum(r["transitions"] for r in results)
    compared = sum(r["compared"] for r in results)
    outcomes = set()
    skipped = {}
    known_hits = set()
    notes = {}
    samples = []
    viol = []
    for r in results:
        outcomes.update(r["outcomes"])
        known_hits.update(r["known"])
        for k, v in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + v
        for k, v in r["notes"].items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                notes[k] = notes.get(k, 0) + v
            else:
                notes[k] = v
        for v in r["violations"]:
            viol.append((r["idx"], v))
    with_samples = [r for r in results if r["samples"]]
    stride = max(1, len(with_samples) // 8)
    for r in with_samples[::stride][:8]:
        samples.append({"task": short(tasks[r["idx"]], 200), "case": r["samples"][0]})

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": compared,
            "distinct_outcomes": len(outcomes),
            "tasks": len(tasks),
            "bound": mod.bound(tier) if hasattr(mod, "bound") else "",
            "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip()),
            "not_supported_by_the_code": skipped,
            "notes": notes,
            "samples": samples or [{"task": short(tasks[0] if tasks else "", 200)}],
            "exhaustive": not viol,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
        "known_findings": sorted(known_hits),
    }
    if not replay and not only:
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        tmp = os.path.join(evdir, prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(tmp, os.path.join(evdir, prop + ".json"))

    if verbose:
        slow = sorted(results, key=lambda r: -r["wall"])[:8]
        for r in slow:
            print("  slow %.1fs %s" % (r["wall"], short(tasks[r["idx"]], 160)))
        print("  skipped", skipped)
    print("%s %s: tasks=%d states=%d transitions=%d comparisons=%d outcomes=%d wall=%.1fs"
          % (prop, tier, len(tasks), states, transitions, compared, len(outcomes), wall))
    for k in known:
        if k["id"] in known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not replay and not only:
        if not tasks or transitions == 0 or compared == 0:
            print("error: vacuous exploration")
            return 2
    if viol:
        rdir = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
        os.makedirs(rdir, exist_ok=True)
        for n, (idx, v) in enumerate(viol[:10]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            if replay:
                path = replay
            else:
                with open(path, "w") as f:
                    json.dump({"property": prop, "tier": tier, "task": tasks[idx],
                               "case": v["case"], "message": v["message"],
                               "how": "bin/check %s --replay %s" % (prop, path)}, f, indent=1)
            print("  case: %s" % v["case"])
            print("  " + v["message"].replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        if verbose:
            seen = {}
            for idx, v in viol:
                seen.setdefault(idx, []).append(v)
            for idx, vs in seen.items():
                print("  failing task %s: %d; first: %s :: %s" % (short(tasks[idx], 160), len(vs), vs[0]["case"], short(vs[0]["message"].strip().splitlines()[-1], 200)))
        if len(viol) > 10:
            print("  ... %d violations in total" % len(viol))
        return 1
    return 0
