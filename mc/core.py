"""Small bounded-exhaustive model checking framework used by every check.

A check module (checks/cNN.py) defines

    LEVEL = "model_checking" | "fault_enumeration" | "exploration"
    def run(ctx): ...

and uses the Context below:

    ctx.thorough              True for the thorough tier
    ctx.state(key)            count a distinct configuration / model state
    ctx.step(n=1)             count calls ("transitions") of the implementation
    ctx.trace(n=1)            count complete configurations whose model trace was
                              compared with the implementation
    ctx.outcome(key)          tally of distinct observed outcomes
    ctx.sample(obj)           remember a few explored cases
    ctx.fail(kind, case, msg) report a violation (deduplicated by kind)
    ctx.parallel(fn, items)   run fn(ctx, item) over 8 processes, merging counts

The decision is always enumeration over a finite space; no random choice is made.
(VERIF_SEED only rotates the order in which work items are handed to workers.)
"""
import contextlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if o == o and abs(o) != float("inf") else repr(float(o))
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


class Context(object):
    MAXSAMPLES = 8
    MAXFAIL = 12

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.states = 0
        self._seen = {}
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.fails = {}       # kind -> dict(case,msg,n)
        self.groups = {}      # named counters
        self.notes = {}
        self.t0 = time.time()
        self._group = None

    # ---- counting
    def state(self, key=None):
        if key is None:
            self.states += 1
            return True
        h = hash(key) if not isinstance(key, int) else key
        if h in self._seen:
            return False
        self._seen[h] = 1
        self.states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n
        if self._group:
            self.groups[self._group] = self.groups.get(self._group, 0) + n

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def sample(self, obj):
        if len(self.samples) < self.MAXSAMPLES:
            self.samples.append(jsonable(obj))

    @contextlib.contextmanager
    def group(self, name):
        old, self._group = self._group, name
        t = time.time()
        try:
            yield
        except Exception as e:   # the implementation (or harness) blew up outside a guarded call
            self.fail("exception:%s" % name, dict(group=name),
                      "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:]))
        finally:
            self._group = old
            self.notes.setdefault("seconds", {})[name] = round(
                self.notes.get("seconds", {}).get(name, 0) + time.time() - t, 2)

    # ---- violations
    def fail(self, kind, case, msg=""):
        f = self.fails.get(kind)
        if f is None:
            self.fails[kind] = dict(kind=kind, case=jsonable(case), msg=str(msg)[:3000], n=1)
        else:
            f["n"] += 1

    def check(self, cond, kind, case, msg=""):
        if not cond:
            self.fail(kind, case() if callable(case) else case, msg() if callable(msg) else msg)
        return cond

    def failcount(self, kind):
        return self.fails.get(kind, {}).get("n", 0)

    # ---- merging
    def export(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=self.outcomes, samples=self.samples, fails=self.fails,
                    groups=self.groups, notes=self.notes)

    def absorb(self, d):
        self.states += d["states"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        for k, v in d["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in d["groups"].items():
            self.groups[k] = self.groups.get(k, 0) + v
        for k, v in d["notes"].get("seconds", {}).items():
            s = self.notes.setdefault("seconds", {})
            s[k] = round(s.get(k, 0) + v, 2)
        have = len(self.samples)
        if have < self.MAXSAMPLES:
            self.samples.extend(d["samples"][:max(1, (self.MAXSAMPLES - have) // 2)])
        for k, f in d["fails"].items():
            if k in self.fails:
                self.fails[k]["n"] += f["n"]
            else:
                self.fails[k] = f

    def parallel(self, fn, items, nproc=None, item_timeout=None):
        """fn(ctx, item) over items in forked workers; merges counters."""
        items = list(items)
        if not items:
            return
        nproc = min(nproc or int(os.environ.get("VERIF_NPROC", "8")), len(items))
        k = self.seed % len(items)
        order = list(range(len(items)))
        order = order[k:] + order[:k]
        mpc = multiprocessing.get_context("fork")
        todo = mpc.Value("i", 0)
        group = self._group
        procs = []
        for w in range(nproc):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    sub = Context(self.prop, self.tier, self.seed)
                    sub._group = group
                    while True:
                        with todo.get_lock():
                            i = todo.value
                            todo.value += 1
                        if i >= len(items):
                            break
                        item = items[order[i]]
                        try:
                            fn(sub, item)
                        except Exception as e:
                            sub.fail("exception:%s" % (group or fn.__name__), dict(item=repr(item)[:600]),
                                     "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:]))
                    data = json.dumps(sub.export()).encode()
                    with os.fdopen(wfd, "wb") as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wfd)
            procs.append((pid, r))
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if not data:
                self.fail("exception:worker", dict(status=st), "a worker process died (status %s)" % st)
            else:
                self.absorb(json.loads(data.decode()))


# ---------------------------------------------------------------- helpers
class Raised(object):
    """Outcome of a call that raised."""
    def __init__(self, e):
        self.type, self.e = type(e).__name__, e

    def __repr__(self):
        return "Raised(%s: %s)" % (self.type, str(self.e)[:200])


def call(fn, *a, **k):
    """Call the implementation, turning exceptions into values."""
    try:
        return fn(*a, **k)
    except Exception as e:
        return Raised(e)


def close(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return bool(np.array_equal(np.isnan(a), np.isnan(b)) and
                    np.allclose(np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 0), rtol, atol)
                    and np.array_equal(a[np.isinf(a)], b[np.isinf(b)]))
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def load_known():
    """known: property=<id> kind="<kind>" <what fails>   (fixed: lines suppress nothing)"""
    import re
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) kind="([^"]*)" (.*)$', line.strip())
            if m:
                out.append(dict(property=m.group(1), kind=m.group(2), what=m.group(3)))
    return out


def main(argv=None):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="only groups whose name contains this (debugging; evidence not written)")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    ctx = Context(a.property, a.tier, seed)
    ctx.only = a.only
    warnings.simplefilter("ignore")
    from . import env
    env.setup()
    import numpy as np
    np.seterr(all="ignore")
    mod = None
    try:
        mod = importlib.import_module("checks." + a.property.lower())
        mod.run(ctx)
    except Exception as e:
        ctx.fail("exception:check", dict(), "unexpected %s: %s\n%s"
                 % (type(e).__name__, e, traceback.format_exc()[-2500:]))
    env.cleanup()
    return finish(ctx, mod, a)


def finish(ctx, mod, a):
    level = getattr(mod, "LEVEL", "model_checking")
    known = [k for k in load_known() if k["property"] == ctx.prop]
    kinds = {k["kind"]: k for k in known}
    new, old = [], []
    for kind, f in sorted(ctx.fails.items()):
        (old if kind in kinds else new).append(f)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, kinds[f["kind"]]["what"]))
    wall = time.time() - ctx.t0
    cov = dict(samples=ctx.samples, distinct_outcomes=len(ctx.outcomes),
               outcomes=dict(sorted(ctx.outcomes.items(), key=lambda kv: -kv[1])[:40]),
               per_group=ctx.groups, exhaustive=True)
    cov["notes"] = ctx.notes
    if hasattr(mod, "BOUNDS"):
        cov["bounds"] = mod.BOUNDS
    if level == "model_checking":
        cov.update(states=ctx.states, transitions=ctx.transitions,
                   traces_validated_against_impl=ctx.traces)
    else:
        cov.update(evaluations=ctx.transitions, distinct_nontrivial=ctx.states,
                   rule=getattr(mod, "RULE", "every case of the stated finite space once"),
                   compared_with_reference=ctx.traces)
    ev = dict(property=ctx.prop, tier=ctx.tier if ctx.tier in ("quick", "thorough") else "quick",
              seed=ctx.seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
              violations=len(new))
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as fh:
            json.dump(jsonable(ev), fh, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d  %.1fs" % (
        ctx.prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, len(ctx.outcomes), wall))
    for g, n in sorted(ctx.groups.items()):
        print("   %-46s traces %8d   %7.1fs" % (g, n, ctx.notes.get("seconds", {}).get(g, 0)))
    if ctx.traces == 0 and not new:
        print("nothing was explored")
        new.append(dict(kind="vacuous", case={}, msg="no case was explored", n=1))
    if not new:
        return 0
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    for i, f in enumerate(new[:Context.MAXFAIL]):
        path = os.path.join(d, "%s_%d.json" % (ctx.prop, i))
        with open(path, "w") as fh:
            json.dump(jsonable(dict(property=ctx.prop, tier=ctx.tier, **f)), fh, indent=1)
        print("-- %s (x%d)\n   case: %s\n   %s" % (f["kind"], f["n"], json.dumps(f["case"])[:900], f["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1
