"""C10: a time-limited call returns the function's outcome or times out."""
import contextlib
import io as _io
import itertools
import os
import signal
import sys
import tempfile
import threading
import time

import numpy as np

from mc import env
from mc.core import Raised

LEVEL = "fault_enumeration"
TECHNIQUE = ("enumeration of worker/caller schedules: the deadline is placed before or after each step of the real worker "
             "(start, compute, serialise, deliver, exit) by gates inside the function and its result, for every kind of "
             "outcome, worker death and call sequence; each schedule runs on real processes and is compared with the "
             "outcome the model allows")
BOUNDS = "5 deadline positions x 40 outcome kinds x both killing modes; call sequences to length 3 over 8 kinds; 2 concurrent callers, one stopped at each of its pipe and fork calls; nested calls"
NOTE = "deadlines are 0.4-4 s of real time with gaps of at least 1 s between the steps a schedule orders; interleavings finer than a process step are the kernel's"
RULE = "distinct (schedule, outcome kind, killing, sequence position)"

SHORT, LATE = 0.5, 3.0


class Odd(Exception):
    def __init__(self, a, b=None):
        Exception.__init__(self, a, b)
        self.a, self.b = a, b

    def __eq__(self, o):
        return type(o) is Odd and (o.a, o.b) == (self.a, self.b)


class Gate(object):
    """result whose serialisation takes a while"""
    def __init__(self, wait, value):
        self.wait, self.value = wait, value

    def __reduce__(self):
        time.sleep(self.wait)
        return (list, ([self.value],))


def big(n):
    return b"x" * n


class NoPickle(object):
    def __reduce__(self):
        raise TypeError("cannot be sent")


OUT = {}


def out(name):
    def deco(f):
        OUT[name] = f
        return f
    return deco


def values():
    v = {"none": None, "false": False, "zero": 0, "float": 1 / 3., "text": "caf\u00e9", "tuple": (True, None), "tuple2": (False, ValueError("x")),
         "nested": {"a": [1, (2, {3})]}, "array": np.arange(6.).reshape(2, 3) / 7, "bigarray": np.arange(300000.) / 7,
         "exception value": KeyError("k"), "class": int, "empty": b"", "list3": [1, 2, 3]}
    for n in (1000, 4096, 65000, 65535, 65536, 65537, 131072, 1000000, 20000000):
        v["bytes%d" % n] = n
    return v


VALUES = values()
ERRORS = {"value": ValueError("a", 1), "key": KeyError("k"), "assert": AssertionError(), "stop": StopIteration(3), "odd": Odd("p", [1]),
          "os": FileNotFoundError(2, "msg", "name"), "bigerror": ValueError("x" * 300000), "memory": MemoryError(), "zero": ZeroDivisionError("division by zero"),
          "sysexit": SystemExit(3), "sysexit text": SystemExit("bye"), "timeouterr": TimeoutError("own"), "interrupt": KeyboardInterrupt()}


def work(kind, name, before=0.0, after=0.0, pid=None, mark=None, **kw):
    """Runs in the worker process."""
    if pid:
        with open(pid, "w") as f:
            f.write(str(os.getpid()))
        os.rename(pid, pid + ".pid")
    if before:
        time.sleep(before)
    if mark:
        open(mark, "w").close()
    if after:      # the process outlives the function
        threading.Thread(target=time.sleep, args=(after,)).start()
    if kind == "value":
        return big(VALUES[name]) if name.startswith("bytes") else VALUES[name]
    if kind == "error":
        raise ERRORS[name]
    if kind == "kwargs":
        return kw
    if kind == "serialise":
        return Gate(float(name), "gate")
    if kind == "die":
        if name == "exit":
            os._exit(7)
        if name == "exit0":
            os._exit(0)
        os.kill(os.getpid(), getattr(signal, name))
        time.sleep(30)
    if kind == "bad":
        return {"lambda": lambda: 1, "nopickle": NoPickle(), "open": sys.stdin, "generator": (i for i in ()), "lock": threading.Lock(),
                "deep": [1, {"a": NoPickle()}]}[name]
    if kind == "baderror":
        raise {"lambda": ValueError(lambda: 1), "nopickle": ValueError(NoPickle())}[name]
    if kind == "stubborn":
        signal.signal(signal.SIGTERM, signal.SIG_IGN)
        open(name, "w").close()
        t = time.time()
        while time.time() - t < 20:
            time.sleep(0.1)
        return "late"
    if kind == "print":
        print("printed by the worker")
        return 5
    raise RuntimeError("unknown kind")


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(b, BaseException):
        return type(a) is type(b) and repr(a.args) == repr(b.args) and getattr(a, "code", None) == getattr(b, "code", None)
    if isinstance(b, tuple) and any(isinstance(x, BaseException) for x in b):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def guarded(fn, limit):
    """fn() in a thread; None if it has not returned after `limit` seconds (a call that blocks for ever)"""
    box = []

    def body():
        try:
            box.append(("returned", fn()))
        except BaseException as e:
            box.append(("raised", e))
    th = threading.Thread(target=body, daemon=True)
    t = time.time()
    th.start()
    th.join(limit)
    return (box[0] if box else ("blocked", None)), time.time() - t


def alive(pid):
    try:
        os.kill(pid, 0)
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def kill_children():
    """ends the processes this process started (workers that were left running)"""
    me = os.getpid()
    for x in os.listdir("/proc"):
        if x.isdigit():
            try:
                with open("/proc/%s/stat" % x) as f:
                    if int(f.read().rsplit(")", 1)[1].split()[1]) == me:
                        os.kill(int(x), signal.SIGKILL)
            except (OSError, IndexError, ValueError):
                pass


def one(ctx, c):
    """c: dict(kind,name,limit,before,after,kill, expect=set of allowed outcome classes)"""
    from geotecha.inputoutput import timeout as T
    d = tempfile.mkdtemp(dir=env.scratch())
    pid = os.path.join(d, "w")
    name = os.path.join(d, "ready") if c["kind"] == "stubborn" else c["name"]
    f = T.timeout(c["limit"], c["kill"])(work) if c["kill"] is not None else T.timeout(c["limit"])(work)
    kw = dict(before=c.get("before", 0), after=c.get("after", 0), pid=pid, mark=os.path.join(d, "done"))
    ctx.step()
    ctx.state((c["kind"], c["name"], c["limit"], c.get("before"), c.get("after"), c["kill"]))
    bound = (c["limit"] or 0) + 8
    (how, got), took = guarded(lambda: f(c["kind"], name, **kw), bound)
    case = dict(c, took=round(took, 2))
    ctx.trace()
    wid = None
    if os.path.exists(pid + ".pid"):
        wid = int(open(pid + ".pid").read())
    try:
        if not ctx.check(how != "blocked", "call blocks for ever", case, ""):
            return
        timed = how == "raised" and type(got) is T.TimeoutException
        cls = "timeout" if timed else how
        ctx.outcome("%s/%s" % (c["kind"], cls))
        want = c["expect"]
        if not ctx.check(cls in want, "wrong outcome: %s instead of %s" % (cls, "/".join(sorted(want))), case, repr(got)[:300]):
            return
        if timed:
            ctx.check(took >= c["limit"] - 0.01, "timed out before the limit", case, took)
            ctx.check(took < c["limit"] + 4, "timed out long after the limit", case, took)
            if c["kill"] in (True, None) and wid:
                t = time.time()
                while alive(wid) and time.time() - t < 2.5:
                    time.sleep(0.05)
                ctx.check(not alive(wid), "timed out worker survives", case, wid)
            elif wid and c.get("before", 0) > SHORT + 1:
                ctx.check(alive(wid), "worker killed although not asked", case, wid)
        elif how == "returned":
            w = {"value": lambda: big(VALUES[name]) if name.startswith("bytes") else VALUES[name], "serialise": lambda: ["gate"],
                 "print": lambda: 5}.get(c["kind"])
            if w:
                ctx.check(same(got, w()), "wrong value", case, repr(got)[:200])
            ctx.check(os.path.exists(os.path.join(d, "done")), "returned before the function ran", case, "")
        elif how == "raised":
            if c["kind"] == "error":
                ctx.check(same(got, ERRORS[name]), "wrong exception", case, repr(got)[:300])
            else:
                ctx.check(isinstance(got, Exception), "wrong exception", case, repr(got)[:300])
    finally:
        kill_children()


def schedules(thorough):
    R, E, TO = {"returned"}, {"raised"}, {"timeout"}
    long = 20.0
    for n in VALUES:
        for kill in (True, False):
            yield dict(kind="value", name=n, limit=long, kill=kill, expect=R)
            if thorough or n in ("none", "bytes65536", "bytes1000000", "tuple2"):
                yield dict(kind="value", name=n, limit=SHORT, before=LATE, kill=kill, expect=TO)
                yield dict(kind="value", name=n, limit=6.0, before=1.0, kill=kill, expect=R)
                yield dict(kind="value", name=n, limit=2.0, after=4.0, kill=kill, expect=R)      # finished, process lingers
    for n in ERRORS:
        for kill in (True, False):
            yield dict(kind="error", name=n, limit=long, kill=kill, expect=E)
            if thorough or n in ("value", "bigerror", "sysexit"):
                yield dict(kind="error", name=n, limit=SHORT, before=LATE, kill=kill, expect=TO)
                yield dict(kind="error", name=n, limit=2.0, after=4.0, kill=kill, expect=E)
    for kill in (True, False, None):
        for wait, exp in (("0.0", R), ("1.0", R), ("4.0", R | TO)):     # serialising past the deadline: either
            yield dict(kind="serialise", name=wait, limit=2.0, kill=kill, expect=exp)
        for n in ("exit", "exit0", "SIGKILL", "SIGTERM", "SIGSEGV"):
            yield dict(kind="die", name=n, limit=3.0, kill=kill, expect=E)
            yield dict(kind="die", name=n, limit=SHORT, before=LATE, kill=kill, expect=TO)
        for n in ("lambda", "nopickle", "open", "generator", "lock", "deep"):
            yield dict(kind="bad", name=n, limit=3.0, kill=kill, expect=E)
        for n in ("lambda", "nopickle"):
            yield dict(kind="baderror", name=n, limit=3.0, kill=kill, expect=E)
        yield dict(kind="print", name="", limit=5.0, kill=kill, expect=R)
    for kill in (True, None):
        yield dict(kind="stubborn", name="", limit=1.0, kill=kill, expect=TO)
    for kill in (True, False):
        for lim in (0, 0.01):
            yield dict(kind="value", name="zero", limit=lim, before=1.0, kill=kill, expect=TO)
            yield dict(kind="value", name="zero", limit=lim, kill=kill, expect=TO | R)
        yield dict(kind="value", name="float", limit=None, before=0.5, kill=kill, expect=R)


def group_kwargs(ctx):
    from geotecha.inputoutput import timeout as T
    names = ["func", "self", "args", "kwargs", "target", "seconds", "function", "result", "daemon"]
    for r in (0, 1, 2, 3):
        for combo in itertools.combinations(names, r):
            if r == 3 and hash(combo) is None:
                continue
            kw = {k: i for i, k in enumerate(combo)}
            f = T.timeout(20)(work)
            ctx.step()
            (how, got), took = guarded(lambda: f("kwargs", "", **kw), 30)
            ctx.state(combo)
            ctx.trace()
            ctx.check(how == "returned" and got == kw, "keyword arguments changed", dict(kw=kw), repr((how, got)))
    for args in ((0.5,), (0.5, 0), (1, 0.01)):
        (how, got), took = guarded(lambda: T.timeout(20)(T._longcos)(*args), 30)
        import math
        ctx.trace()
        ctx.check(how == "returned" and got == math.cos(args[0]), "wrong value", dict(args=args), repr(got))


SEQ = [    # kind, name, time before finishing
       ("value", "float", 0), ("value", "bytes131072", 0), ("error", "odd", 0), ("error", "sysexit", 0), ("value", "none", LATE), ("die", "exit", 0),
       ("bad", "lambda", 0), ("value", "tuple2", 0)]


def expect(kind, name, before):
    if before:
        return ("timeout", None)
    if kind == "value":
        return ("returned", big(VALUES[name]) if name.startswith("bytes") else VALUES[name])
    if kind == "error":
        return ("raised", ERRORS[name])
    return ("raised", None)


def judge(ctx, case, how, got, kind, name, before):
    from geotecha.inputoutput import timeout as T
    w, v = expect(kind, name, before)
    if how == "raised" and type(got) is T.TimeoutException:
        how = "timeout"
    ok = how == w and (v is None and w != "returned" or w == "timeout" or same(got, v))
    ctx.check(ok, "sequence: wrong outcome", case, "%s %r want %s" % (how, repr(got)[:100], w))


def group_sequences(ctx, item):
    """one wrapper used several times in a row, then from two threads at once"""
    from geotecha.inputoutput import timeout as T
    n = 3 if ctx.thorough else 2
    for rest in itertools.product(range(len(SEQ)), repeat=n - 2):
        seq = item + rest
        for kill in (True, False):
            if not ctx.thorough and not kill and 4 not in seq:
                continue
            lim = 1.5 if 4 in seq else 15
            f = T.timeout(lim, kill)(work)
            ctx.state((seq, kill))
            for i, k in enumerate(seq):
                kind, name, before = SEQ[k]
                ctx.step()
                (how, got), took = guarded(lambda: f(kind, name, before=before), lim + 8)
                judge(ctx, dict(sequence=[SEQ[j] for j in seq], position=i, kill=kill), how, got, kind, name, before)
            kill_children()
            ctx.trace()
            ctx.outcome("sequence")
        # two callers at once
        if n == 2 or len(set(seq)) == 2:
            pair = seq[:1] + seq[-1:]
            f = T.timeout(3.0, True)(work)
            res = {}

            def caller(i, k):
                kind, name, before = SEQ[k]
                try:
                    res[i] = ("returned", f(kind, name, before=5.0 if before else 0.3))
                except BaseException as e:
                    res[i] = ("raised", e)
            ths = [threading.Thread(target=caller, args=(i, k), daemon=True) for i, k in enumerate(pair)]
            [t.start() for t in ths]
            [t.join(14) for t in ths]
            ctx.step(2)
            ctx.trace()
            for i, k in enumerate(pair):
                how, got = res.get(i, ("blocked", None))
                judge(ctx, dict(concurrent=[SEQ[j] for j in pair], position=i), how, got, *SEQ[k])
            kill_children()


class Preempt(object):
    """Stops one caller at its k-th pipe/fork call until the other caller's worker has been started (or cannot be)."""
    def __init__(self, k):
        self.k, self.n, self.where, self.reached, self.go = k, 0, None, threading.Event(), threading.Event()
        self.pipe, self.fork = os.pipe, os.fork

    def point(self, where):
        if threading.current_thread().name != "gated":
            return
        self.n += 1
        if self.n == self.k:
            self.where = where
            self.reached.set()
            self.go.wait(1.2)

    def __enter__(self):
        def pipe():
            r = self.pipe()
            self.point("after pipe")
            return r

        def fork():
            self.point("before fork")
            pid = self.fork()
            if pid:
                self.point("after fork")
            return pid
        os.pipe, os.fork = pipe, fork
        return self

    def __exit__(self, *a):
        os.pipe, os.fork = self.pipe, self.fork


def group_preempt(ctx, c):
    """two callers; one is stopped at each of its pipe and fork calls while the other starts its worker"""
    from geotecha.inputoutput import timeout as T
    k, (kind, name, before) = c
    f, g, res = T.timeout(4.0)(work), T.timeout(12.0)(work), {}

    def caller(key, fn, *a, **kw):
        try:
            res[key] = ("returned", fn(*a, **kw))
        except BaseException as e:
            res[key] = ("raised", e)
    with Preempt(k) as p:
        a = threading.Thread(target=caller, name="gated", args=("gated", f, kind, name), kwargs=dict(before=6.0 if before else 0.1), daemon=True)
        a.start()
        if not p.reached.wait(3.0):      # fewer calls than k
            a.join(14)
            kill_children()
            return
        b = threading.Thread(target=caller, name="other", args=("other", g, "value", "tuple2"), kwargs=dict(before=8.0), daemon=True)
        b.start()
        b.join(0.6)
        p.go.set()
        a.join(14)
        if not before:
            b.join(20)
    ctx.step(2)
    ctx.trace()
    ctx.state((k, p.where, kind, name))
    ctx.outcome("preempted %s" % p.where)
    case = dict(gated=[kind, name], call=k, where=p.where)
    how, got = res.get("gated", ("blocked", None))
    judge(ctx, dict(case, caller="gated"), how, got, kind, name, before)
    if not before:
        how, got = res.get("other", ("blocked", None))
        judge(ctx, dict(case, caller="other"), how, got, "value", "tuple2", 0)
    kill_children()


def nested_work(x):
    from geotecha.inputoutput import timeout as T
    out = []
    th = threading.Thread(target=lambda: out.append(T.timeout(5)(work)("value", "float")))
    th.start()
    th.join(8)
    return (T.timeout(5)(work)("value", "float"), out)


def group_nested(ctx):
    """a limited call inside a limited call, from the worker's first thread and from another"""
    from geotecha.inputoutput import timeout as T
    (how, got), took = guarded(lambda: T.timeout(20)(nested_work)(1), 30)
    ctx.step()
    ctx.state("nested")
    ctx.trace()
    v = VALUES["float"]
    ctx.check(how == "returned" and same(got, (v, [v])), "nested limited call", dict(), repr((how, got)))
    kill_children()


def run(ctx):
    def on(n):
        return ctx.only is None or ctx.only in n
    if on("schedules"):
        with ctx.group("schedules"):
            ctx.parallel(one, list(schedules(ctx.thorough)), nproc=32)
    if on("kwargs"):
        with ctx.group("kwargs"):
            group_kwargs(ctx)
    if on("sequences"):
        with ctx.group("sequences"):
            ctx.parallel(group_sequences, [(f, s) for f in range(len(SEQ)) for s in range(len(SEQ))], nproc=32)
    if on("preempted"):
        with ctx.group("preempted"):
            ctx.parallel(group_preempt, [(k, s) for k in range(1, 7) for s in SEQ], nproc=48)
            group_nested(ctx)
