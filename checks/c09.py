"""C09: batch processing handles every selected file exactly once."""
import contextlib
import fnmatch
import io as _io
import itertools
import logging
import os
import sys
import tempfile

import numpy as np

from mc import env
from mc.core import Raised, call

LEVEL = "fault_enumeration"
TECHNIQUE = ("exhaustive enumeration of file sets x fate of every file at every stage (missing, unreadable, constructor, "
             "each method, moving directory) x option combinations, each run on the real driver and compared with a "
             "model of the calls, messages and state it must leave")
BOUNDS = "up to 3 files (thorough 4), 10 fates, 7 selection modes, up to 2 methods; the main() of 4 programs on 3-file batches"
NOTE = "the file dialog (used when no option is given) is replaced by a stand-in; errors that are not Exceptions (interrupts) end a batch"
RULE = "distinct (files, fates, options)"

FATES = ["ok", "construct", "method0", "method1", "nomethod", "missing", "isdir", "moves", "percent", "returnsNone"]


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelno, self.format(record)))


def run_driver(io, d, files, fates, mode, open_file, nmeth, level):
    """files: names; fates: by name.  Returns (result, calls, messages)"""
    calls = []
    dirs = {}
    for n in files:
        fate = fates[n]
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if fate == "isdir":
            os.makedirs(p, exist_ok=True)
        elif fate != "missing":
            with open(p, "w") as f:
                f.write("text of " + n)
        dirs[os.path.realpath(p)] = n

    class Obj(object):
        def __init__(self, arg):
            if open_file:
                self.name = dirs[os.path.realpath(arg.name)]
                txt = arg.read()
            else:
                self.name = dirs[os.path.realpath(arg)]
                txt = None
                if not os.path.isabs(arg):
                    calls.append((self.name, "relative path " + arg))
                with open(arg) as f:
                    txt = f.read()
            calls.append((self.name, "construct", os.getcwd(), txt))
            if fates[self.name] == "construct":
                raise ValueError("bad input %d {0}")
            if fates[self.name] == "moves":
                os.chdir("/")
            if fates[self.name] == "percent":
                raise KeyError("100%s {1}")

        def meth0(self, *a, **k):
            calls.append((self.name, "meth0", a, tuple(sorted(k.items()))))
            if fates[self.name] == "method0":
                raise RuntimeError("m0")
            if fates[self.name] == "moves":
                os.chdir("/tmp")

        def meth1(self, *a, **k):
            calls.append((self.name, "meth1", a, tuple(sorted(k.items()))))
            if fates[self.name] == "method1":
                raise AssertionError("m1")

    def factory(arg):
        o = Obj(arg)
        if fates[o.name] == "nomethod":
            return object()
        if fates[o.name] == "returnsNone":
            return None
        return o

    methods = [("meth0", [1, "a"], dict(k=2)), ("meth1", [], {})][:nmeth]
    parser = io.GenericInputFileArgParser(factory, pass_open_file=open_file, methods=methods, prog="prog")
    root = logging.getLogger()
    h = Log()
    old = root.handlers[:]
    root.handlers[:] = [h]
    oldlevel = root.level
    root.setLevel(level)
    cwd = os.getcwd()
    os.chdir(d)
    argv, prompt = mode
    saved = io.get_filepaths
    asked = []

    def stub(wildcard=""):
        asked.append(wildcard)
        return prompt
    io.get_filepaths = stub
    err = _io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            try:
                got = parser.main(argv=argv)
            except SystemExit as e:
                got = Raised(e)
            except Exception as e:
                got = Raised(e)
        state = (os.getcwd() == os.path.realpath(d), root.level == level)
    finally:
        io.get_filepaths = saved
        root.handlers[:] = old
        root.setLevel(oldlevel)
        os.chdir(cwd)
    return got, calls, h.got, state, asked


def expected(names, fates, open_file, nmeth, d):
    out, failed = {}, []
    for n in names:
        fate = fates[n]
        ev = []
        bad = fate in ("missing", "isdir")
        if not bad:
            p = os.path.realpath(os.path.join(d, n))
            ev.append((n, "construct", os.path.dirname(p), "text of " + n))
            if fate in ("construct", "percent"):
                bad = True
            elif fate in ("nomethod", "returnsNone"):
                bad = nmeth > 0
            else:
                if nmeth > 0:
                    ev.append((n, "meth0", (1, "a"), (("k", 2),)))
                    bad = fate == "method0"
                if nmeth > 1 and not bad:
                    ev.append((n, "meth1", (), ()))
                    bad = fate == "method1"
        out[n] = ev
        if bad:
            failed.append(n)
    return out, failed


SETS = [["a.py"], ["a.py", "b.py"], ["sub/a.py", "a.py"], ["a.py", "b.txt", "c.py"], ["x y%d{0}.py", "inputoutput.py"],
        ["sub/c.py", "sub2/c.py", "b.py"], ["a.py", "prog.py", "b.py"]]


def modes(files, d):
    files = list(files)
    yield "files", (["-f"] + files, None), files
    yield "files reversed", (["--filename"] + [os.path.join(d, f) for f in files[::-1]], None), files[::-1]
    yield "dir default pattern", (["-d", "-p"], None), [f for f in files if "/" not in f and f.endswith(".py")]
    yield "dir pattern", (["-d", d, "-p", "*.txt"], None), [f for f in files if "/" not in f and f.endswith(".txt")]
    subs = sorted({os.path.dirname(f) for f in files})
    rel = [s or "." for s in subs]
    yield "dirs", (["-d"] + rel + ["-p", "[a-c].*"], None), [
        f for s in subs for f in files if os.path.dirname(f) == s and fnmatch.fnmatch(os.path.basename(f), "[a-c].*")]
    yield "prompt", ([], [os.path.join(d, f) for f in files]), files
    yield "cancelled", ([], None), None


def group_driver(ctx, item):
    from geotecha.inputoutput import inputoutput as io
    files, f0 = item
    for rest in itertools.product(FATES, repeat=len(files) - 1):
        fates = dict(zip(files, (f0,) + rest))
        if len(files) == 3 and not ctx.thorough and (FATES.index(f0) + FATES.index(rest[0]) + 2 * FATES.index(rest[1])) % 3:
            continue
        for open_file in (True, False):
            for nmeth in (0, 1, 2):
                if nmeth == 1 and len(files) > 2 and not ctx.thorough:
                    continue
                with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
                    d = os.path.realpath(d)
                    for mname, mode, names in modes(files, d):
                        level = (logging.WARNING, logging.ERROR, logging.DEBUG)[(nmeth + len(mname)) % 3]
                        ctx.step()
                        got, calls, msgs, state, asked = run_driver(io, d, files, fates, mode, open_file, nmeth, level)
                        ctx.state((tuple(sorted(fates.items())), open_file, nmeth, mname))
                        ctx.trace()
                        case = dict(fates=fates, mode=mname, argv=mode[0], open_file=open_file, methods=nmeth)
                        ctx.check(state[0], "driver: working directory changed", case, "")
                        ctx.check(state[1], "driver: logging level changed", case, "")
                        if mname == "cancelled":
                            ctx.check(not isinstance(got, Raised) and not calls and len(asked) == 1, "driver: cancelled prompt", case, repr(got))
                            continue
                        ctx.check(len(asked) == (mname == "prompt"), "driver: prompt", case, asked)
                        if mname.startswith("dir"):     # files that do not exist are not found by scanning
                            names = [n for n in names if fates[n] != "missing"]
                            if not names:
                                ctx.check(isinstance(got, Raised) and got.type in ("OSError", "IOError") and not calls,
                                          "driver: no file matches", case, repr(got))
                                continue
                        if not ctx.check(not isinstance(got, Raised), "driver: batch aborted", case, repr(got)):
                            continue
                        want, failed = expected(names, fates, open_file, nmeth, d)
                        per = {}
                        order = []
                        for c in calls:
                            per.setdefault(c[0], []).append(c)
                            if c[0] not in order:
                                order.append(c[0])
                        for n in files:
                            w = want.get(n, [])
                            ctx.check(per.get(n, []) == w, "driver: wrong calls for a file", dict(case, file=n),
                                      "%r want %r" % (per.get(n), w))
                        # one file is finished before the next starts; listed files keep their order
                        flat = [c[0] for c in calls]
                        ctx.check(all(flat[i] == flat[i + 1] or flat[i] not in flat[i + 1:] for i in range(len(flat) - 1)),
                                  "driver: files interleaved", case, flat)
                        if not mname.startswith("dir"):
                            ctx.check(order == [n for n in names if want[n]], "driver: order changed", case, order)
                        errs = [m for lv, m in msgs if lv >= logging.ERROR]
                        told = []
                        for n in names:
                            k = [m for m in errs if m.split("\n")[0].find(os.path.join(d, n)) >= 0]
                            told += [n] * len(k)
                        # a folder that matches the pattern may be skipped or reported, but not abort
                        if mname.startswith("dir"):
                            told = [n for n in told if fates[n] != "isdir"]
                            failed = [n for n in failed if fates[n] != "isdir"]
                            nerr = [m for m in errs if not any(os.path.join(d, n) in m.split("\n")[0] for n in names if fates[n] == "isdir")]
                        else:
                            nerr = errs
                        ctx.check(sorted(told) == sorted(failed) and len(nerr) == len(failed), "driver: failures misreported", case,
                                  "told %s want %s of %d" % (told, failed, len(errs)))
                        ctx.outcome("%d files %d failed" % (len(names), len(failed)))


def group_options(ctx):
    """every combination of the three options with 0, 1, 2 values"""
    from geotecha.inputoutput import inputoutput as io
    with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
        d = os.path.realpath(d)
        files = ["a.py", "b.txt", "s/c.py"]
        fates = dict.fromkeys(files, "ok")
        opts = dict(f=[None, [], ["a.py"], ["a.py", "b.txt"]], d=[None, [], ["."], [".", "s"], ["nodir"], ["s"]],
                    p=[None, [], ["*.txt"], ["*"], ["zzz"]])
        for f, dd, p in itertools.product(*[opts[k] for k in "fdp"]):
            for order in itertools.permutations("fdp"):
                argv = []
                for o in order:
                    v = dict(f=f, d=dd, p=p)[o]
                    if v is not None:
                        argv += ["-" + o] + v
                ctx.step()
                ctx.trace()
                ctx.state(tuple(argv))
                got, calls, msgs, state, asked = run_driver(io, d, files, fates, (argv, None), True, 0, logging.WARNING)
                names = sorted(c[0] for c in calls)
                case = dict(argv=argv)
                bad = f == [] or (dd is None) != (p is None) or (f is not None and dd is not None) or dd == ["nodir"]
                ctx.check(all(state), "options: state changed", case, state)
                ctx.outcome("usage error" if bad else "accepted")
                if bad:
                    ctx.check(isinstance(got, Raised) and got.type == "SystemExit" and not calls and not asked, "options: bad usage accepted", case, repr(got))
                elif f is not None:
                    ctx.check(not isinstance(got, Raised) and names == sorted(f), "options: wrong files", case, names)
                elif dd is None:
                    ctx.check(len(asked) == 1 and not calls, "options: no prompt", case, repr(got))
                else:
                    pat = (p or ["*.py"])[0]
                    where = [os.path.normpath(x) for x in (dd or ["."])]
                    want = sorted(n for n in files if os.path.normpath(os.path.dirname(n) or ".") in where
                                  and fnmatch.fnmatch(os.path.basename(n), pat))
                    if pat == "*" and "." in where:      # the folder s itself matches, and cannot be opened
                        ctx.check(not isinstance(got, Raised) and names == want, "options: wrong files", case, names)
                    elif want:
                        ctx.check(not isinstance(got, Raised) and names == want, "options: wrong files", case, names)
                    else:
                        ctx.check(isinstance(got, Raised) and got.type == "OSError", "options: nothing matches", case, repr(got))


def group_script(ctx):
    """the running script is not taken for an input file, wherever it lies; others of its name are"""
    from geotecha.inputoutput import inputoutput as io
    saved = sys.argv[:]
    for script, dirs, want in (("run.py", ["."], ["a.py"]), ("./run.py", ["."], ["a.py"]), ("sub/run.py", [".", "sub"], ["a.py", "run.py", "sub/a.py"]),
                               ("", ["."], ["a.py", "run.py"]), ("inputoutput.py", ["."], ["a.py", "run.py"])):
        for absolute in (False, True):
            with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
                d = os.path.realpath(d)
                files = ["a.py", "run.py", "sub/a.py", "sub/run.py"]
                fates = dict.fromkeys(files, "ok")
                sys.argv = [os.path.join(d, script) if absolute and script else script]
                try:
                    got, calls, msgs, state, asked = run_driver(io, d, files, fates, (["-d"] + dirs + ["-p"], None), True, 0, logging.INFO)
                finally:
                    sys.argv = saved
                ctx.step()
                ctx.trace()
                ctx.check(sorted(c[0] for c in calls) == sorted(want), "script: wrong files", dict(script=script, dirs=dirs, absolute=absolute),
                          "%r want %r" % (sorted(c[0] for c in calls), want))


GOOD = {
    "vr": """H=1
dTv=0.5
neig=4
mv=PolyLine([0,1],[0.5,0.5])
kv=PolyLine([0,1],[5,5])
surcharge_vs_depth=PolyLine([0,1],[1,1])
surcharge_vs_time=PolyLine([0,0,10],[0,%s,%s])
ppress_z=[0.1,0.5,1]
tvals=[0.01,0.1,1]
save_data_to_file=True
prefix='%s'
""",
}
GOOD["vrw"] = GOOD["vr"].replace("dTv=0.5", "dTv=0.5\ndTh=1\ndTw=100\nkh=PolyLine([0,1],[1,1])\net=PolyLine([0,1],[1,1])\nkw=PolyLine([0,1],[1,1])")
GOOD["vrc"] = GOOD["vr"].replace("dTv=0.5", "dTv=0.5\ndTh=1\ndTvc=1\ndThc=10\nn=10\nkh=PolyLine([0,1],[1,1])\net=PolyLine([0,1],[1,1])\nkvc=PolyLine([0,1],[1,1])\nkhc=PolyLine([0,1],[1,1])")
GOOD["unsat"] = """H=1
neig=4
dTa=0.1
dTw=0.2
wa=29e-3
R=8.31
ua_=111
T=290
kw = PolyLine([0,1], [1,1])
Da = PolyLine([0,1], [1,1])
S = PolyLine([0,1], [0.8] * 2)
n = PolyLine([0,1], [0.5] * 2)
m1kw = PolyLine([0,1], [-0.5]*2)
m2w =  PolyLine([0,1], [-2.0]*2)
m1ka = PolyLine([0,1], [-2.0]*2)
m2a =  PolyLine([0,1], [1.0]*2)
surcharge_vs_depth=PolyLine([0,1],[1,1])
surcharge_vs_time=PolyLine([0,0,10],[0,%s,%s])
ppress_z=[0.1,0.5,1]
tvals=[0.01,0.1,1]
save_data_to_file=True
prefix='%s'
"""
GOOD["schiffman"] = """z=[0.2,1.0,2.5]
h=[1.0,2.0]
kv=[1e-3,2e-3]
mv=[0.1,0.2]
bctop=0
bcbot=1
n=6
surcharge_vs_time=PolyLine([0,0,10],[0,%s,%s])
tpor=[100,1000]
t=[100,1000]
save_data_to_file=True
prefix='%s'
"""
GOOD["nogami"] = GOOD["schiffman"].replace("n=6\n", "nv=4\nnh=2\nkh=[1e-3,3e-3]\nr0=0.05\nr1=0.6\n")
MODULE = {"schiffman": "geotecha.consolidation.schiffmanandstein1970", "nogami": "geotecha.consolidation.nogamiandli2003"}
BADS = {"raises": "H=1/0\n", "forbidden": "import os\nH=1\n", "incomplete": "H=1\n", "syntax": "H = = 1\n"}


def group_programs(ctx, which):
    import importlib
    mod = importlib.import_module(MODULE.get(which, "geotecha.speccon.speccon1d_" + which))
    kinds = ["good"] + sorted(BADS)
    for combo in itertools.product(kinds, repeat=3 if ctx.thorough or which == "vr" else 2):
        with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
            d = os.path.realpath(d)
            names = []
            for i, k in enumerate(combo):
                sub = os.path.join(d, "s%d" % i)
                os.mkdir(sub)
                n = os.path.join(sub, "in%d.py" % i)
                names.append(n)
                with open(n, "w") as f:
                    f.write(GOOD[which] % (10 + i, 10 + i, "res") if k == "good" else BADS[k])
            root = logging.getLogger()
            h = Log()
            old, root.handlers[:] = root.handlers[:], [h]
            argv, cwd, lv = sys.argv, os.getcwd(), root.level
            sys.argv = ["prog", "-f"] + names
            try:
                with contextlib.redirect_stdout(_io.StringIO()):
                    ctx.step()
                    got = call(mod.main)
                left = (os.getcwd(), root.level)
            finally:
                sys.argv = argv
                root.handlers[:] = old
                root.setLevel(lv)
                os.chdir(cwd)
            case = dict(program=which, files=combo)
            ctx.trace()
            ctx.state((which, combo))
            ctx.outcome("%s %d good" % (which, combo.count("good")))
            ctx.check(not isinstance(got, Raised), "program: batch aborted", case, repr(got))
            ctx.check(left == (cwd, lv), "program: state changed", case, "")
            errs = [m.split("\n")[0] for l, m in h.got if l >= logging.ERROR]
            for i, k in enumerate(combo):
                out = os.path.join(d, "s%d" % i, "res0001", "res0001_data_porw.csv" if which == "unsat" else "res0001_data_por.csv")
                ctx.check(os.path.isfile(out) == (k == "good"), "program: output", dict(case, i=i, errs=errs), out)
                ctx.check(sum(names[i] in m for m in errs) == (k != "good"), "program: report", dict(case, i=i, errs=errs), "")
                if k == "good" and os.path.isfile(out):
                    txt = open(os.path.join(d, "s%d" % i, "res0001", "res0001_input_original.py")).read()
                    ctx.check(txt == GOOD[which] % (10 + i, 10 + i, "res"), "program: input copy", case, "")
                    body = [l.split(",") for l in open(out).read().splitlines()]
                    i0 = [j for j, l in enumerate(body) if l[0] == "idex"][0]
                    vals = np.array([[float(x) for x in l[2:]] for l in body[i0 + 1:]]) / (10 + i)
                    base = getattr(ctx, "_base_" + which, None)
                    if base is None:
                        setattr(ctx, "_base_" + which, vals)
                    else:
                        ctx.check(np.allclose(vals, base, rtol=1e-12, atol=1e-14), "program: result of one file depends on others", dict(case, i=i), "")


def group_hms(ctx):
    from geotecha.inputoutput.inputoutput import hms_string
    for ms in range(0, 4000 * 1000, 7 if ctx.thorough else 97):
        t = ms / 1000.0
        s = hms_string(t)
        h, m, x = s.split(":")
        ctx.step()
        ctx.trace()
        ctx.check(len(m) == 2 and len(x) == 5 and int(m) < 60 and float(x) < 60
                  and abs(int(h) * 3600 + int(m) * 60 + float(x) - t) < 0.00501, "hms: wrong", dict(t=t), s)
    for h, m, c in itertools.product((0, 1, 9, 10, 24, 100), range(0, 60, 7), (0, 1, 99, 100, 5999, 599, 1050)):
        t = h * 3600 + m * 60 + c / 100.
        for eps in (0, 1e-9, -1e-9):
            if t + eps < 0:
                continue
            s = hms_string(t + eps)
            want = "%d:%02d:%05.2f" % (h, m, c / 100.)
            ctx.step()
            ctx.trace()
            ctx.check(s == want, "hms: wrong", dict(t=t, eps=eps), "%s want %s" % (s, want))


def group_timer(ctx):
    """SimpleTimer: any order of starts and finishes keeps title and elapsed time of its own level"""
    import re
    from geotecha.inputoutput import inputoutput as io
    import unittest.mock as mock
    ev = [("s", 0, None), ("s", 1, None), ("s", 1, "two"), ("f", 0), ("f", 1), ("s", 2, "x"), ("f", 2)]
    for seq in itertools.product(ev, repeat=5 if ctx.thorough else 4):
        clock = [1000.0]
        t = io.SimpleTimer()
        started = {}
        ok = True
        for k, e in enumerate(seq):
            clock[0] += k + 1
            buf = _io.StringIO()
            with mock.patch.object(io.time, "time", lambda: clock[0]), contextlib.redirect_stdout(buf):
                ctx.step()
                r = call(t.start, e[1], *([e[2]] if e[2] else [])) if e[0] == "s" else call(t.finish, e[1])
            if e[0] == "s":
                started[e[1]] = (clock[0], e[2] or "Level %d" % e[1])
                ok = ctx.check("Started " + started[e[1]][1] in buf.getvalue(), "timer: start", dict(seq=seq), buf.getvalue())
            elif e[1] in started:
                t0, msg = started[e[1]]
                m = re.search("Finished (.*), run time = 0:00:(\\d+)", buf.getvalue())
                ctx.check(bool(m) and m.group(1) == msg and int(m.group(2)) == int(clock[0] - t0), "timer: finish", dict(seq=seq), buf.getvalue())
        ctx.trace()
        ctx.state(seq)


def run(ctx):
    def on(n):
        return ctx.only is None or ctx.only in n
    if on("driver"):
        with ctx.group("driver"):
            ctx.parallel(group_driver, [(s, f) for s in SETS + ([["a.py", "b.py", "s/c.py", "d.py"]] if ctx.thorough else []) for f in FATES])
    for n, g in (("options", group_options), ("script", group_script), ("hms", group_hms), ("timer", group_timer)):
        if on(n):
            with ctx.group(n):
                g(ctx)
    if on("programs"):
        with ctx.group("programs"):
            ctx.parallel(group_programs, ["vr", "vrw", "vrc", "unsat", "schiffman", "nogami"])
