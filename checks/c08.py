"""C08: saving output never destroys earlier output and writes everything asked."""
import builtins
import copy
import csv
import io as _io
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import env
from mc.core import Raised, call

LEVEL = "fault_enumeration"
TECHNIQUE = ("explicit-state exploration of directory states and save histories on the real writer (every directory "
             "listing over an alphabet of tricky names, every sequence of runs), plus enumeration of a failure at every "
             "file-system call of every save, compared with an independent model of the file tree")
BOUNDS = ("listings of up to 3 of 26 names, run sequences to length 4 (thorough 5), a fault at each "
          "open/write/mkdir/listdir/savefig call")
NOTE = "power loss (lost buffers) is not modelled: faults are exceptions raised by file-system calls"
RULE = "distinct (listing, prefix, options) and (history, fault position) cases"


def model_stem(names, prefix, start, inc, zfill, overwrite):
    best = None
    for n in names:
        if not n.startswith(prefix):
            continue
        rest = n[len(prefix):]
        k = 0
        while k < len(rest) and rest[k].isdecimal():
            k += 1
        if k:
            v = int(rest[:k])
            best = v if best is None else max(best, v)
    num = start if best is None else best + (0 if overwrite else inc)
    return prefix + str(num).zfill(zfill)


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = None
        for x in files:
            p = os.path.join(base, x)
            with builtins.open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def put(d, names):
    for n in names:
        p = os.path.join(d, n)
        if n.endswith("/"):
            os.makedirs(p, exist_ok=True)
        else:
            with open(p, "w") as f:
                f.write("old " + n)


NAMES = ["out1", "out0001", "out0002_x.csv", "out0009", "out10.csv", "out_0001", "out", "outx3", "xout7", "out3/",
         "out0012/", "out\u0665", "out\u00b2", "OUT50", "out-4", "out0.5", "out+1", "out (1)", "out0004\n.txt", "o.t5",
         "o5t6", "o.t0007_a.py", "out99999999999999999999", "out0099_", "0004", "out4 5"]
PREFIXES = ["out", "o.t", "", "out0", "out_", "o(", "a b", "out[12]", "out*"]


def group_stems(ctx, prefix):
    from geotecha.inputoutput import inputoutput as io
    import unittest.mock as mock
    names = NAMES + [prefix + s for s in ("0001", "2_b.csv", "010") if prefix not in ("out",)]
    sizes = (0, 1, 2, 3)
    opts = [(1, 1, 3, False), (1, 1, 3, True), (5, 1, 4, False), (1, 3, 1, False), (0, 1, 4, True), (7, 2, 0, False)]
    d = tempfile.mkdtemp(dir=env.scratch())
    for r in sizes:
        for k, combo in enumerate(itertools.combinations(names, r)):
            if r == 3 and not ctx.thorough and k % 4:
                continue
            names_on_disk = [c.rstrip("/") for c in combo]
            for o in opts if r < 3 else opts[:2]:
                want = model_stem(names_on_disk, prefix, *o)
                for order in (names_on_disk, names_on_disk[::-1]):
                    ctx.state((prefix, tuple(order), o))
                    ctx.step()
                    with mock.patch.object(os, "listdir", lambda p=".", order=order: list(order)):
                        got = call(io.next_output_stem, prefix, path=d, start=o[0], inc=o[1], zfill=o[2], overwrite=o[3])
                    ctx.trace()
                    case = dict(prefix=prefix, names=order, opts=o)
                    ctx.check(got == want, "stem: wrong", case, "got %r want %r" % (got, want))
                    if isinstance(got, str) and not o[3]:
                        used = [n for n in order if n.startswith(got) and not n[len(got):len(got) + 1].isdecimal()]
                        ctx.check(not used, "stem: already used", case, "%r used by %r" % (got, used))
    # on the real file system, with and without an explicit path
    for combo in itertools.combinations([n for n in names if n not in ("0004",)][::2], 2):
        with tempfile.TemporaryDirectory(dir=env.scratch()) as d2:
            put(d2, combo)
            want = model_stem([c.rstrip("/") for c in combo], prefix, 1, 1, 3, False)
            here = os.getcwd()
            os.chdir(d2)
            try:
                a = call(io.next_output_stem, prefix)
            finally:
                os.chdir(here)
            b = call(io.next_output_stem, prefix, path=d2)
            ctx.trace(2)
            ctx.step(2)
            ctx.check(a == want and b == want, "stem: wrong on disk", dict(names=combo, prefix=prefix), "%r %r %r" % (a, b, want))
    got = call(io.next_output_stem, prefix, path=os.path.join(d, "missing"))
    ctx.check(isinstance(got, Raised), "stem: missing folder accepted", dict(prefix=prefix), repr(got))


# ------------------------------------------------------------------ grids
def grids():
    third = 1.0 / 3
    yield dict(data=np.array([[third, 2 * third], [1e-300, 1.7976931348623157e308]]))
    yield dict(data=np.array([[1, 2, 3]]), name="_ints")
    yield dict(data=np.array([[third], [-0.0], [5e-324]]), name="_rows", row_labels=[0.1, third, 1e22], row_labels_label="Time")
    yield dict(data=[[1.5, 2.5], [third, 4.5]], name="_lab", column_labels=["a, b", 'c "d"'], row_labels=["x", "y"])
    yield dict(data=np.array([[0.1, 0.2]]), name="_h", header="line one\nline, two")
    yield dict(data=np.array([[third]]), name="_kw", df_kwargs=dict(sep=";"), column_labels=["c"])
    yield dict(data=None, name="_none")
    yield dict(data=np.arange(12.).reshape(4, 3) / 7, name="_big", row_labels=np.linspace(0, 1, 4), column_labels=list("abc"),
               header="head", row_labels_label="t")


def expect_csv(g):
    """-> (header text, rows of strings / floats)"""
    a = np.asarray(g["data"])
    cols = g.get("column_labels") or list(range(a.shape[1]))
    rows = []
    head = ["idex"]
    if g.get("row_labels") is not None:
        head.append(g.get("row_labels_label", "item"))
    rows.append(head + [str(c) for c in cols])
    for i in range(a.shape[0]):
        r = [i]
        if g.get("row_labels") is not None:
            r.append(g["row_labels"][i])
        rows.append(r + list(a[i]))
    return rows


def check_csv(ctx, path, g, case):
    if not ctx.check(os.path.isfile(path), "grid: file missing", case, path):
        return
    text = open(path).read()
    h = g.get("header")
    if h is not None:
        ctx.check(text.startswith(h + "\n"), "grid: header missing", case, text[:200])
        text = text[len(h) + 1:]
    rows = list(csv.reader(_io.StringIO(text), delimiter=g.get("df_kwargs", {}).get("sep", ",")))
    want = expect_csv(g)
    ok = len(rows) == len(want) and rows[0] == want[0] and all(
        len(r) == len(w) and all((x == y) if isinstance(y, str) else (float(x) == float(y) and repr(float(x)) == repr(float(y)))
                                 for x, y in zip(r, w)) for r, w in zip(rows[1:], want[1:]))
    ctx.check(ok, "grid: values differ from memory", case, "%r\nwant %r" % (rows, want))


def deep_same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(deep_same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) == type(b) and a == b


def group_grids(ctx, item):
    from geotecha.inputoutput import inputoutput as io
    r, first = item
    G = list(grids())
    for combo in itertools.permutations(range(len(G)), r):
        if combo and combo[0] != first:
            continue
        if r == 3 and not ctx.thorough and (combo[1] + 2 * combo[2]) % 4:
            continue
        for create in (True, False):
            for directory in ("new/deep", "", None, "there"):
                for ext in (".csv", ".txt"):
                    if (ext == ".txt" and directory not in ("there",)) or (r > 1 and directory in ("new/deep", "")):
                        continue
                    ctx.state((combo, create, directory, ext))
                    with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
                        os.mkdir(os.path.join(d, "there"))
                        for x in ("there", "."):
                            with open(os.path.join(d, x, "keep.csv"), "w") as f:
                                f.write("keep " + x)
                        dd = None if directory is None else os.path.join(d, directory)
                        data = [copy.deepcopy(G[i]) for i in combo]
                        arg = data if r != 1 or create else data[0]
                        before = copy.deepcopy(arg)
                        case = dict(items=combo, create=create, directory=directory, ext=ext)
                        results = []
                        for turn in range(2):
                            ctx.step()
                            here = os.getcwd()
                            os.chdir(d)
                            try:
                                got = call(io.save_grid_data_to_file, arg, directory=dd, file_stem="run_07",
                                           create_directory=create, ext=ext)
                            finally:
                                os.chdir(here)
                            if not ctx.check(not isinstance(got, Raised), "grid: save failed", dict(case, turn=turn), repr(got)):
                                break
                            results.append(tree(d))
                            ctx.check(deep_same(before, arg), "grid: data altered by saving", dict(case, turn=turn), repr(arg)[:300])
                        ctx.trace()
                        ctx.outcome("grid %d files" % sum(v is not None for v in (results or [{}])[-1].values()))
                        if len(results) == 2:
                            ctx.check(results[0] == results[1], "grid: second save differs", case, "")
                            base = os.path.join(dd or d, "run_07") if create else (dd or d)
                            files = set()
                            for i in combo:
                                g = G[i]
                                if g["data"] is None:
                                    continue
                                p = os.path.join(base, "run_07" + g.get("name", "") + ext)
                                files.add(os.path.relpath(p, d))
                                check_csv(ctx, p, g, case)
                            have = {k for k, v in results[1].items() if v is not None} - {"keep.csv", "there/keep.csv"}
                            ctx.check(have == files, "grid: wrong set of files", case, "%r want %r" % (have, files))
                            ctx.check(results[1].get("keep.csv") == b"keep ." and results[1].get("there/keep.csv") == b"keep there",
                                      "grid: other file damaged", case, "")
    if r == 0:
        got = call(io.save_grid_data_to_file, [], directory=env.scratch())
        ctx.trace()
        ctx.check(not isinstance(got, Raised), "grid: nothing to save fails", {}, repr(got))
        for bad in ([1], [dict(data=[[1]]), None], "x"):
            got = call(io.save_grid_data_to_file, bad, directory=env.scratch())
            ctx.check(isinstance(got, Raised) and got.type == "ValueError", "grid: non dict accepted", dict(bad=bad), repr(got))


# ------------------------------------------------------------------ runs of an analysis like object
class Fig(object):
    dpi = 80

    def __init__(self, label):
        self.label = label

    def get_label(self):
        return self.label

    def savefig(self, filename, **k):
        with open(filename, "w") as f:
            f.write("figure " + self.label)


def make_object(io, opts, d):
    o = io.InputFileLoaderCheckerSaver()
    o._attributes = ["alpha", "beta"]
    o.alpha = 1.0 / 3
    o.beta = [1, "two"]
    o._input_text = "alpha = 1/3\nbeta = [1, 'two'] # %s\n" % opts.get("text", "")
    o._grid_data_dicts = [dict(name="_por", data=np.array([[1 / 3., 2.]]), header="h"), dict(name="_set", data=np.array([[4.5]]))]
    o.directory = d
    for k, v in opts.items():
        if k not in ("text", "figs"):
            setattr(o, k, v)
    o._figures = {"list": [Fig("a"), Fig(""), Fig("b c")], "one": Fig("single"), "none": None, "empty": []}[opts.get("figs", "list")]
    return o


def expected_files(o, stem, opts):
    out = {}
    if opts.get("save_data_to_file"):
        ie, de = opts.get("input_ext", ".py"), opts.get("data_ext", ".csv")
        out[stem + "_input_original" + ie] = o._input_text.encode()
        out[stem + "_input_parsed" + ie] = Ellipsis
        out[stem + "_por" + de] = b"h\nidex,0,1\n0,%s,2.0\n" % repr(1 / 3.).encode()
        out[stem + "_set" + de] = b"idex,0\n0,4.5\n"
    if opts.get("save_figures_to_file"):
        fe = opts.get("figure_ext", ".eps")
        figs = o._figures if isinstance(o._figures, list) else [] if o._figures is None else [o._figures]
        for i, f in enumerate(figs):
            out[stem + "_" + (f.label or "Figure_%02d" % i) + fe] = ("figure " + f.label).encode()
    return out


RUNS = [dict(save_data_to_file=True, save_figures_to_file=True),
        dict(save_data_to_file=True, create_directory=False, prefix="o.t"),
        dict(save_figures_to_file=True, create_directory=False, figs="one", figure_ext=".png"),
        dict(save_data_to_file=True, save_figures_to_file=True, overwrite=True, data_ext=".txt"),
        dict(save_data_to_file=True, prefix="o.t", input_ext=".inp"),
        dict(save_figures_to_file=True, figs="none"),
        dict(save_data_to_file=True, create_directory=False, text="second")]
USER = ["out0007", "o.t0003_mine.csv", "out12/", "notes.txt", "oxt0009"]


def do_save(o):
    o._file_stem = None
    o._save_data()
    o._save_figures()


def predict(o, opts, state):
    """independent model: state {relpath: bytes|None} -> (dirs, files) added"""
    pre = opts.get("prefix", "out")
    want = opts.get("save_data_to_file") or (opts.get("save_figures_to_file") and o._figures is not None)
    if not want:
        return None, {}
    top = {k.split("/")[0] for k in state}
    stem = model_stem(top, pre, 1, 1, 4, opts.get("overwrite", False))
    sub = stem + "/" if opts.get("create_directory", True) else ""
    return (stem if sub else None), {sub + k: v for k, v in expected_files(o, stem, opts).items()}


def group_histories(ctx, first):
    from geotecha.inputoutput import inputoutput as io
    import ast
    alphabet = [("run", i) for i in range(len(RUNS))] + [("user", i) for i in range(len(USER))]
    depth = 5 if ctx.thorough else 4
    seen = set()

    def play(history):
        with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
            state = {}
            for kind, i in history:
                if kind == "user":
                    put(d, [USER[i]])
                    state = tree(d)
                    continue
                opts = RUNS[i]
                o = make_object(io, opts, d)
                newdir, files = predict(o, opts, state)
                ctx.step()
                cwd = os.getcwd()
                got = call(do_save, o)
                case = dict(history=history, run=opts)
                after = tree(d)
                if newdir is not None and newdir in state and state[newdir] is not None:
                    # overwrite with create_directory into the name of a plain file: an error, nothing lost
                    ctx.check(isinstance(got, Raised) and after == state, "run: damaged a plain file", case, repr(got))
                    state = after
                    continue
                if not ctx.check(not isinstance(got, Raised), "run: save failed", case, repr(got)):
                    return
                ctx.check(os.getcwd() == cwd, "run: working directory changed", case, "")
                want = dict(state)
                if newdir:
                    want[newdir] = None
                want.update(files)
                ok = set(want) == set(after)
                ctx.check(ok, "run: wrong files", case, "extra %s missing %s" % (sorted(set(after) - set(want)), sorted(set(want) - set(after))))
                bad = [k for k in state if k not in files and after.get(k, "gone") != state[k]]
                ctx.check(not bad, "run: earlier output changed", case, bad)
                if not opts.get("overwrite"):
                    ctx.check(not set(files) & set(state), "run: files reused", case, "")
                for k, v in files.items():
                    if v is not Ellipsis and k in after:
                        ctx.check(after[k] == v, "run: wrong content", dict(case, file=k), "%r want %r" % (after[k], v))
                    elif k in after:
                        txt = after[k].decode()
                        ns = {}
                        for node in ast.parse(txt).body:
                            if isinstance(node, ast.Assign):
                                ns[node.targets[0].id] = ast.literal_eval(node.value)
                        ctx.check(ns.get("alpha") == 1 / 3. and ns.get("beta") == [1, "two"], "run: parsed input wrong", case, txt[:200])
                ctx.check(deep_same(o._grid_data_dicts, make_object(io, opts, d)._grid_data_dicts), "run: data in memory altered", case, "")
                # saving the very same object again: same content under a new stem
                state = after
            ctx.trace()
            ctx.outcome("%d files" % sum(v is not None for v in state.values()))

    for r in range(1, depth + 1):
        for h in itertools.product(alphabet, repeat=r):
            if h[0] != first or h[-1][0] == "user":
                continue
            if r == depth and not ctx.thorough and sum(k == "user" for k, _ in h) > 1:
                continue
            if ctx.state(h):
                play(h)


# ------------------------------------------------------------------ faults
class Boom(OSError):
    pass


class Faulty(object):
    """Counts the file-system calls made while saving; raises at call number `at`."""
    def __init__(self, at):
        self.at, self.n, self.log, self.active = at, 0, [], False

    def hit(self, what):
        if not self.active:
            return
        self.log.append(what)
        self.n += 1
        if self.n - 1 == self.at:
            raise Boom("injected at call %d: %s" % (self.at, what))

    def __enter__(self):
        f = self
        self.saved = (builtins.open, os.mkdir, os.listdir)
        ropen, rmkdir, rlistdir = self.saved

        class W(object):
            def __init__(self, real):
                self.real = real

            def write(self, s):
                f.hit("write")
                return self.real.write(s)

            def close(self):
                self.real.close()
                f.hit("close")

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.real.close()

            def __getattr__(self, n):
                return getattr(self.real, n)

            def __iter__(self):
                return iter(self.real)

        def fopen(*a, **k):
            if not f.active:
                return ropen(*a, **k)
            f.hit("open")
            real = ropen(*a, **k)
            mode = a[1] if len(a) > 1 else k.get("mode", "r")
            return W(real) if "w" in mode or "a" in mode else real

        def fmkdir(*a, **k):
            f.hit("mkdir")
            return rmkdir(*a, **k)

        def flistdir(*a, **k):
            f.hit("listdir")
            return rlistdir(*a, **k)
        builtins.open, os.mkdir, os.listdir = fopen, fmkdir, flistdir
        return self

    def __exit__(self, *a):
        builtins.open, os.mkdir, os.listdir = self.saved


def group_faults(ctx, item):
    from geotecha.inputoutput import inputoutput as io
    before, ri = item
    opts = RUNS[ri]
    at = 0
    while True:
        with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
            for k in before:
                do_save(make_object(io, RUNS[k], d))
            put(d, ["notes.txt"])
            old = tree(d)
            o = make_object(io, opts, d)
            mem = copy.deepcopy(o._grid_data_dicts)
            newdir, files = predict(o, opts, old)
            cwd = os.getcwd()
            popts = print_settings()
            with Faulty(at) as f:
                f.active = True
                ctx.step()
                got = call(do_save, o)
                f.active = False
            ctx.state((before, ri, at))
            ctx.trace()
            case = dict(before=before, run=opts, fault_at=at, calls=f.log[:at + 1][-3:])
            if f.n <= at:      # the fault position is past the last call: everything explored
                ctx.check(not isinstance(got, Raised), "fault: clean save failed", case, repr(got))
                return
            ctx.outcome("fault at %s" % f.log[at])
            ctx.check(isinstance(got, Raised), "fault: error hidden", case, repr(got))
            after = tree(d)
            hurt = [k for k in old if after.get(k, "gone") != old[k] and not (opts.get("overwrite") and k in files)]
            ctx.check(not hurt, "fault: earlier output damaged", case, hurt)
            ctx.check(os.getcwd() == cwd, "fault: working directory changed", case, "")
            ctx.check(deep_same(mem, o._grid_data_dicts), "fault: data in memory altered", case, "")
            ctx.check(print_settings() == popts, "fault: print settings altered", case, "")
            # the same object saves completely on the next attempt, and the earlier output is still there
            newdir, files = predict(o, opts, after)
            if not (newdir in after and after[newdir] is not None):
                got = call(do_save, o)
                final = tree(d)
                ctx.check(not isinstance(got, Raised) and all(k in final for k in files), "fault: retry incomplete", case,
                          "%r missing %s" % (got, sorted(set(files) - set(final))))
                hurt = [k for k in old if final.get(k, "gone") != old[k] and not (opts.get("overwrite") and k in files)]
                ctx.check(not hurt, "fault: retry damaged earlier output", case, hurt)
                for k, v in files.items():
                    if v is not Ellipsis and k in final:
                        ctx.check(final[k] == v, "fault: retry wrong content", dict(case, file=k), "%r want %r" % (final[k], v))
        at += 1
        if at > 80:
            ctx.fail("fault: no end", case)
            return


def print_settings():
    p = np.get_printoptions()
    return repr(sorted(p.items(), key=lambda kv: kv[0])), np.array_repr(np.array([1 / 3., 2]))


# ------------------------------------------------------------------ the real programs
def group_programs(ctx, which):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    texts = {
        "vr": ("geotecha.speccon.speccon1d_vr", "Speccon1dVR", """
H=1
drn=0
dTv=0.5
neig=4
mv=PolyLine([0,1],[0.5,0.5])
kv=PolyLine([0,1],[5,5])
surcharge_vs_depth=PolyLine([0,1],[1,1])
surcharge_vs_time=PolyLine([0,0,10],[0,10,10])
ppress_z=[0.1,0.5,1]
avg_ppress_z_pairs=[[0,1]]
settlement_z_pairs=[[0,1],[0.4,0.5]]
tvals=[0.01,0.1,1]
"""),
        "schiffman": ("geotecha.consolidation.schiffmanandstein1970", "SchiffmanAndStein1970", """
h=np.array([1.0,2.0])
kv=np.array([1.0,2.0])
mv=np.array([1.0,0.5])
bctop=0
bcbot=1
n=5
surcharge_vs_time=PolyLine([0,0,10],[0,100,100])
z=np.array([0.5,1.5,3.0])
tpor=np.array([0.1,1.0])
t=np.array([0.1,0.5,1.0])
"""),
        "nogami": ("geotecha.consolidation.nogamiandli2003", "NogamiAndLi2003", """
h=np.array([1.0,0.5])
kv=np.array([1.0,2.0])
mv=np.array([1.0,1.0])
bctop=0
bcbot=1
nv=3
nh=2
kh=np.array([1.0,1.0])
r0=0.05
r1=1.0
surcharge_vs_time=PolyLine([0,0,10],[0,100,100])
z=np.array([0.5,1.2])
tpor=np.array([0.1,1.0])
t=np.array([0.1,0.5])
vertical_roots_x0=1e-3
vertical_roots_dx=1e-3
vertical_roots_p=1.01
"""),
    }
    import importlib
    modname, cls, text = texts[which]
    C = getattr(importlib.import_module(modname), cls)
    saves = [(True, True, True), (True, False, False), (False, True, True)]
    for runs in itertools.product(range(len(saves)), repeat=2):
        if not ctx.thorough and runs not in ((0, 0), (1, 1), (2, 1)):
            continue
        for same_object in (True, False):
            with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
                a = None
                prev = {}
                for r in runs:
                    data, figs, create = saves[r]
                    extra = "save_data_to_file=%s\nsave_figures_to_file=%s\ncreate_directory=%s\nfigure_ext='.png'\ndirectory=%r\n" % (
                        data, figs, create, d)
                    if a is None or not same_object:
                        a = C(text + extra)
                    else:
                        a.save_data_to_file, a.save_figures_to_file, a.create_directory = data, figs, create
                    ctx.step()
                    so = _io.StringIO()
                    import contextlib
                    with contextlib.redirect_stdout(so):
                        got = call(a.make_all)
                    plt.close("all")
                    case = dict(program=which, runs=runs, same_object=same_object)
                    if not ctx.check(not isinstance(got, Raised), "program: run failed", case, repr(got)):
                        return
                    after = tree(d)
                    ctx.check(all(after.get(k, "gone") == v for k, v in prev.items()), "program: earlier output changed", case, "")
                    new = sorted(k for k in set(after) - set(prev) if after[k] is not None)
                    stem = os.path.basename(a._file_stem)
                    if data:
                        for s in ("_input_original.py", "_input_parsed.py"):
                            ctx.check(any(k.endswith(stem + s) for k in new), "program: input copy missing", dict(case, new=new), s)
                        mem = dict(por=a.por, avp=a.avp, set=a.set)
                        lab = {k: a.t for k in mem} if which != "vr" else {k: a.tvals for k in mem}
                        if which != "vr":
                            lab["por"] = a.tpor
                        for nm, v in mem.items():
                            p = [k for k in new if k.endswith(stem + "_data_%s.csv" % nm)]
                            if not ctx.check(len(p) == 1, "program: data file missing", dict(case, new=new), nm):
                                continue
                            lines = [l.split(",") for l in after[p[0]].decode().splitlines()]
                            i0 = [i for i, l in enumerate(lines) if l[0] == "idex"][0]
                            body = np.array([[float(x) for x in l] for l in lines[i0 + 1:]])
                            ctx.check(np.array_equal(body[:, 2:].ravel(), np.asarray(v).T.ravel()) and np.array_equal(body[:, 1], np.asarray(lab[nm])),
                                      "program: saved values differ from memory", dict(case, item=nm), "")
                    if figs:
                        ctx.check(sum(k.endswith(".png") for k in new) == len(a._figures) > 0, "program: figures missing", dict(case, new=new), len(a._figures))
                    prev = after
                ctx.state((which, runs, same_object))
                ctx.trace()
                ctx.outcome("program %s" % which)


def group_specbeam(ctx):
    from geotecha.beam_on_foundation.specbeam import SpecBeam
    vals = [np.array([[1 / 3., 2.], [3., 4e-9]]), np.array([[5.]])]
    for v in vals:
        for L in (None, 2.5):
            for stem in ("beam", "sub.run(1)"):
                with tempfile.TemporaryDirectory(dir=env.scratch()) as d:
                    class B(SpecBeam):
                        def __init__(self):
                            pass
                    b = B()
                    b.L, b.file_stem = L, os.path.join(d, stem)
                    b.defl_norm = v
                    b.xvals_norm = np.linspace(0, 1, len(v)) / 3
                    b.tvals_norm = np.linspace(0, 2, v.shape[1]) / 7
                    b.xvals, b.tvals = b.xvals_norm * 2, b.tvals_norm * 3
                    b.defl = v * 2.5
                    ctx.step()
                    got = call(b.saveme)
                    case = dict(shape=v.shape, L=L, stem=stem)
                    ctx.trace()
                    ctx.state((v.shape, L, stem))
                    if not ctx.check(not isinstance(got, Raised), "specbeam: save failed", case, repr(got)):
                        continue
                    check_csv(ctx, b.file_stem + "_defl_norm.csv",
                              dict(data=v, row_labels=b.xvals_norm, row_labels_label="x_norm", column_labels=list(b.tvals_norm)), case)
                    if L:
                        check_csv(ctx, b.file_stem + "_defl.csv",
                                  dict(data=b.defl, row_labels=b.xvals, row_labels_label="xvals", column_labels=list(b.tvals)), case)
                    c = B()
                    c.L, c.file_stem, c.xvals_norm, c.tvals_norm = L, b.file_stem, b.xvals_norm, b.tvals_norm
                    got = call(c.load_defl)
                    ctx.check(got is True and np.array_equal(c.defl_norm, v), "specbeam: reload differs", case, repr(got))
    b = SpecBeam.__new__(SpecBeam)
    b.file_stem = os.path.join(env.scratch(), "nothing")
    ctx.check(call(b.load_defl) is False, "specbeam: loads nothing", {}, "")


def group_cwd(ctx):
    """working_directory restores the directory after every kind of exit, nested"""
    from geotecha.inputoutput import inputoutput as io
    d = tempfile.mkdtemp(dir=env.scratch())
    for n in ("a", "b"):
        os.mkdir(os.path.join(d, n))
    actions = ["pass", "raise", "chdir", "nest", "nestraise", "return", "missing", "generator"]
    for seq in itertools.product(actions, repeat=3):
        os.chdir(d)
        for act in seq:
            def body():
                with io.working_directory(os.path.join(d, "a")):
                    ctx.check(os.getcwd() == os.path.realpath(os.path.join(d, "a")), "cwd: not entered", dict(seq=seq), os.getcwd())
                    if act == "raise":
                        raise ValueError("x")
                    if act == "chdir":
                        os.chdir("/")
                    if act in ("nest", "nestraise"):
                        with io.working_directory("../b"):
                            if act == "nestraise":
                                raise KeyboardInterrupt()
                        ctx.check(os.getcwd() == os.path.realpath(os.path.join(d, "a")), "cwd: inner exit", dict(seq=seq), os.getcwd())
                    if act == "missing":
                        with io.working_directory(os.path.join(d, "zzz")):
                            pass
                    if act == "return":
                        return 3
            try:
                body()
            except (ValueError, KeyboardInterrupt, OSError):
                pass
            ctx.step()
            ctx.check(os.getcwd() == os.path.realpath(d), "cwd: not restored", dict(seq=seq, act=act), os.getcwd())
        ctx.state(seq)
        ctx.trace()
    os.chdir("/")


def run(ctx):
    def on(n):
        return ctx.only is None or ctx.only in n
    if on("stems"):
        with ctx.group("stems"):
            ctx.parallel(group_stems, PREFIXES)
    if on("grids"):
        with ctx.group("grids"):
            ctx.parallel(group_grids, [(0, None)] + [(r, f) for r in (1, 2, 3) for f in range(8)])
    if on("histories"):
        with ctx.group("histories"):
            ctx.parallel(group_histories, [("run", i) for i in range(len(RUNS))] + [("user", i) for i in range(len(USER))])
    if on("faults"):
        with ctx.group("faults"):
            befores = [(), (0,), (1,), (0, 3), (2, 6), (4, 1)] + ([(0, 1, 2), (6, 6), (3,)] if ctx.thorough else [])
            ctx.parallel(group_faults, [(b, r) for b in befores for r in range(len(RUNS))])
    if on("programs"):
        with ctx.group("programs"):
            ctx.parallel(group_programs, ["vr", "schiffman", "nogami"])
    if on("specbeam"):
        with ctx.group("specbeam"):
            group_specbeam(ctx)
    if on("cwd"):
        with ctx.group("cwd"):
            group_cwd(ctx)
