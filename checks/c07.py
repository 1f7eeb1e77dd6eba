"""C07: inconsistent input is rejected before a calculation, consistent input accepted."""
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import env
from mc.core import Raised, call

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of presence/length/type/limit combinations against an independent rule engine "
             "(helper functions: every combination of up to 4 attributes and 2 rules; analysis classes: every "
             "change of up to 3 attributes of consistent inputs), each replayed on the real checks and make_all")
BOUNDS = "4 attributes, rules of up to 3 names, list lengths 0-3; 6 analysis classes, up to 3 simultaneous changes"
NOTE = "PolyLine x limits are compared with the implementation's own relative tolerance 1e-5; enumerated limits differ by more"

# the rules each analysis documents (pinned version)
RULES = {
    "Speccon1dVR": dict(
        zero_or_all="dTh kh et | dTv kv | surcharge_vs_depth surcharge_vs_time | vacuum_vs_depth vacuum_vs_time",
        at_least_one="mv | dTh dTv | kh kv | surcharge_vs_time vacuum_vs_time top_vs_time bot_vs_time fixed_ppress pumping | tvals | ppress_z avg_ppress_z_pairs settlement_z_pairs",
        one_implies="vacuum_vs_time dTh kh et | vacuum_vs_depth dTh kh et | surcharge_omega_phase surcharge_vs_depth surcharge_vs_time | vacuum_omega_phase vacuum_vs_depth vacuum_vs_time | fixed_ppress_omega_phase fixed_ppress | top_omega_phase top_vs_time | bot_omega_phase bot_vs_time | pumping_omega_phase pumping",
        lists="surcharge_vs_depth surcharge_vs_time surcharge_omega_phase vacuum_vs_depth vacuum_vs_time vacuum_omega_phase top_vs_time top_omega_phase bot_vs_time bot_omega_phase fixed_ppress fixed_ppress_omega_phase pumping pumping_omega_phase",
        xlim="mv kv kh et surcharge_vs_depth vacuum_vs_depth",
        pairs="surcharge_vs_depth surcharge_vs_time | surcharge_vs_time surcharge_omega_phase | vacuum_vs_depth vacuum_vs_time | vacuum_vs_time vacuum_omega_phase | top_vs_time top_omega_phase | bot_vs_time bot_omega_phase | fixed_ppress_omega_phase fixed_ppress | pumping pumping_omega_phase",
        force="surcharge_vs_time surcharge_omega_phase | vacuum_vs_time vacuum_omega_phase | fixed_ppress fixed_ppress_omega_phase | top_vs_time top_omega_phase | bot_vs_time bot_omega_phase | pumping pumping_omega_phase",
    ),
    "Speccon1dVRW": dict(
        zero_or_all="dTv kv | surcharge_vs_depth surcharge_vs_time",
        at_least_one="dTh | dTw | mv | surcharge_vs_time top_vs_time bot_vs_time fixed_ppress pumping | tvals | ppress_z avg_ppress_z_pairs settlement_z_pairs",
        one_implies="surcharge_omega_phase surcharge_vs_depth surcharge_vs_time | fixed_ppress_omega_phase fixed_ppress | top_omega_phase top_vs_time | bot_omega_phase bot_vs_time | pumping_omega_phase pumping | dTh kh et | dTw kw",
        lists="surcharge_vs_depth surcharge_vs_time surcharge_omega_phase top_vs_time top_omega_phase bot_vs_time bot_omega_phase fixed_ppress fixed_ppress_omega_phase pumping pumping_omega_phase",
        xlim="mv kv kh kw et surcharge_vs_depth",
        pairs="surcharge_vs_depth surcharge_vs_time | surcharge_vs_time surcharge_omega_phase | top_vs_time top_omega_phase | bot_vs_time bot_omega_phase | fixed_ppress_omega_phase fixed_ppress | pumping pumping_omega_phase",
        force="surcharge_vs_time surcharge_omega_phase | fixed_ppress fixed_ppress_omega_phase | top_vs_time top_omega_phase | bot_vs_time bot_omega_phase | pumping pumping_omega_phase",
    ),
    "Speccon1dVRC": dict(
        zero_or_all="dTv kv | surcharge_vs_depth surcharge_vs_time",
        at_least_one="dTh | dThc | dTvc | dTv | mv | n | surcharge_vs_time top_vs_time bot_vs_time | tvals | ppress_z avg_ppress_z_pairs settlement_z_pairs",
        one_implies="surcharge_omega_phase surcharge_vs_depth surcharge_vs_time | top_omega_phase top_vs_time | bot_omega_phase bot_vs_time | dTh kh et | dThc khc | dTvc kvc et | dTv kv",
        lists="surcharge_vs_depth surcharge_vs_time surcharge_omega_phase top_vs_time top_omega_phase bot_vs_time bot_omega_phase",
        xlim="mv kv kh kvc khc et surcharge_vs_depth",
        pairs="surcharge_vs_depth surcharge_vs_time | surcharge_vs_time surcharge_omega_phase | top_vs_time top_omega_phase | bot_vs_time bot_omega_phase",
        force="surcharge_vs_time surcharge_omega_phase | top_vs_time top_omega_phase | bot_vs_time bot_omega_phase",
    ),
    "Speccon1dUnsat": dict(
        zero_or_all="surcharge_vs_depth surcharge_vs_time",
        at_least_one="dTw | dTa | m1ka | m1kw | m2a | m2w | kw | Da | n | S | surcharge_vs_time atop_vs_time abot_vs_time wtop_vs_time wbot_vs_time | tvals | ppress_z avg_ppress_z_pairs settlement_z_pairs",
        one_implies="surcharge_omega_phase surcharge_vs_depth surcharge_vs_time | atop_omega_phase atop_vs_time | abot_omega_phase abot_vs_time | wtop_omega_phase wtop_vs_time | wbot_omega_phase wbot_vs_time",
        lists="surcharge_vs_depth surcharge_vs_time surcharge_omega_phase atop_vs_time atop_omega_phase abot_vs_time abot_omega_phase wtop_vs_time wtop_omega_phase wbot_vs_time wbot_omega_phase",
        xlim="m1ka m1kw m2a m2w kw Da surcharge_vs_depth n S",
        pairs="surcharge_vs_depth surcharge_vs_time | surcharge_vs_time surcharge_omega_phase | atop_vs_time atop_omega_phase | abot_vs_time abot_omega_phase | wtop_vs_time wtop_omega_phase | wbot_vs_time wbot_omega_phase",
        force="surcharge_vs_time surcharge_omega_phase | atop_vs_time atop_omega_phase | abot_vs_time abot_omega_phase | wtop_vs_time wtop_omega_phase | wbot_vs_time wbot_omega_phase",
    ),
    "NogamiAndLi2003": dict(
        zero_or_all="h kv mv | r0 r1",
        at_least_one="mv | surcharge_vs_time | kv kh | tpor t",
        one_implies="r0 r1 kh nh | r1 r0 kh nh | kh r0 r1 nh | nh kh r0 r1",
        lists="",
        xlim="",
        pairs="h kv | kv mv | h mv | h kh | h kv | h mv",
        force="",
    ),
    "SchiffmanAndStein1970": dict(
        zero_or_all="h kv mv | htop ktop | hbot kbot | z t",
        at_least_one="surcharge_vs_time",
        one_implies="",
        lists="",
        xlim="",
        pairs="h kv | kv mv | h mv",
        force="",
    ),
}


def parse(d):
    out = {}
    for k, v in d.items():
        out[k] = [x.split() for x in v.split(" | ")] if v else []
    out["lists"] = out["lists"][0] if out["lists"] else []
    return out


class Obj(object):
    pass


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if type(a).__name__ == "PolyLine":
        return same(np.asarray(a.xy), np.asarray(b.xy))
    return a is b or bool(a == b)


# ------------------------------------------------------------------ the rule engine (model)
def xlims(v):
    return [(float(p.x[0]), float(p.x[-1])) for p in (v if isinstance(v, list) else [v])]


def combos_broken(g, r):
    out = []
    for c in r.get("zero_or_all", []):
        n = sum(g(v) is None for v in c)
        if 0 < n < len(c):
            out.append(("zero or all", c))
    for c in r.get("at_least_one", []):
        if all(g(v) is None for v in c):
            out.append(("at least one", c))
    for c in r.get("one_implies", []):
        if g(c[0]) is not None and any(g(v) is None for v in c[1:]):
            out.append(("implies", c))
    return out


def xlim_broken(g, r):
    out = []
    for c in r.get("xlim", []):
        seen = None
        for v in c:
            if g(v) is None:
                continue
            for lim in xlims(g(v)):
                if seen is None:
                    seen = lim
                elif not np.allclose(seen, lim):
                    out.append(("x limits", [v]))
                    break
    return out


def pairs_broken(g, r):
    out = []
    for a, b in r.get("pairs", []):
        va, vb = g(a), g(b)
        if va is None or vb is None:
            continue
        if not hasattr(va, "__len__") or not hasattr(vb, "__len__"):
            out.append(("no length", [a, b]))
        elif len(va) != len(vb):
            out.append(("lengths", [a, b]))
    return out


def model_check(values, r):
    """-> (list of broken rules, attributes after the documented conversions)"""
    vals = dict(values)
    g = vals.get
    broken = combos_broken(g, r)
    if broken:
        return broken, vals
    for v in r.get("lists", []):
        if vals.get(v) is not None and not isinstance(vals[v], list):
            vals[v] = [vals[v]]
    for c in r.get("force", []):
        if vals.get(c[0]) is not None:
            for v in c[1:]:
                if vals.get(v) is None:
                    vals[v] = [None] * len(vals[c[0]])
    return xlim_broken(g, r) + pairs_broken(g, r), vals


def judge(ctx, kind, case, got, broken, names_too=True):
    ctx.trace()
    ctx.outcome("%s/%s" % (kind, "rejected" if broken else "accepted"))
    if not broken:
        return ctx.check(not isinstance(got, Raised), "%s: consistent input rejected" % kind, case, repr(got))
    if not ctx.check(isinstance(got, Raised), "%s: inconsistent input accepted" % kind, case, broken):
        return False
    ok = ctx.check(got.type in ("ValueError", "TypeError"), "%s: unrelated error" % kind, case, repr(got))
    if ok and names_too:
        msg = str(got.e)
        ctx.check(any(all(n in msg for n in b[1]) for b in broken), "%s: offending attribute not named" % kind, case,
                  "%s  broken %s" % (msg, broken))
    return ok


# ------------------------------------------------------------------ helper functions
def present_values(PolyLine):
    return [None, 0, False, "", [], 1.5, "text", [1], np.array([0.0]), PolyLine([0, 1], [0, 1])]


def group_combinations(ctx, item):
    from geotecha.inputoutput import inputoutput as io
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    kind, c1 = item
    names = "abcd"
    groups = [list(p) for r in (1, 2, 3, 4) for p in itertools.combinations(names, r)]
    if kind == "one_implies":
        groups = [list(p) for r in (2, 3) for p in itertools.permutations(names, r)]
    vals = present_values(PolyLine)
    arg = {"zero_or_all": "zero_or_all", "at_least_one": "at_least_one", "one_implies": "one_implies_others"}
    seconds = [None] + [("zero_or_all", ["a", "d"]), ("at_least_one", ["c", "d"]), ("one_implies", ["b", "a"]),
                        ("at_least_one", ["d"]), ("zero_or_all", ["b", "c", "d"])]
    for have in itertools.product((0, 1), repeat=4):
        for shift in range(1, len(vals), 1 if ctx.thorough else 3):
            o = Obj()
            for i, n in enumerate(names):
                setattr(o, n, vals[1 + (i * 3 + shift) % (len(vals) - 1)] if have[i] else None)
            before = copy.deepcopy(vars(o))
            for second in seconds:
                for first in ((kind, c1),):
                    rules = {first[0]: [first[1]]}
                    if second:
                        rules.setdefault(second[0], []).append(second[1])
                    ctx.state((have, shift, str(rules)))
                    ctx.step()
                    got = call(io.check_attribute_combinations, o, **{arg[k]: v for k, v in rules.items()})
                    judge(ctx, "combinations", dict(rules=rules, have=have, shift=shift), got,
                          combos_broken(lambda v: getattr(o, v), rules))
                    ctx.check(same(before, vars(o)), "combinations: attributes altered", dict(rules=rules))


def group_lists(ctx):
    from geotecha.inputoutput import inputoutput as io
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    vals = present_values(PolyLine) + [(1, 2), [None], [[]], {}, np.array([[1]]), "ab"]
    for va, vb in itertools.product(range(len(vals)), repeat=2):
        for names in ([], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a"]):
            for force in (True, False):
                o = Obj()
                o.a, o.b = vals[va], vals[vb]
                ctx.state((va, vb, tuple(names), force))
                ctx.step()
                got = call(io.check_attribute_is_list, o, names, force)
                bad = [n for n in names if {"a": vals[va], "b": vals[vb]}[n] is not None
                       and not isinstance({"a": vals[va], "b": vals[vb]}[n], list)]
                case = dict(a=repr(vals[va]), b=repr(vals[vb]), names=names, force=force)
                judge(ctx, "lists", case, got, [] if force else [("list", [n]) for n in bad])
                want = {"a": vals[va], "b": vals[vb]}
                if force:
                    for n in set(bad):
                        want[n] = [want[n]]
                ctx.check(same(want, vars(o)), "lists: wrong conversion", case, repr(vars(o)))
                if not isinstance(got, Raised):
                    ctx.check(got is None, "lists: returned something", case)


def group_pairs(ctx):
    from geotecha.inputoutput import inputoutput as io
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    vals = [None, 3, [], [1], [1, 2], [1, 2, 3], np.array([1, 2]), np.zeros((2, 3)), "ab", (1, 2), {1: 2}, 1.5,
            [None, None], np.float64(2)]
    for ia, ib, ic in itertools.product(range(len(vals)), repeat=3):
        o = Obj()
        o.a, o.b, o.c = vals[ia], vals[ib], vals[ic]
        for pairs in ([["a", "b"]], [["a", "b"], ["b", "c"]], [["c", "a"], ["a", "b"]], [["a", "a"]], []):
            if pairs in ([["a", "b"]], [["a", "a"]]) and ic:
                continue
            ctx.state((ia, ib, ic, str(pairs)))
            ctx.step()
            before = copy.copy(vars(o))
            got = call(io.check_attribute_pairs_have_equal_length, o, pairs)
            judge(ctx, "pairs", dict(a=repr(vals[ia]), b=repr(vals[ib]), c=repr(vals[ic]), pairs=pairs), got,
                  pairs_broken(lambda v: getattr(o, v), dict(pairs=pairs)))
            ctx.check(same(before, vars(o)), "pairs: attributes altered", dict(pairs=pairs))


def group_xlimits(ctx):
    from geotecha.inputoutput import inputoutput as io
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    P = [PolyLine([0, 1], [5, 6]), PolyLine([0, 0, 0.3, 1], [1, 2, 3, 4]), PolyLine([0, 2], [5, 6]),
         PolyLine([0.5, 1], [5, 6]), PolyLine([0, .5], [.5, 1], [1, 2], [3, 4])]
    singles = [None] + P
    lists = [[]] + [[p] for p in P[:4]] + [[P[0], P[i]] for i in range(4)] + [[P[2], P[0]]] + \
        [[P[0], P[1], P[i]] for i in (0, 2, 3)]
    vals = singles + lists
    for ia, ib, ic in itertools.product(range(len(vals)), repeat=3):
        if not ctx.thorough and (ia + ib * 3 + ic) % 2 and ia and ib:
            continue
        o = Obj()
        o.a, o.b, o.c = vals[ia], vals[ib], vals[ic]
        for groups in ([["a", "b", "c"]], [["b", "a"], ["c"]], [["a"], ["c", "b"]]):
            ctx.state((ia, ib, ic, str(groups)))
            ctx.step()
            got = call(io.check_attribute_PolyLines_have_same_x_limits, o, groups)
            broken = xlim_broken(lambda v: getattr(o, v), dict(xlim=groups))
            judge(ctx, "x limits", dict(a=repr(vals[ia]), b=repr(vals[ib]), c=repr(vals[ic]), groups=groups), got,
                  broken)
            ctx.check(o.a is vals[ia] and o.b is vals[ib] and o.c is vals[ic], "x limits: attributes altered",
                      dict(groups=groups))


def group_force(ctx):
    from geotecha.inputoutput import inputoutput as io
    vals = [None, [1], [1, 2, 3], [], "ab", np.array([1., 2.]), (3, 4), 0]
    for ia, ib, ic in itertools.product(range(len(vals)), repeat=3):
        for groups in ([["a", "b"]], [["a", "b", "c"]], [["b", "a"], ["b", "c"]], [["a"]], []):
            for value in (None, 0, "x", [1]):
                o = Obj()
                o.a, o.b, o.c = vals[ia], vals[ib], vals[ic]
                want = dict(a=vals[ia], b=vals[ib], c=vals[ic])
                err = False
                for grp in groups:
                    f = want[grp[0]]
                    if f is None:
                        continue
                    for v in grp[1:]:
                        if want[v] is None:
                            if not hasattr(f, "__len__"):
                                err = True
                            else:
                                want[v] = [value] * len(f)
                    if err:
                        break
                ctx.state((ia, ib, ic, str(groups), repr(value)))
                ctx.step()
                got = call(io.force_attribute_same_len_if_none, o, groups, value)
                case = dict(a=repr(vals[ia]), b=repr(vals[ib]), c=repr(vals[ic]), groups=groups, value=value)
                ctx.trace()
                if not err:
                    ctx.check(not isinstance(got, Raised), "force length: failed", case, repr(got))
                    ctx.check(same(want, vars(o)), "force length: wrong", case, repr(vars(o)))


# ------------------------------------------------------------------ analysis classes
def bases(PolyLine):
    one = PolyLine([0, 1], [1, 1])
    load = PolyLine([0, 0.0, 10], [0, 100, 100])
    com = dict(tvals=[0.1, 1.0], ppress_z=[0.2, 0.6])
    vr = dict(com, dTv=1.0, kv=one, mv=one, surcharge_vs_depth=[one], surcharge_vs_time=[load])
    vr2 = dict(com, dTh=1.0, kh=one, et=one, mv=one, surcharge_vs_depth=one, surcharge_vs_time=load,
               vacuum_vs_depth=[one, one], vacuum_vs_time=[load, load], top_vs_time=load)
    vr3 = dict(vr, top_vs_time=[load], bot_vs_time=[load, load], pumping=[(0.5, load)], fixed_ppress=[(0.3, 100., load)],
               surcharge_omega_phase=[(1.0, 0.1)], top_omega_phase=[None], dTh=2.0, kh=one, et=one,
               avg_ppress_z_pairs=[[0, 1]], settlement_z_pairs=[[0, 1]])
    vrw = dict(com, dTh=1.0, dTw=1.0, kh=one, kw=one, et=one, mv=one, dTv=1., kv=one, surcharge_vs_depth=[one],
               surcharge_vs_time=[load])
    vrw2 = dict(com, dTh=1.0, dTw=1.0, kh=one, kw=one, et=one, mv=one, top_vs_time=load, pumping=(0.5, load))
    vrc = dict(com, dTh=1., dThc=1., dTvc=1., dTv=1., n=10., mv=one, kh=one, kv=one, khc=one, kvc=one, et=one,
               surcharge_vs_depth=[one], surcharge_vs_time=[load])
    uns = dict(com, dTw=1., dTa=1., m1ka=one, m1kw=one, m2a=one, m2w=one, kw=one, Da=one,
               n=PolyLine([0, 1], [.4, .4]), S=PolyLine([0, 1], [.8, .8]), surcharge_vs_depth=[one],
               surcharge_vs_time=[load])
    nl = dict(z=np.array([0.2, 0.7]), t=np.array([0.1, 1.]), tpor=np.array([0.1, 1.]), nv=2, h=np.array([1.]),
              kv=np.array([1.]), mv=np.array([1.]), surcharge_vs_time=load)
    nl2 = dict(nl, kh=np.array([1.]), r0=0.1, r1=1.0, nh=2)
    ss = dict(z=np.array([0.2, 0.7]), t=np.array([0.1, 1.]), tpor=np.array([0.1, 1.]), h=[0.5, 0.5], kv=[1., 1.],
              mv=[1., 1.], bctop=0, bcbot=0, surcharge_vs_time=load)
    return {"Speccon1dVR": [vr, vr2, vr3], "Speccon1dVRW": [vrw, vrw2], "Speccon1dVRC": [vrc], "Speccon1dUnsat": [uns],
            "NogamiAndLi2003": [nl, nl2], "SchiffmanAndStein1970": [ss]}


def klass(name):
    import importlib
    mod = {"Speccon1dVR": "speccon.speccon1d_vr", "Speccon1dVRW": "speccon.speccon1d_vrw",
           "Speccon1dVRC": "speccon.speccon1d_vrc", "Speccon1dUnsat": "speccon.speccon1d_unsat",
           "NogamiAndLi2003": "consolidation.nogamiandli2003",
           "SchiffmanAndStein1970": "consolidation.schiffmanandstein1970"}[name]
    return getattr(importlib.import_module("geotecha." + mod), name)


RESULTS = "por avp set m gam psi eigs v _grid_data_dicts _file_stem _beta _Bm Cmn _alp _sn betamn phia".split()


def filler(name, PolyLine):
    one = PolyLine([0, 1], [1, 1])
    load = PolyLine([0, 0.0, 10], [0, 100, 100])
    if name.endswith("_omega_phase"):
        return [(1.0, 0.2)]
    if name.endswith("vs_time"):
        return [load]
    if name.endswith("vs_depth"):
        return [one]
    if name in "mv kh kv et kw kvc khc m1ka m1kw m2a m2w Da n S".split():
        return one
    if name in ("pumping",):
        return [(0.5, load)]
    if name == "fixed_ppress":
        return [(0.5, 10., load)]
    if name in ("ppress_z", "tvals"):
        return [0.1, 0.5]
    if name.endswith("z_pairs"):
        return [[0, 1]]
    return 1.0


def variants(name, val, rules, PolyLine, clsname):
    """Alternative values for one attribute (None = absent)."""
    out = []
    inlist = any(name in c for c in rules["pairs"])
    if val is not None:
        out.append(("absent", None))
    else:
        out.append(("present", filler(name, PolyLine) if clsname.startswith("Spec") else
                    {"kh": np.array([1.]), "r0": .1, "r1": 1., "nh": 2}.get(name, 1.0)))
    cur = val if val is not None else out[-1][1]
    if inlist and isinstance(cur, list) and len(cur):
        out.append(("longer", cur + [cur[0]]))
        out.append(("single", cur[0]))
        if name.endswith("_phase"):
            out.append(("empty", []))
    elif inlist and isinstance(cur, np.ndarray):
        out.append(("longer", np.concatenate([cur, cur])))
        out.append(("scalar", 1.0))
    if any(name in c for c in rules["xlim"]):
        wide = PolyLine([0, 0.5, 2], [1, 1, 1])
        out.append(("wide", [wide] if isinstance(cur, list) else wide))
        if isinstance(cur, list):
            out.append(("second wide", [cur[0], wide]))
        out.append(("layered", PolyLine([0, 0.4, 0.4, 1], [1, 1, 2, 2])))
    return out


def group_classes(ctx, item):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    name, ibase, first = item
    base = bases(PolyLine)[name][ibase]
    rules = parse(RULES[name])
    cls = klass(name)
    attrs = sorted({a for k in ("zero_or_all", "at_least_one", "one_implies", "xlim", "pairs") for c in rules[k] for a in c})
    d = tempfile.mkdtemp(prefix="c07-", dir=env.scratch())
    here = os.getcwd()
    moves = [[]]
    if first is not None:
        later = attrs[attrs.index(first) + 1:]
        f1 = [(first, v) for v in variants(first, base.get(first), rules, PolyLine, name)]
        moves = [[m] for m in f1]
        second = [(a, v) for a in later for v in variants(a, base.get(a), rules, PolyLine, name)]
        moves += [[m, s] for m in f1 for s in second]
        third = [(a, v) for a in later for v in variants(a, base.get(a), rules, PolyLine, name)[:1]]
        if ctx.thorough or ibase == 0:
            moves += [[f1[0], s, t] for s, t in itertools.combinations(third, 2) if s[0] != t[0]]
        if ctx.thorough:
            moves += [[m, s, t] for m in f1 for s, t in itertools.combinations(second, 2) if s[0] != t[0]]
    for mv in moves:
        ctx.state((name, ibase, tuple((a, v[0]) for a, v in mv)))
        ctx.step()
        o = cls()
        vals = {k: getattr(o, k, None) for k in set(attrs) | set(rules["lists"]) | set(base)}
        vals.update(copy.deepcopy(base))
        for a, v in mv:
            vals[a] = copy.deepcopy(v[1])
        for k, v in vals.items():
            setattr(o, k, v)
        o.save_data_to_file = True
        o.directory = d
        before = copy.deepcopy({k: getattr(o, k) for k in o._attributes})
        broken, after = model_check(copy.deepcopy(vals), rules)
        case = dict(program=name, base=ibase, changes=[(a, v[0]) for a, v in mv])
        got = call(o.check_input_attributes)
        judge(ctx, name, case, got, broken, names_too=True)
        if not broken and not isinstance(got, Raised):
            now = {k: getattr(o, k) for k in o._attributes}
            want = dict(before)
            want.update(after)
            ctx.check(all(same(want[k], now[k]) for k in now), "%s: accepted input altered" % name, case,
                      [k for k in now if not same(want[k], now[k])])
        if broken:
            o = cls()
            for k, v in vals.items():
                setattr(o, k, copy.deepcopy(v))
            o.save_data_to_file = True
            o.directory = d
            before = set(vars(o))
            got = call(o.make_all)
            ctx.step()
            ctx.check(isinstance(got, Raised), "%s: inconsistent input calculated" % name, case, broken)
            left = [r for r in RESULTS if getattr(o, r, None) is not None and not callable(getattr(o, r))]
            ctx.check(not left, "%s: rejected input left results" % name, case, left)
            ctx.check(not os.listdir(d), "%s: rejected input left files" % name, case, os.listdir(d))
            ctx.check(os.getcwd() == here, "working directory moved", case)
            if os.listdir(d):
                shutil.rmtree(d)
                os.makedirs(d)
    if first is None:
        # the base itself runs to the end and writes its files
        o = cls()
        for k, v in base.items():
            setattr(o, k, copy.deepcopy(v))
        o.save_data_to_file = True
        o.directory = d
        ctx.step()
        ctx.trace()
        got = call(o.make_all)
        ctx.check(not isinstance(got, Raised), "%s: consistent input not calculated" % name, dict(base=ibase), repr(got))
        ctx.check(len(os.listdir(d)) == 1, "%s: no output written" % name, dict(base=ibase), os.listdir(d))
    shutil.rmtree(d)


def run(ctx):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    for name, fn in (("lists", group_lists), ("pairs", group_pairs), ("x limits", group_xlimits),
                     ("force length", group_force)):
        if ctx.only and ctx.only not in name:
            continue
        with ctx.group(name):
            fn(ctx)
    env.scratch()
    if not ctx.only or ctx.only in "combinations":
        items = [(k, list(p)) for k in ("zero_or_all", "at_least_one") for r in (1, 2, 3, 4)
                 for p in itertools.combinations("abcd", r)]
        items += [("one_implies", list(p)) for r in (2, 3) for p in itertools.permutations("abcd", r)]
        with ctx.group("combinations"):
            ctx.parallel(group_combinations, items)
            from geotecha.inputoutput import inputoutput as io
            o = Obj()
            o.a = 1
            ctx.check(isinstance(call(io.check_attribute_combinations, o, one_implies_others=[["a"]]), Raised),
                      "one name cannot imply others", dict())
    if not ctx.only or ctx.only in "classes":
        items = []
        b = bases(PolyLine)
        for n in RULES:
            r = parse(RULES[n])
            attrs = sorted({a for k in ("zero_or_all", "at_least_one", "one_implies", "xlim", "pairs")
                            for c in r[k] for a in c})
            for i in range(len(b[n])):
                items += [(n, i, None)] + [(n, i, a) for a in attrs]
        with ctx.group("classes"):
            ctx.parallel(group_classes, items)
    ctx.sample(dict(program="Speccon1dVR", changes=[["kv", "absent"], ["surcharge_vs_time", "longer"]]))
