"""C13 superposition, relabelling and isolation of the spectral consolidation programs.

Every configuration of a finite space is run together with every transformed twin (loads applied
one by one, layers and histories split, loads reordered, outputs asked for separately, upside down,
rescaled, rerun, interleaved with another instance) on the real programs; the relation between
the two runs is known exactly, so no reference solution is involved."""
import copy
import itertools
import numpy as np
from mc.core import call, Raised
from checks import c12
from checks.c12 import build, configs, scale_of, OUT, Z, PAIRS, TV, brief, load, OPS, PROFILES, UNSAT

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of program configurations x transformations with exactly known effect, and of all interleavings "
             "of the calculation stages of two instances, executed on the real programs (metamorphic transition relation)")
BOUNDS = ("4 programs; the configurations of C12 (every load kind and pair of kinds, 5 profile sets, both drainage conditions), each with every "
          "transformation; split points 0.1 0.5 0.77, split times 0.15 2.0, all orders of up to 3 loads, all 20 interleavings of two instances' 3 stages, "
          "all ordered pairs of consecutive configurations on one object")
MIRROR = dict(top="bot", bot="top", wtop="wbot", wbot="wtop", atop="abot", abot="atop")


def outputs(a, prog):
    return {n: np.array(getattr(a, n)) for n in OUT[prog]}


def fresh(prog, c, impl="vectorized", tweak=None):
    a = build(prog, c, 6 if prog != "Unsat" else 4, impl)
    if tweak:
        tweak(a)
    r = call(a.make_all)
    return r if isinstance(r, Raised) else a


def total(prog, c, impl="vectorized"):
    a = fresh(prog, c, impl)
    return a if isinstance(a, Raised) else outputs(a, prog)


def same(ctx, kind, prog, c, got, want, detail=None, tol=1e-8, factor=None, scale=None):
    """factor: settlement multiplier of the twin"""
    case = lambda: dict(program=prog, detail=detail, **brief(c))
    if not ctx.check(not isinstance(got, Raised), "raises " + kind, case, lambda: repr(got)):
        return
    sc = scale if scale is not None else scale_of(c)
    for n in sorted(set(got) & set(want)):
        g, w = got[n], want[n]
        f = factor if factor is not None and n.startswith("set") else 1.
        s = sc * (c["H"] * c["mvref"] * 3 if n.startswith("set") else 1)
        s = max(s, np.max(np.abs(w)) if np.size(w) else 0)
        ok = g.shape == w.shape and np.all(np.isfinite(g)) and (np.size(w) == 0 or np.max(np.abs(g / f - w)) <= tol * s)
        ctx.check(ok, "%s %s" % (kind, n), case, lambda: "got\n %s\nwant\n %s" % (g / f, w))


def settled(prog, c):
    """reference run, or None when the system is too badly conditioned to compare (see C12)"""
    a = fresh(prog, c)
    if isinstance(a, Raised):
        return a
    e = np.abs(np.asarray(a.eigs)) * a.dT
    return None if np.min(e) < 1e-4 else a


# ------------------------------------------------------------------ transformations
def dead(l):
    return dict(l, hist=None)


def without(c, keep):
    """loads in keep act, the pseudo-permeability of the others stays"""
    return dict(c, loads=[l if i in keep else dead(l) for i, l in enumerate(c["loads"]) if i in keep or l["kind"] == "fixed"])


def split_xy(xy, z, how):
    """the same function with a point at z: plain, or as a step of no height"""
    x, y = list(xy[0]), list(xy[1])
    if z in x or z <= x[0] or z >= x[-1]:
        return None
    i = next(k for k in range(len(x) - 1) if x[k] < z < x[k + 1])
    v = y[i] + (y[i + 1] - y[i]) * (z - x[i]) / (x[i + 1] - x[i])
    n = 1 if how == "point" else 2
    return x[:i + 1] + [z] * n + x[i + 1:], y[:i + 1] + [v] * n + y[i + 1:]


def flip_xy(xy):
    return [1 - v for v in xy[0][::-1]], list(xy[1][::-1])


def flip(c):
    ls = []
    for l in c["loads"]:
        l = dict(l, kind=MIRROR.get(l["kind"], l["kind"]))
        if "z" in l:
            l["z"] = 1 - l["z"]
        if "depth" in l:
            l["depth"] = flip_xy(l["depth"])
        ls.append(l)
    return dict(c, loads=ls, profile={k: flip_xy(v) for k, v in c["profile"].items()})


def case_loads(ctx, item):
    prog, c = item
    a = settled(prog, c)
    if a is None:
        return
    ctx.state(("loads", prog, repr(c)))
    if isinstance(a, Raised):
        ctx.fail("raises", dict(program=prog, **brief(c)), repr(a))
        return
    ref = outputs(a, prog)
    ls = c["loads"]
    n = len(ls)
    if n > 1:
        parts = [total(prog, without(c, {i})) for i in range(n)]
        ctx.step(n)
        bad = [p for p in parts if isinstance(p, Raised)]
        if ctx.check(not bad, "raises single load", lambda: dict(program=prog, **brief(c)), lambda: repr(bad[0])):
            same(ctx, "together is not the sum", prog, c, {k: sum(p[k] for p in parts) for k in ref}, ref)
        if n <= 3:
            for p in list(itertools.permutations(range(n)))[1:]:
                same(ctx, "order of loads", prog, c, total(prog, dict(c, loads=[ls[i] for i in p])), ref, p)
                ctx.step()
        else:
            for p in (range(n)[::-1], [*range(1, n), 0]):
                same(ctx, "order of loads", prog, c, total(prog, dict(c, loads=[ls[i] for i in p])), ref, list(p))
                ctx.step()
    # amplitude
    f = -2.5
    twice = dict(c, loads=[dict(l, hist=(l["hist"][0], [v * f for v in l["hist"][1]])) if l["hist"] else l for l in ls])
    t = total(prog, twice)
    ctx.step()
    same(ctx, "amplitude", prog, c, t if isinstance(t, Raised) else {k: v / f for k, v in t.items()}, ref)
    # one load written as two halves at once, and as two consecutive histories
    l = ls[0]
    if l["hist"] and l["kind"] != "fixed":
        half = dict(l, hist=(l["hist"][0], [v * .5 for v in l["hist"][1]]))
        same(ctx, "two halves", prog, c, total(prog, dict(c, loads=[half, half] + ls[1:])), ref)
        ctx.step()
        if "depth" in l:
            d1 = dict(l, depth=(l["depth"][0], [v * .25 for v in l["depth"][1]]))
            d2 = dict(l, depth=(l["depth"][0], [v * .75 for v in l["depth"][1]]))
            same(ctx, "two depth parts", prog, c, total(prog, dict(c, loads=[d1] + ls[1:] + [d2])), ref)
            ctx.step()
    if any(l["op"] is None for l in ls):
        zero = dict(c, loads=[dict(l, op=(0., 0.)) if l["op"] is None else l for l in ls])
        same(ctx, "cosine of zero", prog, c, total(prog, zero), ref, tol=1e-7)
        ctx.step()
    # splitting histories
    for i, l in enumerate(ls):
        if l["hist"] is None:
            continue
        for t, how in itertools.product((.15, 2.), ("point", "step")):
            s = split_xy(l["hist"], t, how)
            if s:
                ctx.step()
                same(ctx, "split history", prog, c, total(prog, dict(c, loads=ls[:i] + [dict(l, hist=s)] + ls[i + 1:])), ref, [i, t, how])
        if "depth" in l:
            for z, how in ((.1, "step"), (.77, "point")):
                s = split_xy(l["depth"], z, how)
                if s:
                    ctx.step()
                    same(ctx, "split load depth", prog, c, total(prog, dict(c, loads=ls[:i] + [dict(l, depth=s)] + ls[i + 1:])), ref, [i, z, how])
    ctx.trace()
    ctx.sample(dict(program=prog, **brief(c)))


def case_profile(ctx, item):
    prog, c = item
    a = settled(prog, c)
    if a is None or isinstance(a, Raised):
        return
    ctx.state(("profile", prog, repr(c)))
    ref = outputs(a, prog)
    for k, z, how in itertools.product(sorted(c["profile"]), (.1, .5, .77), ("point", "step")):
        s = split_xy(c["profile"][k], z, how)
        if s:
            ctx.step()
            same(ctx, "split layer", prog, c, total(prog, dict(c, profile=dict(c["profile"], **{k: s}))), ref, [k, z, how])
    # upside down
    if c["drn"] == 0:
        fc = flip(c)
        a = fresh(prog, fc, tweak=lambda a: (setattr(a, "ppress_z", [1 - z for z in Z]), setattr(a, "avg_ppress_z_pairs", [[1 - q, 1 - p] for p, q in PAIRS]),
                                              setattr(a, "settlement_z_pairs", [[1 - q, 1 - p] for p, q in PAIRS])))
        ctx.step()
        same(ctx, "upside down", prog, c, a if isinstance(a, Raised) else outputs(a, prog), ref)
    # rescaling: k x property with 1/k in its multiplier
    for k, m in dict(VR=[("kv", "dTv"), (("kh", "et"), "dTh")], VRW=[("kv", "dTv"), (("kh", "et"), "dTh"), ("k2", "dTw")],
                     VRC=[("kv", "dTv"), (("kh", "et"), "dTh"), ("k2", "dTvc"), ("k3", "dThc")], Unsat=[("kw", "dTw"), ("Da", "dTa")])[prog]:
        if not c[m]:
            continue
        for one in (k if isinstance(k, tuple) else (k,)):
            q = dict(c["profile"])
            q[one] = (q[one][0], [v * 4e3 for v in q[one][1]])
            ctx.step()
            same(ctx, "rescale " + m, prog, c, total(prog, dict(c, profile=q, **{m: c[m] / 4e3})), ref, one)
    # dT only scales the numbers inside
    for f in (1e-3, 30., 1e5):
        ctx.step()
        same(ctx, "dT", prog, c, total(prog, dict(c, dT=c["dT"] * f)), ref, f)
    # another unit of time
    f = 1e4
    u = dict(c, loads=[dict(l, hist=([t * f for t in l["hist"][0]], l["hist"][1]) if l["hist"] else None,
                            op=(l["op"][0] / f, l["op"][1]) if l["op"] else None) for l in c["loads"]], tvals=[t * f for t in TV])
    for k in ("dTv", "dTh", "dTw", "dTa", "dTvc", "dThc"):
        if c.get(k):
            u[k] = c[k] / f
    u["loads"] = [dict(l, k=l["k"] / f) if l["kind"] == "fixed" else
                  dict(l, hist=(l["hist"][0], [v / f for v in l["hist"][1]])) if l["kind"] == "pump" else l for l in u["loads"]]
    ctx.step()
    same(ctx, "time unit", prog, c, total(prog, u), ref)
    # another unit of length and stiffness
    if not any(l["kind"] == "pump" or (l["kind"].endswith("bot") and c["drn"] == 1) for l in c["loads"]):
        ctx.step()
        f = dict(H=c["H"] * 7, mvref=c["mvref"] / 2)
        if prog == "Unsat":
            f["ua_"] = c["ua_"] * 2
        same(ctx, "H and mvref", prog, c, total(prog, dict(c, **f)), ref, factor=3.5)
    if prog != "Unsat":
        q = dict(c["profile"], mv=(c["profile"]["mv"][0], [v * 5 for v in c["profile"]["mv"][1]]))
        u = dict(c, profile=q, mvref=c["mvref"] / 5, loads=[dict(l, k=l["k"] * 5) if l["kind"] == "fixed" else l for l in c["loads"]])
        for k in ("dTv", "dTh", "dTw", "dTvc", "dThc"):
            if c.get(k):
                u[k] = c[k] * 5
        ctx.step()
        same(ctx, "mvref", prog, c, total(prog, u), ref)
    ctx.trace()


ASK = ["ppress_z", "avg_ppress_z_pairs", "settlement_z_pairs"]


def snapshot(a):
    """inputs of an object by value"""
    out = {}
    for n in a._attributes:
        if hasattr(a, n):
            out[n] = copy.deepcopy(getattr(a, n))
    return out


def equal_value(a, b):
    if hasattr(a, "x1"):
        return type(a) is type(b) and np.array_equal(a.x, b.x) and np.array_equal(a.y, b.y)
    if isinstance(a, (list, tuple)) and isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a, float), b)      # asarray of the same numbers
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal_value(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def case_outputs(ctx, item):
    prog, c = item
    a = settled(prog, c)
    if a is None or isinstance(a, Raised):
        return
    ctx.state(("outputs", prog, repr(c)))
    ref = outputs(a, prog)
    names = {q: [n for n in OUT[prog] if n.startswith(p)] for q, p in zip(ASK, ("por", "avp", "set"))}
    case = lambda d: (lambda: dict(program=prog, detail=d, **brief(c)))

    def pick(sel, tidx=None, zidx=None):
        out = {}
        for q in sel:
            for n in names[q]:
                v = ref[n]
                v = v if zidx is None else v[zidx]
                out[n] = v if tidx is None else v[:, tidx]
        return out

    def ask(kind, sel, tweak, want, detail):
        b = fresh(prog, c, tweak=tweak)
        ctx.step()
        if not ctx.check(not isinstance(b, Raised), "raises " + kind, case(detail), lambda: repr(b)):
            return
        got = {n: np.array(getattr(b, n)) for q in sel for n in names[q]}
        same(ctx, kind, prog, c, got, want, detail, tol=1e-9)
    # every non-empty combination of outputs
    for r in (1, 2):
        for sel in itertools.combinations(ASK, r):
            ask("output combination", sel, lambda a: [setattr(a, q, None) for q in ASK if q not in sel], pick(sel), sel)
    # single depth, reordered depths, arrays instead of lists
    for zi in ([2], [4, 0, 6, 1]):
        ask("choice of depths", ["ppress_z"], lambda a: setattr(a, "ppress_z", np.array([Z[i] for i in zi])), pick(["ppress_z"], zidx=zi), zi)
    for pi in ([1], [3, 0]):
        def tw(a):
            a.avg_ppress_z_pairs = np.array([PAIRS[i] for i in pi])
            a.settlement_z_pairs = [list(PAIRS[i]) for i in pi]
        ask("choice of intervals", ASK[1:], tw, pick(ASK[1:], zidx=pi), pi)
    # fewer and other times
    for ti in ([3], [8], [0, 4, 5], [8, 2, 5]):
        ask("choice of times", ASK, lambda a: setattr(a, "tvals", np.array([TV[i] for i in ti])), pick(ASK, tidx=ti), ti)
    # different times per output
    for idx in (slice(None, None, 2), slice(3, None), [1, 4, 8], slice(0, 1)):
        for q in ASK:
            ask("times of one output", ASK, lambda a: setattr(a, q + "_tval_indexes", idx),
                dict(pick(ASK), **pick([q], tidx=idx)), [q, repr(idx)])
    # rerun and inputs left alone
    b = build(prog, c, 6 if prog != "Unsat" else 4, "vectorized")
    b.check_input_attributes()
    before = snapshot(b)
    for k in range(3):
        r = call(b.make_all)
        ctx.step()
        if ctx.check(not isinstance(r, Raised), "raises rerun", case(k), lambda: repr(r)):
            got = outputs(b, prog)
            ctx.check(all(np.array_equal(got[n], ref[n]) for n in ref), "rerun differs", case(k), lambda: "")
            after = snapshot(b)
            bad = [n for n in before if not equal_value(before[n], after.get(n))]
            ctx.check(not bad, "input altered", case(k), lambda: "%s: %r -> %r" % (bad[0], before[bad[0]], after.get(bad[0])))
    ctx.trace()


STAGES = ["make_time_independent_arrays", "make_time_dependent_arrays", "make_output"]


def transplant(a, b):
    """give object a the inputs of object b"""
    for n in b._attributes:
        if hasattr(b, n) or hasattr(a, n):
            setattr(a, n, copy.deepcopy(getattr(b, n, None)))


def case_pair(ctx, item):
    """two instances interleaved in every order; then one object given the other's inputs"""
    (pa, ca), (pb, cb) = item
    ctx.state(("pair", pa, repr(ca), pb, repr(cb)))
    solo = []
    for p, c in item:
        s = fresh(p, c)
        if isinstance(s, Raised):
            ctx.fail("raises", dict(program=p, **brief(c)), repr(s))
            return
        solo.append(outputs(s, p))
    case = lambda o: (lambda: dict(programs=[pa, pb], order=o, first=brief(ca), second=brief(cb)))
    for pos in itertools.combinations(range(6), 3):
        objs = [build(p, c, 6 if p != "Unsat" else 4, "vectorized") for p, c in item]
        for o in objs:
            o.check_input_attributes()
        at = [0, 0]
        order = []
        for k in range(6):
            w = 0 if k in pos else 1
            order.append("AB"[w])
            r = call(getattr(objs[w], STAGES[at[w]]))
            ctx.step()
            at[w] += 1
            if not ctx.check(not isinstance(r, Raised), "raises interleaved", case("".join(order)), lambda: repr(r)):
                break
        else:
            for o, (p, c), s in zip(objs, item, solo):
                got = outputs(o, p)
                ctx.check(all(np.array_equal(got[n], s[n]) for n in s), "instances interfere", case("".join(order)), lambda: "")
    if pa == pb:
        a = build(pa, ca, 6 if pa != "Unsat" else 4, "vectorized")
        call(a.make_all)
        transplant(a, build(pb, cb, 6 if pb != "Unsat" else 4, "vectorized"))
        r = call(a.make_all)
        ctx.step(2)
        if ctx.check(not isinstance(r, Raised), "raises after new inputs", case("then"), lambda: repr(r)):
            got = outputs(a, pa)
            same(ctx, "leftover of the previous inputs", pb, cb, got, solo[1], tol=1e-11)
    ctx.trace()


def run(ctx):
    import geotecha.speccon.ext_integrals
    on = lambda g: not ctx.only or ctx.only in g + " "
    for prog in OUT:
        cs = configs(prog, False)
        # interesting configurations first: with a stride per group
        many = [c for c in cs if len(c["loads"]) > 1]
        if on("loads " + prog):
            with ctx.group("loads " + prog):
                sel = cs if ctx.thorough else [c for i, c in enumerate(cs) if i % 8 == 0 or len(c["loads"]) > 2]
                ctx.parallel(case_loads, [(prog, c) for c in sel])
        if on("profile " + prog):
            with ctx.group("profile " + prog):
                ctx.parallel(case_profile, [(prog, c) for c in cs[::(1 if ctx.thorough else 13)]])
        if on("outputs " + prog):
            with ctx.group("outputs " + prog):
                ctx.parallel(case_outputs, [(prog, c) for c in cs[::(2 if ctx.thorough else 23)]])
        if on("pairs " + prog):
            with ctx.group("pairs " + prog):
                sel = many[::(3 if ctx.thorough else 19)]
                items = [((prog, a), (prog, b)) for a, b in zip(sel, sel[1:] + sel[:1])]
                ctx.parallel(case_pair, items)
    if on("pairs mixed"):
        with ctx.group("pairs mixed"):
            progs = list(OUT)
            items = []
            for p, q in itertools.combinations(progs, 2):
                A, B = configs(p, False), configs(q, False)
                n = 12 if ctx.thorough else 3
                items += [((p, A[(i * 37) % len(A)]), (q, B[(i * 53) % len(B)])) for i in range(n)]
            ctx.parallel(case_pair, items)
