"""C22 unsaturated stress paths: compiled = interpreted, history, limits, isolation.

Every path of up to a fixed number of stages over an alphabet of loading, unloading, drying and
wetting targets is followed with both calculations.  The tree of paths is the state space: a node
is a path, and the results of its last stage must agree with those of the same path cut there."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np

from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of the tree of stress paths (stages over an alphabet of stress and suction targets) x soils x options; every path is executed with the compiled "
             "and the interpreted calculation and every stage compared with the other calculation and with the shorter path; pore states monitored at every step")
BOUNDS = ("paths of up to 3 (thorough 4) stages over 6 (7) targets; 3 soils x 6 option sets; 5-9 points per stage; 60-120 pore groups; "
          "reuse and combination histories of 3 objects; profiles over 3 water tables x 3 refinements")

SOILS = dict(silt=dict(wsat=0.262, a=3.1e6, b=3.377, wr=.128, sl=.115), sand=dict(wsat=.2, a=100., b=2.5, wr=.03, sl=.02),
             clay=dict(wsat=.5, a=5e3, b=1.5, wr=.2, sl=.3))
OPTS = [dict(logDS=.6, logRS=2., Css=.019, beta=.1),
        dict(logDS=.3, logRS=1.5, beta=0., Ccd=.01, pm=2., Pore_shape=2.),
        dict(logDS=.6, logRS=2., Css=.03, beta=.2, Assumption=0, Pore_shape=.0),
        dict(logDS=.9, logRS=3., K0=.5, beta=.05, Ccs=.15, Ccd=.03, pm=.5),
        dict(logDS=.6, logRS=1., Css=.001, Gs=2.6, NumSr=37),
        dict(logDS=.5, logRS=2., MinSuction=-2, Ccd=.0, beta=.3)]
OPS = [(True, 20.), (True, 1.), (True, 1500.), (False, 1e6), (False, 30.), (False, 500.)]
V = ("ss", "st", "e", "w", "Sr", "vw")
LONGPP = 9


def ep():
    import geotecha.constitutive_models.epus as m
    return m


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            return call(f, *a, **k)


def make(soil, opt, path, impl, npp=6, Npoint=80):
    m = ep()
    kw = dict(NumSr=60)
    kw.update(opt)
    stp = m.StressPath([dict(ist=i, vl=v, npp=npp) for i, v in path])
    return m.EPUS(SimpleSWCC=m.CurveFittingSWCC(**SOILS[soil]), stp=stp, implementation=impl, Npoint=Npoint, **kw)


def run1(*a, **k):
    o = make(*a, **k)
    r = quiet(o.Calresults)
    if isinstance(r, Raised):
        return r, o
    return [{v: np.array(getattr(d, v)) for v in V} for d in o.stp.datapoints], o


def close(a, b, tol=1e-9):
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(np.abs(a - b) <= tol * (1e-3 + np.abs(b)))


def paths_below(depth, ops, root):
    """every path starting with root"""
    for d in range(depth):
        for p in itertools.product(ops, repeat=d):
            q = root + p
            if all(x != y for x, y in zip(q, q[1:])):
                yield q


def check_path(ctx, soil, jo, path, a, b):
    opt = OPTS[jo]
    case = dict(soil=soil, options=opt, path=[("stress" if i else "suction", v) for i, v in path])
    if isinstance(a, Raised) or isinstance(b, Raised):
        ctx.check(isinstance(a, Raised) and isinstance(b, Raised), "raises", case, "interpreted %r compiled %r" % (a, b))
        return
    Gs = opt.get("Gs", 2.7)
    ms = opt.get("MinSuction", -3)
    st, ss = 10. ** ms / 1000, 10. ** ms
    for k, ((ist, v), A, B) in enumerate(zip(path, a, b)):
        c = dict(case, stage=k)
        for x in V:
            ctx.check(close(A[x], B[x]), "compiled vs interpreted", c, "%s interpreted %s compiled %s" % (x, A[x], B[x]))
        n = len(A["ss"])
        want = np.logspace(np.log10(st if ist else ss), np.log10(v), n)
        cap = lambda y: np.where(y >= 999999, 999998., y)
        ctx.check(close(A["st"], cap(want if ist else np.full(n, st)), 1e-8) and close(A["ss"], cap(np.full(n, ss) if ist else want), 1e-8),
                  "prescribed", c, "stress %s suction %s" % (A["st"], A["ss"]))
        e, w, Sr, vw = A["e"], A["w"], A["Sr"], A["vw"]
        ctx.check(np.all(e > 0) and np.all(w >= 0) and np.all(Sr >= -1e-12) and np.all(Sr <= 1 + 1e-9) and np.all(vw <= e / (1 + e) + 1e-9),
                  "limits", c, "e %s w %s Sr %s" % (e, w, Sr))
        ctx.check(close(Sr * e, w * Gs, 1e-8) and close(vw * (1 + e), Sr * e, 1e-8), "phase relations", c, "e %s w %s Sr %s vw %s" % (e, w, Sr, vw))
        up = want[-1] > want[0]
        de = np.diff(e)
        if ist:
            ctx.check(np.all(de <= 1e-9) if up else np.all(de >= -1e-9), "volume moves against stress", c, "e %s" % e)
        else:
            dw = np.diff(w)
            ctx.check(np.all(dw <= 1e-9) if up else np.all(dw >= -1e-9), "water moves against suction", c, "w %s" % w)
        if ist:
            st = v
        else:
            ss = v
        ctx.state((soil, jo, path[:k + 1]))


def tree_case(ctx, item):
    soil, jo, root, depth = item
    for path in paths_below(depth, OPS, root):
        a, _ = run1(soil, OPTS[jo], path, "scalar")
        b, _ = run1(soil, OPTS[jo], path, "fortran")
        check_path(ctx, soil, jo, path, a, b)
        ctx.trace()
        ctx.step(len(path))


def prefix_case(ctx, item):
    soil, jo, root, depth = item
    memo = {}
    for impl in ("scalar", "fortran"):
        for path in sorted(paths_below(depth, OPS, root), key=len):
            r, _ = run1(soil, OPTS[jo], path, impl, npp=5, Npoint=60)
            ctx.step()
            memo[impl, path] = r
            case = dict(soil=soil, options=OPTS[jo], implementation=impl, path=path)
            if isinstance(r, Raised):
                continue
            if len(path) > 1:
                p = memo[impl, path[:-1]]
                if ctx.check(not isinstance(p, Raised), "prefix raises", case, "longer path works, its prefix raises %r" % (p,)):
                    for k in range(len(p)):
                        ctx.check(all(np.array_equal(p[k][x], r[k][x]) for x in V), "stage depends on later stages", dict(case, stage=k),
                                  "e %s with and %s without the last stage" % (r[k]["e"], p[k]["e"]))
                    # a stage starts from where the last one ended
                    u, v = r[-2], r[-1]
                    same = path[-1][0] == path[-2][0]
                    if same and path[-2][1] < 999999:
                        ctx.check(abs(u["ss"][-1] / v["ss"][0] - 1) < 1e-9 and abs(u["st"][-1] / v["st"][0] - 1) < 1e-9, "stage start", case, "%r" % (v["ss"][:2],))
            ctx.trace()
            ctx.state((soil, jo, path))


def monitor_case(ctx, item):
    """drive the stages of the interpreted calculation one by one and watch the pore groups"""
    soil, jo, root, depth = item
    for path in paths_below(depth, OPS, root):
        o = make(soil, OPTS[jo], path, "scalar", npp=4, Npoint=60)
        case = dict(soil=soil, options=OPTS[jo], path=path)

        def go():
            o.errocc = False
            if o.Assumption == 1:
                o.DegreeofsaturationSWCC()
            o.SlurryPoreSize()
        r = quiet(go)
        if isinstance(r, Raised):
            ctx.check(False, "raises", case, repr(r))
            continue
        f = o.f
        cv = (1 + 2 * o.K0) / 3.
        st, ss = o.Stress, o.Suction
        rv, aev = np.array(f.RV), np.array(f.AEV)
        for ist, v in path:
            for x in np.logspace(np.log10(st if ist else ss), np.log10(v), 4):
                y0, filled0, air0, vol0 = np.array(f.YieldSt), np.array(f.Filled, dtype=bool), np.array(f.Airentrapped, dtype=bool), np.array(f.RVC)
                up = v > (st if ist else ss)
                m = (o.Loading if up else o.Unloading) if ist else (o.Drying if up else o.Wetting)
                r = quiet(m, x * cv if ist else x)
                ctx.step()
                if not ctx.check(not isinstance(r, Raised), "raises", case, repr(r)):
                    break
                y, filled, air, vol = np.array(f.YieldSt), np.array(f.Filled, dtype=bool), np.array(f.Airentrapped, dtype=bool), np.array(f.RVC)
                c = dict(case, stage=m.__name__, value=x)
                ctx.check(np.all(y >= y0), "yield state shrank", c, "by %r" % np.max(y0 - y))
                ctx.check(np.all(y[filled & filled0] >= (o.Stress + o.Suction) * (1 - 1e-12)), "filled pores yielded short", c, "stress %r suction %r least yield %r" % (o.Stress, o.Suction, np.append(y[filled & filled0], np.inf).min()))
                ctx.check(np.all(vol >= 0) and np.all(air >= air0), "pore volume or trapped air", c, "")
                if m.__name__ == "Drying":
                    ctx.check(not np.any(filled & ~filled0), "drying filled a pore", c, "")
                    ctx.check(np.all(air[filled0 & ~filled]), "dried pore without air", c, "")
                elif m.__name__ == "Wetting":
                    ctx.check(not np.any(~filled & filled0), "wetting emptied a pore", c, "")
                else:
                    ctx.check(not np.any(~filled & filled0), "stress emptied a pore", c, "")
                    if m.__name__ == "Unloading":
                        ctx.check(np.array_equal(filled, filled0) and np.array_equal(y, y0), "unloading changed yield", c, "")
                ctx.check(np.array_equal(rv, np.array(f.RV)) and np.array_equal(aev, np.array(f.AEV)), "reference pores changed", c, "")
                ctx.state((soil, jo, path, ist, round(float(np.log10(x)), 6)))
            else:
                if ist:
                    st = v
                else:
                    ss = v
                continue
            break
        ctx.trace()


def retrace_case(ctx, item):
    """saturated soil: reloading to the past maximum returns to the same state, however the path is subdivided"""
    soil, jo = item
    opt = OPTS[jo]
    for impl in ("scalar", "fortran"):
        for hi, lo in itertools.product((5., 100., 2000.), (.01, 1., 4.)):
            case = dict(soil=soil, options=opt, implementation=impl, hi=hi, lo=lo)
            T = True
            ref, _ = run1(soil, opt, [(T, hi)], impl)
            for path in ([(T, hi), (T, lo), (T, hi)], [(T, lo), (T, hi)], [(T, (lo * hi) ** .5), (T, lo), (T, hi)], [(T, hi), (T, lo), (T, (lo * hi) ** .5), (T, lo), (T, hi)]):
                r, _ = run1(soil, opt, path, impl)
                ctx.step()
                if ctx.check(not isinstance(r, Raised) and not isinstance(ref, Raised), "raises", case, repr(r)):
                    for x in ("e", "w", "Sr"):
                        ctx.check(abs(r[-1][x][-1] - ref[-1][x][-1]) <= 1e-9, "saturated reload", dict(case, path=path), "%s %r, first time %r" % (x, r[-1][x][-1], ref[-1][x][-1]))
                    if len(path) == 5 or (len(path) == 3 and path[0][1] == hi):
                        # reload retraces the unload line
                        ctx.check(np.all(np.abs(r[1]["e"][::-1] - (r[-1]["e"] if len(path) == 3 else r[1]["e"][::-1])) <= 1e-9), "reload line", dict(case, path=path), "")
                    ctx.trace()
            # already at a suction target: same holds for suction of a soil whose pores stay filled
            ctx.state((soil, jo, impl, hi, lo))


def swcc_case(ctx, item):
    """drying the slurry at no stress gives the input curve; saturated loading has slopes Ccs and Css"""
    soil, jo = item
    opt = dict(OPTS[jo])
    opt["beta"] = 0.
    for impl in ("scalar", "fortran"):
        err = []
        for N in (150, 300, 600):
            r, o = run1(soil, opt, [(False, 1e6)], impl, npp=LONGPP * 2 + 1, Npoint=N)
            ctx.step()
            if not ctx.check(not isinstance(r, Raised), "raises", dict(soil=soil, options=opt), repr(r)):
                return
            S, Gs = o.SimpleSWCC, opt.get("Gs", 2.7)
            s = r[0]["ss"]
            u, ref = s / S.a ** (1 / S.b), 1e6 / S.a ** (1 / S.b)
            W = ((S.wsat - S.sl * np.log10(s) / Gs - S.wr) * S.a * (1 - s ** S.b / 10 ** (6 * S.b)) / (s ** S.b + S.a) + S.wr) * (1 - np.log(1 + u) / np.log(1 + ref))
            err.append(np.abs(r[0]["w"] - W).max())
        ctx.check(err[2] < .05 * W.max() and err[2] < .62 * err[0] + 1e-6, "drying curve", dict(soil=soil, options=opt, implementation=impl),
                  "water content of the drying slurry misses the input curve by %s of %g with 150, 300, 600 pore groups" % (err, W.max()))
        h = 1e-5
        for x in (.02, 1., 40., 5e3):
            full = lambda q: (S.Wc(q, Gs=Gs) + S.wr) * (1 - np.log(1 + q / S.a ** (1 / S.b)) / np.log(1 + ref))
            d = (full(x * (1 + h)) - full(x * (1 - h))) / (2 * h * x)
            ctx.check(abs(S.DWc(x, Gs=Gs) - d) <= 1e-5 * abs(d) + 1e-14, "slope of the curve", dict(soil=soil, s=x), "%r, by differences %r" % (S.DWc(x, Gs=Gs), d))
        # compression slopes of slurry pores well below their air entry
        if opt.get("Assumption", 1) == 1:
            r, o = run1(soil, opt, [(True, .01), (True, .1), (True, .01)], impl, npp=3, Npoint=600)
            cs = (r[1]["e"][0] - r[1]["e"][-1])
            us = (r[2]["e"][-1] - r[2]["e"][0])
            sig = np.log10((.1 * 1 + 10. ** o.MinSuction / (1.)) / (.01 + 10. ** o.MinSuction)) if o.K0 == 1 else None
            if sig:
                ctx.check(abs(cs / (o.Ccs * sig) - 1) < .03 and abs(us / (o.Css * sig) - 1) < .03, "compression slopes", dict(soil=soil, options=opt, implementation=impl),
                          "Ccs %r from the path, given %r; Css %r, given %r" % (cs / sig, o.Ccs, us / sig, o.Css))
        ctx.trace()
        ctx.state((soil, jo, impl))


def snapres(o):
    return [{v: np.array(getattr(d, v)) for v in V} for d in o.stp.datapoints]


def eqres(a, b):
    return len(a) == len(b) and all(np.array_equal(x[v], y[v]) for x, y in zip(a, b) for v in V)


def reuse_case(ctx, item):
    """histories of calculating three objects in any order, twice: none disturbs another"""
    order, impl = item
    spec = [("silt", 0, [(True, 20.), (False, 1e6), (False, 30.)]), ("sand", 3, [(False, 500.), (True, 1500.)]), ("clay", 4, [(True, 1.)])]
    fresh = [run1(s, OPTS[i], p, impl if impl != "mixed" else ("scalar", "fortran")[k % 2])[0] for k, (s, i, p) in enumerate(spec)]
    objs = [make(s, OPTS[i], p, impl if impl != "mixed" else ("scalar", "fortran")[k % 2]) for k, (s, i, p) in enumerate(spec)]
    done = set()
    for j, k in enumerate(order):
        r = quiet(objs[k].Calresults)
        ctx.step()
        done.add(k)
        case = dict(order=order, implementation=impl, step=j)
        if not ctx.check(not isinstance(r, Raised), "raises", case, repr(r)):
            return
        for q in done:
            ctx.check(eqres(snapres(objs[q]), fresh[q]), "results depend on other calculations", dict(case, object=q), "")
    ctx.trace()
    ctx.state((order, impl))


def combine_case(ctx, n):
    m = ep()
    path = [(True, 20.), (False, 500.), (True, 1.)][:n]
    o = make("silt", OPTS[0], path, "fortran")
    o.Calresults()
    ref = snapres(o)
    for rounds in range(2):
        r = quiet(o.stp.combine_datapoints)
        case = dict(stages=n, round=rounds)
        if not ctx.check(not isinstance(r, Raised), "raises", case, repr(r)):
            return
        C = o.stp.datapoints_combined
        for v in V:
            ctx.check(np.array_equal(getattr(C, v), np.concatenate([x[v] for x in ref])), "combined results", case, v)
        ctx.check(eqres(snapres(o), ref), "combining altered a stage", case, "")
        for v in V:
            getattr(C, v)[:] = -1.
        ctx.check(eqres(snapres(o), ref), "combined result shares storage with a stage", case, "changing the combined result changed stage results")
        ctx.step()
    if n > 1:
        a, b = o.stp.datapoints[:2]
        s = a + b
        ctx.check(s.npts == a.npts + b.npts and eqres(snapres(o), ref), "joining altered a stage", dict(stages=n), "")
        r = quiet(lambda: a + 3)
        ctx.check(isinstance(r, Raised) and r.type == "TypeError", "joined with a number", dict(stages=n), repr(r))
    # unnamed stages are given names with number, kind and target
    p = m.StressPath([dict(vl=20.), dict(ist=False, vl=300.)])
    ctx.check(p.ist.tolist() == [True, False] and p.npp.tolist() == [100, 100] and "000" in p.name[0] and "20" in p.name[0] and "stress" in p.name[0]
              and "001" in p.name[1] and "300" in p.name[1] and "suction" in p.name[1], "default names", {}, "%r" % (p.name,))
    ctx.trace()
    ctx.state(n)


def profile_case(ctx, item):
    soil, zw, ref, q0 = item
    m = ep()
    H, gamw, nz, NP, npp = 8., 10., 4, 60, 5
    base = make(soil, OPTS[0], [(True, 1.)], "fortran")
    kw = dict(zip(("nz_refine", "Npoint_refine", "npp_refine"), ref)) if ref else {}
    p = m.EpusProfile(base, H=H, zw=zw, q0=q0, gamw=gamw, nz=nz, Npoint=NP, npp=npp, atol=1e-4, rtol=1e-7, max_iter=60, **kw)
    case = dict(soil=soil, water_table=zw, refinement=ref, q0=q0)
    base0 = {k: copy.deepcopy(v) for k, v in vars(base).items() if k in ("stp", "Npoint", "Ccs", "Css", "beta", "NumSr")}
    r = quiet(p.calc)
    ctx.step()
    if not ctx.check(not isinstance(r, Raised), "profile raises", case, repr(r)):
        return
    P = p.profile
    z, st, uw = P.z, P.st, P.uw
    ctx.check((p._nz, p._Npoint, p._npp) == (nz, NP, npp), "refinement ends at the full numbers", case, "%r" % ((p._nz, p._Npoint, p._npp),))
    ctx.check(len(p.niter) == len(ref[0] if ref else [1]) and z[0] == 0 and z[-1] == H and np.all(np.diff(z) > 0), "profile depths", case, "%s" % z)
    ctx.check(np.allclose(uw, (z - (H if zw is None else zw)) * gamw), "pore pressure", case, "%s" % uw)
    Gs = 2.7
    ctx.check(np.allclose(P.gam, (Gs + P.Sr * P.e) / (1 + P.e) * gamw), "unit weight", case, "%s" % P.gam)
    tot = q0 + np.concatenate([[0], np.cumsum(np.diff(z) * (P.gam[1:] + P.gam[:-1]) / 2)])
    ctx.check(np.allclose(st, tot - np.maximum(uw, 0), atol=1e-6), "overburden", case, "%s, should be %s" % (st, tot - np.maximum(uw, 0)))
    e, Sr = [], []
    for i in range(len(z)):
        path = [(True, st[i])] + ([(False, -uw[i])] if -uw[i] > 1e-3 else [])
        a, _ = run1(soil, OPTS[0], path, "fortran", npp=npp, Npoint=NP)
        e.append(a[-1]["e"][-1])
        Sr.append(min(1., a[-1]["Sr"][-1]))
    ctx.check(np.allclose(P.e, e, atol=1e-4) and np.allclose(P.Sr, Sr, atol=1e-3), "profile state", case, "e %s path gives %s; Sr %s path gives %s" % (P.e, e, P.Sr, Sr))
    for k, v in base0.items():
        if k != "stp":
            ctx.check(getattr(base, k) == v, "template object changed", case, k)
    # derived quantities leave the profile as it was
    names = V + ("z", "gam", "uw")
    before = {v: np.array(getattr(P, v)) for v in names}
    for f, a in ((p.compression_indexes, dict(dsig=20., dpsi=5.)), (p.water_permeability, dict(npp_swcc=15)), (p.air_permeability, {}), (p.compression_indexes, dict(dsig=20., dpsi=5.))):
        r = quiet(f, **a)
        ctx.step()
        if not ctx.check(not isinstance(r, Raised), "profile raises", dict(case, method=f.__name__), repr(r)):
            return
        ctx.check(all(np.array_equal(before[v], getattr(p.profile, v)) for v in names), "profile altered", dict(case, method=f.__name__), "")
    P = p.profile
    ctx.check(np.allclose(P.m1s, P.m1w + P.m1a) and np.allclose(P.m2s, P.m2w + P.m2a), "indexes add up", case, "")
    for i in range(len(z)):
        u = -uw[i]
        tail = [(True, st[i])] + ([(False, u)] if u > 1e-3 else [])
        b, _ = run1(soil, OPTS[0], tail, "fortran", npp=npp, Npoint=NP)
        for nm, extra, d in (("m1", [(True, st[i] + 20.)], 20.),
                             ("m2", [(False, u + 5.)] if uw[i] < 0 else ([(True, st[i] + 5.)] if uw[i] - 5. >= 1e-3 else [(True, st[i] + uw[i]), (False, 5. - uw[i])]), 5.)):
            a, _ = run1(soil, OPTS[0], tail + extra, "fortran", npp=npp, Npoint=NP)
            s = (a[-1]["e"][-1] - P.e[i]) / (1 + P.e[i]) / d
            w = (min(1, a[-1]["Sr"][-1]) * a[-1]["e"][-1] - P.Sr[i] * P.e[i]) / (1 + P.e[i]) / d
            gs, gw = getattr(P, nm + "s")[i], getattr(P, nm + "w")[i]
            ctx.check(abs(gs - s) < 1e-9 and abs(gw - w) < 1e-9, "compression index", dict(case, index=nm, depth=z[i]), "%r %r, the path gives %r %r" % (gs, gw, s, w))
    ctx.check(np.all(P.kw > 0) and np.all(P.kw <= 1 + 1e-9) and np.all(np.abs(P.kw[uw >= 0] - 1) < 1e-12), "water permeability", case, "%s" % P.kw)
    ctx.check(np.all(P.ka >= 0) and np.all(P.ka <= 1) and np.all(P.ka[P.Sr == 1] == 0), "air permeability", case, "%s" % P.ka)


    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "p.csv")
        r = quiet(p.save_profile_to_file, fn)
        if ctx.check(not isinstance(r, Raised), "profile raises", dict(case, method="save"), repr(r)):
            L = open(fn).read().split("\n")
            hd = L[0].split(",")
            X = np.array([[float(q) for q in l.split(",")] for l in L[1:] if l])
            ctx.check(hd == P._attr and len(set(hd)) == len(hd) and X.shape == (len(z), len(hd)) and all(np.allclose(X[:, j], getattr(P, v), rtol=1e-4) for j, v in enumerate(hd)),
                      "saved profile", case, "%r" % hd)
    finally:
        shutil.rmtree(d)
    # same object again: same answer
    r = quiet(p.calc)
    ctx.check(not isinstance(r, Raised) and all(np.allclose(before[v], getattr(p.profile, v), atol=1e-6) for v in ("st", "e", "Sr", "z")), "profile again", case, repr(r))
    # too few iterations is an error, never a silent result
    q = m.EpusProfile(base, H=H, zw=zw, q0=q0, gamw=gamw, nz=nz, Npoint=NP, npp=npp, atol=1e-9, rtol=1e-12, max_iter=1)
    r = quiet(q.calc)
    ctx.check(isinstance(r, Raised) and r.type == "ValueError", "not converged", case, "one iteration from a guess was accepted")
    ctx.trace()
    ctx.state(item if ref is None else (soil, zw, str(ref), q0))


def run(ctx):
    on = lambda g: not ctx.only or ctx.only in g
    deep = ctx.thorough
    ep()  # compile and import once, before the workers start
    roots = [(o,) for o in OPS]
    if on("paths"):
        with ctx.group("paths"):
            combos = [(s, i) for s in SOILS for i in range(len(OPTS))]
            items = []
            for s, i in combos:
                d = 3 if (s, i) in (("silt", 0), ("clay", 1), ("sand", 3)) or deep else 2
                if deep and (s, i) in (("silt", 0), ("clay", 1), ("sand", 3)):
                    d = 4
                items += [(s, i, r, d) for r in roots]
            ctx.parallel(tree_case, items)
    if on("prefix"):
        with ctx.group("prefix"):
            ctx.parallel(prefix_case, [(s, i, r, 3 if deep or i < 1 else 2) for s, i in (("silt", 0), ("clay", 1), ("sand", 3), ("clay", 5)) for r in roots])
    if on("monitor"):
        with ctx.group("monitor"):
            ctx.parallel(monitor_case, [(s, i, r, 3 if deep or s == "silt" else 2) for s in SOILS for i in (0, 1, 2, 3) for r in roots])
    if on("retrace"):
        with ctx.group("retrace"):
            ctx.parallel(retrace_case, [(s, i) for s in SOILS for i in range(len(OPTS))])
    if on("curve"):
        with ctx.group("curve"):
            ctx.parallel(swcc_case, [(s, i) for s in SOILS for i in range(len(OPTS)) if OPTS[i].get("MinSuction", -3) == -3 and "Ccs" not in OPTS[i]])
    if on("reuse"):
        with ctx.group("reuse"):
            ctx.parallel(reuse_case, [(o, i) for o in itertools.product(range(3), repeat=3 if not deep else 4) for i in ("scalar", "fortran", "mixed")])
    if on("combine"):
        with ctx.group("combine"):
            ctx.parallel(combine_case, [1, 2, 3])
    if on("profile"):
        with ctx.group("profile"):
            refs = [None, ([.5, 1], [.5, 1], [.6, 1]), ([1, 1], [.25, 1], [1, 1])]
            ctx.parallel(profile_case, [(s, z, r, q) for s in SOILS for z in (None, 3., 0.) for r in refs for q in ((5.,) if not deep else (5., 60.))])
