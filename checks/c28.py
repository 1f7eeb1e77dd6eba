"""C28 one problem, one answer: the spectral programs, given a problem in the user's own units as input text, give the
answer of every closed-form solution in the package which describes it; the worked examples run and reproduce what they list."""
import glob
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from mc.core import call, Raised, REPO

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of problem lattices, each stated twice (as input text for a spectral program in physical units and as a call "
             "of a closed-form solution) and run on the real code both ways; every shipped example run from start to finish")
BOUNDS = ("vr / Terzaghi: 2 drainages x 3 reference scalings x 2 thicknesses x 3 load histories x {load, end pressures} x 3 dT; vr / Schiffman & Stein: 1-3 layers; vr / Zhu & Yin: linear "
          "profiles; vr / Hansbo: 7 idealisations x 3 smear zones x 2 spacings x {load, vacuum} x 3 dT; vr, vrw / Tang & Onitsuka; vrw / Deng 2013: uniform and linear well resistance; "
          "vrc / Lu; unsat / Shan: 2 drainages x loads; program against program in their limits; the 21 worked examples")


def pl(x, y):
    return "PolyLine(%r, %r)" % (list(map(float, x)), list(map(float, y)))


def run_text(ctx, cls, lines):
    import geotecha.speccon.speccon1d_vr
    mod = {"Speccon1dVR": "speccon1d_vr", "Speccon1dVRW": "speccon1d_vrw", "Speccon1dVRC": "speccon1d_vrc", "Speccon1dUnsat": "speccon1d_unsat"}[cls]
    m = __import__("geotecha.speccon." + mod, fromlist=[cls])
    a = getattr(m, cls)("\n".join(lines) + "\n")
    a.make_all()
    ctx.step()
    return a


def agree(ctx, kind, case, got, want, tol, scale=None):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ok = got.shape == want.shape and np.all(np.isfinite(got))
    if ok:
        sc = scale if scale is not None else np.max(np.abs(want))
        ok = np.max(np.abs(got - want)) <= tol * sc
    ctx.check(bool(ok), kind, case, lambda: "got\n%s\nwant\n%s" % (got, want))


LOADS = [([0, 0, 100.], [0., 40., 40.]), ([0, .3, 100.], [0, 25., 25.]), ([0, .1, .1, .4, 100.], [0, 10., 20., -5., -5.])]
ZN = np.array([.1, .3, .5, .8, 1.])


def times(T):
    return T * np.array([.02, .05, .11, .2, .35, .5, 1.])


def scaled(h, T):
    return ([v * T for v in h[0]], list(h[1]))


def outputs(t):
    return ["ppress_z = %r" % list(ZN), "avg_ppress_z_pairs = [[0, 1]]", "settlement_z_pairs = [[0, 1]]", "tvals = %r" % list(t)]


def superpose(h, t, unit, n=40):
    """response to a history from the response to a unit step, by exact steps and fine ramps"""
    cols = []
    x, g = np.polynomial.legendre.leggauss(n)
    x, g = (x + 1) / 2, g / 2
    for tt in t:
        tot = 0.
        for a, b, u, v in zip(h[0][:-1], h[0][1:], h[1][:-1], h[1][1:]):
            if v == u or a >= tt:
                continue
            if a == b:
                tot = tot + (v - u) * unit(np.array([tt - a]))[..., 0]
            else:       # elapsed times between tt - b (or none) and tt - a, crowded towards none where the response is steep
                lo, hi = max(tt - b, 0.) ** .5, (tt - a) ** .5
                r = lo + (hi - lo) * x
                tot = tot + unit(r ** 2) @ (g * (hi - lo) * 2 * r) * (v - u) / (b - a)
        cols.append(tot)
    return np.stack(cols, axis=-1)


def load_at(h, t):
    out = np.zeros(len(t))
    for i, tt in enumerate(t):
        k = [j for j in range(len(h[0])) if h[0][j] <= tt][-1]
        out[i] = h[1][k] if k == len(h[0]) - 1 else h[1][k] + (h[1][k + 1] - h[1][k]) * (tt - h[0][k]) / (h[0][k + 1] - h[0][k])
    return out


# ------------------------------------------------------------------ one layer
def case_terzaghi(ctx, item):
    from geotecha.consolidation.terzahi import terzaghi_1d
    drn, H, (kref, mref), hi, action, dT = item
    ctx.state(("terzaghi", item))
    kv, mv, gamw = 2e-9 * 3e7, 5e-4, 10.
    L = H if drn == 1 else H / 2
    T = L ** 2 * mv * gamw / kv
    h = scaled(LOADS[hi], T)
    t = times(T)
    case = dict(problem="one layer", drn=drn, H=H, kvref=kv * kref, mvref=mv * mref, load=h, action=action, dT=dT)
    a = run_text(ctx, "Speccon1dVR", ["H = %r" % H, "drn = %d" % drn, "neig = 60", "mvref = %r" % (mv * mref), "kvref = %r" % (kv * kref),
                                      "dTv = kvref / mvref / 10 / H**2", "mv = " + pl([0, 1], [1 / mref] * 2), "kv = " + pl([0, 1], [1 / kref] * 2)]
                 + (["surcharge_vs_depth = " + pl([0, 1], [1, 1]), "surcharge_vs_time = " + pl(*h)] if action == "load" else
                    ["top_vs_time = " + pl(*h)] + (["bot_vs_time = " + pl(*h)] if drn == 0 else []))
                 + (["dT = " + dT] if dT else []) + outputs(t))
    z = ZN * H
    zz = z if drn == 1 else np.where(z > L, H - z, z)
    res = lambda t_, k: terzaghi_1d(zz, t_, H=L, kv=kv, mv=mv, gamw=gamw, ui=1., nterms=200)[k]
    por = superpose(h, t, lambda s: res(s, 0))
    avp = superpose(h, t, lambda s: 1 - res(s, 1))
    sc = max(abs(v) for v in h[1])
    if action == "load":
        tot = load_at(h, t)
    else:           # a pressure at the drained ends spreads as a load of the same history dissipates
        por, avp, tot = load_at(h, t) - por, load_at(h, t) - avp, 0.
    agree(ctx, "terzaghi pore pressure", case, a.por, por, 1.5e-2, sc)
    agree(ctx, "terzaghi average", case, a.avp[0], avp, 4e-3, sc)
    agree(ctx, "terzaghi settlement", case, a.set[0], mv * H * (tot - avp), 4e-3, sc * mv * H)
    ctx.trace()
    ctx.sample(case)


# ------------------------------------------------------------------ layers
def case_layers(ctx, item):
    from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    hs, ks, ms, drn, hi = item
    ctx.state(("layers", item))
    H = float(sum(hs))
    T = H * sum(a * b for a, b in zip(hs, ms)) / (H / sum(a / b for a, b in zip(hs, ks)))
    h = scaled(LOADS[hi], T)
    t = times(T)
    case = dict(problem="layers", h=hs, kv=ks, mv=ms, drn=drn, load=h)
    b = SchiffmanAndStein1970()
    b.h, b.kv, b.mv, b.n, b.bctop, b.bcbot = list(hs), list(ks), list(ms), 30, 0, drn
    b.surcharge_vs_time = PolyLine(*h)
    b.z, b.t, b.tpor = list(ZN * H), list(t), list(t)
    b.make_all()
    x2 = np.cumsum(hs) / H
    x1 = x2 - np.array(hs) / H
    x1[0], x2[-1] = 0., 1.
    two = lambda v: "PolyLine(%r, %r, %r, %r)" % (list(x1), list(x2), list(v), list(v))
    a = run_text(ctx, "Speccon1dVR", ["H = %r" % H, "drn = %d" % drn, "neig = 80", "mvref = %r" % ms[0], "kvref = %r" % ks[-1], "dTv = kvref / mvref / H**2",
                                      "mv = " + two([v / ms[0] for v in ms]), "kv = " + two([v / ks[-1] for v in ks]),
                                      "surcharge_vs_depth = " + pl([0, 1], [1, 1]), "surcharge_vs_time = " + pl(*h)] + outputs(t))
    sc = max(abs(v) for v in h[1])
    agree(ctx, "layers pore pressure", case, a.por, b.por, 2.5e-2, sc)
    agree(ctx, "layers average", case, np.ravel(a.avp), np.ravel(b.avp), 6e-3, sc)
    agree(ctx, "layers settlement", case, np.ravel(a.set), np.ravel(b.set), 6e-3, sc * sum(p * q for p, q in zip(hs, ms)))
    ctx.trace()


def case_power(ctx, item):
    from geotecha.consolidation.zhuandyin2012 import zhuandyin2012
    p, q, alpha, drn, H = item
    ctx.state(("power", item))
    kv0, mv0, gamw, ui = 1.6, 1.2, 10., 50.
    T = H ** 2 * mv0 * gamw / kv0 * (1 + alpha) ** (max(q, 0) - min(p, 0)) * (1 if drn == 1 else .25)
    t = times(T)
    por, doc, settle = zhuandyin2012(ZN * H, t, alpha, p, q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=40)
    zz = np.linspace(0, 1, 200)
    prof = lambda e: pl(zz, (1 + alpha * zz) ** e) if e not in (0, 1) else pl([0, 1], [1, (1 + alpha) ** e])
    case = dict(problem="power law", p=p, q=q, alpha=alpha, drn=drn, H=H)
    a = run_text(ctx, "Speccon1dVR", ["H = %r" % H, "drn = %d" % drn, "neig = 40", "mvref = %r" % mv0, "kvref = %r" % kv0, "dTv = kvref / mvref / 10 / H**2",
                                      "mv = " + prof(q), "kv = " + prof(p), "surcharge_vs_depth = " + pl([0, 1], [1, 1]),
                                      "surcharge_vs_time = " + pl([0, 0, 100 * T], [0, ui, ui])] + outputs(t))
    agree(ctx, "power law pore pressure", case, a.por, por, 1e-2, ui)
    agree(ctx, "power law settlement", case, a.set[0], settle, 6e-3)
    ctx.trace()


# ------------------------------------------------------------------ drains
def case_hansbo(ctx, item):
    """radial drainage only: exponential decay at the rate of the smear-zone resistance"""
    import geotecha.consolidation.smear_zones as sm
    kind, sp, (rs, kap), hi, action, dT = item
    ctx.state(("hansbo", item))
    rw, kh, mv, gamw, H = .05, 3e-3, 2e-3, 10., 8.
    re = sm.re_from_drain_spacing(sp, "Triangle")
    n, s = re / rw, rs / rw
    if kind == "ideal":
        mu = sm.mu_ideal(n)
    elif kind.startswith("pieces"):
        mu = sm.mu_piecewise_constant([s, n], [kap, 1.]) if "constant" in kind else sm.mu_piecewise_linear([1., s, s, n], [kap, kap, 1., 1.])
    else:
        mu = getattr(sm, "mu_" + kind.replace(" ", "_"))(n, s, kap)
    mu = float(np.ravel(mu)[0])
    eta = 2 / re ** 2 / mu
    T = mv * gamw / (kh * eta)
    h = scaled(LOADS[hi], T)
    t = times(3 * T)
    case = dict(problem="drain", idealisation=kind, spacing=sp, s=s, kap=kap, load=h, action=action, dT=dT)
    a = run_text(ctx, "Speccon1dVR", ["H = %r" % H, "drn = 1", "neig = 40", "mvref = %r" % mv, "khref = %r" % kh, "etref = %r" % eta,
                                      "dTh = khref * etref / mvref / 10", "mv = " + pl([0, 1], [1, 1]), "kh = " + pl([0, 1], [1, 1]), "et = " + pl([0, 1], [1, 1]),
                                      action + "_vs_depth = " + pl([0, 1], [1, 1]), action + "_vs_time = " + pl(*h)] + (["dT = " + dT] if dT else []) + outputs(t))
    avp = superpose(h, t, lambda x: np.exp(-x / T))
    tot = load_at(h, t)
    if action == "vacuum":
        avp, tot = tot - avp, 0.
    sc = max(abs(v) for v in h[1])
    agree(ctx, "drain average", case, a.avp[0], avp, 8e-3, sc)
    agree(ctx, "drain settlement", case, a.set[0], mv * H * (tot - avp), 8e-3, sc * mv * H)
    # the resistance itself, from the package's own permeability profile (steady radial flow under equal strain)
    ctx.trace()


def case_tang(ctx, item):
    from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
    import geotecha.consolidation.smear_zones as sm
    kvf, kw, s, kap, drn, hi = item
    ctx.state(("tang", item))
    H, mv, gamw, kh, rw, re = 10., 1e-3, 10., 1e-2, .05, .6
    n = re / rw
    kv = kh * kvf
    mu = float(np.ravel(sm.mu_constant(n, s, kap))[0])
    T = re ** 2 * mu * mv * gamw / (2 * kh)
    h = scaled(LOADS[hi], T)
    t = times(2 * T)
    por, avp, settle = tangandonitsuka2000(z=ZN * H, t=t, kv=kv, kh=kh, ks=kh / kap, kw=kw, mv=mv, gamw=gamw, rw=rw, rs=s * rw, re=re, H=H, drn=drn,
                                           surcharge_vs_time=h, nterms=60)
    case = dict(problem="drain and vertical", kv=kv, kh=kh, kw=kw, s=s, kap=kap, drn=drn, load=h)
    common = ["H = %r" % H, "drn = %d" % drn, "neig = 60", "mvref = %r" % mv, "khref = %r" % kh, "kvref = %r" % kv, "etref = %r" % (2 / re ** 2 / mu),
              "dTh = khref * etref / mvref / 10", "dTv = kvref / mvref / 10 / H**2"] + ["%s = %s" % (v, pl([0, 1], [1, 1])) for v in ("mv", "kh", "kv", "et")] + [
              "surcharge_vs_depth = " + pl([0, 1], [1, 1]), "surcharge_vs_time = " + pl(*h)] + outputs(t)
    sc = max(abs(v) for v in h[1])
    if kw >= 1e6:
        a = run_text(ctx, "Speccon1dVR", common)
        agree(ctx, "vr against tang pore pressure", case, a.por, por, 2e-2, sc)
        agree(ctx, "vr against tang average", case, a.avp[0], avp, 5e-3, sc)
        agree(ctx, "vr against tang settlement", case, a.set[0], settle, 5e-3, sc * mv * H)
    b = run_text(ctx, "Speccon1dVRW", common + ["kwref = %r" % kw, "dTw = kwref / H**2 / mvref / 10 / (%r**2 - 1)" % n, "kw = " + pl([0, 1], [1, 1])])
    tol = 1.2e-2 if kw >= 1e6 or kvf == 0 else 6e-2        # Tang and Onitsuka's well term is approximate with both directions
    agree(ctx, "vrw against tang pore pressure", case, b.por, por, 2 * tol, sc)
    agree(ctx, "vrw against tang average", case, b.avp[0], avp, tol, sc)
    ctx.trace()


def case_deng(ctx, item):
    from geotecha.consolidation.dengetal2013and2014 import dengetal2013
    import geotecha.consolidation.smear_zones as sm
    A2, kw0, s, kap, H = item
    ctx.state(("deng", item))
    rw, re, kh, mv, gamw = .035, .525, 2e-8, .2e-3, 10.
    n = re / rw
    mu = float(np.ravel(sm.mu_constant(n, s, kap))[0])
    t = np.array([.1, .4, 1.]) * mv * gamw * re ** 2 * mu / (2 * kh)
    z = np.array([.1, .3, .5, .8, 1.])
    want = dengetal2013(z=z * H, t=t, rw=rw, re=re, A1=1, A2=A2, A3=0, H=H, rs=s * rw, ks=kh / kap, kw0=kw0, kh=kh, mv=mv, gamw=gamw, ui=1)
    b = run_text(ctx, "Speccon1dVRW", ["H = %r" % H, "drn = 1", "neig = 40", "mvref = %r" % mv, "khref = %r" % kh, "etref = %r" % (2 / re ** 2 / mu), "kwref = %r" % kw0,
                                       "dTh = khref * etref / mvref / 10", "dTw = kwref / H**2 / mvref / 10 / (%r**2 - 1)" % n, "kw = " + pl([0, 1], [1, 1 - A2])]
                 + ["%s = %s" % (v, pl([0, 1], [1, 1])) for v in ("mv", "kh", "et")]
                 + ["surcharge_vs_depth = " + pl([0, 1], [1, 1]), "surcharge_vs_time = " + pl([0, 0, 1e12], [0, 1, 1])]
                 + outputs(t))
    case = dict(problem="well resistance varying with depth", A2=A2, kw0=kw0, s=s, kap=kap, H=H)
    # Deng et al.'s solution is approximate (the average pressure is used for the flow into the well)
    agree(ctx, "vrw against deng", case, b.por, np.asarray(want).reshape(len(z), len(t)), .12, 1.)
    ctx.trace()


# ------------------------------------------------------------------ stone column
def case_lu(ctx, item):
    from geotecha.consolidation.luetal2010 import luetal2010
    import geotecha.consolidation.smear_zones as sm
    kv, kvc, kh, khc, mvc, (s, kap), (ut, ub) = item
    ctx.state(("lu", item))
    rc, re, H, mvs, gamw = .1, .9, 10., .1, 10.
    n = re / rc
    mu = float(np.ravel(sm.mu_constant(n, s, kap))[0])
    t = np.array([.3, .8, 2., 6.])
    por, pors, porc, avp, settle = luetal2010(ZN * H, t, rc, re, H, s * rc, kh / kap, kv, kvc, kh, khc, mvs, mvc, gamw, ut, ub, 60)
    a = run_text(ctx, "Speccon1dVRC", ["H = 10", "drn = 1", "neig = 60", "mvs = .1", "mvc = %r" % mvc, "mvref = mvs * %r**2 / (%r**2 - 1 + mvs / mvc)" % (n, n), "n = %r" % n,
                                       "khref = %r" % kh, "etref = %r" % (2 / re ** 2 / mu), "dTh = khref * etref / mvref / 10", "khcref = %r" % khc,
                                       "dThc = 8 * khcref / (mvref * 10) / .1**2", "kvref = %r" % kv, "dTv = kvref / mvref / 10 / H**2", "kvcref = %r" % kvc,
                                       "dTvc = kvcref / H**2 / mvref / 10", "surcharge_vs_depth = " + pl([0, 1], [ut, ub]), "surcharge_vs_time = " + pl([0, 0, 10], [0, 1, 1])]
                 + ["%s = %s" % (v, pl([0, 1], [1, 1])) for v in ("mv", "kh", "khc", "kv", "kvc", "et")] + outputs(t))
    case = dict(problem="stone column", kv=kv, kvc=kvc, kh=kh, khc=khc, mvc=mvc, s=s, kap=kap, utop=ut, ubot=ub)
    agree(ctx, "stone column pore pressure", case, a.por, por, 5e-3, 1.)
    agree(ctx, "stone column soil", case, a.pors, pors, 5e-3, 1.)
    agree(ctx, "stone column well", case, a.porc, porc, 5e-3, 1.)
    agree(ctx, "stone column average", case, a.avp[0], avp, 2e-3, 1.)
    agree(ctx, "stone column settlement", case, a.set[0], settle, 2e-3)
    ctx.trace()


# ------------------------------------------------------------------ unsaturated
def case_shan(ctx, item):
    from geotecha.consolidation.shanetal2012 import shanetal2012
    drn, kak, H, action = item
    ctx.state(("shan", item))
    kw, m1w, m2w, m1a, m2a, S, n, ua, T0 = 1e-10, -.5, -2., -2., 1., .8, .5, 111., 293.16
    ka, mref, wa, R, q = kw * kak, 1e-4, 29e-3, 8.31432, 100.
    # each mass balance divided by its coefficient of the own pressure's rate
    tt = np.array([1e5, 1e6, 1e7, 1e8]) * (H / 10.) ** 2
    Da = ka / 10
    Cw = (m1w - m2w) / m2w
    Cvw = kw / 10 / (m2w * mref)
    Csw = m1w / m2w
    k1a = m1a - m2a - (1 - S) * n / (mref * ua)
    Ca, Csa = m2a / k1a, m1a / k1a
    Cva = Da / (wa * ua / (R * T0)) / (k1a * mref)
    case = dict(problem="unsaturated", drn=drn, ka_kw=kak, H=H, action=action)
    lines = ["H = %r" % H, "drn = %d" % drn, "neig = 60", "mvref = 1e-4", "kwref = 1e-10", "Daref = %r" % Da, "wa = 29.0e-3", "R = 8.31432", "ua_ = 111", "T = 293.16",
             "dTa = Daref / mvref / (wa * ua_ / (R * T)) / H**2", "dTw = kwref / mvref / 10 / H**2", "dT = max(dTw, dTa)"]
    lines += ["%s = %s" % (k, pl([0, 1], [v, v])) for k, v in (("kw", 1), ("Da", 1), ("S", S), ("n", n), ("m1kw", m1w), ("m2w", m2w), ("m1ka", m1a), ("m2a", m2a))]
    lines += ["ppress_z = %r" % list(ZN), "tvals = %r" % list(tt)]
    kw_ = dict(drn=drn, nterms=200)
    big = 1e14
    # an instant load gives the initial pressures of an undrained element: C u = Cs q
    A = np.array([[1, Cw], [Ca, 1]])
    u0 = np.linalg.solve(A, np.array([Csw, Csa]) * q)
    if action == "instant":
        lines += ["surcharge_vs_depth = " + pl([0, 1], [1, 1]), "surcharge_vs_time = " + pl([0, 0, big], [0, q, q])]
        uw, ua_ = shanetal2012(ZN * H, tt, H, Cw, Cvw, Ca, Cva, Csw=Csw, Csa=Csa, uwi=(u0[0],) * 2, uai=(u0[1],) * 2, **kw_)
    elif action == "depth":
        lines += ["surcharge_vs_depth = " + pl([0, 1], [1, .4]), "surcharge_vs_time = " + pl([0, 0, big], [0, q, q])]
        uw, ua_ = shanetal2012(ZN * H, tt, H, Cw, Cvw, Ca, Cva, Csw=Csw, Csa=Csa, uwi=(u0[0], .4 * u0[0]), uai=(u0[1], .4 * u0[1]), **kw_)
    else:
        # cyclic boundary pressure (cos(wt - pi/2) = sin wt), or cyclic surcharge
        om = 2 * np.pi / (1e8 * (H / 10.) ** 2)
        f = dict(type="sin", q0=q, omega=om)
        name, key = {"water top": ("wtop", "f1"), "air top": ("atop", "f2"), "water bottom": ("wbot", "f3"), "air bottom": ("abot", "f4"), "cyclic": ("surcharge", "f")}[action]
        mag = q
        if name == "surcharge":
            lines += ["surcharge_vs_depth = " + pl([0, 1], [1, 1])]
        lines += ["%s_vs_time = %s" % (name, pl([0, 0, big], [0, mag, mag])), "%s_omega_phase = (%r, -np.pi/2)" % (name, om)]
        uw, ua_ = shanetal2012(ZN * H, tt, H, Cw, Cvw, Ca, Cva, Csw=Csw, Csa=Csa, **dict(kw_, **{key: f}))
    r = call(run_text, ctx, "Speccon1dUnsat", lines)
    if not ctx.check(not isinstance(r, Raised), "unsaturated raises", case, lambda: repr(r)):
        return
    sc = max(np.max(np.abs(uw)), np.max(np.abs(ua_)), 1e-6)
    agree(ctx, "unsaturated water", case, r.porw, uw, 1.5e-2, sc)
    agree(ctx, "unsaturated air", case, r.pora, ua_, 1.5e-2, sc)
    ctx.trace()


# ------------------------------------------------------------------ worked examples
DRIVER = r'''
import sys, runpy, json, warnings, logging
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt, numpy as np
import matplotlib.figure, matplotlib.legend
plt.show = lambda *a, **k: None
needed = []
sub = matplotlib.figure.Figure.add_subplot
def add_subplot(self, *a, **k):
    if a and isinstance(a[0], str):
        needed.append("add_subplot(text)")
        a = (int(a[0]),) + a[1:]
    return sub(self, *a, **k)
matplotlib.figure.Figure.add_subplot = add_subplot
if not hasattr(matplotlib.legend.Legend, "draggable"):
    def draggable(self, state=True, **k):
        needed.append("Legend.draggable()")
        return self.set_draggable(state)
    matplotlib.legend.Legend.draggable = draggable
runpy.run_path(sys.argv[1], run_name="__main__")
out = []
for n in plt.get_fignums():
    for ax in plt.figure(n).axes:
        out.append([[l.get_label(), np.asarray(l.get_xdata(), float).tolist(), np.asarray(l.get_ydata(), float).tolist()] for l in ax.lines])
print("RESULT" + json.dumps([sorted(set(needed)), out]))
'''
# how closely each example is meant to follow what it lists (relative to the largest value in its axes); None: nothing is listed
EXAMPLES = {
    "speccon1d_unsat_sinusoidal_bot_air_BC_shanetal2012.py": .02, "speccon1d_unsat_sinusoidal_top_water_BC_shanetal2012.py": .02,
    "speccon1d_unsat_surcharge_ka_divide_kw_100_shanetal2012.py": .04, "speccon1d_vr_mimic_terzaghi_with_gradient_bottom_boundary_condition.py": .04,
    "speccon1d_vr_mimic_terzaghi_with_pumping_at_mid_depth.py": .1, "speccon1d_vr_vert_and_radial_drainage_tangandonitsuka2000.py": .005,
    "speccon1d_vr_vert_and_radial_equal_vs_free_strain_nogmaiandli2003.py": .2, "speccon1d_vr_vert_with_depth_dependent_mv_kv_zhuandyin2012.py": .005,
    "speccon1d_vrc_stone_column_luetal2010.py": .002, "speccon1d_vrc_stone_column_luetal2010_linear_depth_dependent_load.py": .002,
    "speccon1d_vrw_mimic_partially_penetrating_drain_with_kw_of_0_in_bottom_layer.py": .1,
    "speccon1d_vrw_well_resistance_linear_with_depth_dengetal2013.py": .15, "speccon1d_vrw_vert_and_radial_with_well_resis_drainage_tangandonitsuka2000.py": .05,
    "speccon1d_vr_radial_mimic_hansbo1981_with_vacuum.py": .02,
    "specbeam_transition_zone.py": None, "specbeam_infinite_beam_dynamic_amplification_factor.py": .06,
    "speccon1d_unsat_3layer_shanetal2014.py": None, "speccon1d_vr_4layers_vert_schiffmanandstein1970_Fig2.py": None,
    "example_1d_vr_001a_schiffmanandstein1970.py": None, "example_1d_vr_001b_schiffmanandstein1970.py": None,
}


def same_abscissa(p, q):
    return len(p) == len(q) and np.allclose(p, q, rtol=1e-9)


def case_example(ctx, name):
    ctx.state(("example", name))
    d = tempfile.mkdtemp(prefix="geotecha-ex-")
    case = dict(example=name)
    try:
        for f in glob.glob(os.path.join(REPO, "examples", "spec*", "*.py")):
            shutil.copy(f, d)
        if not os.path.exists(os.path.join(d, name)):
            ctx.trace()
            return
        open(os.path.join(d, "driver.py"), "w").write(DRIVER)
        env = dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="agg", HOME=d)
        p = subprocess.run([sys.executable, "-W", "ignore", "driver.py", name], cwd=d, env=env, capture_output=True, text=True, timeout=400)
        ctx.step()
        res = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
        if not ctx.check(p.returncode == 0 and len(res) == 1, "example fails " + name, case, lambda: p.stderr[-600:]):
            return
        older, res = json.loads(res[0][6:])
        ctx.check(not older, "example needs an older matplotlib: " + name, case, lambda: "it calls %s, which matplotlib no longer has" % " and ".join(older))
        pairs = 0
        tol = EXAMPLES[name]
        for lines in res:
            for l in lines:
                if l[0].startswith(("load", "$load")):         # a moving load is nowhere before it arrives
                    continue
                ctx.check(np.all(np.isfinite(l[1])) and np.all(np.isfinite(l[2])), "example draws no numbers " + name, case)
            closed = [l for l in lines if l[0].startswith("analytical")]
            if closed and tol is not None:          # a curve against closed-form points at other abscissae
                want = np.interp(lines[0][1], closed[0][1], closed[0][2])
                err = np.max(np.abs(want - np.array(lines[0][2])))
                pairs += 1
                ctx.check(err <= tol * np.max(want), "example differs from what it lists " + name, case, lambda: "by %g of %g" % (err, np.max(want)))
            E = [l for l in lines if l[0].startswith("expected")]
            C = [l for l in lines if l[0].startswith("calculated")]
            if tol is None or not E or len(E) != len(C):
                continue
            ref = [np.array(v, float) for _, *xy in E for v in xy]
            for e, c in zip(E, C):
                if same_abscissa(e[1], c[1]) and not same_abscissa(e[2], c[2]) or same_abscissa(e[1], c[1]):
                    k = 2
                elif same_abscissa(e[2], c[2]):
                    k = 1
                else:
                    continue
                sc = max(np.max(np.abs(l[k])) for l in E)
                err = np.max(np.abs(np.array(e[k]) - np.array(c[k])))
                pairs += 1
                ctx.check(err <= tol * sc, "example differs from what it lists " + name, case, lambda: "by %g of %g" % (err, sc))
        ctx.check(tol is None or pairs > 0, "example lists nothing " + name, case)
        ctx.outcome("example pairs %d" % min(pairs, 3))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.trace()


def case_cli_example(ctx, _):
    """the example input file is processed by the program's own command line; figures and grids are written"""
    ctx.state("cli")
    d = tempfile.mkdtemp(prefix="geotecha-ex-")
    name = "example_1d_vr_001_schiffmanandstein1970.py"
    try:
        src = os.path.join(REPO, "examples", "speccon", name)
        if not os.path.exists(src):
            ctx.trace()
            return
        shutil.copy(src, d)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; sys.argv = ['speccon1d_vr', '-f', %r]; "
                            "from geotecha.speccon.speccon1d_vr import main; main()" % name], cwd=d,
                           env=dict(os.environ, PYTHONPATH=REPO, MPLBACKEND="agg", HOME=d), capture_output=True, text=True, timeout=400)
        ctx.step()
        files = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
        case = dict(example=name)
        ctx.check(p.returncode == 0, "example fails " + name, case, lambda: p.stderr[-600:])
        for what in ("_data_por", "_data_avp", "_data_set", ".png"):
            ctx.check(any(what in os.path.basename(f) for f in files), "example writes no " + what, case, lambda: files)
        ctx.check(not any("rror" in l for l in p.stdout.splitlines() if "0 errors" not in l.lower()), "example reports an error", case, lambda: p.stdout[-600:])
        # the degree of consolidation against the package's own layered solution
        grid = [f for f in files if "_data_avp" in f]
        if grid:
            from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
            from geotecha.piecewise.piecewise_linear_1d import PolyLine
            rows = []
            for l in open(os.path.join(d, grid[0])):
                try:
                    rows.append([float(v) for v in l.replace(",", " ").split()])
                except ValueError:
                    pass
            rows = [r for r in rows if len(r) >= 2]
            t, u = np.array([r[-2] for r in rows]), np.array([r[-1] for r in rows])
            b = SchiffmanAndStein1970()
            cv = [.0411, .1918, .0548, .0686]
            b.mv = [3.07e-3, 1.95e-3, 9.74e-4, 1.95e-3]
            b.h, b.kv, b.n, b.bctop, b.bcbot = [10, 20, 30, 20], [x * y for x, y in zip(cv, b.mv)], 40, 0, 0
            b.surcharge_vs_time = PolyLine([0, 0, 30000], [0, 100, 100])
            b.z, b.t = [0., 40.], list(t)
            b.make_all()
            agree(ctx, "example average", case, u, np.ravel(b.avp), .01, 100.)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.trace()


def run(ctx):
    T = ctx.thorough
    on = lambda g: not ctx.only or ctx.only in g
    P = itertools.product
    plan = [
        ("terzaghi", case_terzaghi, P((0, 1), (1., 12.5), ((1., 1.), (2., .25), (1e-3, 50.)), range(3), ("load", "ends"), (None, "dTv", "7. * dTv"))),
        ("layers", case_layers, P([(2.,)], [(3e-3,)], [(.02,)], (0, 1), range(3)) if False else
         [x + (d, h) for x in [((2.,), (3e-3,), (.02,)), ((1., 3.), (2e-3, 6e-3), (.03, .01)), ((4., 1.), (1e-3, 5e-4), (.01, .02)),
                               ((1., 2., .5), (4e-3, 1e-3, 3e-3), (.01, .02, .015))] for d in (0, 1) for h in range(3)]),
        ("power law", case_power, P((0, 1, -2), (0, 1, 2), (.5, 2.) if T else (.5,), (0, 1), (1., 4.) if T else (4.,))),
        ("hansbo", case_hansbo, P(("ideal", "constant", "overlapping linear", "linear", "parabolic", "pieces constant", "pieces linear"), (.8, 2.), ((.1, 2.), (.15, 4.), (.2, 1.5)), range(3), ("surcharge", "vacuum"), (None, "dTh", "7. * dTh"))),
        ("tang", case_tang, [x for x in P((.5, .05), (1e7, 2.), (1., 2.5), (1., 3.), (1, 0), (0, 1, 2)) if x[2] > 1 or x[3] == 1]),
        ("deng", case_deng, P((0., .5, .9), (1e-3, 1e-2), (1., 5.), (1.8,), (10., 20.))),
        ("lu", case_lu, P((1., .1), (2000., 50.), (1., 3.), (2., 20.), (5e-4, .05), ((1.5, 2.), (1., 1.)), ((1., 1.), (.9, .2)) if T else ((.9, .2),))),
        ("shan", case_shan, P((0, 1), (1., 100.), (10., 2.), ("instant", "depth", "cyclic", "water top", "air top", "water bottom", "air bottom"))),
        ("examples", case_example, sorted(EXAMPLES)),
        ("command line", case_cli_example, [0]),
    ]
    for name, fn, items in plan:
        if on(name):
            with ctx.group(name):
                ctx.parallel(fn, list(items))
