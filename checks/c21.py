"""C21 soil-water curves are consistent, bounded and differentiable where used.

Every curve of a parameter lattice x a suction lattice over nine decades, evaluated one at a time
and together; slopes against the analytic derivative of an independently written curve; relative
permeability against adaptive quadrature of its defining integrals and the discrete form against
its defining sums."""
import copy
import itertools
import math
import warnings
import numpy as np
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of curves x suctions x call forms; every point executed on the real curve, slope and permeability relations and compared with "
             "an independent evaluation of the stated relation, its complex-step derivative and quadrature of its integrals")
BOUNDS = ("Fredlund-Xing: 5x4x3 shapes x residual suction/correction variants; Pham-Fredlund: 18 shapes x 3 variants; collapsible-pore curve 8 shapes; 40 suctions "
          "from 1e-3 to 1e6; relative permeability at 8 suctions x 2 subdivisions x 3 air entry values; discrete curves of 2-60 points on even and uneven grids")


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f, *a, **k)


def snap(m):
    return {k: copy.deepcopy(v) for k, v in vars(m).items()}


def corr(psi, psir):
    return 1 - np.log(1 + psi / psir) / np.log(1 + 1e6 / psir)


def build(item):
    import geotecha.constitutive_models.swcc as sw
    kind, p = item
    if kind == "fx":
        a, n, m, ws, psir, c = p
        kw = dict(a=a, n=n, m=m)
        if ws is not None:
            kw["ws"] = ws
        if psir is not None:
            kw["psir"] = psir
        if c is not None:
            kw["correction"] = c
        M = sw.SWCC_FredlundAndXing1994(**kw)
        ws, psir = ws or 1., psir or 1e6
        return M, lambda x: (corr(x, psir) if c is None else c) * ws / np.log(math.e + (x / a) ** n) ** m, ws * (1 if c is None else c)
    ws, a, b, wr, s1, psir, c = p
    M = sw.SWCC_PhamAndFredlund2008(ws=ws, a=a, b=b, wr=wr, s1=s1, psir=psir, correction=c)
    pr = psir or (2.7 * a) ** (1. / b)
    return M, lambda x: (corr(x, pr) if c is None else c) * ((ws - s1 * np.log10(x) - wr) * a / (x ** b + a) + wr), None


def deriv(f, x):
    return f(x + 1j * x * 1e-30).imag / (x * 1e-30)


SUC = [1e-3, .02, .1, .5, 1., 1.3, 2, 2.77, 3., 4.5, 7, 10, 15., 30, 60, 100, 200, 427., 700, 1e3, 2e3, 3000, 5e3, 1e4, 3e4, 1e5, 3e5, 8e5, 1e6]


def case_curve(ctx, item):
    M, f, top = build(item)
    case0 = dict(curve=str(item))
    before = snap(M)
    ctx.state(item)
    ws, ds = [], []
    for x in SUC:
        case = lambda: dict(case0, psi=x)
        w, d = quiet(M.w_from_psi, x), quiet(M.dw_dpsi, x)
        ctx.step(2)
        want, wd = float(f(float(x))), float(deriv(f, float(x)))
        ctx.check(not isinstance(w, Raised) and np.ndim(w) == 0 and abs(w - want) <= 1e-10 * (abs(want) + 1e-6), "water content", case, lambda: "%r want %r" % (w, want))
        ctx.check(not isinstance(d, Raised) and np.ndim(d) == 0 and abs(d - wd) <= 1e-7 * abs(wd) + 1e-16, "slope is the derivative", case, lambda: "%r want %r" % (d, wd))
        if isinstance(w, Raised) or isinstance(d, Raised):
            return
        ws.append(float(w))
        ds.append(float(d))
    if top is not None:
        ctx.check(all(-1e-12 <= w <= top * (1 + 1e-12) for w in ws), "within limits", case0, lambda: repr(ws))
        ctx.check(all(a >= b for a, b in zip(ws, ws[1:])) and all(d <= 0 for d in ds), "decreases with suction", case0, lambda: "%r %r" % (ws, ds))
        w0 = quiet(M.w_from_psi, 0.)
        ctx.check(not isinstance(w0, Raised) and abs(w0 - top) < 1e-12 * top, "saturated at no suction", case0, lambda: repr(w0))
    else:
        _, (s, a, b, wr, s1, _, c) = item
        ok = [i for i, x in enumerate(SUC) if x >= 1 and s - s1 * math.log10(x) - wr > 0]
        # the fitted curve stays within its limits and falls as long as its saturated branch is above the residual one
        ctx.check(all(-1e-12 <= ws[i] <= (s + wr) * (c or 1) for i in ok) and all(ws[i] >= ws[j] and ds[i] <= 0 for i, j in zip(ok, ok[1:])), "decreases with suction", case0,
                  lambda: "%r %r" % (ws, ds))
    if item[1][-1] is None:
        ctx.check(abs(ws[-1]) < 1e-12, "dry at 1e6", case0, lambda: repr(ws[-1]))
    for A in (np.array(SUC), np.array(SUC[::-1]), np.array(SUC[4:24]).reshape(4, 5)):
        A0 = A.copy()
        w, d = quiet(M.w_from_psi, A), quiet(M.dw_dpsi, A)
        ctx.step(2)
        k = [SUC.index(v) for v in A0.ravel()]
        ok = not isinstance(w, Raised) and not isinstance(d, Raised) and np.shape(w) == np.shape(d) == A0.shape
        ctx.check(ok and np.allclose(np.ravel(w), np.array(ws)[k], rtol=1e-12, atol=1e-14) and np.allclose(np.ravel(d), np.array(ds)[k], rtol=1e-12, atol=0), "array", case0,
                  lambda: "%r %r" % (w, d))
        ctx.check(np.array_equal(A, A0), "arguments altered", case0, "changed")
    import matplotlib.pyplot as plt
    for kw in ({}, dict(npts=13, xmin=2., xmax=3e4)):
        r = quiet(M.psi_and_w_for_plotting, **kw)
        ok = not isinstance(r, Raised) and len(r[0]) == len(r[1]) == kw.get("npts", 100) and abs(r[0][0] / kw.get("xmin", 1.) - 1) < 1e-9 and abs(r[0][-1] / kw.get("xmax", 1e6) - 1) < 1e-9
        if ctx.check(ok and np.allclose(r[1], f(r[0]), rtol=1e-10, atol=1e-15), "plot data", lambda: dict(case0, **kw), lambda: repr(r)):
            ax = plt.figure().add_subplot(111)
            q = quiet(M.plot_model, ax=ax, **kw)
            ctx.check(not isinstance(q, Raised) and len(ax.lines) == 1 and np.array_equal(ax.lines[0].get_xdata(), r[0]) and np.array_equal(ax.lines[0].get_ydata(), r[1]), "plotted line", case0, lambda: repr(q))
            plt.close("all")
    ctx.check(before == snap(M), "curve altered", case0, "changed")
    ctx.trace()


GX, GW = np.polynomial.legendre.leggauss(10)


def case_k(ctx, item):
    citem, aev = item
    M, f, top = build(citem)
    case0 = dict(curve=str(citem), aev=aev)
    before = snap(M)
    ctx.state(item)
    B = math.log(1e6)

    def igral(p, w0):
        a = math.log(p)
        e = np.linspace(a, B, 1500)
        y = (((e[1:] + e[:-1]) / 2)[:, None] + ((e[1:] - e[:-1]) / 2)[:, None] * GX).ravel()
        w = (((e[1:] - e[:-1]) / 2)[:, None] * GW).ravel()
        x = np.exp(y)
        return float(np.sum(w * (f(x) - w0) / x * deriv(f, x)))
    w_air = float(f(aev)) if citem[0] == "ph" else citem[1][3] or 1.
    den = igral(aev, w_air)
    pts = [p for p in (aev, 1.3 * aev, 4 * aev, 20., 300, 5e3, 1e5, 9e5) if p >= aev]
    pts = sorted(set(pts))
    for npts in (500, 6000):
        tol = 3e-2 if npts == 500 else 2e-4
        ks = []
        for p in pts:
            k = quiet(M.k_from_psi, p, aev=aev, npts=npts)
            ctx.step()
            want = igral(p, float(f(p))) / den
            sharp = tol * 2
            if not ctx.check(not isinstance(k, Raised) and np.ndim(k) == 0 and abs(k - want) <= sharp * (abs(want) + 1e-12), "relative permeability", lambda: dict(case0, psi=p, npts=npts), lambda: "%r want %r" % (k, want)):
                return
            ks.append(float(k))
        A = np.array(pts)
        K = quiet(M.k_from_psi, A, aev=aev, npts=npts)
        ctx.check(not isinstance(K, Raised) and np.shape(K) == A.shape and np.allclose(K, ks, rtol=1e-9), "array", case0, lambda: "%r %r" % (K, ks))
        ctx.check(list(A) == pts and before == snap(M), "arguments or curve altered", case0, "changed")
        if citem[0] == "fx":
            ctx.check(all(-1e-12 <= k <= 1 + tol for k in ks) and all(a >= b * (1 - tol) for a, b in zip(ks, ks[1:])), "between dry and saturated", case0, lambda: repr(ks))
    ctx.trace()


def grids(n, how):
    t = np.arange(n) / (n - 1.)
    if how == 1:
        t = t ** 2
    if how == 2:
        t = np.sort(np.concatenate([[0, 1], (np.arange(1, n - 1) * .6180339887) % 1]))[:n]
    return 10 ** (-2 + 7 * t)


def case_discrete(ctx, item):
    import geotecha.constitutive_models.swcc as sw
    citem, n, how = item
    M, f, top = build(citem)
    x = grids(n, how)
    y = f(x)
    if np.any(np.diff(y) > 0):
        return
    ctx.state(item)
    case0 = dict(curve=str(citem), n=n, grid=how)
    N = n - 1
    L = [math.log10(x[i + 1]) - math.log10(x[i]) for i in range(N)]
    xb = [math.sqrt(x[i] * x[i + 1]) for i in range(N)]
    yb = [(y[i] + y[i + 1]) / 2 for i in range(N)]
    sl = [(y[i + 1] - y[i]) / L[i] / math.log(10) / xb[i] for i in range(N)]
    den = sum(L[i] * (yb[i] - yb[0]) / xb[i] * sl[i] for i in range(N))
    if abs(den) < 1e-300:
        return
    psi, want = [], []
    for i in range(N):
        for g in (0., .3, .95):
            p = x[i] * (x[i + 1] / x[i]) ** g
            if g == 0:
                p = x[i]
            psi.append(float(p))
            want.append(sum(L[j] * (yb[j] - yb[i]) / xb[j] * sl[j] for j in range(i, N)) / den)
    x0, y0 = x.copy(), y.copy()
    got = []
    for p, w in zip(psi, want):
        k = quiet(sw.kwrel_from_discrete_swcc, p, x, y)
        ctx.step()
        if not ctx.check(not isinstance(k, Raised) and np.ndim(k) == 0 and abs(k - w) <= 1e-9 * (abs(w) + 1e-12), "discrete permeability", lambda: dict(case0, psi=p), lambda: "%r want %r" % (k, w)):
            return
        got.append(float(k))
    ctx.check(all(-1e-15 <= k <= 1 + 1e-12 for k in got) and all(a >= b - 1e-12 for a, b in zip(got, got[1:])), "between dry and saturated", case0, lambda: repr(got))
    for P, w in ((np.array(psi), got), (np.array(psi[::-1]), got[::-1]), (np.array(psi[:1]), got[0]), (np.array(psi[:2]), got[:2]),
                 (np.array([psi[2]] * 3), [got[2]] * 3), (np.array(psi[-3:]), got[-3:]), (np.array(psi[1::4]), got[1::4] if len(psi[1::4]) > 1 else got[1])):
        P0 = P.copy()
        k = quiet(sw.kwrel_from_discrete_swcc, P, x, y)
        ctx.step()
        ctx.check(not isinstance(k, Raised) and np.shape(k) == np.shape(w) and np.allclose(k, w, rtol=1e-12, atol=1e-18) and np.array_equal(P, P0), "array", case0, lambda: "%r want %r" % (k, w))
    ctx.check(np.array_equal(x, x0) and np.array_equal(y, y0), "arguments altered", case0, "changed")
    ctx.trace()


def case_dense(ctx, citem):
    """the discrete form tends to the continuous one"""
    import geotecha.constitutive_models.swcc as sw
    M, f, top = build(citem)
    x = np.logspace(0, 6, 4000)
    ctx.state(("dense", citem))
    y = np.linspace(0, math.log(1e6), 8001)
    xm = np.exp((y[1:] + y[:-1]) / 2)
    for p in (1.5, 5., 40., 1e3):
        a = quiet(sw.kwrel_from_discrete_swcc, p, x, f(x))
        ctx.step()
        t = (f(xm) - f(p)) / xm * deriv(f, xm)
        b = np.sum(t[xm > p]) / np.sum((f(xm) - f(1.)) / xm * deriv(f, xm))
        ctx.check(not isinstance(a, Raised) and abs(a - b) <= .02 * (abs(b) + 1e-9), "discrete against continuous", dict(curve=str(citem), psi=p), lambda: "%r %r" % (a, b))
    ctx.trace()


def case_air(ctx, item):
    import geotecha.constitutive_models.swcc as sw
    q, = item
    S = np.linspace(0, 1, 41)
    ctx.state(item)
    A = S.copy()
    k = quiet(sw.karel_air_from_saturation, A, **({} if q is None else dict(qfit=q)))
    qq = .5 if q is None else q
    w = [math.sqrt(1 - s) * (1 - s ** (1. / qq)) ** (2 * qq) for s in S]
    ctx.step()
    ctx.check(not isinstance(k, Raised) and np.allclose(k, w, rtol=1e-12, atol=1e-14) and np.array_equal(A, S), "air permeability", dict(qfit=q), lambda: repr(k))
    ctx.check(not isinstance(k, Raised) and k[0] == 1 and k[-1] == 0 and np.all(np.diff(k) < 1e-15), "between dry and saturated", dict(qfit=q), lambda: repr(k))
    for i, s in enumerate(S):
        r = quiet(sw.karel_air_from_saturation, float(s), **({} if q is None else dict(qfit=q)))
        ctx.check(not isinstance(r, Raised) and abs(r - w[i]) < 1e-12, "air permeability", dict(qfit=q, Sr=s), lambda: repr(r))
    ctx.trace()


def case_collapse(ctx, item):
    """collapsible-pore curve used by the stress-path model"""
    import geotecha.constitutive_models.epus as ep
    (ws, a, b, wr, sl), Gs = item
    M = ep.CurveFittingSWCC(wsat=ws, a=a, b=b, wr=wr, sl=sl)
    before = snap(M)
    ctx.state(item)
    Wc = lambda s: (ws - sl * np.log10(s) / Gs - wr) * a * (1 - s ** b / 10 ** (6 * b)) / (s ** b + a)
    pr = a ** (1. / b)
    tot = lambda s: (Wc(s) + wr) * (1 - np.log(1 + s / pr) / np.log(1 + 1e6 / pr))
    for s in SUC:
        r, d = quiet(M.Wc, float(s), Gs=Gs), quiet(M.DWc, float(s), Gs=Gs)
        ctx.step(2)
        w, wd = float(Wc(float(s))), float(deriv(tot, float(s)))
        case = lambda: dict(item=str(item), s=s)
        ctx.check(not isinstance(r, Raised) and abs(r - w) <= 1e-9 * (abs(w) + 1e-9), "collapsible water content", case, lambda: "%r want %r" % (r, w))
        ctx.check(not isinstance(d, Raised) and abs(d - wd) <= 1e-7 * abs(wd) + 1e-18, "collapsible slope", case, lambda: "%r want %r" % (d, wd))
    ctx.check(before == snap(M), "curve altered", dict(item=str(item)), "changed")
    ctx.trace()


def curves(th):
    fx = [(a, n, m, ws, psir, c) for a in (2.77, 20, 200., 427, 3000) for n in (.794, 1.5, 2, 11.2) for m in (.45, .613, 1)
          for ws, psir, c in ((None, None, None), (.4, 300., None), (40, 3000, None), (60., None, 1), (.3, 1e4, .8))]
    ph = [(ws, a, b, wr, s1, psir, c) for ws, wr in ((.262, .128), (.5, .12), (.6, .05)) for a, b in ((3.1e6, 3.377), (5e4, 2.), (30., 1.2)) for s1 in (.115, .01)
          for psir, c in ((None, None), (3000, None), (None, 1))]
    return [("fx", v) for v in fx], [("ph", v) for v in ph]


def run(ctx):
    th = ctx.thorough
    on = lambda g: not ctx.only or ctx.only in g
    fx, ph = curves(th)
    if on("curves"):
        with ctx.group("curves"):
            ctx.parallel(case_curve, fx + ph)
    if on("permeability"):
        with ctx.group("relative permeability"):
            C = fx if th else fx[::7]
            ctx.parallel(case_k, [(c, aev) for c in C for aev in (.01, 1.)] + [(c, aev) for c in (ph if th else ph[::3]) for aev in (.001, .1, 1)])
    if on("discrete"):
        with ctx.group("discrete"):
            ctx.parallel(case_discrete, [(c, n, h) for c in (fx if th else fx[::5]) + ph[:9] for n in (2, 3, 5, 17, 60) for h in range(3)])
            ctx.parallel(case_dense, [c for c in fx[::3] if c[1][1] < 3] + ph[::4])
    if on("air"):
        with ctx.group("air and collapsible"):
            ctx.parallel(case_air, [(q,) for q in (None, .1, .5, .9, 1., 2)])
            ctx.parallel(case_collapse, [((.262, 3.1e6, 3.377, .128, .115), g) for g in (2.7, 2.6)] + [((ws, a, b, .05, sl), 2.7) for ws in (.3, .8) for a, b in ((5e4, 2.), (200., 1.3)) for sl in (.05, .2)])
