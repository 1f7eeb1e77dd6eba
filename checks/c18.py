"""C18 void ratio-stress models: forward, inverse and stiffness laws agree.

Every model/parameter combination x every (stress, preconsolidation) pair of a lattice that contains
the reference stress, the break points, both sides of the preconsolidation stress and equality.
Oracle: an exact scalar evaluation of the stated law in (log-)transformed coordinates."""
import bisect
import copy
import itertools
import math
import warnings
import numpy as np
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of models x stress x preconsolidation lattices; every point evaluated forwards, backwards and for its slope by the real "
             "model and compared with an exact scalar evaluation of the stated law, scalar / array / per-element-preconsolidation call forms cross checked")
BOUNDS = ("linear, Cc/Cr (6 ratios), piecewise-linear (2-13 points, 4 log combinations, either listing order of each, 3 unloading slopes) and functional models; "
          "13-23 stresses x as many preconsolidation stresses each; plotting ranges of 3 sizes with preconsolidation below, inside and above")


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f, *a, **k)


class Law(object):
    """virgin law through points (siga, ea) in transformed coordinates, unloading slope Cr there"""
    def __init__(self, siga, ea, Cr, xlog=False, ylog=False, slopes=None):
        self.fx = math.log10 if xlog else float
        self.fy = math.log10 if ylog else float
        self.xlog, self.ylog, self.Cr = xlog, ylog, Cr
        o = sorted(zip(siga, ea))
        self.s = [float(v[0]) for v in o]
        self.X = [self.fx(v[0]) for v in o]
        self.Y = [self.fy(v[1]) for v in o]
        self.slopes = slopes  # single unlimited straight line

    def vir(self, X):
        if self.slopes is not None:
            return self.Y[0] - self.slopes * (X - self.X[0])
        i = min(max(bisect.bisect_right(self.X, X), 1), len(self.X) - 1)
        return self.Y[i - 1] + (self.Y[i] - self.Y[i - 1]) / (self.X[i] - self.X[i - 1]) * (X - self.X[i - 1])

    def e(self, s, p):
        X, P = self.fx(s), self.fx(max(s, p))
        Y = self.vir(P) + self.Cr * (P - X)
        return 10 ** Y if self.ylog else Y

    def av(self, s, p):
        """set of admissible slopes -de/ds (two at a kink)"""
        e = self.e(s, p)
        f = (e * math.log(10) if self.ylog else 1.) / (s * math.log(10) if self.xlog else 1.)
        if s < p:
            return [self.Cr * f]
        if self.slopes is not None:
            return [self.slopes * f]
        out = []
        for i in range(1, len(self.X)):
            if self.s[i - 1] * (1 - 1e-12) <= s <= self.s[i] * (1 + 1e-12):
                out.append(-(self.Y[i] - self.Y[i - 1]) / (self.X[i] - self.X[i - 1]) * f)
        return out


def build(item):
    """-> (model factory, Law, stresses, has_p)"""
    import geotecha.constitutive_models.void_ratio_stress as vr
    kind, par = item
    if kind == "av":
        av, siga, ea = par
        return lambda: vr.AvSoilModel(av, siga, ea), Law([siga], [ea], av, slopes=av), [siga * f for f in (.1, .5, 1, 1.5, 2, 8)], False
    if kind == "cc":
        Cc, Cr, siga, ea = par
        st = [siga * f for f in (.01, .2, .5, .999, 1, 1.001, 1.5, 2, 5, 30, 1000)]
        return lambda: vr.CcCrSoilModel(Cc, Cr, siga, ea), Law([siga], [ea], Cr, xlog=True, slopes=Cc), st, True
    if kind == "pw":
        pts, crf, xlog, ylog, order = par
        sig, ea = [p[0] for p in pts], [p[1] for p in pts]
        L = Law(sig, ea, 0, xlog, ylog)
        Cr = crf * min(-(L.Y[i] - L.Y[i - 1]) / (L.X[i] - L.X[i - 1]) for i in range(1, len(L.X)))
        L.Cr = Cr
        mk = list if order[1] else np.array
        s_, e_ = (mk(sig[::-1]), mk(ea[::-1])) if order[0] else (mk(sig), mk(ea))
        st = sorted(set(sig) | {a + (b - a) * f for a, b in zip(sig, sig[1:]) for f in (.001, .3, .5, .999)})
        return lambda: vr.PwiseLinearSoilModel(s_, e_, Cr, xlog=xlog, ylog=ylog), L, st, True
    if kind == "fn":
        b, = par

        def efs(s, pstress=None, b=2):
            return 3. - .1 * np.log(s) / b

        def sfe(e, pstress=None, b=2):
            return np.exp((3. - e) * b / .1)

        def afs(s, pstress=None, b=2):
            return .1 / b / s
        return (lambda: vr.FunctionSoilModel(efs, sfe, afs, b=b)), Law([1.], [3.], .1 / b * math.log(10), xlog=True, slopes=.1 / b * math.log(10)), [.5, 1., 2, 30.], False


def snap(m):
    return {k: copy.deepcopy(v) for k, v in vars(m).items() if not callable(v)}


def same(a, b):
    return sorted(a) == sorted(b) and all(type(a[k]) is type(b[k]) and np.all(a[k] == b[k]) for k in a)


def case_model(ctx, item):
    mk, L, st, hasp = build(item)
    m = quiet(mk)
    case0 = dict(model=str(item))
    if not ctx.check(not isinstance(m, Raised), "construct", case0, lambda: repr(m)):
        return
    before = snap(m)
    ctx.state(item)
    tol = 1e-9
    for p in ([None] + st if hasp else [None]):
        es, avs = [], []
        for s in st:
            case = lambda: dict(case0, stress=s, pstress=p)
            kw = {} if p is None else dict(pstress=p)
            pp = s if p is None else p
            want = L.e(s, pp)
            e = quiet(m.e_from_stress, s, **kw)
            ctx.step()
            if not ctx.check(not isinstance(e, Raised) and np.ndim(e) == 0 and abs(e - want) <= tol, "void ratio", case, lambda: "%r want %r" % (e, want)):
                continue
            es.append(float(e))
            back = quiet(m.stress_from_e, e, **kw)
            ctx.step()
            ctx.check(not isinstance(back, Raised) and np.ndim(back) == 0 and abs(back - s) <= 1e-7 * s, "inverse", case, lambda: "%r want %r" % (back, s))
            a = quiet(m.av_from_stress, s, **kw)
            ctx.step()
            wa = L.av(s, pp)
            ctx.check(not isinstance(a, Raised) and np.ndim(a) == 0 and any(abs(a - w) <= 1e-7 * abs(w) for w in wa), "slope", case, lambda: "%r want one of %r" % (a, wa))
            # the slope is the derivative of what the model itself says
            if not isinstance(a, Raised) and len(wa) == 1:
                h = s * 1e-6
                if (p is None or abs(s - p) > 2 * h) and all(abs(s - v) > 2 * h for v in L.s) or L.slopes is not None and p is None:
                    d = -(m.e_from_stress(s + h, **kw) - m.e_from_stress(s - h, **kw)) / (2 * h)
                    ctx.check(abs(d - a) <= 2e-4 * abs(a), "slope is the derivative", case, lambda: "%r difference quotient %r" % (a, d))
            avs.append(a)
        ctx.check(all(a >= b - 1e-13 for a, b in zip(es, es[1:])), "non-increasing", lambda: dict(case0, pstress=p), lambda: repr(es))
        if p is not None:
            l_, r_ = (m.e_from_stress(p * f, pstress=p) for f in (1 - 1e-9, 1 + 1e-9))
            ctx.check(abs(l_ - r_) < 1e-7 * (1 + abs(l_)), "continuous at preconsolidation", lambda: dict(case0, pstress=p), lambda: "%r %r" % (l_, r_))
            for f in (.9, .5):
                s = p * f
                if s < L.s[0] and item[0] == "pw" and False:
                    continue
                e = quiet(m.e_from_stress, s, pstress=p)
                b = quiet(m.stress_from_e, e, pstress=p)
                ctx.check(not isinstance(b, Raised) and abs(e - L.e(s, p)) < tol and abs(b - s) < 1e-7 * s, "unloading below the data", lambda: dict(case0, stress=s, pstress=p), lambda: "%r %r" % (e, b))
    # array call forms
    arr = np.array(st)
    pairs = [(None, None)] + ([("scalar", p) for p in st[::3]] + [("array", np.roll(arr, k)) for k in range(len(st))] if hasp else [])
    for how, p in pairs:
        kw = {} if how is None else dict(pstress=p)
        one = [st[i] if how is None else p if how == "scalar" else p[i] for i in range(len(st))]
        a0 = arr.copy()
        p0 = None if how is None else np.copy(p)
        e = quiet(m.e_from_stress, a0, **kw)
        case = lambda: dict(case0, stress=arr, pstress=p)
        ctx.step()
        if ctx.check(not isinstance(e, Raised) and np.shape(e) == arr.shape and np.allclose(e, [L.e(s, q) for s, q in zip(st, one)], rtol=0, atol=tol), "array void ratio", case, lambda: repr(e)):
            e0 = e.copy()
            b = quiet(m.stress_from_e, e0, **kw)
            ctx.check(not isinstance(b, Raised) and np.shape(b) == arr.shape and np.allclose(b, arr, rtol=1e-7, atol=0) and np.all(e0 == e), "array inverse", case, lambda: repr(b))
        a = quiet(m.av_from_stress, a0, **kw)
        ok = not isinstance(a, Raised) and (np.shape(a) == arr.shape or item[0] == "av" and np.ndim(a) == 0)
        ctx.check(ok and all(any(abs(x - w) <= 1e-7 * abs(w) for w in L.av(s, q)) for x, s, q in zip(np.ones(len(st)) * a, st, one)), "array slope", case, lambda: repr(a))
        ctx.check(np.all(a0 == arr) and (how is None or np.all(p0 == p)), "arguments altered", case, "argument changed")
        ctx.step(2)
    ctx.check(same(before, snap(m)), "model altered by evaluation", case0, lambda: "%r -> %r" % (before, snap(m)))
    ctx.trace()


def case_plot(ctx, item):
    import matplotlib.pyplot as plt
    mitem, npts, rng, pf = item
    mk, L, st, hasp = build(mitem)
    m = mk()
    kw = {}
    lo, hi = (1., 100.)
    if npts:
        kw["npts"] = npts
    if rng:
        lo, hi = rng
        kw.update(xmin=lo, xmax=hi)
    if mitem[0] == "pw":
        lo, hi = min(L.s), max(L.s)
    p = None
    if pf is not None:
        p = lo + (hi - lo) * pf
        if mitem[0] == "pw":
            p = min(max(p, lo), hi)
        kw["pstress"] = p
    case = dict(model=str(mitem), kwargs={k: v for k, v in kw.items()})
    before, kw0 = snap(m), dict(kw)
    r = quiet(m.e_and_stress_for_plotting, **kw)
    ctx.state(item)
    ctx.step()
    if not ctx.check(not isinstance(r, Raised) and len(r) == 2 and len(r[0]) == len(r[1]) == (npts or 100), "plot data", case, lambda: repr(r)):
        return
    x, y = r
    ctx.check(abs(np.min(x) - lo) < 1e-9 * hi and abs(np.max(x) - hi) < 1e-9 * hi and np.all(np.diff(x) >= 0), "plot range", case, lambda: repr(x))
    ctx.check(all(abs(b - L.e(a, a if p is None else p)) < 1e-9 for a, b in zip(x, y)), "plot data on the law", case, lambda: "%r %r" % (x, y))
    if p is not None and lo <= p <= hi and mitem[0] == "cc":
        ctx.check(p in x, "corner plotted", case, lambda: repr(x))
    fig = plt.figure()
    ax = fig.add_subplot(111)
    q = quiet(m.plot_model, ax=ax, **kw)
    ctx.check(not isinstance(q, Raised) and len(ax.lines) == 1 and np.array_equal(ax.lines[0].get_xdata(), x) and np.array_equal(ax.lines[0].get_ydata(), y),
              "plotted line", case, lambda: repr(q))
    plt.close("all")
    ctx.check(same(before, snap(m)) and kw == kw0, "model altered by plotting", case, "changed")
    ctx.trace()


def models(th):
    out = [("av", (a, s, e)) for a in (.2, 1.5) for s in (19, 20.) for e in (4, 2.5)]
    out += [("cc", (c, r, s, e)) for c in (3., .5, 1) for r in (.5, .1, .01) if r <= c for s in (20, 5.) for e in (4., 10)]
    P = [((1., 5.), (100., 1.)), ((10, 4.0), (20., 3.0), (40, 2.5)), ((1., 6.), (10., 4.), (20, 2.), (80., 1.5)), ((2., 5.), (3., 4.9), (5., 4.0), (6., 2.), (60., 1.)),
         tuple((1. * 1.7 ** i, 8. - .45 * i - .02 * (i % 3)) for i in range(13))]
    if th:
        P += [((.01, 3.), (1e4, 2.)), ((20., 4.), (20.5, 3.), (21, 2.9), (21.2, 1.)), ((5, 9), (10, 8), (15, 7), (20, 6), (25, 5))]
    out += [("pw", (p, cr, xl, yl, o)) for p in P for cr in (1., .5, .01) for xl in (False, True) for yl in (False, True)
            for o in itertools.product((0, 1), repeat=2)]
    out += [("fn", (b,)) for b in (2, 5.)]
    return out


def run(ctx):
    th = ctx.thorough
    on = lambda g: not ctx.only or ctx.only in g
    M = models(th)
    if on("laws"):
        with ctx.group("laws"):
            ctx.parallel(case_model, M)
    if on("plots"):
        with ctx.group("plots"):
            PM = [m for m in M if m[0] != "fn" and (m[0] != "pw" or m[1][4] == (0, 0) or th)]
            ctx.parallel(case_plot, [(m, n, r, p) for m in PM for n in (None, 7) for r in (None, (5., 60.)) for p in ((None, -.2, 0, .33, .5, 1, 1.7) if m[0] != "av" else (None,))])
