"""C14 closed-form vertical consolidation solutions satisfy their boundary problem.

Every solution is evaluated on every combination of a lattice of layerings, boundary types,
loads and output arrangements and compared with converged p-elements (mc/weak.py)."""
import itertools
import math
import numpy as np
from mc.core import call, Raised
from mc.weak import Column, Hist, PW

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of layer/boundary/load/output lattices; every configuration executed on the real closed-form code and "
             "on an independent p-element model of the governing equation, plus exact relations between outputs")
BOUNDS = ("terzaghi: 2 values of each of 5 parameters, 8 output arrangements; Schiffman & Stein: 1-3 layers from a lattice of thickness/permeability/"
          "compressibility, 8 of 9 boundary pairs with 2 impeding layers, 4 load histories; Nogami & Li: vertical, radial and both, average and 2 radii; "
          "Zhu & Yin: 9 x 9 exponents, 3 alpha, both drainage; Tang & Onitsuka: smear/well-resistance/drainage lattice, 4 load histories")

HIST = [([0, 0, 100.], [0., 1., 1.]), ([0, .3, 100.], [0, 2., 2.]), ([0, 0, .2, .5, .5, 100.], [0, .5, .5, 1.5, 1., 1.]),
        ([.1, .1, .4, .7, 100.], [0, -1., 0, 2, 2.])]


def poly(h):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    return PolyLine(list(map(float, h[0])), list(map(float, h[1])))


def close(ctx, kind, case, got, want, tol, scale=1.):
    got = np.asarray(got)
    want = np.asarray(want)
    ok = got.shape == want.shape and np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= tol * max(scale, np.max(np.abs(want)))
    ctx.check(ok, kind, case, lambda: "got\n %s\nwant\n %s" % (got, want))
    return ok


def step(mag=1.):
    return Hist([0, 0, 1e9], [0, mag, mag])


# ------------------------------------------------------------------ Terzaghi
def case_terzaghi(ctx, item):
    from geotecha.consolidation import terzahi as T
    H, kv, mv, gamw, ui = item
    ctx.state(("t", item))
    T50 = H * H * mv * gamw / kv
    z = np.array([0, .1, .35, .6, .9, 1.]) * H
    t = np.array([.01, .05, .2, .5, 1.]) * T50
    m = Column(H, lambda z: kv / gamw + 0 * z, lambda z: mv + 0 * z, 0, "closed", step(ui)).solve(t)
    case = lambda what: dict(what=what, H=H, kv=kv, mv=mv, gamw=gamw, ui=ui)
    kw = dict(H=H, kv=kv, mv=mv, gamw=gamw, ui=ui)
    por, doc = T.terzaghi_1d(z, t, **kw)
    ctx.step(3)
    close(ctx, "terzaghi pore pressure", lambda: case("por"), por, m.por(z), 1e-5, abs(ui))
    close(ctx, "terzaghi degree of consolidation", lambda: case("doc"), doc, 1 - m.avp() / ui, 1e-4)
    fl = T.terzaghi_1d_flowrate(z, t, **kw)
    close(ctx, "terzaghi flow rate", lambda: case("flow"), fl, kv / gamw * m.grad(z), 1e-4)
    # arrangements
    for zs, ts, name in ((list(z), list(t), "lists"), (tuple(z), tuple(t), "tuples"), (z[::-1], t[::-1], "reversed"), (float(z[2]), float(t[2]), "scalars"),
                         (z[[2, 2, 0]], t[[1, 1]], "repeated"), ([z[3]], float(t[0]), "mixed")):
        r = call(T.terzaghi_1d, zs, ts, **kw)
        q = call(T.terzaghi_1d_flowrate, zs, ts, **kw)
        ctx.step(2)
        if not ctx.check(not isinstance(r, Raised) and not isinstance(q, Raised), "terzaghi raises", lambda: case(name), lambda: "%r %r" % (r, q)):
            continue
        m2 = m.solve(np.atleast_1d(ts))
        close(ctx, "terzaghi arrangement", lambda: case(name), r[0], m2.por(np.atleast_1d(zs)), 1e-5, abs(ui))
        close(ctx, "terzaghi arrangement", lambda: case(name), r[1], 1 - m2.avp() / ui, 1e-4)
        close(ctx, "terzaghi arrangement", lambda: case(name), q, kv / gamw * m2.grad(np.atleast_1d(zs)), 1e-4)
    # start, end and monotone
    tt = np.array([1e-9, 1e-4, 1e-3, .01, .03, .1, .3, 1., 3., 10.]) * T50
    por, doc = T.terzaghi_1d(z, tt, **dict(kw, nterms=400))
    ctx.check(np.all(np.diff(doc) > -1e-12) and doc[0] < .01 and abs(doc[-1] - 1) < 1e-6, "terzaghi limits", lambda: case("limits"), lambda: doc)
    ctx.check(np.all(por[0] == 0) and np.all(np.abs(por[1:, -1]) < 1e-6 * abs(ui)), "terzaghi limits", lambda: case("limits"), lambda: por)
    ctx.trace()


# ------------------------------------------------------------------ layered
def layered(h, k, m):
    zl = np.cumsum(h)
    x = [0.] + [v for z in zl[:-1] for v in (z, z)] + [zl[-1]]
    rep = lambda p: [v for q in p for v in (q, q)]
    return zl, PW(x, rep(k)), PW(x, rep(m))


IMPEDE = {"a": (.1, .05), "b": (2., 3.)}     # htop, ktop


def bc_of(b, hk):
    return 0 if b == 0 else "closed" if b == 1 else ("leak", hk[1] / hk[0])


def case_ss(ctx, item):
    from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
    h, k, m, top, bot, hi, L = item
    ctx.state(("ss", item))
    h, k = tuple(v * L for v in h), tuple(v * L * L for v in k)
    case = lambda: dict(h=h, kv=k, mv=m, bctop=top, bcbot=bot, load=HIST[hi])
    a = SchiffmanAndStein1970()
    a.h, a.kv, a.mv, a.n = list(h), list(k), list(m), 15
    bt, bb = [], []
    for side, b in (("top", top), ("bot", bot)):
        code = 3 if isinstance(b, str) else b
        setattr(a, "bc" + side, code)
        if code == 3:
            setattr(a, "h" + side, IMPEDE[b][0] * L)
            setattr(a, "k" + side, IMPEDE[b][1] * L * L)
    a.surcharge_vs_time = poly(HIST[hi])
    zl, K, M = layered(h, k, m)
    H = zl[-1]
    Ts = H * sum(hh * mm for hh, mm in zip(h, m)) / (sum(h) / sum(hh / kk for hh, kk in zip(h, k)))
    z = np.array(sorted(set([0., H, .5 * h[0], H - .3 * h[-1]] + list(zl))))
    t = np.array([.15, .2, .35, .52, .8, 2.])
    a.z, a.t, a.tpor = list(z), list(t), list(t[1:5])
    r = call(a.make_all)
    ctx.step()
    if not ctx.check(not isinstance(r, Raised), "layered raises", case, lambda: repr(r)):
        return
    mod = Column(H, K, M, *[bc_of(3 if isinstance(b, str) else b, b in IMPEDE and (IMPEDE[b][0] * L, IMPEDE[b][1] * L * L)) for b in (top, bot)],
                 hist=Hist(*HIST[hi]), breaks=zl).solve(t)
    sc = 2.
    close(ctx, "layered pore pressure", case, a.por[:, 1:], mod.por(z)[:, 2:5], 5e-3, sc)
    close(ctx, "layered average", case, np.ravel(a.avp), mod.avp(), 3e-3, sc)
    close(ctx, "layered settlement", case, np.ravel(a.set), mod.settle(), 3e-3, 2. * float(np.dot(h, m)))
    # a layer cut in two is the same profile; integers instead of floats; times in another order
    if hi in (1, 2):
        b = SchiffmanAndStein1970()
        for n in ("bctop", "bcbot", "htop", "hbot", "ktop", "kbot", "n", "surcharge_vs_time"):
            setattr(b, n, getattr(a, n))
        b.h, b.kv, b.mv = [h[0] * .25, h[0] * .75] + list(h[1:]), [k[0]] + list(k), [m[0]] + list(m)
        b.z, b.t, b.tpor = np.array(z)[::-1], np.array(t)[::-1], np.array(t[1:5])
        r = call(b.make_all)
        ctx.step()
        if ctx.check(not isinstance(r, Raised), "layered raises", case, lambda: repr(r)):
            close(ctx, "cut layer pore pressure", case, b.por[::-1, 1:], a.por[:, 1:], 5e-3, sc)
            close(ctx, "cut layer average", case, np.ravel(b.avp)[::-1], np.ravel(a.avp), 3e-3, sc)
            close(ctx, "cut layer settlement", case, np.ravel(b.set)[::-1], np.ravel(a.set), 3e-3, 2. * float(np.dot(h, m)))
    ctx.trace()
    ctx.sample(case())


def case_step_time(ctx, item):
    """at the instant of a load step the settlement has not moved and the pore pressure carries the load"""
    which, tstep = item
    ctx.state(("step", item))
    hist = ([tstep, tstep, 100.], [0, 2., 2.])
    case = lambda: dict(solution=which, step_at=tstep)
    t = np.array([tstep, tstep + 1e-7, tstep + .5])
    if which == "schiffman and stein":
        from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970 as C
        a = C()
        a.n, a.bctop, a.bcbot = 40, 0, 1
    elif which == "nogami and li":
        from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003 as C
        a = C()
        a.nv, a.vertical_roots_dx, a.vertical_roots_p, a.max_iter, a.bctop, a.bcbot = 40, .01, 1.01, 20000, 0, 1
    if which.startswith("tang"):
        from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
        r = call(tangandonitsuka2000, z=np.array([.5, 1.]), t=t, kv=1., kh=1., ks=.5, kw=100., mv=.5, gamw=10., rw=.05, rs=.1, re=.5, H=1., drn=1,
                 surcharge_vs_time=hist, nterms=200)
    else:
        a.h, a.kv, a.mv, a.z, a.t, a.tpor, a.surcharge_vs_time = [1.], [1.], [.5], [.5, 1.], t, t, poly(hist)
        r = call(a.make_all)
    ctx.step()
    if ctx.check(not isinstance(r, Raised), "step raises", case, lambda: repr(r)):
        s = np.ravel(r[2]) if which.startswith("tang") else np.ravel(a.set)
        ctx.check(abs(s[0] - s[1]) < .02 and abs(s[0]) < .05 and s[2] > .1, "settlement at a load step", case, lambda: s)
    ctx.trace()


# ------------------------------------------------------------------ Nogami and Li
def radial_modes(r0, r1, n):
    """modes of the annulus drained at r0, closed at r1: eigenvalue s, function, projection of 1, average"""
    from scipy.special import jv, yv
    from scipy.optimize import brentq
    f = lambda s: jv(1, r1 / r0 * s) * yv(0, s) - jv(0, s) * yv(1, r1 / r0 * s)
    ds = .02 * np.pi / (r1 / r0 - 1)
    out, s = [], ds * 1e-3
    while len(out) < n:
        if f(s) * f(s + ds) < 0:
            e = brentq(f, s, s + ds, xtol=1e-14)
            U = lambda r, e=e: jv(0, r / r0 * e) * yv(0, e) - jv(0, e) * yv(0, r / r0 * e)
            x, w = np.polynomial.legendre.leggauss(200)
            r = (r0 + r1) / 2 + (r1 - r0) / 2 * x
            w = w * (r1 - r0) / 2 * r
            out.append((e, U, np.sum(w * U(r)) / np.sum(w * U(r) ** 2), np.sum(w * U(r)) * 2 / (r1 ** 2 - r0 ** 2)))
        s += ds
    return out


def case_nl(ctx, item):
    from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003
    h, k, m, kh, top, bot, hi, rr = item
    ctx.state(("nl", item))
    case = lambda: dict(h=h, kv=k, mv=m, kh=kh, bctop=top, bcbot=bot, load=HIST[hi], r=rr)
    a = NogamiAndLi2003()
    a.h, a.kv, a.mv, a.bctop, a.bcbot, a.nv = list(h), list(k), list(m), top, bot, 12
    a.vertical_roots_dx, a.vertical_roots_p, a.max_iter = .002, 1.01, 20000
    if kh:
        a.kh, a.r0, a.r1, a.nh = list(kh), rr[0], rr[1], 4
        a.rcalc = rr[2]
        a.radial_roots_dx, a.radial_roots_p = .005, 1.01
    a.surcharge_vs_time = poly(HIST[hi])
    zl, K, M = layered(h, k, m)
    H = zl[-1]
    z = np.array(sorted(set([0., H, .5 * h[0], H - .3 * h[-1]] + list(zl))))
    t = np.array([.15, .2, .35, .52, .8, 2.])
    a.z, a.t, a.tpor = list(z), list(t), list(t[2:5])
    r = call(a.make_all)
    ctx.step()
    if not ctx.check(not isinstance(r, Raised), "transfer matrix raises", case, lambda: repr(r)):
        return
    hist = Hist(*HIST[hi])
    bcs = [0 if b == 0 else "closed" for b in (top, bot)]
    if not kh:
        mod = Column(H, K, M, *bcs, hist=hist, breaks=zl).solve(t)
        por, avp, mass = mod.por(z), mod.avp(), float(np.dot(h, m)) * mod.h - mod.settle()
    else:
        Q = layered(h, kh, m)[1]
        por = avp = mass = 0
        for s, U, c, av in radial_modes(rr[0], rr[1], 4):
            f = c * (av if rr[2] is None else U(rr[2]))
            mod = Column(H, K, M, *bcs, hist=hist, breaks=zl, sink=lambda z, s=s: Q(z) * (s / rr[0]) ** 2).solve(t)
            por, avp, mass = por + f * mod.por(z), avp + f * mod.avp(), mass + f * (float(np.dot(h, m)) * mod.h - mod.settle())
    hm = float(np.dot(h, m))
    hv = np.array([hist.value(v) for v in t])
    close(ctx, "transfer matrix pore pressure", case, a.por, por[:, 2:5], 5e-3, 2.)
    close(ctx, "transfer matrix average", case, a.avp[0], avp, 4e-3, 2.)
    close(ctx, "transfer matrix settlement", case, a.set[0], hm * hv - mass, 4e-3, 2. * hm)
    ctx.trace()
    ctx.sample(case())


# ------------------------------------------------------------------ Zhu and Yin
def case_zy(ctx, item):
    from geotecha.consolidation.zhuandyin2012 import zhuandyin2012
    p, q, al, drn, H, kv0, mv0, gamw, ui = item
    ctx.state(("zy", item))
    case = lambda: dict(p=p, q=q, alpha=al, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui)
    k = lambda z: kv0 / gamw * (1 + al * z / H) ** p
    m = lambda z: mv0 * (1 + al * z / H) ** q
    zz = np.linspace(0, H, 201)
    tc = np.trapz(m(zz), zz) * np.trapz(1 / k(zz), zz)
    t = np.array([.05, .1, .3, .6]) * tc * (1 if drn else .4)
    z = np.array([0, .07, .3, .5, .8, 1.]) * H
    r = call(zhuandyin2012, z, t, al, p, q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=20, tpor=t[1:3])
    ctx.step()
    if not ctx.check(not isinstance(r, Raised), "power law raises", case, lambda: repr(r)):
        return
    mod = Column(H, k, m, 0, 0 if drn == 0 else "closed", step(ui), grade=4).solve(t)
    mu = mod.settle()
    ok = close(ctx, "power law pore pressure", case, r[0], mod.por(z)[:, 1:3], 2e-3, ui)
    close(ctx, "power law settlement", case, r[2], mu, 2e-3, ui * H * mv0)
    tot = mod.S.integral(0, 1, mod.mv) * H * ui
    close(ctx, "power law degree of consolidation", case, r[1], mu / tot, 2e-3)
    # scalars and lists
    r1 = call(zhuandyin2012, float(z[2]), float(t[1]), al, p, q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=20)
    r2 = call(zhuandyin2012, list(z[::-1]), list(t[::-1]), al, p, q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=20)
    ctx.step(2)
    if ok and ctx.check(not isinstance(r1, Raised) and not isinstance(r2, Raised), "power law raises", case, lambda: "%r %r" % (r1, r2)):
        close(ctx, "power law arrangement", case, r1[0], r[0][2:3, :1], 1e-12, ui)
        close(ctx, "power law arrangement", case, r2[0][::-1, ::-1][:, 1:3], r[0], 1e-12, ui)
        close(ctx, "power law arrangement", case, r2[1][::-1], r[1], 1e-12)
        for tp in (t[::-1], np.append(t, t[-1] * 1.5), [t[2]]):
            r3 = call(zhuandyin2012, z, t, al, p, q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=20, tpor=tp)
            r4 = call(zhuandyin2012, z, tp, al, p, q, drn=drn, H=H, kv0=kv0, mv0=mv0, gamw=gamw, ui=ui, nterms=20)
            ctx.step(2)
            if ctx.check(not isinstance(r3, Raised) and not isinstance(r4, Raised), "power law raises", case, lambda: "%r %r" % (r3, r4)):
                close(ctx, "power law separate times", case, r3[0], r4[0], 1e-12, ui)
                close(ctx, "power law separate times", case, r3[1], r[1], 1e-12)
                close(ctx, "power law separate times", case, r3[2], r[2], 1e-12, ui * H * mv0)
    ctx.trace()
    ctx.sample(case())


# ------------------------------------------------------------------ Tang and Onitsuka
def smear_mu(n, s, kap):
    """equal strain resistance of a zone of kap times the resistance up to s: mu = 2/(n2-1) int (n2-x2)/.. by quadrature"""
    x, w = np.polynomial.legendre.leggauss(80)
    tot = 0.
    for a, b, c in ((1., s, kap), (s, n, 1.)):
        if b > a:
            y = (a + b) / 2 + (b - a) / 2 * x
            tot += np.sum(w * (b - a) / 2 * c * (n ** 2 - y ** 2) ** 2 / y)
    return tot / (n ** 2 * (n ** 2 - 1))


def case_to(ctx, item):
    from geotecha.consolidation.tangandonitsuka2000 import tangandonitsuka2000
    kv, kh, ks, kw, rw, rs, re, H, drn, hi, mv, gamw = item
    ctx.state(("to", item))
    case = lambda: dict(kv=kv, kh=kh, ks=ks, kw=kw, rw=rw, rs=rs, re=re, H=H, drn=drn, load=HIST[hi], mv=mv, gamw=gamw)
    t = np.array([.15, .2, .35, .52, .8, 2.])
    z = np.array([0, .1, .4, .5, .7, 1.]) * H
    kw_ = dict(kv=kv, kh=kh, ks=ks, kw=kw, mv=mv, gamw=gamw, rw=rw, rs=rs, re=re, H=H, drn=drn, surcharge_vs_time=HIST[hi], nterms=40 if kv else 300)
    r = call(tangandonitsuka2000, z=z, t=t, tpor=t[1:4], **kw_)
    ctx.step()
    if not ctx.check(not isinstance(r, Raised), "drain raises", case, lambda: repr(r)):
        return
    n, s = re / rw, rs / rw
    F = smear_mu(n, s, kh / ks)
    # weak form with the drain pressure eliminated: soil  X (u - w); drain  area ratio
    col = Column(H, lambda z: kv / gamw + 0 * z, lambda z: mv + 0 * z, 0, 0 if drn == 0 else "closed", Hist(*HIST[hi]))
    one = lambda Z: 1. + 0 * Z
    X = 2 * kh / (gamw * re ** 2 * F)
    S = X * col.S.mass(one)
    W = kw / gamw / (n ** 2 - 1) * col.S.stiff(one) / H ** 2
    col.K = col.K + S - S @ np.linalg.solve(S + W, S)
    col.solve(t)
    # without vertical flow in the soil the pressure jumps at the drained ends
    q = slice(None) if kv else slice(1, -1)
    close(ctx, "drain pore pressure", case, r[0][q], col.por(z)[q, 1:4], 6e-3 if kv else 2e-2, 2.)
    close(ctx, "drain average", case, r[1], col.avp(), 4e-3, 2.)
    close(ctx, "drain settlement", case, r[2], col.settle(), 4e-3, 2. * H * mv)
    zl = z.copy()
    r2 = call(tangandonitsuka2000, z=list(z[::-1]), t=list(t[::-1]), **kw_)
    r3 = call(tangandonitsuka2000, z=float(z[2]), t=float(t[3]), **kw_)
    ctx.step(2)
    if ctx.check(not isinstance(r2, Raised), "drain raises", case, lambda: repr(r2)):
        close(ctx, "drain arrangement", case, r2[0][::-1, ::-1][:, 1:4], r[0], 1e-12)
        close(ctx, "drain arrangement", case, r2[1][::-1], r[1], 1e-12)
        close(ctx, "drain arrangement", case, r2[2][::-1], r[2], 1e-12)
    if ctx.check(not isinstance(r3, Raised), "drain raises for scalars", case, lambda: repr(r3)):
        close(ctx, "drain arrangement", case, np.ravel(r3[0]), r[0][2:3, 2], 1e-12)
        close(ctx, "drain arrangement", case, np.ravel(r3[1]), r[1][3:4], 1e-12)
    for tp in (t[::-1], np.append(t, 3.), [.35]) if hi == 2 else ():
        r4 = call(tangandonitsuka2000, z=z, t=t, tpor=tp, **kw_)
        r5 = call(tangandonitsuka2000, z=z, t=tp, **kw_)
        ctx.step(2)
        if ctx.check(not isinstance(r4, Raised) and not isinstance(r5, Raised), "drain raises", case, lambda: "%r %r" % (r4, r5)):
            close(ctx, "drain separate times", case, r4[0], r5[0], 1e-12)
            close(ctx, "drain separate times", case, r4[1], r[1], 1e-12)
            close(ctx, "drain separate times", case, r4[2], r[2], 1e-12)
    ctx.check(np.array_equal(z, zl), "drain input altered", case, "")
    ctx.trace()
    ctx.sample(case())


LAYERS = ([((1.,), (1.,), (.5,)), ((2.,), (.3,), (1.,))] +
          [((a, b), (1., k), (.5, m)) for (a, b) in ((1., .5), (.3, .7)) for k in (.2, 4.) for m in (.5, 1.2)] +
          [((.4, .3, .5), (1., k, 2.), (.5, m, .2)) for k in (.1, 3.) for m in (.3, 1.)])
CONTRAST = [((.5, .5), (100., .5), (.1, 1.)), ((.4, .6), (.3, 60.), (1.2, .1)), ((.5, .5), (1., 1.), (.5, .5)),
            ((.5, .5), (200., .01), (.1, .2)), ((.4, .3, .3), (.02, 300., 1.), (.3, .2, .4))]

MANY = [((.2, .1, .3, .15, .25), (1., .3, 2., .5, 1.5), (.5, .8, .3, 1., .4)), ((.1, .2, .15, .1, .2, .15, .1), (1., 2., .4, 1.5, .6, 1., .3), (.4, .6, .5, .3, .8, .5, .7))]


def run(ctx):
    on = lambda g: not ctx.only or ctx.only in g
    th = ctx.thorough
    if on("terzaghi"):
        with ctx.group("terzaghi"):
            ctx.parallel(case_terzaghi, list(itertools.product((1, 2.5), (1, .3), (.1, 2.), (10, 1), (1, -50.))))
    if on("layered"):
        with ctx.group("layered"):
            bcs = [b for b in itertools.product((0, 1, "a", "b"), repeat=2) if b != (1, 1)]
            items = [(h, k, m, t, b, hi, L) for i, (h, k, m) in enumerate(LAYERS + CONTRAST + MANY) for j, (t, b) in enumerate(bcs)
                     for hi in range(4) for l, L in enumerate((1., .02, 15.)) if th or (i + j + hi + l) % 4 == 0]
            ctx.parallel(case_ss, items)
    if on("step time"):
        with ctx.group("step time"):
            ctx.parallel(case_step_time, [(w, t) for w in ("schiffman and stein", "nogami and li", "tang and onitsuka") for t in (0., .3)])
    if on("transfer"):
        with ctx.group("transfer"):
            bcs = [(0, 0), (0, 1), (1, 0)]
            items = []
            for i, (h, k, m) in enumerate(LAYERS + MANY):
                for j, (t, b) in enumerate(bcs):
                    for hi in range(4):
                        if th or (i + j + hi) % 4 == 0:
                            items.append((h, k, m, None, t, b, hi, None))
                        for q, rr in enumerate(((.1, .8, None), (.1, .8, .4), (.2, .6, None), (.2, .6, .6))):
                            if (i + j + hi + q) % (4 if th else 16) == 0:
                                items.append((h, k, m, tuple(.1 * v for v in k[::-1]), t, b, hi, rr))
            ctx.parallel(case_nl, items)
    if on("power law"):
        with ctx.group("power law"):
            ex = (-3., -2., -1., 0, .5, 1., 2., 3., 4.)
            items = []
            for i, (p, q) in enumerate(itertools.product(ex, ex)):
                if abs(p - q - 2) < 1e-9:
                    continue
                for al in (.5, 3., -.4):
                    for drn in (0, 1):
                        items.append((p, q, al, drn) + [(1., 1., .1, 10., 1.), (2.5, .3, 2., 9.81, 100.)][i % 2])
            ctx.parallel(case_zy, items)
    if on("drain"):
        with ctx.group("drain"):
            items = []
            for i, (ks, kw, (rw, rs, re), H, drn, kv) in enumerate(itertools.product((1., .3), (1e6, 20., .5), ((.05, .05, .5), (.05, .12, .5), (.1, .25, .6)), (1., 3.), (0, 1), (0., .5))):
                for hi in range(4):
                    if th or (i + hi) % 2 == 0:
                        items.append((kv, 1., ks, kw, rw, rs, re, H, drn, hi) + [(.5, 10.), (.2, 9.81)][i % 2])
            ctx.parallel(case_to, items)
