"""C19 time-dependent compression does not depend on how time is subdivided.

Explicit-state exploration of the creep model: every sequence of stress operations (hold, ramp up,
ramp down; short and long) up to a depth, with every way of subdividing and interleaving from an
enumerated set.  Oracle: the closed form
    e = e0 - kap ln(s/s0) - psi ln(1 + int (s/s0)^alpha dt/t0)."""
import copy
import itertools
import math
import warnings
import numpy as np
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: all operation sequences up to a depth over {hold, load, unload} x {durations} executed on the real model under every "
             "enumerated subdivision and interleaving, compared at every increment with the closed form; exhaustive lattice of initial-condition pairs; rate "
             "simulations compared with an independent integration")
BOUNDS = ("3 soils x 3 initial states x operation alphabet of 9, depth 2 (quick) / 3 (thorough) x 4 subdivisions x scalar/1/3-element states; all 6 pairs of initial "
          "conditions over a 4x4 lattice; 8 rate histories x 2 methods")

SOILS = [dict(lam=.2, kap=.04, psi=.01, siga=20, ea=1, ta=1), dict(lam=.5, kap=.05, psi=.03, siga=50., ea=2.5, ta=10.), dict(lam=.1, kap=.09, psi=.02, siga=5., ea=.9, ta=.1)]
OPS = [("hold", 0.), ("hold", .5), ("hold", 2000.), ("up", 1.), ("up", 300.), ("jump", .001), ("tiny", 40.), ("down", 1.), ("down", 300.)]
FAC = dict(hold=1., up=1.8, jump=4., tiny=1 + 3e-7, down=.6)


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f, *a, **k)


GX, GW = np.polynomial.legendre.leggauss(24)


def avg_pow(a, b, al):
    """average of s^al with s varying linearly from a to b"""
    e = np.linspace(0, 1, 9)
    x = ((e[1:] + e[:-1]) / 2)[:, None] + ((e[1:] - e[:-1]) / 2)[:, None] * GX
    w = ((e[1:] - e[:-1]) / 2)[:, None] * GW
    return float(np.sum(w * (a + (b - a) * x) ** al))


class Oracle(object):
    def __init__(self, soil, e0, s0):
        self.__dict__.update(soil)
        self.al = (self.lam - self.kap) / self.psi
        self.e0, self.s0 = e0, s0
        lnp = (self.ea - e0 - self.kap * math.log(s0) + self.lam * math.log(self.siga)) / (self.lam - self.kap)
        self.p0 = math.exp(lnp)
        self.t0 = (self.p0 / s0) ** self.al * self.ta
        self.ig, self.s = 0., s0

    def step(self, s, dt):
        self.ig += dt / self.t0 * avg_pow(self.s / self.s0, s / self.s0, self.al)
        self.s = s
        return self.e0 - self.kap * math.log(s / self.s0) - self.psi * math.log(1 + self.ig)

    def av(self, rate):
        return self.kap / self.s + self.psi / self.t0 / abs(rate) / (1 + self.ig) * (self.s / self.s0) ** self.al


def start(soil, k):
    """k-th initial state: on the reference line, over-consolidated, slightly below it"""
    s0 = soil["siga"] * (.9, .5, 1.5)[k]
    p0 = s0 * (1., 1.6, 1.02)[k]
    e0 = soil["ea"] - soil["lam"] * math.log(p0 / soil["siga"]) + soil["kap"] * math.log(p0 / s0)
    return e0, s0


SUBS = [(1.,), (.5, .5), (.01, .2, .79), tuple([.1] * 10)]


def close(a, b, tol=1e-9):
    return not isinstance(a, Raised) and np.all(np.abs(np.ravel(a) - b) <= tol * (1 + abs(b)))


def case_seq(ctx, item):
    import geotecha.constitutive_models.void_ratio_stress as vr
    si, k, first, depth = item
    soil = SOILS[si]
    e0, s0 = start(soil, k)
    for seq in itertools.product(*([[first]] + [range(len(OPS))] * (depth - 1))):
        for shape in (0, 1, 3) if len(seq) < 3 else (1,):
            E0, S0 = (e0, s0) if shape == 0 else (np.full(shape, e0), np.full(shape, s0))
            ms = [quiet(vr.YinAndGrahamSoilModel, e0=E0, estress0=S0, **soil) for _ in SUBS]
            inv = quiet(vr.YinAndGrahamSoilModel, e0=E0, estress0=S0, **soil)
            case0 = dict(soil=si, start=k, ops=[OPS[i] for i in seq], shape=shape)
            if not ctx.check(not any(isinstance(m, Raised) for m in ms + [inv]), "construct", case0, lambda: repr(ms)):
                continue
            ctx.state((item, seq, shape))
            o = Oracle(soil, e0, s0)
            kept = []
            for j, i in enumerate(seq):
                name, dt = OPS[i]
                s1 = o.s * FAC[name]
                if name == "jump" and s1 > 40 * s0 or s1 < .05 * s0:
                    s1 = o.s
                ea, sa = o.e0 if j == 0 else last, o.s
                marks = {}
                t = 0.
                o2 = copy.copy(o)
                want = o2.step(s1, dt)
                for q, (m, sub) in enumerate(zip(ms, SUBS)):
                    oq = copy.copy(o)
                    f = 0.
                    prev = last if j else e0
                    for w in sub:
                        f = min(1., f + w)
                        s = sa + (s1 - sa) * f if f < 1 - 1e-9 else s1
                        S = s if shape == 0 else np.full(shape, s)
                        wq = oq.step(s, dt * w)
                        e = quiet(m.e_from_stress, S, dt=dt * w)
                        ctx.step()
                        case = lambda: dict(case0, op=j, subdivision=sub)
                        if not ctx.check(close(e, wq), "void ratio", case, lambda: "%r want %r" % (e, wq)):
                            return
                        ctx.check(s < sa or np.all(np.ravel(e) <= prev + 1e-12), "void ratio grows under load", case, lambda: "%r after %r" % (e, prev))
                        prev = float(np.ravel(e)[0])
                        if q == 2:
                            # queries in between are free of side effects
                            av = quiet(m.av_from_stress, S, estressdot=3.)
                            av0 = quiet(m.av_from_stress, S)
                            ctx.check(close(av, oq.av(3.), 1e-8) and close(av0, oq.kap / s), "slope", case, lambda: "%r %r want %r" % (av, av0, oq.av(3.)))
                        if q == 1:
                            # inverse calculation along the same increments; kept results stay what they were
                            b = quiet(inv.stress_from_e, wq if shape == 0 else np.full(shape, wq), dt=dt * w)
                            ctx.step()
                            if not ctx.check(close(b, s, 1e-7), "stress recovered", case, lambda: "%r want %r (closed form e %r)" % (b, s, wq)):
                                return
                            kept.append((b, np.array(b)))
                last = want
                o = o2
            ctx.check(all(np.array_equal(a, b) for a, b in kept), "earlier results altered", case0, lambda: repr(kept))
            # other objects were advanced together with this one; a reset starts again
            m = ms[0]
            m._reset_to_initial_conditions()
            o = Oracle(soil, e0, s0)
            s = s0 * 1.3
            S = s if shape == 0 else np.full(shape, s)
            e = quiet(m.e_from_stress, S, dt=7.)
            ctx.check(close(e, o.step(s, 7.)), "after reset", case0, lambda: repr(e))
            ctx.trace()


def case_ic(ctx, item):
    import geotecha.constitutive_models.void_ratio_stress as vr
    si, s0, ocr, kind = item
    soil = SOILS[si]
    s0 = soil["siga"] * s0
    p0 = s0 * ocr
    al = (soil["lam"] - soil["kap"]) / soil["psi"]
    full = dict(e0=soil["ea"] - soil["lam"] * math.log(p0 / soil["siga"]) + soil["kap"] * math.log(p0 / s0), estress0=s0, pstress0=p0, t0=soil["ta"] * ocr ** al)
    for pair in itertools.combinations(sorted(full), 2):
        conv = float if kind == 0 else (lambda v: np.array([v, v]))
        arg = {k: conv(full[k]) for k in pair}
        keep = copy.deepcopy(arg)
        m = quiet(vr.YinAndGrahamSoilModel, **dict(soil, **arg))
        case = dict(soil=si, given=arg)
        ctx.state((item, pair))
        ctx.step()
        if ctx.check(not isinstance(m, Raised), "initial conditions", case, lambda: repr(m)):
            got = dict(e0=m.e0, estress0=m.estress0, pstress0=m.pstress0, t0=m.t0)
            ctx.check(all(close(got[k] / full[k], 1., 1e-8) for k in full), "initial conditions", case, lambda: "%r want %r" % (got, full))
            ctx.check(all(np.all(keep[k] == arg[k]) for k in arg), "arguments altered", case, "changed")
            e = quiet(m.e_from_stress, conv(s0 * 1.5), dt=20.)
            w = Oracle(soil, full["e0"], s0).step(s0 * 1.5, 20.)
            ctx.check(close(e, w, 1e-7), "initial conditions used", case, lambda: "%r want %r" % (e, w))
            if kind == 1:
                for k in arg:
                    arg[k][:] = 77.
                e = quiet(m.e_from_stress, conv(s0 * 1.5), dt=0.)
                ctx.check(close(e, w, 1e-7), "initial conditions shared with the caller", case, lambda: "%r want %r" % (e, w))
    # no initial condition: the first stress sets it, the reference line being where pstress = stress
    for first in ("stress", "pstress", "e"):
        m = quiet(vr.YinAndGrahamSoilModel, **soil)
        if first == "stress":
            r, w = quiet(m.e_from_stress, s0), soil["ea"] - soil["lam"] * math.log(s0 / soil["siga"])
            E0 = w
        elif first == "pstress":
            r, w = quiet(m.e_from_stress, s0, pstress=p0), full["e0"]
            E0 = w
        else:
            E0 = soil["ea"] - soil["lam"] * math.log(s0 / soil["siga"])
            r, w = quiet(m.stress_from_e, E0), s0
        case = dict(soil=si, first=first, s0=s0, p0=p0)
        ctx.step()
        if ctx.check(close(r, w), "first state", case, lambda: "%r want %r" % (r, w)):
            o = Oracle(soil, E0, s0)
            for s, dt in ((s0 * 1.2, 3.), (s0 * 1.2, 50.)):
                e, w = quiet(m.e_from_stress, s, dt=dt), o.step(s, dt)
                ctx.check(close(e, w), "steps after first state", case, lambda: "%r want %r" % (e, w))
            # starting afresh
            e = quiet(m.e_from_stress, s0 * 2)
            w = soil["ea"] - soil["lam"] * math.log(s0 * 2 / soil["siga"])
            o = Oracle(soil, w, s0 * 2)
            e2 = quiet(m.e_from_stress, s0 * 2.5, dt=5.)
            w2 = o.step(s0 * 2.5, 5.)
            ctx.check(close(e, w) and close(e2, w2), "fresh start", case, lambda: "%r %r want %r %r" % (e, e2, w, w2))
    for bad in (dict(e0=1.), dict(e0=1., estress0=2., t0=1.), dict(e0=1., estress0=2., t0=1., pstress0=3)):
        m = quiet(vr.YinAndGrahamSoilModel, **dict(soil, **bad))
        ctx.check(isinstance(m, Raised) and m.type == "ValueError", "number of initial conditions", dict(given=bad), lambda: repr(m))
    ctx.trace()


def rk(f, t, y, tol):
    """classical Runge-Kutta with Richardson control over [t0, t1] list"""
    out = [y]
    for a, b in zip(t[:-1], t[1:]):
        n = 4
        prev = None
        while True:
            h = (b - a) / n
            z, x = y, a
            for _ in range(n):
                k1 = f(x, z)
                k2 = f(x + h / 2, z + h / 2 * k1)
                k3 = f(x + h / 2, z + h / 2 * k2)
                k4 = f(x + h, z + h * k3)
                z, x = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), x + h
            if prev is not None and abs(z - prev) < tol * abs(z):
                break
            prev, n = z, n * 2
            if n > 70000:
                raise RuntimeError("no convergence")
        y = z
        out.append(y)
    return out


RATES = [((0., 30.), (1., 1.)), ((0, 10., 40.), (1., 1., 1.)), ((0., 10, 40.), (.2, 1., 0.)), ((5., 50.), (1., 1.)), ((5., 10., 50.), (0., 1., .5))]


def case_rate(ctx, item):
    import geotecha.constitutive_models.void_ratio_stress as vr
    si, k, ri, which, scale, adv = item
    soil = SOILS[si]
    e0, s0 = start(soil, k)
    t, r = RATES[ri]
    t = np.array(t, dtype=float)
    rate = np.array(r) * scale * (-.002 if which == "CRSN" else s0 / 40.)
    m = vr.YinAndGrahamSoilModel(e0=e0, estress0=s0, **soil)
    o = Oracle(soil, e0, s0)
    case = dict(soil=si, start=k, t=t, rate=rate, sim=which, advanced=adv)
    if adv:
        quiet(m.e_from_stress, s0 * 1.2, dt=5.)
        o.step(s0 * 1.2, 5.)
    ctx.state(item)

    def cum(x):
        """exact integral of the rate to x"""
        tt = np.concatenate([t[t < x], [x]])
        yy = np.interp(tt, t, rate)
        return float(np.sum((tt[1:] - tt[:-1]) * (yy[1:] + yy[:-1]) / 2))
    const = np.ptp(rate) == 0
    res = {}
    for method in ("step", "odeint"):
        t_, r_ = t.copy(), rate.copy()
        q = quiet(getattr(m, which), t_, r_, method=method, min_segments=60)
        ctx.step()
        if not ctx.check(not isinstance(q, Raised) and len(q) == 4, "simulation", case, lambda: "%s %r" % (method, q)):
            return
        ctx.check(np.array_equal(t_, t) and np.array_equal(r_, rate), "arguments altered", case, "changed")
        tv, sv, ev, rv = q
        ctx.check(tv[0] == t[0] and tv[-1] == t[-1] and np.all(np.isin(t, tv)) and np.allclose(rv, np.interp(tv, t, rate)), "times", case, lambda: repr(tv))
        J = sorted(set([0, 1, len(tv) // 3, len(tv) // 2, len(tv) - 1]))
        T = [tv[j] for j in J]
        if which == "CRSS":
            def f(x, e):
                s = s0 + cum(x)
                return -soil["kap"] * np.interp(x, t, rate) / s - soil["psi"] / soil["ta"] * math.exp((e - soil["ea"]) / soil["psi"]) * (s / soil["siga"]) ** (soil["lam"] / soil["psi"])
            if "e" not in res:
                res["e"] = rk(f, T, e0, 1e-9)
                res["s"] = [s0 + cum(x) for x in T]
        else:
            def f(x, s):
                e = e0 + cum(x)
                return -s / soil["kap"] * (np.interp(x, t, rate) + soil["psi"] / soil["ta"] * math.exp((e - soil["ea"]) / soil["psi"]) * (s / soil["siga"]) ** (soil["lam"] / soil["psi"]))
            if "e" not in res:
                res["s"] = rk(f, T, s0, 1e-7)
                res["e"] = [e0 + cum(x) for x in T]
        # 60+ segments, rates interpolated at the start of each
        tole = (1e-5 if which == "CRSS" else 1e-9) if method == "odeint" or const else .02 * abs(cum(t[-1]) if which == "CRSN" else e0 - res["e"][-1])
        tols = (1e-3 if method == "odeint" else .02) if which == "CRSN" else 1e-9 if method == "odeint" or const else .02
        if which == "CRSS" and method == "step":
            tole = .01 * abs(e0 - res["e"][-1]) + 1e-9
            if not const:
                tole *= 3
        if which == "CRSN" and not const and method == "step":
            tols = .05
        for j, a, b in zip(J, res["s"], res["e"]):
            ctx.check(abs(sv[j] - a) <= tols * s0 * (1 + a / s0) and abs(ev[j] - b) <= tole, "%s %s" % (which, method), lambda: dict(case, at=tv[j]), lambda: "s %r e %r want %r %r" % (sv[j], ev[j], a, b))
    # afterwards the object carries on as if nothing had happened
    e = quiet(m.e_from_stress, o.s * 1.1, dt=3.)
    w = o.step(o.s * 1.1, 3.)
    ctx.check(close(e, w), "simulation changes the object", case, lambda: "%r want %r" % (e, w))
    ctx.trace()


def run(ctx):
    th = ctx.thorough
    on = lambda g: not ctx.only or ctx.only in g
    if on("sequences"):
        with ctx.group("sequences"):
            ctx.parallel(case_seq, [(si, k, i, d) for d in ((1, 2, 3) if th else (1, 2)) for si in range(len(SOILS)) for k in range(3) for i in range(len(OPS))])
    if on("initial conditions"):
        with ctx.group("initial conditions"):
            ctx.parallel(case_ic, [(si, s, o, kd) for si in range(len(SOILS)) for s in (.3, .9, 1., 3.) for o in (1., 1.01, 1.3, 2.) for kd in (0, 1)])
    if on("rates"):
        with ctx.group("rates"):
            ctx.parallel(case_rate, [(si, k, ri, w, sc, adv) for si in range(len(SOILS)) for k in range(3 if th else 2) for ri in range(len(RATES)) for w in ("CRSS", "CRSN")
                                     for sc in ((.3, 1., 2.) if th else (1.,)) for adv in (0, 1)])
