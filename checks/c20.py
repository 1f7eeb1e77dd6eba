"""C20 permeability and flow laws are continuous, invertible and consistent.

Every model of a parameter lattice (every admissible triple of the non-Darcian parameters, every
listing order and log option of piecewise permeability data) x a lattice of gradients, velocities,
void ratios that contains every break point, compared with an exact scalar evaluation."""
import copy
import itertools
import math
import warnings
import numpy as np
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of models x parameter triples x argument lattices (break points, both signs, zero), every point executed on the real laws and "
             "compared with the defining relation, its inverse and its slope")
BOUNDS = ("non-Darcian law: 4 permeabilities x 7 exponents x 9 limiting gradients, all 9 parameter triples each; 31 gradients; permeability laws: Ck, constant, "
          "piecewise (4-7 data sets x 4 log options x both listing orders x list/array), functional; scalar/int/array arguments")


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f, *a, **k)


def snap(m):
    return {k: copy.deepcopy(v) for k, v in vars(m).items() if not callable(v)}


def same(a, b):
    return sorted(a) == sorted(b) and all(type(a[k]) is type(b[k]) and np.all(a[k] == b[k]) for k in a)


class Law(object):
    def __init__(self, kstar, n, iL):
        if n == 1 or iL == 0:
            n, iL = 1, 0
        self.n, self.iL, self.ks = float(n), float(iL), float(kstar)
        self.i0 = iL * (n - 1.) / n
        self.kl = kstar * n * iL ** (n - 1.) if iL else kstar

    def v(self, i):
        a = abs(i)
        v = self.kl * (a - self.i0) if a >= self.iL else self.ks * a ** self.n
        return math.copysign(v, i) if i else 0.

    def slope(self, i):
        a = abs(i)
        s = self.kl if a >= self.iL else self.ks * self.n * a ** (self.n - 1)
        return math.copysign(s, i) if i else 0.  # reported with the sign of the gradient, as documented


TRIPLES = [t for t in itertools.combinations(("kstar", "n", "iL", "i0", "klinear"), 3) if "kstar" in t or "klinear" in t]


def law_of(m):
    return dict(kstar=m.kstar, n=m.n, iL=m.iL, i0=m.i0, klinear=m.klinear)


def check_law(ctx, m, L, case0, gradients):
    before = snap(m)
    last = None
    for i in sorted(gradients):
        case = lambda: dict(case0, i=i)
        v = quiet(m.v_from_i, i)
        ctx.step()
        if not ctx.check(not isinstance(v, Raised) and np.ndim(v) == 0 and abs(v - L.v(i)) <= 1e-9 * (1e-300 + abs(L.v(i))), "velocity", case, lambda: "%r want %r" % (v, L.v(i))):
            continue
        ctx.check(last is None or v >= last, "velocity decreases", case, lambda: "%r after %r" % (v, last))
        last = v
        b = quiet(m.i_from_v, v)
        ctx.step()
        ctx.check(not isinstance(b, Raised) and np.ndim(b) == 0 and abs(b - i) <= 1e-8 * abs(i), "gradient recovered", case, lambda: "%r want %r" % (b, i))
        ctx.check(m.v_from_i(-i) == -v, "odd", case, lambda: "%r %r" % (m.v_from_i(-i), v))
        d = quiet(m.dv_di, i)
        ctx.step()
        ctx.check(not isinstance(d, Raised) and np.ndim(d) == 0 and abs(d - L.slope(i)) <= 1e-8 * abs(L.slope(i)), "slope", case, lambda: "%r want %r" % (d, L.slope(i)))
        if i and abs(abs(i) - L.iL) > 1e-4 * abs(i):
            h = abs(i) * 1e-5
            q = (m.v_from_i(i + h) - m.v_from_i(i - h)) / 2 / h
            ctx.check(abs(q - abs(d)) <= 1e-5 * q, "slope is the derivative", case, lambda: "%r %r" % (d, q))
    if L.iL:
        for s in (1, -1):
            a, b = (m.v_from_i(s * L.iL * f) for f in (1 - 1e-10, 1 + 1e-10))
            ctx.check(abs(a - b) < 1e-7 * abs(a), "continuous", case0, lambda: "%r %r at %r" % (a, b, L.iL))
    g = np.array(sorted(gradients), dtype=float)
    g0 = g.copy()
    v = quiet(m.v_from_i, g)
    b = quiet(m.i_from_v, v) if not isinstance(v, Raised) else v
    d = quiet(m.dv_di, g)
    ctx.step(3)
    for nm, r, w in (("velocity", v, [L.v(i) for i in g0]), ("gradient", b, g0), ("slope", d, [L.slope(i) for i in g0])):
        ctx.check(not isinstance(r, Raised) and np.shape(r) == g0.shape and np.allclose(r, w, rtol=1e-8, atol=0), "array " + nm, case0, lambda: "%r want %r" % (r, w))
    gi = np.array([-7, -1, 0, 2, 40])
    v = quiet(m.v_from_i, gi)
    ctx.check(not isinstance(v, Raised) and np.allclose(v, [L.v(int(i)) for i in gi], rtol=1e-9), "integer gradients", case0, lambda: repr(v))
    ctx.check(np.array_equal(g, g0), "arguments altered", case0, "changed")
    # drain flow with eta: the power law part
    for head, eta, gw in ((4, .1, 10), (2.5, 3., 9.81), (0., 1., 10)):
        r = quiet(m.vdrain_strain_rate, eta, head, gamw=gw)
        w = head ** L.n * L.kl * gw ** (L.n - 1) * eta
        ctx.check(not isinstance(r, Raised) and abs(r - w) <= 1e-9 * abs(w), "drain strain rate", lambda: dict(case0, head=head, eta=eta, gamw=gw), lambda: "%r want %r" % (r, w))
    for kw in ({}, dict(npts=11, xmin=-3., xmax=9.)):
        r = quiet(m.v_and_i_for_plotting, **kw)
        ok = not isinstance(r, Raised) and len(r[0]) == len(r[1]) == kw.get("npts", 100) and r[0][0] == kw.get("xmin", 0) and r[0][-1] == kw.get("xmax", 50)
        ctx.check(ok and np.allclose(r[1], [L.v(i) for i in r[0]], rtol=1e-9), "plot data", lambda: dict(case0, **kw), lambda: repr(r))
    ctx.check(same(before, snap(m)), "model altered", case0, "changed")


def gradients(iL):
    g = {0., 1e-3, .1, .5, 1., 3., 8., 20., 100.}
    if iL:
        g |= {iL * f for f in (1e-3, .1, .5, .999, 1., 1.001, 1.5, 4., 50.)}
    return g | {-x for x in g}


def case_hansbo(ctx, item):
    import geotecha.constitutive_models.velocity_hydraulic_gradient as vh
    ks, n, iL = item
    L = Law(ks, n, iL)
    full = dict(kstar=L.ks, n=L.n, iL=L.iL, i0=L.i0, klinear=L.kl)
    for t in TRIPLES:
        arg = {k: full[k] for k in t}
        case = dict(given=arg)
        ctx.state((item, t))
        m = quiet(vh.HansboNonDarcianFlowModel, **arg)
        ctx.step()
        if L.iL == 0:
            if not (arg.get("n") == 1 or "iL" in arg or "i0" in arg):
                continue
            if sorted(t) == ["i0", "iL", "kstar"] or sorted(t) == ["i0", "iL", "klinear"]:
                pass
            elif "kstar" in t and "klinear" in t and ("i0" in t or "iL" in t):
                pass
        elif L.iL < 1 and "kstar" in t and "klinear" in t and "n" not in t:
            # two laws share these values: whichever is returned must have them
            if isinstance(m, Raised):
                ctx.outcome("ambiguous triple refused")
                continue
            got = law_of(m)
            L2 = Law(got["kstar"], got["n"], got["iL"])
            ok = all(abs(got[k] - arg[k]) <= 1e-6 * abs(arg[k]) for k in arg) and all(abs(got[k] - w) <= 1e-6 * abs(w) for k, w in (("i0", L2.i0), ("klinear", L2.kl)))
            ctx.check(ok, "given parameters kept", case, lambda: repr(got))
            continue
        if not ctx.check(not isinstance(m, Raised), "parameter triple refused", case, lambda: "%r for %r" % (m, full)):
            continue
        got = quiet(law_of, m)
        ctx.check(not isinstance(got, Raised) and all(abs(got[k] - full[k]) <= 1e-6 * (max(1., .05 / (full["n"] - 1.)) if full["n"] > 1 else 1.) * (abs(full[k]) + (0 if k in ("n", "kstar", "klinear") else 1e-6)) for k in full),
                  "parameters of the law", case, lambda: "%r want %r" % (got, full))
        if isinstance(got, Raised):
            continue
        if t in (("kstar", "n", "iL"), ("iL", "i0", "klinear"), ("n", "i0", "klinear")):
            check_law(ctx, m, L, case, gradients(L.iL))
        s = quiet(str, m)
        ctx.check(not isinstance(s, Raised) and [x.split(" = ")[0] for x in s.split("\n")] == ["kstar", "n", "iL", "i0", "klinear"], "text", case, lambda: repr(s))
        ctx.trace()


def case_refuse(ctx, item):
    import geotecha.constitutive_models.velocity_hydraulic_gradient as vh
    ctx.state(item)
    m = quiet(vh.HansboNonDarcianFlowModel, **dict(item))
    ctx.step()
    ctx.check(isinstance(m, Raised) and m.type in ("TypeError", "ValueError"), "inconsistent parameters accepted", dict(given=dict(item)), lambda: repr(m))
    ctx.trace()


def case_darcy(ctx, k):
    import geotecha.constitutive_models.velocity_hydraulic_gradient as vh
    m = vh.DarcyFlowModel(k=k)
    ctx.state(k)
    check_law(ctx, m, Law(k, 1, 0), dict(darcy=k), gradients(0) | {17.})
    ctx.check(m.non_Darcy is False and vh.HansboNonDarcianFlowModel.non_Darcy is True, "kind", dict(k=k), "flag")
    ctx.trace()


# ------------------------------------------------------------------ permeability
def interp(x, X, Y):
    for i in range(1, len(X)):
        if X[i - 1] <= x <= X[i]:
            return Y[i - 1] + (Y[i] - Y[i - 1]) * (x - X[i - 1]) / (X[i] - X[i - 1])
    return Y[0] if x < X[0] else Y[-1]


def case_perm(ctx, item):
    import geotecha.constitutive_models.void_ratio_permeability as vp
    import matplotlib.pyplot as plt
    kind, par = item
    ctx.state(item)
    case0 = dict(model=str(item))
    inv = True
    if kind == "ck":
        Ck, ka, ea = par
        m = vp.CkPermeabilityModel(Ck, ka, ea)
        kfe = lambda e: ka * 10 ** ((e - ea) / float(Ck))
        efk = lambda k: ea + Ck * math.log10(k / float(ka))
        E = [ea + d for d in (-1.5, -.1, 0, .2, 1, 3)]
        rng = True
    elif kind == "const":
        m = vp.ConstantPermeabilityModel(par)
        kfe, efk, inv = (lambda e: par), None, False
        E, rng = [.1, 1, 2.5], True
    elif kind == "pw":
        pts, xl, yl, rev, mk = par
        mk = list if mk else np.array
        P = pts[::-1] if rev else pts
        m = vp.PwiseLinearPermeabilityModel(mk([p[0] for p in P]), mk([p[1] for p in P]), xlog=xl, ylog=yl)
        fx, gx = (math.log10, lambda x: 10 ** x) if xl else (float, float)
        fy, gy = (math.log10, lambda x: 10 ** x) if yl else (float, float)
        X, Y = [fx(p[0]) for p in pts], [fy(p[1]) for p in pts]
        kfe = lambda e: gx(interp(fy(e), Y, X))
        efk = lambda k: gy(interp(fx(k), X, Y))
        ee = [p[1] for p in pts]
        E = sorted(set(ee) | {a + (b - a) * f for a, b in zip(ee, ee[1:]) for f in (.01, .5, .8)})
        rng = False
    else:
        b = par
        m = vp.FunctionPermeabilityModel(lambda k, b=1: b * k, lambda e, b=1: e / b, b=b)
        kfe, efk, E, rng = (lambda e: e / b), (lambda k: b * k), [.5, 2, 7.], None
    before = snap(m)
    out = []
    for e in E:
        case = lambda: dict(case0, e=e)
        k = quiet(m.k_from_e, e)
        ctx.step(2)
        if ctx.check(not isinstance(k, Raised) and np.ndim(k) == 0 and abs(k - kfe(e)) <= 1e-9 * abs(kfe(e)), "permeability", case, lambda: "%r want %r" % (k, kfe(e))) and inv:
            r = quiet(m.e_from_k, k)
            ctx.check(not isinstance(r, Raised) and np.ndim(r) == 0 and abs(r - e) <= 1e-9 * (1 + abs(e)), "void ratio recovered", case, lambda: "%r want %r" % (r, e))
            out.append(float(k))
    ctx.check(all(a < b for a, b in zip(out, out[1:])), "monotone", case0, lambda: repr(out))
    A = np.array(E, dtype=float)
    A0 = A.copy()
    k = quiet(m.k_from_e, A)
    if ctx.check(not isinstance(k, Raised) and np.shape(k) == A0.shape and np.allclose(k, [kfe(e) for e in E], rtol=1e-9, atol=0), "array permeability", case0, lambda: repr(k)) and inv:
        r = quiet(m.e_from_k, k)
        ctx.check(not isinstance(r, Raised) and np.allclose(r, A0, rtol=1e-9), "array void ratio", case0, lambda: repr(r))
    ctx.check(np.array_equal(A, A0), "arguments altered", case0, "changed")
    if not inv:
        r = quiet(m.e_from_k, 2.)
        ctx.check(isinstance(r, Raised) and r.type == "ValueError", "meaningless inverse", case0, lambda: repr(r))
    if rng is not None:
        for kw in ({}, dict(npts=9, xmin=2., xmax=30.)):
            r = quiet(m.e_and_k_for_plotting, **kw)
            ok = not isinstance(r, Raised) and len(r[0]) == len(r[1]) == kw.get("npts", 100)
            if ctx.check(ok, "plot data", lambda: dict(case0, **kw), lambda: repr(r)):
                ctx.check(all(abs(x - kfe(y)) <= 1e-8 * abs(x) for x, y in zip(*r)), "plot data on the law", lambda: dict(case0, **kw), lambda: repr(r))
                if inv:
                    lo, hi = (kw.get("xmin", 1.), kw.get("xmax", 100)) if rng else (par[0][0][0], par[0][-1][0])
                    ctx.check(abs(min(r[0]) - lo) < 1e-12 * hi and abs(max(r[0]) - hi) < 1e-12 * hi, "plot range", lambda: dict(case0, **kw), lambda: repr(r[0]))
                fig = plt.figure()
                ax = fig.add_subplot(111)
                q = quiet(m.plot_model, ax=ax, **kw)
                ctx.check(not isinstance(q, Raised) and len(ax.lines) == 1 and np.array_equal(ax.lines[0].get_xdata(), r[0]) and np.array_equal(ax.lines[0].get_ydata(), r[1]),
                          "plotted line", case0, lambda: repr(q))
                plt.close("all")
    ctx.check(same(before, snap(m)), "model altered", case0, "changed")
    ctx.trace()


def run(ctx):
    th = ctx.thorough
    on = lambda g: not ctx.only or ctx.only in g
    if on("flow"):
        with ctx.group("flow laws"):
            ctx.parallel(case_hansbo, list(itertools.product((1e-9, .3, 2, 40.), (1, 1.001, 1.05, 1.3, 1.7, 2, 2.5, 4.), (0, .3, .8, 1, 1.5, 2.2, 5, 16.24, 40.) if not th else
                                                             (0, .1, .3, .5, .8, 1, 1.1, 1.5, 1.8, 2.2, 2.7, 3, 4, 5, 7, 10, 16.24, 19, 20, 21, 25, 40., 100))))
            ctx.parallel(case_darcy, [1e-9, .3, 1, 2, 40.])
    if on("refused"):
        with ctx.group("refused"):
            V = dict(kstar=2., n=1.3, iL=16.2402611294, i0=3.7477525683, klinear=6.)
            bad = [tuple(sorted((k, V[k]) for k in c)) for r in (0, 1, 2, 4, 5) for c in itertools.combinations(sorted(V), r)] + [(("i0", 3.), ("iL", 16.), ("n", 1.2))]
            bad += [(("i0", 5.), ("iL", 3.), (k, 2.)) for k in ("kstar", "klinear")] + [(("iL", 3.), (k, 2.), ("n", .5)) for k in ("kstar", "klinear")]
            ctx.parallel(case_refuse, bad)
    if on("permeability"):
        with ctx.group("permeability"):
            D = [((1., .5), (9., 2.)), ((1e-3, .4), (1., .9), (2., 1.5)), ((.5, 1.), (1, 1.2), (10, 2), (11., 4.)), ((1, 2), (3, 4), (5, 9), (6, 10), (20, 30)),
                 tuple((.5 * 1.6 ** i, .5 + .3 * i + .05 * (i % 3)) for i in range(13))]
            if th:
                D += [((1e-10, .3), (1e-8, 1.), (2e-8, 5.)), ((1., 1.), (1.0001, 1.0001)), ((.1, .2), (.3, .21), (.31, .9))]
            items = [("ck", v) for v in itertools.product((.2, 1, 3.), (1e-9, 10, 2.), (4, .8))] + [("const", v) for v in (2.5, 1e-9, 3)] + [("fn", v) for v in (2., .3)]
            items += [("pw", v) for v in itertools.product(D, (False, True), (False, True), (0, 1), (0, 1))]
            ctx.parallel(case_perm, items)
