"""C17 drain design relations invert each other.

Every spacing, smear idealisation, well resistance and flow exponent of a lattice is taken forwards
and backwards through the real relations; non-Darcian terms are compared with quadrature."""
import itertools
import math
import warnings
import numpy as np
from mc.core import call, Raised
from checks.c16 import Profile, grid, quiet

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of a design lattice; every point executed forwards and backwards on the real relations, with exact inverse, monotonicity and "
             "limit relations and quadrature of the flow integrals as oracle")
BOUNDS = ("2 patterns x 5 drain radii x 12 spacings x all seven idealisations x 4-9 smear zones x 3 well resistances; 6 flow exponents x 6 influence ratios x "
          "piecewise smear of 1-3 segments; argument types float, list, array, by name and by object")


def n_of(pat, sp, rw):
    a = sp * sp * (math.sqrt(3) / 2 if pat[0] in "tT" else 1.)
    return math.sqrt(a / math.pi) / rw


SMEAR = {"mu_ideal": [(1, 1)], "mu_constant": [(1, 1), (1.5, 2.), (3, 4), (6., 1.5)], "mu_linear": [(1.5, 2), (3., 3.), (6., 1.5), (4, 10.)],
         "mu_parabolic": [(1.5, 2), (2., 4. / 3), (6., 3.)], "mu_overlapping_linear": [(1.5, 2), (3., 3.), (6, 1.5), (12., 5.), (40., 2.)],
         "mu_piecewise_constant": [((1.5,), (2.,)), ((1.5, 3), (4, 1)), ((2., 4., 6.), (3., 2., 1.)), ((1.2, 1.5, 2., 3., 4., 5., 6.), (9., 7., 5., 4., 3., 2., 1.))],
         "mu_piecewise_linear": [((1., 1.5), (2., 1)), ((1, 3), (4, 1)), ((1., 2., 2., 6.), (5., 3., 2., 1.)), ((1., 1.5, 2., 2., 3., 4., 5., 6.), (9., 8., 6., 4., 3., 2., 1.5, 1.))]}


def case_back(ctx, item):
    """spacing -> eta -> spacing"""
    import geotecha.consolidation.smear_zones as sz
    name, smear, pat, rw, muw = item
    ctx.state(item)
    f = getattr(sz, name)
    s, kap = smear
    smax = float(np.max(s))
    last = None
    for m in (1.02, 1.2, 1.7, 2.5, 4., 8., 15., 30., 60., 120., 300.):
        n = m * (smax if name != "mu_overlapping_linear" else 2.)
        if n <= 1.05:
            continue
        sp = n * rw / n_of(pat, 1., 1.)
        case = lambda: dict(mu=name, s=s, kap=kap, pattern=pat, rw=rw, muw=muw, spacing=sp)
        re = quiet(sz.re_from_drain_spacing, sp, pat)
        ctx.step()
        if not ctx.check(not isinstance(re, Raised) and abs(re - n * rw) < 1e-9 * n * rw, "influence radius", case, lambda: "%r want %r" % (re, n * rw)):
            return
        if name.startswith("mu_piecewise"):
            args, kw = (s, kap), dict(n=re / rw, kap_m=1.)
        elif name == "mu_ideal":
            args, kw = (re / rw,), {}
        else:
            args, kw = (re / rw, s, kap), {}
        eta = quiet(sz.drain_eta, re, f, *args, muw=muw, **kw)
        eta2 = quiet(sz.drain_eta, re, name, *args, muw=muw, **kw)
        mu = quiet(f, *args, **kw)
        ctx.step(3)
        if not ctx.check(not any(isinstance(v, Raised) for v in (eta, eta2, mu)), "eta raises", case, lambda: "%r %r %r" % (eta, eta2, mu)):
            continue
        want = 2 / (re * re * (float(np.ravel(mu)[0]) + muw))
        ctx.check(abs(float(np.ravel(eta)[0]) - want) < 1e-12 * want and np.all(eta == eta2), "eta definition", case, lambda: "%r %r want %r" % (eta, eta2, want))
        # wider is slower
        ctx.check(last is None or want < last, "eta grows with spacing", case, lambda: "%r then %r" % (last, want))
        last = want
        # the last permeability of a piecewise zone is used out to the influence radius
        for call_s, call_k in ([(s, kap)] if not isinstance(s, tuple) else [(s, kap), (list(s), list(kap)), (np.array(s), np.array(kap))]):
            r = quiet(sz.back_calc_drain_spacing_from_eta, want, pat, f, rw, call_s, call_k, muw)
            ctx.step()
            # the search starts at a spacing of 4 s rw; designs tighter than that may be refused (the test suite pins one such refusal)
            if isinstance(r, Raised) and r.type == "ValueError" and n * rw <= n_of(pat, 4 * smax * rw, 1.) and name not in ("mu_ideal", "mu_overlapping_linear"):
                ctx.outcome("refused")
                continue
            if not (isinstance(kap, tuple) and kap[-1] != 1):
                if ctx.check(not isinstance(r, Raised), "back calculation raises", case, lambda: repr(r)):
                    ctx.check(len(r) == 3 and abs(r[0] - sp) < 1e-5 * sp and abs(r[1] - n * rw) < 1e-5 * n * rw and abs(r[2] - n) < 1e-5 * n,
                              "spacing recovered", case, lambda: "%r want %r" % (r, (sp, n * rw, n)))
            elif ctx.check(not isinstance(r, Raised), "back calculation raises", case, lambda: repr(r)):
                e3 = sz.drain_eta(r[1], f, s, kap, n=r[2], muw=muw)
                ctx.check(abs(e3 - want) < 1e-6 * want and abs(n_of(pat, r[0], rw) - r[2]) < 1e-6 * r[2], "target reproduced", case, lambda: "%r gives eta %r not %r" % (r, e3, want))
        ctx.trace()


def case_unreachable(ctx, item):
    """an eta no spacing outside the smear zone can give is refused or met, never answered wrongly"""
    import geotecha.consolidation.smear_zones as sz
    name, smear, pat, rw, fac = item
    ctx.state(item)
    f = getattr(sz, name)
    s, kap = smear
    smax = float(np.max(s))
    re = smax * rw
    args, kw = ((s, kap), dict(n=smax * (1 + 1e-9))) if name.startswith("mu_piecewise") else ((smax * (1 - 1e-9), s, kap), {}) if name == "mu_overlapping_linear" else ((smax * (1 + 1e-9), s, kap), {})
    top = quiet(sz.drain_eta, re, f, *args, **kw)
    if isinstance(top, Raised):
        return
    eta = float(np.ravel(top)[0]) * fac
    case = lambda: dict(mu=name, s=s, kap=kap, pattern=pat, rw=rw, eta=eta)
    r = quiet(sz.back_calc_drain_spacing_from_eta, eta, pat, f, rw, s, kap)
    ctx.step()
    if not isinstance(r, Raised):
        args, kw = ((s, kap), dict(n=r[2])) if name.startswith("mu_piecewise") else ((r[2], s, kap), {})
        e = quiet(sz.drain_eta, r[1], f, *args, **kw)
        ctx.check(not isinstance(e, Raised) and abs(float(np.ravel(e)[0]) - eta) < 1e-6 * eta, "target reproduced", case, lambda: "%r gives %r" % (r, e))
    else:
        ctx.check(r.type == "ValueError", "refusal", case, lambda: repr(r))
    ctx.trace()


# ------------------------------------------------------------------ non-Darcian
def nd(P, nflow, y):
    """int_1^y kap^(1/nflow) ((1/x)(1-x2/n2))^(1/nflow) dx for each y (substituting x = n - v^2 near the periphery)"""
    n = P.n
    out = []
    for yy in np.atleast_1d(y):
        tot = 0.
        for a, b, k in P.p:
            b = min(b, yy)
            if b > a:
                v0, v1 = math.sqrt(max(n - b, 0)), math.sqrt(n - a)
                m = 16
                e = v0 + (v1 - v0) * (np.arange(m + 1.) / m) ** 2
                x_, w_ = np.polynomial.legendre.leggauss(16)
                v = (((e[1:] + e[:-1]) / 2)[:, None] + ((e[1:] - e[:-1]) / 2)[:, None] * x_).ravel()
                w = (((e[1:] - e[:-1]) / 2)[:, None] * w_).ravel()
                x = n - v * v
                tot += np.sum(w * 2 * v * ((1 - x / n) * (1 + x / n) / x / k(np.clip(x, a, b))) ** (1. / nflow))
        out.append(tot)
    return np.array(out)


def nd_beta(P, nflow):
    """2/(n2-1) int y phi = int (n2-y2)/(n2-1) dphi"""
    n = P.n
    Q = Profile(n, [(a, b, lambda x, k=k: k(x) * ((n * n - 1.) / (n * n - x * x)) ** nflow) for a, b, k in P.p])
    return nd(Q, nflow, n)[0]


def case_nd(ctx, item):
    import geotecha.consolidation.smear_zones as sz
    s, kap, nflow = item
    ctx.state(("nd", item))
    n = float(s[-1])
    e = (1.,) + tuple(map(float, s))
    P = Profile(n, [(a, b, lambda x, k=k: 1. / k + 0 * x) for a, b, k in zip(e[:-1], e[1:], kap)])
    b = nd_beta(P, nflow)
    case = lambda: dict(s=s, kap=kap, nflow=nflow)
    tol = 2e-4 * b
    calls = [("piecewise", sz.non_darcy_beta_piecewise_constant, (list(s), list(kap)), {})]
    if len(s) > 1:
        calls.append(("piecewise n given", sz.non_darcy_beta_piecewise_constant, (np.array(s[:-1]), kap[:-1]), dict(n=n, kap_m=kap[-1])))
    if len(set(kap)) == 1 and kap[0] == 1:
        calls.append(("ideal", sz.non_darcy_beta_ideal, (n,), {}))
        calls.append(("ideal array", sz.non_darcy_beta_ideal, (np.array([n]),), {}))
    if len(s) == 2 and kap[1] == 1 and kap[0] >= 1:
        calls.append(("constant", sz.non_darcy_beta_constant, (n, s[0], kap[0]), {}))
        calls.append(("constant array", sz.non_darcy_beta_constant, (np.array([n]), np.array([s[0]]), np.array([kap[0]])), {}))
    for name, f, a, kw in calls:
        r = quiet(f, *a, nflow=nflow, nterms=80, **kw)
        ctx.step()
        ctx.check(not isinstance(r, Raised) and np.size(r) == 1 and abs(float(np.ravel(r)[0]) - b) < tol, "non-Darcian resistance", lambda: dict(case(), form=name), lambda: "%r want %r" % (r, b))
    # several exponents / ratios in one call
    if len(s) == 2 and kap[1] == 1 and kap[0] >= 1:
        na = np.array([n, 1.5 * n])
        r = quiet(sz.non_darcy_beta_constant, na, s[0], kap[0], nflow=nflow, nterms=80)
        r2 = [quiet(sz.non_darcy_beta_constant, v, s[0], kap[0], nflow=nflow, nterms=80) for v in na]
        fa = np.array([1.01, nflow])
        q = quiet(sz.non_darcy_beta_constant, n, s[0], kap[0], nflow=fa, nterms=80)
        q2 = [quiet(sz.non_darcy_beta_constant, n, s[0], kap[0], nflow=v, nterms=80) for v in fa]
        ctx.step(6)
        ctx.check(not any(isinstance(v, Raised) for v in [r, q] + r2 + q2) and np.allclose(r, r2, rtol=1e-9) and np.allclose(q, q2, rtol=1e-9), "non-Darcian vectorised", case,
                  lambda: "%r %r %r %r" % (r, r2, q, q2))
    # pressure profile
    y = np.unique(np.concatenate([np.linspace(1, n, 6), s]))
    phi = nd(P, nflow, y)
    for uavg, uw in ((1., 0.), (3., -2.)):
        u = quiet(sz.non_darcy_u_piecewise_constant, s, kap, y, uavg=uavg, uw=uw, nflow=nflow, nterms=80)
        ctx.step()
        wu = uw + (uavg - uw) / b * phi
        ctx.check(not isinstance(u, Raised) and np.shape(u) == wu.shape and np.max(np.abs(u - wu)) < 1e-3 * (abs(uavg) + abs(uw)), "non-Darcian pressure", case, lambda: "%r want %s" % (u, wu))
    # eta definition and the Darcian limit
    re, iL, gamw = 1.5, 7., 10.
    for nm, kw in (("non_darcy_beta_piecewise_constant", dict(s=list(s[:-1]), kap=list(kap[:-1]), n=n, kap_m=kap[-1])),) if len(s) > 1 else (("non_darcy_beta_ideal", dict(n=n)),) if kap[0] == 1 else ():
        for obj in (nm, getattr(sz, nm)):
            r = quiet(sz.non_darcy_drain_eta, re, iL, gamw, obj, nflow=nflow, nterms=80, **kw)
            ctx.step()
            w = 2 / (re ** 2 * b ** nflow * (re / n * gamw) ** (nflow - 1) * nflow * iL ** (nflow - 1))
            ctx.check(not isinstance(r, Raised) and abs(r - w) < 1e-3 * w, "non-Darcian eta", case, lambda: "%r want %r" % (r, w))
    lim = quiet(sz.non_darcy_beta_piecewise_constant, s, kap, nflow=1.00001, nterms=80)
    mu = quiet(sz.mu_piecewise_constant, s, kap)
    ctx.step(2)
    ctx.check(not isinstance(lim, Raised) and abs(lim - mu) < 3e-4 * mu, "Darcian limit", case, lambda: "%r want %r" % (lim, mu))
    ctx.trace()
    ctx.sample(case())


def case_well(ctx, item):
    import geotecha.consolidation.smear_zones as sz
    kh, qw, n, H = item
    ctx.state(("well", item))
    case = lambda: dict(kh=kh, qw=qw, n=n, H=H)
    x, w = np.polynomial.legendre.leggauss(8)
    z = (x + 1) / 2 * H
    a = quiet(sz.mu_well_resistance, kh, qw, n, H)
    zz = quiet(sz.mu_well_resistance, kh, qw, n, H, z)
    one = [quiet(sz.mu_well_resistance, kh, qw, n, H, v) for v in z]
    ends = quiet(sz.mu_well_resistance, kh, qw, n, H, np.array([0, .5 * H, H]))
    ctx.step(4)
    if ctx.check(not any(isinstance(v, Raised) for v in [a, zz, ends] + one), "well resistance raises", case, lambda: "%r %r" % (a, zz)):
        ctx.check(abs(np.sum(w * zz) / 2 - a) < 1e-12 * a and np.allclose(zz, one, rtol=1e-13), "well resistance average", case, lambda: "%r %r" % (a, zz))
        # water from below z (unit radial inflow per length) through the drain: d2(mu)/dz2 = -2 pi kh (1-1/n2) / qw
        c = math.pi * kh / qw * (1 - 1. / n ** 2)
        ctx.check(ends[0] == 0 and abs(ends[2] - c * H * H) < 1e-12 * c * H * H and abs(ends[1] - .75 * c * H * H) < 1e-12 * c * H * H, "well resistance profile", case, lambda: ends)
        for v in (0, 0., H, .25 * H, np.zeros(3), np.zeros(1), np.array(0.), np.array([0]), np.array([[0., H], [.5 * H, 0.]]), np.array([H])):
            r = quiet(sz.mu_well_resistance, kh, qw, n, H, v)
            want = c * np.asarray(v) * (2 * H - np.asarray(v))
            ctx.step()
            ctx.check(not isinstance(r, Raised) and np.shape(r) == np.shape(v) and np.allclose(r, want, rtol=1e-12, atol=0), "well resistance at one depth",
                      lambda: dict(case(), z=repr(v)), lambda: "%r want %r" % (r, want))
    ctx.trace()


def case_mono(ctx, item):
    """more smear or a less permeable zone never gives less resistance; a larger influence radius gives more"""
    import geotecha.consolidation.smear_zones as sz
    name, n = item
    ctx.state(("mono", item))
    f = getattr(sz, name)
    ss, ks = [v for v in (1, 1.2, 1.5, 2., 3., 4.5, 7, 10.) if v <= n], (1, 1.5, 2., 3., 5., 8., 15.)
    if name == "mu_overlapping_linear":
        ss = ss + [1.5 * n]
    M = np.array([[float(np.ravel(quiet(f, n, s, k))[0]) if not isinstance(quiet(f, n, s, k), Raised) else np.nan for k in ks] for s in ss])
    ctx.step(M.size)
    case = lambda: dict(mu=name, n=n, s=ss, kap=ks)
    ctx.check(np.all(np.isfinite(M)) and np.all(np.diff(M, axis=0) >= -1e-9 * M.max()) and np.all(np.diff(M, axis=1) >= -1e-9 * M.max()), "resistance monotone", case, lambda: M)
    ctx.trace()


def run(ctx):
    on = lambda g: not ctx.only or ctx.only in g
    th = ctx.thorough
    if on("spacing"):
        with ctx.group("spacing"):
            ctx.parallel(case_back, [(m, sm, p, rw, muw) for m in sorted(SMEAR) for sm in SMEAR[m] for p in ("Triangle", "square", "t", "S")[:4 if th else 2]
                                     for rw in ((.02, .05, .3, 1., 50.) if th else (.05, 1., 50.)) for muw in (0, .4, 5.)])
    if on("unreachable"):
        with ctx.group("unreachable"):
            ctx.parallel(case_unreachable, [(m, sm, p, rw, fac) for m in sorted(SMEAR) if m != "mu_ideal" for sm in SMEAR[m] for p in "TS" for rw in (.05, 1.)
                                            for fac in (.9, 1.1, 2., 30.)])
    if on("non-Darcian"):
        with ctx.group("non-Darcian"):
            items = []
            for nf in (1.01, 1.1, 1.3, 1.5, 2., 3.):
                for s in ((3.,), (20,), (1.5, 6), (4., 30.), (1.5, 3., 12.), (2., 2.5, 4., 9.)):
                    for kap in itertools.product((1, 2.) if len(s) > 2 else (1, 2., 5.), repeat=len(s)):
                        items.append((s, kap, nf))
            ctx.parallel(case_nd, items)
    if on("well"):
        with ctx.group("well"):
            ctx.parallel(case_well, list(itertools.product((.1, 2), (1., 40.), (1.5, 5, 30.), (1, 12.5))))
    if on("monotone"):
        with ctx.group("monotone"):
            ctx.parallel(case_mono, [(m, n) for m in ("mu_constant", "mu_linear", "mu_parabolic", "mu_overlapping_linear") for n in (2., 3., 5., 10., 30, 100.)])
