"""C16 smear-zone resistance equals the flow integral of its permeability profile.

Oracle: Gauss quadrature (broken at every kink) of
    phi(y) = int_1^y (1/x - x/n2) / k(x) dx,  mu = 2/(n2-1) int_1^n y phi dy
             = 1/(n2 (n2-1)) int_1^n (n2 - x2)2 / (x k(x)) dx
with k the profile the package reports (or the stated piecewise profile), for every combination
of a parameter lattice that contains the coincident and limiting values."""
import itertools
import warnings
import numpy as np
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of a geometry/permeability lattice including every coincident and limiting combination; every point executed on the real "
             "resistance, permeability and pressure functions and compared with quadrature of the flow integral, plus scalar/list/array enumeration")
BOUNDS = ("8 influence ratios x up to 13 smear ratios x 16 permeability ratios (among them 1+1e-12, 1+2e-5 and 1+5e-4) for each idealisation; overlapping zones to s=3n; piecewise profiles of 1-4 "
          "segments over a 6 value permeability lattice with coincident breaks, and profiles of 6-13 segments, 3 drain pressures/well resistances; argument types float, int, list, array")

GX, GW = np.polynomial.legendre.leggauss(16)
NS = (1.05, 1.5, 2, 3.5, 10., 50, 200., 1000)
KAPS = (.2, .5, 1, 1 + 1e-12, 1.00002, 1.0005, 1.02, 1.2, 4. / 3, 1.5, 2, 3, 5., 20, 100., 2000)


def grid(a, b):
    """quadrature points of [a, b], graded geometrically and towards both ends"""
    m = max(1, int(np.ceil(np.log(b / a) / .7)))
    e = a * (b / a) ** (np.arange(m + 1) / m)
    d = (b - a) * .4 ** np.arange(1, 10)
    e = np.unique(np.concatenate([e[1:-1], a + d, b - d, [a, b]]))
    x = ((e[:-1] + e[1:]) / 2)[:, None] + ((e[1:] - e[:-1]) / 2)[:, None] * GX
    w = ((e[1:] - e[:-1]) / 2)[:, None] * GW
    return x.ravel(), w.ravel()


class Profile(object):
    """permeability k on [1, n] given as pieces (a, b, k)"""
    def __init__(self, n, pieces):
        self.n = float(n)
        self.p = [(float(a), float(b), k) for a, b, k in pieces if b > a]

    def over(self, f, y=None):
        y = self.n if y is None else y
        tot = 0.
        for a, b, k in self.p:
            b = min(b, y)
            if b > a:
                x, w = grid(a, b)
                tot += float(np.sum(w * f(x) / k(x)))
        return tot

    def mu(self):
        n2 = self.n ** 2
        return self.over(lambda x: (n2 - x * x) ** 2 / x) / (n2 * (n2 - 1))

    def phi(self, y):
        n2 = self.n ** 2
        return np.array([self.over(lambda x: 1 / x - x / n2, v) for v in np.atleast_1d(y)])


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return call(f, *a, **k)


def svals(n, kap):
    out = {1, 1 + 1e-12, 1.0005, 1.02, 1.2, 1.5, 2, 3, 5., 20., n, .98 * n, (n + 1) / 2., kap}
    return sorted(v for v in out if 1 <= v <= n)


def near(a, b, tol):
    a, b = np.ravel(a), np.ravel(b)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol


def profile(kind, n, s, kap, sz):
    one = lambda x: 1 + 0 * x
    if kind == "ideal":
        return Profile(n, [(1, n, one)])
    if kind == "constant":
        return Profile(n, [(1, s, lambda x: 1. / kap + 0 * x), (s, n, one)])
    if kind == "linear":
        if s - 1 < 1e-7 or abs(kap - 1) < 1e-7:
            return profile("ideal", n, s, kap, sz)
        return Profile(n, [(1, s, lambda x: (1 + (kap - 1.) * (x - 1) / (s - 1)) / kap), (s, n, one)])
    if kind == "parabolic":
        if s - 1 < 1e-7 or abs(kap - 1) < 1e-7:
            return profile("ideal", n, s, kap, sz)
        return Profile(n, [(1, s, lambda x: 1 - (1 - 1. / kap) * ((s - x) / (s - 1)) ** 2), (s, n, one)])
    if kind == "overlapping":
        if s <= n or abs(kap - 1) < 1e-7:
            return profile("linear", n, s, kap, sz)
        sx = 2. * n - s
        if sx <= 1:
            return Profile(n, [(1, n, lambda x: 1. / kap + 0 * x)])
        lin = lambda x: (1 + (kap - 1.) * (x - 1) / (s - 1)) / kap
        return Profile(n, [(1, sx, lin), (sx, n, lambda x: lin(sx) + 0 * x)])


def case_kind(ctx, item):
    kind, n = item
    import geotecha.consolidation.smear_zones as sz
    mu_f = getattr(sz, {"ideal": "mu_ideal", "overlapping": "mu_overlapping_linear"}.get(kind, "mu_" + kind))
    u_f = getattr(sz, "u_" + kind, None)
    k_f = getattr(sz, {"overlapping": "k_overlapping_linear"}.get(kind, "k_" + kind), None)
    batch = []
    for kap in KAPS if kind != "ideal" else (1,):
        if kind == "parabolic" and kap < 1:
            continue
        ss = svals(n, kap) if kind != "overlapping" else svals(n, kap) + [n * (1 + 1e-12), 1.1 * n, 1.5 * n, 2. * n - 1, 2 * n, 3. * n, kap]
        ss = [v for v in ss if v >= 1 and (kind != "overlapping" or not 2 * n - 1 - 1e-4 * n < v < 2 * n - 1)]
        for s in ss if kind != "ideal" else (1,):
            ctx.state((kind, n, s, kap))
            case = lambda: dict(idealisation=kind, n=n, s=s, kap=kap)
            P = profile(kind, n, s, kap, sz)
            want = P.mu()
            args = (n,) if kind == "ideal" else (n, s, kap)
            got = quiet(mu_f, *args)
            ctx.step()
            # the closed forms cancel where they are close to a special case
            rt = 1e-5 if min([abs(v) for v in (kap - 1, s - 1., s - kap) if v] or [1]) < 3e-2 else 2e-6
            tol = rt * max(want, 1e-3)
            if not ctx.check(not isinstance(got, Raised), "resistance raises", case, lambda: repr(got)):
                continue
            ok = ctx.check(near(got, want, tol), "resistance integral", case, lambda: "mu %r flow integral %r" % (got, want))
            batch.append((n, s, kap, want, tol))
            # permeability
            y = np.unique(np.clip(np.concatenate([np.linspace(1, n, 9), [s * (1 - 1e-3), s, s * (1 + 1e-3), (1 + s) / 2]]), 1, n))
            if k_f is not None:
                gk = quiet(k_f, n, s, kap, y)
                ctx.step()
                wk = np.ones_like(y)
                for a, b, k in P.p:
                    q = (y >= a) & (y < b) | (y == n) & (b == n)
                    wk[q] = k(y[q])
                ctx.check(not isinstance(gk, Raised) and near(gk, wk, 1e-6 * max(1, 1. / kap)), "permeability profile", case, lambda: "y %s got %r want %s" % (y, gk, wk))
            if u_f is not None and ok:
                phi = P.phi(y)
                for uavg, uw, muw in ((1, 0, 0), (.4, -1., .7), (50., 3, 0)):
                    gu = quiet(u_f, *(args + (y,)), uavg=uavg, uw=uw, muw=muw)
                    ctx.step()
                    wu = uw + (uavg - uw) / (want + muw) * (phi + muw)
                    ctx.check(not isinstance(gu, Raised) and near(gu, wu, 1e-5 * (abs(uavg) + abs(uw))), "pressure profile",
                              lambda: dict(case(), uavg=uavg, uw=uw, muw=muw), lambda: "y %s got %r want %s" % (y, gu, wu))
                # the annulus average of what is returned is the average pressure asked for
                tot = 0.
                for a, b, k in P.p:
                    x, w = grid(a, b)
                    x = np.clip(x, 1, n)
                    r = quiet(u_f, *(args + (x,)), uavg=2., uw=.5, muw=.1)
                    ctx.step()
                    if isinstance(r, Raised):
                        tot = np.nan
                        break
                    tot += np.sum(w * x * r)
                ctx.check(abs(2 * tot / (n ** 2 - 1.) - 2.) < 1e-5, "average pressure", case, lambda: 2 * tot / (n ** 2 - 1.))
                # one radius, integers, list
                for v in (1, float(n), int(np.floor(n))):
                    r = quiet(u_f, *(args + (v,)))
                    r2 = quiet(u_f, *(args + ([v, 1],)))
                    ctx.step(2)
                    wv = P.phi(v) / want
                    ctx.check(not isinstance(r, Raised) and near(r, wv, 1e-5) and not isinstance(r2, Raised) and near(r2, [wv[0], 0], 1e-5), "pressure argument types",
                              lambda: dict(case(), radius=v), lambda: "%r %r want %s" % (r, r2, wv))
            ctx.trace()
    # many sets of parameters at once, in every container and both orders
    for rev in (False, True):
        for cont in (np.array, list, tuple):
            b = batch[::-1] if rev else batch
            if not b:
                continue
            A = [cont([float(v[i]) for v in b]) for i in range(1 if kind == "ideal" else 3)]
            keep = [np.array(v) for v in A]
            r = quiet(mu_f, *A)
            ctx.step()
            case = lambda: dict(idealisation=kind, n=n, container=cont.__name__, sets=len(b))
            if ctx.check(not isinstance(r, Raised), "resistance raises", case, lambda: repr(r)):
                w = np.array([v[3] for v in b])
                ctx.check(np.shape(r) == w.shape and np.all(np.abs(r - w) <= np.array([v[4] for v in b])), "resistance vectorised", case,
                          lambda: [(v[:3], x) for v, x in zip(b, r) if not abs(x - v[3]) <= v[4]][:5])
            ctx.check(all(np.array_equal(x, y) for x, y in zip(A, keep)), "argument altered", case, "")


KV = (.5, 1., 1.5, 2., 4., 30.)
SB = {1: [(3,), (2.,), (40.,), (1.01,)], 2: [(2., 3.), (1.5, 40.), (1.01, 1.02), (2, 4)], 3: [(1.5, 3., 6.), (1.1, 1.2, 20), (2., 4., 8.)],
      4: [(1.5, 2., 3., 6.), (1.2, 5, 20, 25)]}


def case_pwc(ctx, item):
    import geotecha.consolidation.smear_zones as sz
    s, kap = item
    ctx.state(("pwc", item))
    n = s[-1]
    e = (1.,) + s
    P = Profile(n, [(a, b, lambda x, k=k: 1. / k + 0 * x) for a, b, k in zip(e[:-1], e[1:], kap)])
    want = P.mu()
    case = lambda: dict(profile="piecewise constant", s=s, kap=kap)
    forms = [("tuple", (s, kap), {}), ("list", (list(s), list(kap)), {}), ("array", (np.array(s), np.array(kap)), {})]
    if len(s) > 1:
        forms.append(("n given", (list(s[:-1]), list(kap[:-1])), dict(n=n, kap_m=kap[-1])))
        forms.append(("n given", (np.array(s[:-1]), np.array(kap[:-1])), dict(n=n, kap_m=kap[-1])))
        if kap[-1] == kap[-2]:
            forms.append(("n given", (s[:-1], kap[:-1]), dict(n=n)))
    if len(s) == 1:
        forms.append(("scalar", (s[0], kap[0]), {}))
    if len(s) == 2:
        forms.append(("scalar", (s[0], kap[0]), dict(n=n, kap_m=kap[1])))
    y = np.unique(np.concatenate([np.linspace(1, n, 7), s, (np.array(e[:-1]) + e[1:]) / 2]))
    phi = P.phi(y)
    for name, a, kw in forms:
        got = quiet(sz.mu_piecewise_constant, *a, **kw)
        u = quiet(sz.u_piecewise_constant, *(a + (y,)), uavg=2., uw=-.5, muw=.3, **kw)
        u1 = quiet(sz.u_piecewise_constant, *(a + (1,)), **kw)
        ctx.step(3)
        c = lambda: dict(case(), form=name)
        ctx.check(not isinstance(got, Raised) and near(got, want, 1e-7 * want), "resistance integral", c, lambda: "%r want %r" % (got, want))
        wu = -.5 + 2.5 / (want + .3) * (phi + .3)
        ctx.check(not isinstance(u, Raised) and near(u, wu, 1e-6), "pressure profile", c, lambda: "%r want %s" % (u, wu))
        ctx.check(not isinstance(u1, Raised) and near(u1, [0.], 1e-9), "pressure argument types", c, lambda: repr(u1))
    # the same profile in the other vocabulary
    sl = [v for a, b in zip(e[:-1], e[1:]) for v in (a, b)]
    kl = [v for k in kap for v in (k, k)]
    got = quiet(sz.mu_piecewise_linear, sl, kl)
    u = quiet(sz.u_piecewise_linear, sl, kl, y)
    ctx.step(2)
    ctx.check(not isinstance(got, Raised) and near(got, want, 1e-7 * want), "same profile differs", case, lambda: "piecewise linear %r want %r" % (got, want))
    ctx.check(not isinstance(u, Raised) and near(u, phi / want, 1e-6), "same profile differs", case, lambda: "piecewise linear u %r want %r" % (u, phi / want))
    if len(s) == 2 and kap[1] == 1:
        got = quiet(sz.mu_constant, n, s[0], kap[0])
        ctx.step()
        ctx.check(not isinstance(got, Raised) and near(got, want, 1e-7 * want), "same profile differs", case, lambda: "constant %r want %r" % (got, want))
    if len(set(kap)) == 1:
        got = quiet(sz.mu_ideal, n)
        ctx.step()
        ctx.check(not isinstance(got, Raised) and near(got * kap[0], want, 1e-7 * want), "same profile differs", case, lambda: "ideal %r want %r" % (got, want))
    ctx.trace()
    ctx.sample(case())


def case_pwl(ctx, item):
    import geotecha.consolidation.smear_zones as sz
    s, kap = item                     # s starts at one and may repeat (a jump)
    ctx.state(("pwl", item))
    n = s[-1]
    P = Profile(n, [(a, b, lambda x, a=a, b=b, p=p, q=q: 1. / p + (1. / q - 1. / p) * (x - a) / (b - a))
                    for a, b, p, q in zip(s[:-1], s[1:], kap[:-1], kap[1:])])
    want = P.mu()
    case = lambda: dict(profile="piecewise linear", s=s, kap=kap)
    forms = [("tuple", (s, kap), {}), ("list", (list(s), list(kap)), {}), ("array", (np.array(s), np.array(kap)), {})]
    if s[-1] > s[-2]:
        forms.append(("n given", (list(s[:-1]), list(kap[:-1])), dict(n=n, kap_m=kap[-1])))
        if kap[-1] == kap[-2]:
            forms.append(("n given", (s[:-1], kap[:-1]), dict(n=n)))
    y = np.unique(np.concatenate([np.linspace(1, n, 7), s, (np.array(s[:-1]) + s[1:]) / 2]))
    phi = P.phi(y)
    for name, a, kw in forms:
        got = quiet(sz.mu_piecewise_linear, *a, **kw)
        u = quiet(sz.u_piecewise_linear, *(a + (y,)), uavg=2., uw=-.5, muw=.3, **kw)
        ctx.step(2)
        c = lambda: dict(case(), form=name)
        ctx.check(not isinstance(got, Raised) and near(got, want, 1e-6 * want), "resistance integral", c, lambda: "%r want %r" % (got, want))
        wu = -.5 + 2.5 / (want + .3) * (phi + .3)
        ctx.check(not isinstance(u, Raised) and near(u, wu, 1e-5), "pressure profile", c, lambda: "y %s got %r want %s" % (y, u, wu))
    if len(s) == 3 and s[1] > 1 and s[1] < s[2] and kap[1] == kap[2] == 1:
        got = quiet(sz.mu_linear, n, s[1], kap[0])
        ctx.step()
        ctx.check(not isinstance(got, Raised) and near(got, want, 1e-6 * want), "same profile differs", case, lambda: "linear %r want %r" % (got, want))
    ctx.trace()
    ctx.sample(case())


def case_refused(ctx, item):
    """one impossible value anywhere in the arguments is refused"""
    import geotecha.consolidation.smear_zones as sz
    name, form = item
    ctx.state(("refused", item))
    f = getattr(sz, name)
    bad = []
    if "piecewise" in name:
        lin = "linear" in name
        for s, k in (([2., 5.], [3., 1.]), ([1.5, 2., 4., 9.], [2., 3., 2., 1.])) if not lin else (([1., 2., 5.], [3., 2., 1.]), ([1., 1.5, 4., 9.], [2., 3., 2., 1.])):
            m = len(s)
            bad += [(s[:-1], k, "lengths"), (s, k[1:], "lengths")]
            for i in range(m):
                sub = lambda l, v: l[:i] + [v] + l[i + 1:]
                bad += [(s, sub(k, 0.), "permeability"), (s, sub(k, -1.), "permeability")]
                if i == 0:
                    bad += [(sub(s, .9), k, "radius below one")]
                else:
                    bad += [(sub(s, s[i - 1] * .99), k, "radii not increasing")]
                if i == 0 and lin:
                    bad += [(sub(s, 1.2), k, "first radius")]
        args = [((list(a), list(b)) if form == "list" else (np.array(a), np.array(b)), w) for a, b, w in bad]
        extra = [(2.,)] if name[0] == "u" else [()]
        args = [(a + e, w) for a, w in args for e in extra]
        if name[0] == "u":
            ok = args and (([1., 2., 5.], [3., 2., 1.]) if lin else ([2., 5.], [3., 1.]))
            args += [((list(ok[0]), list(ok[1]), si), "radius outside") for si in (.99, 5.01, [2., .99], [5.01, 2.], np.array([2., 3., 6.]))]
    else:
        good = {"n": [10., 20., 5.], "s": [2., 3., 1.5], "kap": [2., 1.5, 4.]}
        names = ["n"] if "ideal" in name else ["n", "s", "kap"]
        wrong = {"n": (1., .5, -3., 0), "s": (.99, 0, -2.) + (() if "overlapping" in name else (30.,)), "kap": (0, -1.)}
        args = []
        for k in names:
            for w in wrong[k]:
                if name[:2] == "mu":
                    for i in range(3):
                        a = [list(good[q]) for q in names]
                        a[names.index(k)][i] = w
                        args.append((tuple(a if form == "list" else [np.array(v) for v in a]), "%s=%s" % (k, w)))
                a = [w if q == k else good[q][0] for q in names]
                args.append((tuple(a) + ((1.2,) if name[:2] != "mu" else ()), "%s=%s" % (k, w)))
        if name[:2] != "mu":
            g = tuple(good[q][0] for q in names)
            args += [(g + (si,), "radius outside") for si in (.99, 10.01, [2., .99], [10.5, 2.], np.array([2., 3., 20.]))]
    for a, w in args:
        r = quiet_call(f, *a)
        ctx.step()
        ctx.check(isinstance(r, Raised) and r.type == "ValueError", "impossible value accepted", lambda: dict(function=name, args=repr(a), what=w), lambda: repr(r))
    ctx.trace()


def quiet_call(f, *a):
    with np.errstate(all="ignore"):
        return call(f, *a)


def run(ctx):
    on = lambda g: not ctx.only or ctx.only in g
    th = ctx.thorough
    if on("zones"):
        with ctx.group("zones"):
            ns = NS if not th else NS + (1.001, 1.2, 2.5, 5, 7.3, 20, 30., 100, 1000.)
            ctx.parallel(case_kind, [(k, n) for k in ("ideal", "constant", "linear", "parabolic", "overlapping") for n in ns])
    if on("piecewise constant"):
        with ctx.group("piecewise constant"):
            items = []
            for m in (1, 2, 3, 4):
                for s in SB[m]:
                    for kap in itertools.product(KV if th or m < 4 else KV[::2], repeat=m):
                        items.append((tuple(s), kap))
            # many segments
            for s in [(1.5, 2., 3., 4., 6., 9.), (1.2, 1.4, 2., 2.5, 3., 5., 8., 30.), tuple(1. + .5 * (i + 1) for i in range(13))]:
                for pat in ((1., 2.), (4., 1., 1.5), (30., 5., 2., 2., 1.), tuple(2. ** -i for i in range(13))):
                    items.append((s, (pat * 13)[:len(s)]))
                    items.append((s, (pat * 13)[:len(s)][::-1]))
            ctx.parallel(case_pwc, items if th else items[:])
    if on("piecewise linear"):
        with ctx.group("piecewise linear"):
            items = []
            for s in [(1, 3), (1., 40.), (1., 2., 6.), (1, 1.5, 30), (1., 2., 2., 6.), (1., 1., 5.), (1., 1.5, 3., 4.5), (1., 3., 3., 9., 9., 12.)]:
                kv = KV if th or len(s) < 4 else KV[1:5]
                ks = set(itertools.product(kv, repeat=len(s))) if len(s) < 6 else set(itertools.product((1., 1.5, 4.) if not th else KV[1:5], repeat=len(s)))
                # permeability proportional to the radius in one or all segments
                ks.add(tuple(30. / v for v in s))
                ks.add(tuple(2 * s[-1] / v for v in s[:-1]) + (1.,))
                for k in sorted(ks):
                    items.append((s, k))
            for s in [(1., 1.5, 2., 3., 4., 6., 9.), (1., 1.2, 1.2, 2., 2.5, 2.5, 5., 8., 30.), tuple(1. + .5 * i for i in range(14))]:
                for pat in ((1., 2.), (4., 1., 1.5), (30., 5., 2., 2., 1.), tuple(2. ** -i for i in range(14))):
                    items.append((s, (pat * 14)[:len(s)]))
                    items.append((s, (pat * 14)[:len(s)][::-1]))
            ctx.parallel(case_pwl, items)
    if not ctx.only or ctx.only in "refused":
        with ctx.group("refused"):
            ctx.parallel(case_refused, [(n, f) for n in ["mu_ideal", "mu_constant", "mu_linear", "mu_overlapping_linear", "mu_parabolic", "mu_piecewise_constant", "mu_piecewise_linear",
                                                         "k_linear", "k_parabolic", "k_overlapping_linear", "u_ideal", "u_constant", "u_linear", "u_parabolic", "u_piecewise_constant",
                                                         "u_piecewise_linear"] for f in ("list", "array")])
