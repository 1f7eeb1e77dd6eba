"""C11 spectral integrals: every implementation of every depth and time integral equals
quadrature of the stated product, over a finite space of layerings / load histories."""
import itertools
import numpy as np
from mc.core import call, Raised, close

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of layerings, end values, modes, load histories, decay rates and output times; every "
             "scalar, vectorized and compiled implementation replayed against piecewise Gauss quadrature of the stated integrand")
BOUNDS = ("1-3 layers on a 5-point depth grid, 4 end values, 2 drainage conditions x 4 modes; histories of up to 4 points over "
          "times {0, .5, 1, 2} and magnitudes {-1, 0, 2} with steps, ramps and constants; up to 25 layers, 25 modes, 24-point histories in patterned cases; 5 decay rates, 3 rates dT, 4 omega/phase pairs, 9 output times")
NOTE = ("Every case in the stated finite space is executed and compared with Gauss quadrature (error below 1e-11); nothing is sampled. "
        "Bounds: %s. Values between the enumerated grid values are not covered." % BOUNDS)

GX, GW = np.polynomial.legendre.leggauss(48)
IMPL = ["scalar", "vectorized", "fortran"]


def quad(f, a, b, n=1):
    """composite Gauss; f vectorised over points (last axis)"""
    tot = 0
    e = np.linspace(a, b, n + 1)
    for x0, x1 in zip(e[:-1], e[1:]):
        x = (x0 + x1) / 2 + (x1 - x0) / 2 * GX
        tot = tot + np.sum(f(x) * GW, axis=-1) * (x1 - x0) / 2
    return tot


# ------------------------------------------------------------------ depth
MODES = {0: [np.pi * k for k in (1, 2, 3, 4)], 1: [np.pi * (k - .5) for k in (1, 2, 3, 4)], 2: [0.7, 3.0, 11.]}


def lin(x, t, b, zt, zb):
    return t + (b - t) * (x - zt) / (zb - zt)


def ref_depth(name, m, P, zt, zb):
    m = np.asarray(m)
    out = 0.
    nl = len(zt)
    for k in range(nl):
        def g(x, k=k):
            v = 1.
            for (t, b) in P:
                v = v * lin(x, t[k], b[k], zt[k], zb[k])
            return v
        if name in ("af", "abf"):
            f = lambda x: np.sin(m[:, None, None] * x) * np.sin(m[None, :, None] * x) * g(x)
        elif name == "D_aDf":
            f = lambda x: -(m[:, None, None] * m[None, :, None]) * np.cos(m[:, None, None] * x) * np.cos(m[None, :, None] * x) * g(x)
        elif name == "DD_abDDf":
            f = lambda x: (m[:, None, None] * m[None, :, None]) ** 2 * np.sin(m[:, None, None] * x) * np.sin(m[None, :, None] * x) * g(x)
        elif name in ("ab", "abc"):
            f = lambda x: np.sin(m[:, None] * x) * g(x)
        elif name == "D_aDb":
            sb = (P[1][1][k] - P[1][0][k]) / (zb[k] - zt[k])
            f = lambda x: -m[:, None] * np.cos(m[:, None] * x) * lin(x, P[0][0][k], P[0][1][k], zt[k], zb[k]) * sb
        out = out + quad(f, zt[k], zb[k])
    if name == "D_aDb":
        s0 = (P[1][1][0] - P[1][0][0]) / (zb[0] - zt[0])
        s1 = (P[1][1][-1] - P[1][0][-1]) / (zb[-1] - zt[-1])
        out = out + np.sin(m * zb[-1]) * P[0][1][-1] * s1 - np.sin(m * zt[0]) * P[0][0][0] * s0
    return out


NP = dict(af=1, abf=2, D_aDf=1, ab=2, abc=3, D_aDb=2, DD_abDDf=2)
GRID = [0., 0.25, 0.4, 0.7, 1.]


def layerings(ctx):
    out = []
    for n in (1, 2, 3):
        for c in itertools.combinations(GRID[1:-1], n - 1):
            out.append((0.,) + c + (1.,))
    out += [(0.2, 0.9), (0., 0.25, 1., 2.)]
    if ctx.thorough:
        out += [(0.,) + c + (1.,) for c in itertools.combinations([.1, .3, .35, .8, .95], 3)]
        out += [(0.,) + c + (1.,) for c in itertools.combinations([.1, .3, .35, .8, .95], 4)]
    return out


def values(n, npar, thorough):
    """end values for npar properties over n layers; every combination of the patterns"""
    pats = [((1.,) * n, (1.,) * n),
            (tuple([2., 0.5, 1.5, 3., .7, 1.][:n]), tuple([0.5, 3., 1., 2., 1.1, .2][:n])),
            (tuple([0., 0., 1., 0., 2., 1.][:n]), tuple([0., 1., -2., 0., 0., 3.][:n])),
            (tuple([4., 1., 0.25, 2., 1., 5.][:n]), tuple([4., 1., 0.25, 2., 1., 5.][:n]))]
    return itertools.product(pats if npar < 3 or thorough else pats[1:], repeat=npar)


def depth_call(I, name, impl, m, P, zt, zb, poly=False, conv=list):
    args = []
    if poly:
        from geotecha.piecewise.piecewise_linear_1d import PolyLine
        return getattr(I, "pdim1sin_%s%s" % (name, "_linear"))(m, *[PolyLine(list(zt), list(zb), list(t), list(b)) for t, b in P], implementation=impl)
    for t, b in P:
        args += [conv(t), conv(b)]
    return getattr(I, "dim1sin_%s_linear" % name)(m, *args, conv(zt), conv(zb), implementation=impl)


def split(P, zt, zb, k, z):
    """insert an interior point z in layer k"""
    f = (z - zt[k]) / (zb[k] - zt[k])
    Q = [(t[:k + 1] + (t[k] + f * (b[k] - t[k]),) + t[k + 1:], b[:k] + (t[k] + f * (b[k] - t[k]),) + b[k:]) for t, b in P]
    return Q, zt[:k + 1] + (z,) + zt[k + 1:], zb[:k] + (z,) + zb[k:]


def case_depth(ctx, item):
    import geotecha.speccon.integrals as I
    name, x = item
    zt, zb = x[:-1], x[1:]
    n = len(zt)
    for bnd, ms in MODES.items():
        for P in values(n, NP[name], ctx.thorough):
            if name == "D_aDb":
                # b is documented as continuous
                if any(P[1][1][i] != P[1][0][i + 1] for i in range(n - 1)):
                    y = tuple([1., 3., 0., 2., -1., 4., 1.][:n + 1]) if P[1][0][0] != 1. else tuple([1., 1., 2.5, 0., 1., 1., 0.][:n + 1])
                    P = [P[0], (y[:-1], y[1:])]
            ctx.state((name, x, bnd, repr(P)))
            case = dict(integral=name, layers=x, modes=ms, values=P)
            want = ref_depth(name, ms, P, zt, zb)
            sc = max(1., np.max(np.abs(want)))
            tol = 1e-9 * sc * (max(ms) ** 2 if n > 3 else 1)
            for impl in IMPL:
                a = [np.array(ms)] + [np.array(v) for p in P for v in p] + [np.array(zt), np.array(zb)]
                keep = [v.copy() for v in a]
                got = call(getattr(I, "dim1sin_%s_linear" % name), *a, implementation=impl)
                ctx.step()
                if not ctx.check(not isinstance(got, Raised), "depth raises %s %s" % (name, impl), case, lambda: repr(got)):
                    continue
                ctx.check(got.shape == np.shape(want) and np.max(np.abs(got - want)) <= tol, "depth %s %s" % (name, impl), case,
                          lambda: "got %s want %s" % (got, want))
                ctx.check(all(np.array_equal(u, v) for u, v in zip(a, keep)), "depth args altered %s %s" % (name, impl), case)
                if np.ndim(got) == 2:
                    ctx.check(np.array_equal(got, got.T), "depth symmetric %s %s" % (name, impl), case)
            for impl in IMPL:
                got = call(depth_call, I, name, impl, np.array(ms), P, zt, zb, True)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and np.max(np.abs(got - want)) <= tol, "depth polyline %s %s" % (name, impl), case,
                          lambda: "got %r want %s" % (got, want))
                k = len(x) % n
                zs = zt[k] + .3 * (zb[k] - zt[k])
                Q, t2, b2 = split(P, zt, zb, k, zs)
                got = call(depth_call, I, name, impl, list(ms), Q, t2, b2)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and np.max(np.abs(got - want)) <= 10 * tol, "depth split lists %s %s" % (name, impl),
                          dict(case, split=(k, zs)), lambda: "got %r want %s" % (got, want))
            ctx.trace()
    ctx.outcome("depth " + name)
    if name == "af":
        ctx.sample(dict(integral=name, layers=x))


def case_whole(ctx, item):
    """whole-number depths and values given as integers: the same values as floats"""
    import geotecha.speccon.integrals as I
    name, x = item
    zt, zb = x[:-1], x[1:]
    n = len(zt)
    P = [(tuple([1, 3, 2][:n]), tuple([3, 2, 4][:n])), (tuple([2, 5, 4][:n]), tuple([5, 4, 6][:n])), (tuple([1, 1, 2][:n]), tuple([2, 1, 1][:n]))][:NP[name]]
    ms = [0.7, 1.1, 2.]
    want = ref_depth(name, ms, P, zt, zb)
    ctx.state((name, x))
    for impl in IMPL:
        for conv in (list, np.array):
            got = call(depth_call, I, name, impl, ms, P, zt, zb, False, conv)
            ctx.step()
            ctx.trace()
            ctx.check(not isinstance(got, Raised) and np.max(np.abs(got - want)) <= 1e-8, "depth whole numbers %s %s" % (name, impl),
                      dict(integral=name, layers=x, values=P, kind=conv.__name__), lambda: "got %r want %s" % (got, want))


def case_whole_time(ctx, kind):
    import geotecha.speccon.integrals as I
    tv = [0, 1, 2, 3, 5, 6]
    for tt, mm in [((0, 0, 6), (0, 10, 10)), ((0, 2, 6), (0, 10, 4)), ((1, 1, 3, 6), (2, 5, 5, 1))]:
        for om in ([(0, 0)] if kind in "ED" else [(0, 0), (2, 1)]):
            ctx.state((kind, tt, om))
            want = ref_time(kind, tt, mm, [.5, 3.], tv, 1, om)
            for impl in IMPL:
                for conv in (list, np.array):
                    got = call(tcall, I, kind, impl, conv(tt), conv(mm), om, [.5, 3.], conv(tv), 1)
                    ctx.step()
                    ctx.trace()
                    ctx.check(not isinstance(got, Raised) and np.max(np.abs(got - want)) <= 1e-8, "time whole numbers %s %s" % (kind, impl),
                              dict(times=tt, magnitudes=mm, omega_phase=om), lambda: "got %r want %r" % (got, want))


def case_simple(ctx, bnd):
    """eigenvalues, modes, averages and integral between two depths"""
    import geotecha.speccon.integrals as I
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    if bnd in (0, 1):
        for i in range(12):
            ctx.state(("m", bnd, i))
            m = I.m_from_sin_mx(i, bnd)
            ctx.step()
            # sin(m) = 0 (drained bottom) or cos(m) = 0 (undrained), i+1 th positive root
            ctx.check(abs((np.cos if bnd else np.sin)(m)) < 1e-12 and i < m / np.pi <= i + 1 + 1e-12, "m_from_sin_mx", dict(i=i, boundary=bnd), repr(m))
            ctx.trace()
        for bad in (2, -1, 0.5):
            ctx.check(isinstance(call(I.m_from_sin_mx, 1, bad), Raised), "m_from_sin_mx accepts", dict(boundary=bad))
    ms = MODES[bnd]
    zs = [0., .1, .25, .4, .55, .7, 1.]
    pairs = [(a, b) for a in zs for b in zs if b > a]
    for conv in (list, np.array):
        got = call(I.dim1sin, conv(ms), conv(zs))
        ctx.step()
        want = np.sin(np.array(zs)[:, None] * np.array(ms)[None, :])
        ctx.check(close(got, want, 1e-12, 1e-13), "dim1sin", dict(m=ms, z=zs), repr(got))
        got = call(I.dim1sin_avg_between, conv(ms), conv(pairs))
        ctx.step()
        want = np.array([quad(lambda x: np.sin(np.array(ms)[:, None] * x), a, b) / (b - a) for a, b in pairs])
        ctx.check(close(got, want, 1e-10, 1e-11), "dim1sin_avg_between", dict(m=ms), repr(got))
        ctx.trace(2)
    for x in layerings(ctx):
        zt, zb = x[:-1], x[1:]
        n = len(zt)
        pr = [(x[0], x[-1])] + [(a, b) for a in sorted(set(x) | {x[0] + .05, x[-1] - .07}) for b in sorted(set(x) | {x[0] + .06, x[-1] - .07}) if b > a]
        for (P,) in values(n, 1, True):
            ctx.state(("a_between", x, P, bnd))
            t, b = P
            want = np.array([sum(quad(lambda y: np.sin(np.array(ms)[:, None] * y) * lin(y, t[k], b[k], zt[k], zb[k]),
                                      max(z1, zt[k]), min(z2, zb[k])) for k in range(n) if min(z2, zb[k]) > max(z1, zt[k])) for z1, z2 in pr])
            case = dict(layers=x, at=t, ab=b, pairs=pr, modes=ms)
            for how, got in [("lists", call(I.dim1sin_a_linear_between, ms, list(t), list(b), list(zt), list(zb), pr)),
                             ("arrays", call(I.dim1sin_a_linear_between, np.array(ms), np.array(t), np.array(b), np.array(zt), np.array(zb), np.array(pr))),
                             ("polyline", call(I.pdim1sin_a_linear_between, ms, PolyLine(list(zt), list(zb), list(t), list(b)), pr)),
                             ("one by one", np.vstack([call(I.dim1sin_a_linear_between, ms, list(t), list(b), list(zt), list(zb), p) for p in pr]))]:
                ctx.step()
                ctx.trace()
                ctx.check(close(got, want, 1e-9, 1e-10), "a_linear_between " + how, case, lambda: "got %r want %r" % (got, want))


# ------------------------------------------------------------------ time
def histories(ctx):
    """every history of 2-4 points over times {0,.5,1,2} (a repeated time is a step)"""
    T = [0., .5, 1., 2.]
    mags = [-1., 0., 2.]
    out = []
    for n in (2, 3, 4) if not ctx.thorough else (2, 3, 4, 5):
        for tt in itertools.combinations_with_replacement(T, n):
            if any(tt.count(t) > 2 for t in tt) or len(set(tt)) == 1:
                continue
            if n == 4 and not ctx.thorough and sum(tt[i] == tt[i + 1] for i in range(3)) == 0:
                continue
            ms = list(itertools.product(mags, repeat=n))
            if n >= 4:
                # every history differs in shape; rotate so each magnitude appears at each position
                step = 5 if n == 4 and not ctx.thorough else (2 if n == 4 else 9)
                ms = ms[len(out) % step::step]
            for mm in ms:
                if any(tt[i] == tt[i + 1] and mm[i] == mm[i + 1] for i in range(n - 1)):
                    continue
                out.append((tt, mm))
    return out


TV = [-0.5, 0., 0.2, 0.5, 0.75, 1., 1.5, 2., 3.5]
OM = [(0., 0.), (2., 0.5), (7., -1.), (0., 1.)]
RATES = [(1.0, [0.3, 2.5, 40.]), (0.1, [0.3, 2.5, 40.]), (3., [0.3, 2.5])]
CEIG = [1 + 2j, 0.3 + 0j, 5 - 4j]


def ref_time(kind, tt, mm, eigs, tv, dT, om=(0., 0.)):
    eigs = np.asarray(eigs)
    w, ph = om
    out = np.zeros((len(tv), len(eigs)), dtype=complex)
    segs = list(zip(tt[:-1], tt[1:], mm[:-1], mm[1:]))    # the described history; nothing is said after its last point
    for i, t in enumerate(tv):
        for a, b, u, v in segs:
            if a == b:
                if kind[0] == "D" and a <= t:
                    g = np.cos(w * a + ph)
                    out[i] += (v - u) * g * np.exp(-dT * eigs * (t - a))
                continue
            e = min(b, t)
            if e <= a:
                continue
            s = (v - u) / (b - a)
            L = lambda x: u + s * (x - a)
            if kind == "D":
                if s == 0:
                    continue
                f = lambda x: s * np.exp(-dT * eigs[:, None] * (t - x))
            elif kind == "E":
                f = lambda x: L(x) * np.exp(-dT * eigs[:, None] * (t - x))
            elif kind == "Ecos":
                f = lambda x: np.cos(w * x + ph) * L(x) * np.exp(-dT * eigs[:, None] * (t - x))
            elif kind == "Esin":
                f = lambda x: np.sin(w * x + ph) * L(x) * np.exp(-dT * eigs[:, None] * (t - x))
            elif kind == "Dcos":
                f = lambda x: (s * np.cos(w * x + ph) - w * np.sin(w * x + ph) * L(x)) * np.exp(-dT * eigs[:, None] * (t - x))
            out[i] += quad(f, a, e, 6)
    return out


FN = {"E": "Eload_linear", "D": "EDload_linear", "Ecos": "Eload_coslinear", "Dcos": "EDload_coslinear", "Esin": "Eload_sinlinear"}


def tcall(I, kind, impl, tt, mm, om, eigs, tv, dT, poly=False):
    name = FN[kind]
    mid = [] if kind in "ED" else [om[0], om[1]]
    if poly:
        from geotecha.piecewise.piecewise_linear_1d import PolyLine
        return getattr(I, "p" + name)(PolyLine(list(tt), list(mm)), *mid, eigs, tv, dT, implementation=impl)
    return getattr(I, name)(tt, mm, *mid, eigs, tv, dT, implementation=impl)


def case_time(ctx, item):
    import geotecha.speccon.integrals as I
    kind, oms, hs = item
    for tt, mm in hs:
        for om in oms:
            ctx.state((kind, tt, mm, om))
            rates = list(RATES)
            impls = [i for i in IMPL if not (kind == "Esin" and i == "fortran" and not FORT_SIN)]
            if kind in ("E", "Esin"):
                rates.append((1.0, CEIG))
            for dT, eigs in rates:
                want = ref_time(kind, tt, mm, eigs, TV, dT, om)
                case = dict(integral=FN[kind], times=tt, magnitudes=mm, omega_phase=om, eigs=eigs, tvals=TV, dT=dT)
                tol = 2e-9 * max(1, np.max(np.abs(want)))
                for impl in impls:
                    a = [np.array(tt), np.array(mm), np.array(eigs), np.array(TV)]
                    keep = [v.copy() for v in a]
                    got = call(tcall, I, kind, impl, a[0], a[1], om, a[2], a[3], dT)
                    ctx.step()
                    if not ctx.check(not isinstance(got, Raised), "time raises %s %s" % (kind, impl), case, lambda: repr(got)):
                        continue
                    ctx.check(got.shape == want.shape and np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= tol, "time %s %s" % (kind, impl), case,
                              lambda: "worst %s\ngot %s want %s" % (np.max(np.abs(got - want)), got, want))
                    ctx.check(all(np.array_equal(u, v) for u, v in zip(a, keep)), "time args altered %s %s" % (kind, impl), case)
                ctx.trace()
            # polyline wrapper, output times in another order and repeated, split segment
            dT, eigs = RATES[0]
            want = ref_time(kind, tt, mm, eigs, TV, dT, om)
            perm = [4, 0, 8, 2, 2, 7, 1, 3, 5, 6]
            k = max(range(len(tt) - 1), key=lambda i: tt[i + 1] - tt[i])
            ts = tt[k] + .4 * (tt[k + 1] - tt[k])
            vs = mm[k] + .4 * (mm[k + 1] - mm[k])
            t2, m2 = tt[:k + 1] + (ts,) + tt[k + 1:], mm[:k + 1] + (vs,) + mm[k + 1:]
            t3, m3 = tt + (9.,), mm + (mm[-1],)
            case = dict(integral=FN[kind], times=tt, magnitudes=mm, omega_phase=om, eigs=eigs)
            tol = 5e-9 * max(1, np.max(np.abs(want)))
            for impl in impls:
                for how, got, w in [("polyline", call(tcall, I, kind, impl, tt, mm, om, np.array(eigs), np.array(TV), dT, True), want),
                                    ("order of times", call(tcall, I, kind, impl, list(tt), list(mm), om, list(eigs), [TV[i] for i in perm], dT), want[perm]),
                                    ("split", call(tcall, I, kind, impl, np.array(t2), np.array(m2), om, np.array(eigs), np.array(TV), dT), want),
                                    ("extended", want if kind != "D" else call(tcall, I, kind, impl, np.array(t3), np.array(m3), om, np.array(eigs), np.array(TV), dT), want)]:
                    ctx.step()
                    ctx.trace()
                    ctx.check(not isinstance(got, Raised) and np.shape(got) == w.shape and np.max(np.abs(got - w)) <= tol,
                              "time %s %s %s" % (how, kind, impl), case, lambda: "got %r want %r" % (got, w))
    ctx.outcome("time %s" % kind)
    ctx.sample(dict(integral=FN[kind], history=hs[0], omega_phase=oms[0]))


UNITS = [(86400., 0., 1.), (1e-3, 0., 1.), (1., 0., 1e6), (1., 0., 1e-4), (1., 50., 1.), (1., -0.5, 3.), (3600., 7200., 2e5)]


def case_units(ctx, item):
    """the same histories in other units of time and load, started at another time, and with steps of very different size"""
    import geotecha.speccon.integrals as I
    kind, units, hs = item
    c, T, k = units
    om = (0., 0.) if kind in "ED" else (2., 0.5)
    eigs = np.array([0.3, 2.5, 7.])
    for tt, mm in hs:
        for mix in ((1., 1., 1., 1.), (1e-3, 1e-3, 1e5, 1e5), (1e5, 1e-3, 1e-3, 1e5)):
            t2 = np.array([c * t + T for t in tt])
            m2 = np.array([k * m * f for m, f in zip(mm, mix)])
            if any(t2[i] == t2[i + 1] and m2[i] == m2[i + 1] for i in range(len(t2) - 1)):
                continue
            tv = np.array([c * t + T for t in TV])
            om2 = (om[0] / c, om[1] - om[0] * T / c)
            ctx.state((kind, units, tt, mm, mix))
            want = ref_time(kind, list(t2), list(m2), eigs / c, tv, 1.0, om2)
            size = 1. if kind[0] == "D" else c
            tol = np.array([max([1e-12 * k] + [abs(m2[j + d]) for j in range(len(t2) - 1) if t2[j] <= t for d in (0, 1)]) for t in tv])
            tol = (5e-8 if T == 50. else 2e-9) * size * tol[:, None]
            case = dict(integral=FN[kind], times=t2, magnitudes=m2, omega_phase=om2, eigs=eigs / c, tvals=tv)
            for impl in IMPL:
                got = call(tcall, I, kind, impl, t2.copy(), m2.copy(), om2, eigs / c, tv.copy(), 1.0)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and np.shape(got) == want.shape and bool(np.all(np.abs(got - want) <= tol)),
                          "units %s %s" % (kind, impl), case, lambda: "got %r want %r" % (got, want))
            ctx.trace()


FORT_SIN = True


def case_many(ctx, item):
    """many layers and modes, long histories with many rates and output times"""
    import geotecha.speccon.integrals as I
    what, q = item
    if what in NP:
        nl, nm, bnd = q
        x = tuple(np.cumsum([0.] + [(1., 2., .5, 1.5, .1)[k % 5] for k in range(nl)]))
        x = tuple(v / x[-1] for v in x)
        ms = np.pi * (np.arange(nm) + (1. if bnd == 0 else .5))
        P = []
        for j in range(NP[what]):
            t = tuple(1. + ((3 * k + j) % 5) / 2. for k in range(nl))
            b = tuple(2. - ((2 * k + j) % 3) / 2. for k in range(nl))
            if what == "D_aDb" and j == 1:
                y = tuple(1. + (k * 3 % 4) for k in range(nl + 1))
                t, b = y[:-1], y[1:]
            P.append((t, b))
        zt, zb = x[:-1], x[1:]
        want = ref_depth(what, ms, P, zt, zb)
        case = dict(integral=what, layers=nl, modes=nm, bottom=bnd)
        ctx.state(str(case))
        tol = (1e-9 if nl < 20 else 2e-8) * np.max(np.abs(want))
        for impl in IMPL:
            for poly in (False, True):
                got = call(depth_call, I, what, impl, ms, P, zt, zb, poly, np.array)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and got.shape == want.shape and np.max(np.abs(got - want)) <= tol, "many layers %s %s" % (what, impl), case,
                          lambda: "worst %r of %g" % (got if isinstance(got, Raised) else np.max(np.abs(got - want)), np.max(np.abs(want))))
    else:
        n = q
        tt, mm, t = [], [], -1.
        for k in range(n):
            if not (k and k % 3 == 0):
                t += (1., .25, .5, 2.)[k % 4]
            tt.append(t)
            mm.append(float((k * 5) % 7 - 2) if k % 4 != 1 else mm[-1] + 0.)
        tv = sorted(set(tt) | set(np.linspace(-2., t + 3., 25)))
        eigs = np.logspace(-2, 1.5, 20)
        for om in OM[:1] if what in "ED" else OM:
            want = ref_time(what, tt, mm, eigs, tv, 1., om)
            case = dict(integral=FN[what], points=n, omega_phase=om)
            ctx.state(str(case))
            tol = 2e-9 * max(1, np.max(np.abs(want)))
            for impl in IMPL:
                if what == "Esin" and impl == "fortran" and not FORT_SIN:
                    continue
                for poly in (False, True):
                    got = call(tcall, I, what, impl, np.array(tt), np.array(mm), om, eigs, np.array(tv), 1., poly)
                    ctx.step()
                    ctx.check(not isinstance(got, Raised) and got.shape == want.shape and np.max(np.abs(got - want)) <= tol, "many points %s %s" % (what, impl), case,
                              lambda: "worst %r" % (got if isinstance(got, Raised) else np.max(np.abs(got - want))))
    ctx.trace()


def chunks(seq, n):
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def run(ctx):
    import geotecha.speccon.integrals as I
    try:
        import geotecha.speccon.ext_integrals    # compiled once, before the workers start
    except ImportError as e:
        ctx.fail("compiled", {}, repr(e))
    on = lambda g: not ctx.only or ctx.only in g
    if on("depth integrals"):
        with ctx.group("depth integrals"):
            ctx.parallel(case_depth, [(n, x) for n in NP for x in layerings(ctx)])
    if on("whole numbers"):
        with ctx.group("whole numbers"):
            ctx.parallel(case_whole, [(n, x) for n in NP for x in [(0, 1), (0, 1, 2), (0, 1, 3, 4)]])
            ctx.parallel(case_whole_time, list(FN))
    if on("modes and averages"):
        with ctx.group("modes and averages"):
            ctx.parallel(case_simple, [0, 1, 2])
    if on("many"):
        with ctx.group("many"):
            ctx.parallel(case_many, [(n, q) for n in NP for q in ((6, 10, 1), (11, 25, 0), (11, 25, 1), (25, 6, 1))] + [(k, n) for k in FN for n in (6, 9, 15, 24)])
    hs = histories(ctx)
    ctx.notes["histories"] = len(hs)
    if on("units"):
        with ctx.group("units"):
            sub = hs if ctx.thorough else hs[len(hs) % 13::13]
            ctx.parallel(case_units, [(kind, u, c) for kind in FN for u in UNITS for c in chunks([h for h in sub if len(h[0]) <= 4], 3)])
    for kind in FN:
        if on("time " + kind):
            with ctx.group("time " + kind):
                items = []
                for j, c in enumerate(chunks(hs, 40)):
                    if kind in "ED":
                        items.append((kind, OM[:1], c))
                    else:
                        # every history with two of the omega/phase pairs (all four in the thorough tier)
                        items.append((kind, OM if ctx.thorough else [OM[j % 4], OM[(j + 1) % 4]], c))
                ctx.parallel(case_time, items)
