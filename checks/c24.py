"""C24: quadrature, series acceleration and integral transforms equal exact results."""
import itertools
import math

import numpy as np

from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of the input space of the real routines: every basis polynomial up to the stated degree for every rule, "
             "every symmetry-flag combination consistent with a function, every transform pair, option form and call form on a lattice, each compared with the exact result")
BOUNDS = ("22 Gauss and 6 Kronrod rules, every degree they are exact for, 9 interval layouts; 9 real x 10 imaginary parts x consistent flags x inverse x 7 points; "
          "Hankel orders 0-3, Laplace 12 pairs, transforms of up to 3 variables")
RULE = "distinct (routine, function, options, point)"

GL = list(range(2, 21)) + [32, 64, 100]
GK = [7, 10, 15, 20, 25, 30]
SQPI = math.sqrt(math.pi)


def close(a, b, rtol=1e-9, atol=1e-10):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


# ---------------------------------------------------------------- quadrature
LAYOUTS = [([-1], [1]), ([0], [1]), ([2.5], [7.0]), ([3], [-1]), ([1.5], [1.5]), ([0, 1, 3], [1, 3, 3.5]), ([0., 2., -4], [1., 5., -1.]),
           ([1, 5, 2, 0], [2, 4, 2, -3]), ([-0.001], [0.002])]


def quad_case(ctx, item):
    from geotecha.mathematics import quadrature as Q
    rule, n = item
    top = 2 * n - 1 if rule == "gl" else 3 * n + 1 + n % 2
    fn = Q.gl_quad if rule == "gl" else Q.gk_quad

    def integrate(f, a, b, **kw):
        r = call(fn, f, a, b, n=n, **kw)
        if isinstance(r, Raised) or rule == "gl":
            return r, None
        return r
    for a, b in LAYOUTS:
        for form in (list, np.array, tuple) + ((lambda v: v[0],) if len(a) == 1 else ()):
            for k in range(top + 1) if form is list else (0, 1, top):
                # polynomial ((x - c) / h)**k + 1 over each interval, of one common c and h
                c, h = (a[0] + b[0]) / 2., max(abs(v - (a[0] + b[0]) / 2.) for v in a + b) or 1.0

                def f(x, p=k, c=c, h=h):
                    return ((x - c) / h) ** p + 1

                def F(x):
                    return h * ((x - c) / h) ** (k + 1) / (k + 1) + x
                want = np.array([F(v) - F(u) for u, v in zip(a, b)])
                aa, bb = form(a), form(b)
                got, err = integrate(f, aa, bb, args=(k,) if k % 2 else ())
                ctx.step()
                ctx.state((rule, n, tuple(a), k))
                case = dict(rule=rule, n=n, a=a, b=b, degree=k, form=getattr(form, "__name__", "scalar"))
                sc = max(abs(v) for v in a + b) + 1e-300
                ok = not isinstance(got, Raised) and close(got, want, 1e-11, 1e-12 * sc)
                ctx.check(ok, "%s not exact" % rule, case, "%r want %r" % (got, want))
                if err is not None and k <= 2 * n - 1:
                    ctx.check(close(err, np.zeros(len(a)), 0, 1e-11 * sc), "error estimate of an exact rule", case, repr(err))
                tot, err = integrate(f, aa, bb, args=(k,) if k % 2 else (), sum_intervals=True)
                ctx.step()
                ctx.check(not isinstance(tot, Raised) and close(tot, want.sum(), 1e-11, 1e-11 * sc), "%s sum not exact" % rule, case, "%r want %r" % (tot, want.sum()))
                ctx.check(list(np.atleast_1d(aa)) == a and list(np.atleast_1d(bb)) == b, "limits altered", case, "")
        ctx.trace()
        # values that are arrays, a constant, not vectorized over intervals
        for shape in ((3,), (2, 2), (1,), (2, 1, 3)):
            co = np.arange(1, 1 + int(np.prod(shape))).reshape(shape) / 3.
            got, err = integrate(lambda x: co * x ** 2 + x, a, b)
            want = np.array([co * (v ** 3 - u ** 3) / 3. + (v ** 2 - u ** 2) / 2. for u, v in zip(a, b)])
            ctx.step()
            ctx.state((rule, n, tuple(a), shape))
            case = dict(rule=rule, n=n, a=a, b=b, shape=shape)
            ctx.check(not isinstance(got, Raised) and close(got, want, 1e-11, 1e-11), "%s array values" % rule, case, "%r want %r" % (got, want))
            got, err = integrate(lambda x: co * x ** 2 + x, a, b, sum_intervals=True)
            ctx.check(not isinstance(got, Raised) and close(got, want.sum(axis=0), 1e-11, 1e-10), "%s array values" % rule, case, "%r want %r" % (got, want.sum(axis=0)))
        got, err = integrate(lambda x: 2.5, a, b)
        ctx.check(not isinstance(got, Raised) and close(got, 2.5 * (np.array(b) - np.array(a)), 1e-12, 1e-13), "%s constant" % rule, dict(rule=rule, n=n, a=a, b=b), repr(got))
    # the rule itself
    w = Q.gauss_legendre_abscissae_and_weights(n) if rule == "gl" else Q.gauss_kronrod_abscissae_and_weights(n)
    ctx.check(all(len(v) == len(w[0]) for v in w) and abs(w[-1].sum() - 2) < 1e-12 and abs(w[1].sum() - 2) < 1e-12, "weights", dict(rule=rule, n=n), "")


def quad_refused(ctx):
    from geotecha.mathematics import quadrature as Q
    for f, ok in ((Q.gl_quad, GL), (Q.gk_quad, GK)):
        for n in list(range(-1, 40)) + [63, 64, 65, 99, 100, 101]:
            r = call(f, lambda x: x, 0, 1, n=n)
            ctx.step()
            ctx.state((f.__name__, n))
            ctx.check(isinstance(r, Raised) == (n not in ok) and (n in ok or r.type == "ValueError"), "rule not offered", dict(f=f.__name__, n=n), repr(r))


# ---------------------------------------------------------------- series acceleration
def shanks_case(ctx, item):
    from geotecha.mathematics import quadrature as Q
    L, ratio, n = item
    k = np.arange(n)
    for c in (1.0, -3.0, 0.01):
        seq = L + c * ratio ** k
        for ind in (0, 1, 2, -3, -4, -5, -n - 2, None, n - 3, n, n + 4):
            start = n if ind is None else max(0, ind if ind >= 0 else n + ind)
            want = L if start <= n - 3 else seq[-1]
            case = dict(limit=L, ratio=ratio, c=c, n=n, ind=ind)
            lst = [float(v) for v in seq]
            keep = list(lst)
            got = call(Q.shanks, lst, ind)
            ctx.step()
            ctx.state((L, ratio, c, n, ind))
            tol = 1e-10 * (abs(L) + np.max(np.abs(seq))) / abs(1 - ratio)
            ctx.check(not isinstance(got, Raised) and abs(got - want) <= tol, "shanks of a geometric sequence", case, "%r want %r" % (got, want))
            ctx.check(lst == keep, "given list altered", case, "")
            arr = np.array(seq)
            g2 = call(Q.shanks, arr, ind)
            ctx.check(g2 == got, "array and list differ", case, "%r %r" % (g2, got))
            # several sequences at once, one of them already converged
            three = np.array([seq, np.full(n, 4.0), seq[::-1] * 2, L - c * (-ratio / 2) ** k])
            for block in (three, three.reshape(2, 2, n)):
                g3 = call(Q.shanks, np.array(block), ind)
                each = np.array([Q.shanks(list(r), ind) for r in three]).reshape(block.shape[:-1])
                ctx.step()
                ctx.check(not isinstance(g3, Raised) and np.array_equal(g3, each, equal_nan=True), "many sequences differ from one at a time", case, "%r %r" % (g3, each))
    ctx.trace()
    # whole numbers
    if ratio in (2, -2, 3, -3):
        seq = [int(5 + 7 * int(ratio) ** j) for j in range(n)]
        for form in (list, tuple, np.array):
            got = call(Q.shanks, form(seq))
            ctx.check(not isinstance(got, Raised) and abs(got - 5) < 1e-9, "shanks of whole numbers", dict(seq=seq, form=form.__name__), repr(got))
    if n in (3, 4):
        t = call(Q.shanks_table, list(L + ratio ** k))
        ctx.check(not isinstance(t, Raised) and abs(t[-1][-1] - L) < 1e-9 * (1 + abs(L)) / abs(1 - ratio), "shanks table", dict(L=L, ratio=ratio, n=n), repr(t))


# ---------------------------------------------------------------- cosine and sine
def half_line():
    """name -> f, cosine transform, sine transform over (0, inf)"""
    def daw(w, a):
        from scipy.special import dawsn
        return dawsn(w / (2 * math.sqrt(a))) / math.sqrt(a)
    return {"exp": (lambda x, a: np.exp(-a * x), lambda w, a: a / (a * a + w * w), lambda w, a: w / (a * a + w * w)),
            "gauss": (lambda x, a: np.exp(-a * x * x), lambda w, a: 0.5 * math.sqrt(math.pi / a) * math.exp(-w * w / 4 / a), daw),
            "xexp": (lambda x, a: x * np.exp(-a * x), lambda w, a: (a * a - w * w) / (a * a + w * w) ** 2, lambda w, a: 2 * a * w / (a * a + w * w) ** 2),
            "cosexp": (lambda x, a: np.exp(-a * x) * np.cos(x), lambda w, a: 0.5 * (a / (a * a + (w - 1) ** 2) + a / (a * a + (w + 1) ** 2)),
                       lambda w, a: 0.5 * ((w - 1) / (a * a + (w - 1) ** 2) + (w + 1) / (a * a + (w + 1) ** 2)))}


def cos_case(ctx, item):
    from geotecha.mathematics import fourier as F
    name, a = item
    f, fc, fs = half_line()[name]
    for w in (0, 0.25, 1, 1.5, 3.0, 7.0, -2.0):
        for fn, ex in ((F.cosine_transform, fc), (F.sine_transform, fs)):
            got = call(fn, f, w, (a,))
            ctx.step()
            ctx.state((name, a, w, fn.__name__))
            ok = not isinstance(got, Raised) and abs(got[0] - ex(w, a)) < 2e-8
            ctx.check(ok, fn.__name__, dict(f=name, a=a, w=w), "%r want %r" % (got, ex(w, a)))
        for lo, hi in ((0.0, 1.0), (0.5, 2.0), (2.0, 2.0)):
            x, wt = np.polynomial.legendre.leggauss(60)
            xx = (hi - lo) / 2 * x + (hi + lo) / 2
            for fn, tr in ((F.cosine_transform, np.cos), (F.sine_transform, np.sin)):
                ex = (hi - lo) / 2 * np.sum(wt * f(xx, a) * tr(w * xx))
                got = call(fn, f, w, (a,), lo, hi)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and abs(got[0] - ex) < 1e-9, fn.__name__ + " between limits", dict(f=name, a=a, w=w, lo=lo, hi=hi), "%r want %r" % (got, ex))
    s = [0.5, 1, 1.5, 3.0, 6.0]
    for form in (list, np.array, tuple):
        for m, ng in ((40, 20), (60, 32), (40, 64)):
            sh = form(s)
            got = call(F.vcosine_transform, f, sh, (a,), m, ng)
            ctx.step()
            want = np.array([fc(w, a) for w in s])
            ctx.check(not isinstance(got, Raised) and close(got, want, 1e-6, 1e-6), "vcosine_transform", dict(f=name, a=a, m=m, ng=ng), "%r want %r" % (got, want))
            ctx.check(list(sh) == s, "points altered", dict(f=name), "")
    for ind in (None, 5, -5, 0):
        got = call(F.vcosine_transform, f, np.array(s), (a,), 20, 20, ind)
        each = [call(F.vcosine_transform, f, v, (a,), 20, 20, ind) for v in s]
        ctx.step()
        ok = not isinstance(got, Raised) and got.shape == (len(s),) and all(not isinstance(e, Raised) and abs(e[0] - g) <= 1e-12 for e, g in zip(each, got))
        ctx.check(ok, "vcosine_transform of many points differs from one at a time", dict(f=name, a=a, ind=ind), "%r %r" % (got, each))
        if ind == 5 and name != "gauss":
            want = np.array([fc(w, a) for w in s])
            ctx.check(ok and close(got, want, 1e-5, 1e-5), "vcosine_transform accelerated", dict(f=name, a=a), "%r want %r" % (got, want))
    got = call(F.v2dcosine_transform, lambda x, y, a, b: f(x, a) * np.exp(-b * y), np.array(s[:3]), np.array(s[1:]), (a, 1.7), 30, 20)
    want = np.outer([fc(w, a) for w in s[:3]], [1.7 / (1.7 ** 2 + w * w) for w in s[1:]])
    ctx.step()
    ctx.check(not isinstance(got, Raised) and close(got, want, 1e-5, 1e-5), "v2dcosine_transform", dict(f=name, a=a), "%r want %r" % (got, want))
    got = call(F.v2dcosine_transform, lambda x, y: np.exp(-y) * f(x, a), 1.0, s, (), 12, 15, 4)
    want = np.outer([fc(1.0, a)], [1 / (1 + w * w) for w in s])
    ctx.step()
    ctx.check(not isinstance(got, Raised) and got.shape == want.shape, "v2dcosine_transform", dict(f=name, a=a, shape=want.shape), repr(got))
    if not isinstance(got, Raised) and name != "gauss":
        ctx.check(close(got, want, 1e-4, 1e-4), "v2dcosine_transform accelerated", dict(f=name, a=a), "%r want %r" % (got, want))
    ctx.trace()


def forms_case(ctx):
    """functions that return their argument, a constant, whole numbers or a remembered table"""
    from geotecha.mathematics import fourier as F
    from geotecha.mathematics import hankel as H
    memo = {}

    def table(x):
        return memo.setdefault(x.tobytes(), np.exp(-x))
    fs = {"itself": (lambda x: x, lambda x: x * 1.0), "constant": (lambda x: 1.0, lambda x: np.ones_like(x)),
          "whole": (lambda x: (x < 3).astype(int), lambda x: (x < 3) * 1.0), "remembered": (table, lambda x: np.exp(-x)),
          "number": (lambda x: np.float64(2), lambda x: 2 + 0 * x), "complex": (lambda x: 1j * x, lambda x: 1j * (x + 0.0)), "mask": (lambda x: x < 2, lambda x: (x < 2) * 1.0)}
    r = np.array([0.5, 2.0, 3.5])
    for name, (f, g) in fs.items():
        for ind in (None, 3):
            for fn, kw in ((F.vcosine_transform, {}), (H.vhankel_transform, dict(order=0)), (H.vhankel_transform, dict(order=2))):
                for rep in (0, 1):
                    a, b = call(fn, f, r, m=8, ng=10, shanks_ind=ind, **kw), call(fn, g, r, m=8, ng=10, shanks_ind=ind, **kw)
                    ctx.step()
                    ctx.state((name, ind, fn.__name__, rep, kw.get("order")))
                    ctx.check(not isinstance(a, Raised) and not isinstance(b, Raised) and close(a, b, 1e-12, 1e-12), "form of the function's value", dict(f=name, fn=fn.__name__, shanks=ind, again=rep), "%r %r" % (a, b))
    two = {"first": (lambda x, y: x, lambda x, y: x + 0 * y), "second": (lambda x, y: y, lambda x, y: y + 0 * x), "constant": (lambda x, y: 1, lambda x, y: 1 + 0 * x * y),
           "one": (lambda x, y: np.exp(-x), lambda x, y: np.exp(-x) + 0 * y)}
    for name, (f, g) in two.items():
        for ind in (None, 3):
            a, b = call(F.v2dcosine_transform, f, r, r[:2], m=6, ng=6, shanks_ind=ind), call(F.v2dcosine_transform, g, r, r[:2], m=6, ng=6, shanks_ind=ind)
            ctx.step()
            ctx.state((name, ind, "v2d"))
            ctx.check(not isinstance(a, Raised) and not isinstance(b, Raised) and close(a, b, 1e-11, 1e-11), "form of the function's value", dict(f=name, fn="v2dcosine", shanks=ind), "%r %r" % (a, b))


# ---------------------------------------------------------------- Fourier
def parts():
    """name -> (f, exact forward transform, symmetry)"""
    e = lambda s: SQPI * math.exp(-s * s / 4)
    return {"zero": (lambda x: 0.0 * x, lambda s: 0.0, "both"),
            "gauss": (lambda x: np.exp(-x * x), lambda s: e(s), "even"),
            "wide": (lambda x: 2 * np.exp(-x * x / 4), lambda s: 4 * SQPI * math.exp(-s * s), "even"),
            "laplace": (lambda x: np.exp(-2 * np.abs(x)), lambda s: 4 / (4. + s * s), "even"),
            "xgauss": (lambda x: x * np.exp(-x * x), lambda s: -0.5j * s * e(s), "odd"),
            "signexp": (lambda x: np.sign(x) * np.exp(-3 * np.abs(x)), lambda s: -2j * s / (9. + s * s), "odd"),
            "shifted": (lambda x: np.exp(-(x - 1) ** 2), lambda s: e(s) * np.exp(-1j * s), None),
            "left": (lambda x: 0.5 * np.exp(-(x + 0.5) ** 2), lambda s: 0.5 * e(s) * np.exp(0.5j * s), None),
            "mixed": (lambda x: (1 + x) * np.exp(-x * x), lambda s: e(s) * (1 - 0.5j * s), None),
            "lopsided": (lambda x: np.where(x > 0, np.exp(-np.abs(x)), 3 * np.exp(-2 * np.abs(x))), lambda s: 1 / (1 + 1j * s) + 3 / (2 - 1j * s), None)}


POINTS = (0, 0.5, 1, -1.5, 2, 4.0, -3)


def flags_for(sym, part):
    """flag settings that say nothing false about this part"""
    yield {}
    if sym in ("even", "both"):
        yield {part + "_part_even": True}
    if sym in ("odd", "both"):
        yield {part + "_part_odd": True}
    if sym == "both":
        yield {part + "_part_even": True, part + "_part_odd": True}


def fourier_case(ctx, item):
    from geotecha.mathematics.fourier import FourierTransform
    rn, im = item
    P = parts()
    (fr, tr, sr), (fi, ti, si) = P[rn], P[im]
    for inv in (False, True):
        for fl in itertools.product(flags_for(sr, "real"), flags_for(si, "imag")):
            kw = dict(fl[0], **fl[1])
            kinds = [("complex", lambda x, k=1.0: k * (fr(x) + 1j * fi(x)), {})]
            if im == "zero":
                kinds.append(("real", lambda x, k=1.0: k * fr(x), dict(func_is_real=True)))
            if rn == "zero":
                kinds.append(("imag", lambda x, k=1.0: k * fi(x), dict(func_is_imag=True)))
            for kind, f, extra in kinds:
                for args in ((), (2.5,)):
                    k = args[0] if args else 1.0
                    ft = call(FourierTransform, f, args, inv=inv, **dict(kw, **extra))
                    for s in POINTS:
                        v = -s if inv else s
                        want = k * (tr(v) + 1j * ti(v)) / (2 * math.pi if inv else 1)
                        got = call(ft, s) if not isinstance(ft, Raised) else ft
                        ctx.step()
                        ctx.state((rn, im, inv, tuple(sorted(kw)), kind, s))
                        ok = not isinstance(got, Raised) and abs(got[0] - want) < 3e-7 * k
                        ctx.check(ok, "FourierTransform", dict(real=rn, imag=im, inverse=inv, flags=sorted(kw), kind=kind, args=args, s=s), "%r want %r" % (got, want))
            ctx.trace()
        # only part of the line: |x| in [lo, hi]
        x, wt = np.polynomial.legendre.leggauss(60)
        for lo, hi in ((0.0, 1.5), (0.5, 2.0)):
            xx, ww = (hi - lo) / 2 * x + (hi + lo) / 2, (hi - lo) / 2 * wt
            for fl in itertools.product(flags_for(sr, "real"), flags_for(si, "imag")):
                kw = dict(fl[0], **fl[1])
                ft = FourierTransform(lambda x: fr(x) + 1j * fi(x), inv=inv, a=lo, b=hi, **kw)
                for s in (0, 1, -2.5):
                    sg = 1j if inv else -1j
                    want = sum(np.sum(ww * (fr(q * xx) + 1j * fi(q * xx)) * np.exp(sg * s * q * xx)) for q in (1, -1)) / (2 * math.pi if inv else 1)
                    got = call(ft, s)
                    ctx.step()
                    ctx.check(not isinstance(got, Raised) and abs(got[0] - want) < 1e-8, "FourierTransform between limits",
                              dict(real=rn, imag=im, inverse=inv, flags=sorted(kw), lo=lo, hi=hi, s=s), "%r want %r" % (got, want))


# ---------------------------------------------------------------- Hankel
def hankel_pairs():
    """name -> f, orders, exact, needs acceleration"""
    from scipy.special import jv
    return {"gauss": (lambda r, a: np.exp(-a * r * r), (0,), lambda s, a, o: math.exp(-s * s / 4 / a) / (2 * a)),
            "power gauss": (lambda r, a, o: r ** o * np.exp(-a * r * r), (1, 2, 3), lambda s, a, o: s ** o / (2 * a) ** (o + 1) * math.exp(-s * s / 4 / a)),
            "exp": (lambda r, a: np.exp(-a * r), (0,), lambda s, a, o: a / (s * s + a * a) ** 1.5),
            "exp1": (lambda r, a: np.exp(-a * r), (1,), lambda s, a, o: s / (s * s + a * a) ** 1.5),
            "exp/r": (lambda r, a: np.exp(-a * r) / r, (0, 1, 2), lambda s, a, o: ((math.sqrt(s * s + a * a) - a) / s) ** o / math.sqrt(s * s + a * a))}


def hankel_case(ctx, item):
    from geotecha.mathematics import hankel as H
    name, order, a = item
    f, orders, ex = hankel_pairs()[name]
    args = (a, order) if name == "power gauss" else (a,)
    S = (0.3, 0.5, 1, 2.0, 3.3, 5.0)
    for ng in GK:
        for m in (20, 40):
            for points in (None, [0.5, 1.0], (0.7,), np.array([-1.0, 0.2, 500.0])):
                ht = call(H.HankelTransform, f, args, order, m, points, ng, max(ng, 15))
                for s in S:
                    got = call(ht, s) if not isinstance(ht, Raised) else ht
                    want = ex(s, a, order)
                    ctx.step()
                    ctx.state((name, order, a, ng, m, s, points is None))
                    tol = (2e-6 if m == 40 or s < 3 else 1e-4) if ng > 10 or points is None else 1e-2
                    ctx.check(not isinstance(got, Raised) and abs(got[0] - want) < tol and np.isfinite(got[1]), "HankelTransform",
                              dict(f=name, order=order, a=a, ng=ng, m=m, s=s, points=None if points is None else list(points)), "%r want %r" % (got, want))
    ctx.trace()
    for ind in (None, 0, 4, -5):
        got = call(H.vhankel_transform, f, np.array(S), args, order, 40, 20, ind)
        each = [call(H.vhankel_transform, f, v, args, order, 40, 20, ind) for v in S]
        ctx.step()
        ok = not isinstance(got, Raised) and got.shape == (len(S),) and all(not isinstance(e, Raised) and abs(e[0] - g) <= 1e-12 for e, g in zip(each, got))
        ctx.check(ok, "vhankel_transform of many points differs from one at a time", dict(f=name, order=order, a=a, ind=ind), "%r %r" % (got, each))
        if ok and ind in (None, 4):
            want = np.array([ex(v, a, order) for v in S])
            ctx.check(close(got, want, 1e-5, 1e-5), "vhankel_transform", dict(f=name, order=order, a=a, ind=ind), "%r want %r" % (got, want))


class Scaled(object):
    def __init__(self, k):
        self.k = k

    def __call__(self, r, a):
        return self.k * np.exp(-a * r)

    def method(self, r, a):
        return self(r, a)


def hankel_pictures(ctx):
    """the integrand drawn is the one integrated, with its zeros and break points marked, for any kind of function"""
    import functools
    import matplotlib.pyplot as plt
    from scipy.special import jv, jn_zeros
    from geotecha.mathematics import hankel as H
    f0 = lambda r, a: np.exp(-a * r)
    for f, k in ((f0, 1.), (functools.partial(lambda k, r, a: k * np.exp(-a * r), 2.), 2.), (Scaled(3.), 3.), (Scaled(.5).method, .5)):
        for order in (0, 1, 3):
            for points in (None, [.5, 1., 900.], (-1., .7)):
                for m in (2, 12):
                    for s in (.4, 3.):
                        for npts in (None, 40):
                            ht = H.HankelTransform(f, (1.3,), order, m, points)
                            before = call(ht, s)
                            fig = call(ht.plot_integrand, s, *([] if npts is None else [npts]))
                            ctx.step()
                            ctx.state((k, order, str(points), m, s, npts))
                            case = dict(function=repr(f)[:40], order=order, points=points, m=m, s=s, npts=npts)
                            if not ctx.check(not isinstance(fig, Raised), "integrand not drawn", case, repr(fig)):
                                continue
                            ls = fig.axes[0].get_lines()
                            z = np.append(0, jn_zeros(order, m)) / s
                            z = sorted(set(z) | set(p for p in (points or ()) if 0 < p < z[-1]))
                            x, y = np.asarray(ls[0].get_xdata()), np.asarray(ls[0].get_ydata())
                            ctx.check(len(ls) == 2 and len(x) == (npts or 1000) and x[0] < .01 and abs(x[-1] - z[-1]) < 1e-9 and close(y, x * k * np.exp(-1.3 * x) * jv(order, s * x), 1e-9, 1e-12),
                                      "integrand drawn differs", case, "")
                            ctx.check(close(ls[1].get_xdata(), z, 1e-9, 1e-12) and not np.any(ls[1].get_ydata()), "zeros drawn differ", case, ls[1].get_xdata())
                            ctx.check(call(ht, s) == before, "drawing changed the transform", case, "")
                            plt.close(fig)
    ctx.trace()


def hankel_limits(ctx, item):
    """functions that vanish outside [a, b]; slowly decaying functions"""
    from geotecha.mathematics import hankel as H
    from scipy.special import jv
    order, m = item
    # int r^(order+1) J_order(s r) dr = r^(order+1) J_(order+1)(s r) / s
    f = lambda r: r ** order
    for s in (0.01, 0.3, 1, 4.0, 11.0):
        for lo, hi in ((0, 1.0), (0, 2), (0.5, 2.0), (1, 30), (3.0, 3.5), (0, 40), (5.0, 5.001)):
            for pts in (None, [1.0, 1.5], [20.0]):
                if order == 0 and m == 1 and pts:
                    continue
                P = lambda r: r ** (order + 1) * jv(order + 1, s * r) / s if r else 0.0
                want = P(hi) - P(lo)
                got = call(H.HankelTransform(f, order=order, m=m, points=pts), s, lo, hi)
                ctx.step()
                ctx.state((order, m, s, lo, hi, pts is None))
                ok = not isinstance(got, Raised) and abs(got[0] - want) <= 1e-7 * max(1, hi ** (order + 1))
                ctx.check(ok, "HankelTransform between limits", dict(order=order, m=m, s=s, a=lo, b=hi, points=pts), "%r want %r" % (got, want))
    ctx.trace()
    if order == 0 and m >= 20:
        for s in (0.5, 1, 3.0):
            for ind in (0, 2, 5):
                got = call(H.HankelTransform(lambda r: 1 / r, m=m, shanks_ind=ind), s)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and abs(got[0] - 1 / s) < 1e-4, "HankelTransform accelerated", dict(s=s, ind=ind, m=m), repr(got))
                got = call(H.HankelTransform(lambda r: 1 / r, m=m, shanks_ind=ind), s, 0, 2.0)
                x, w = np.polynomial.legendre.leggauss(60)
                want = np.sum(w * jv(0, s * (x + 1)))
                ctx.check(not isinstance(got, Raised) and abs(got[0] - want) < 1e-7, "HankelTransform accelerated between limits", dict(s=s, ind=ind, m=m), repr(got))


# ---------------------------------------------------------------- Laplace
def laplace_pairs():
    from scipy.special import erfc, jv
    return {"one": (lambda s: 1 / s, lambda t: 1 + 0 * t, 0), "ramp": (lambda s: 1 / s ** 2, lambda t: t, 0), "t3": (lambda s: 6 / s ** 4, lambda t: t ** 3, 0),
            "exp": (lambda s, a=2.0: 1 / (s + a), lambda t, a=2.0: np.exp(-a * t), 0), "texp": (lambda s, a=2.0: 1 / (s + a) ** 2, lambda t, a=2.0: t * np.exp(-a * t), 0),
            "step": (lambda s, a=2.0: a / s / (s + a), lambda t, a=2.0: 1 - np.exp(-a * t), 0),
            "sin": (lambda s: 1 / (s ** 2 + 1), lambda t: np.sin(t), 0), "cos": (lambda s: s / (s ** 2 + 1), lambda t: np.cos(t), 0),
            "root": (lambda s: s ** -0.5, lambda t: (math.pi * t) ** -0.5, 0), "erfc": (lambda s: np.exp(-s ** 0.5) / s, lambda t: erfc(0.5 / t ** 0.5), 0),
            "grow": (lambda s: 1 / (s - 1), lambda t: np.exp(t), 1.0), "sinh": (lambda s: 1 / (s ** 2 - 1), lambda t: np.sinh(t), 1.5)}


def laplace_case(ctx, item):
    from geotecha.mathematics.laplace import Talbot
    name, n = item
    F, f, shift = laplace_pairs()[name]
    one = lambda s, *a: complex(F(complex(s), *a))
    T = [0.1, 0.5, 1.0, 1.7, 2.2]
    tol = 1e-3 if name in ("sin", "cos") else 1e-6      # poles off the real axis
    for args in ((), (3.0,)) if F.__defaults__ else ((),):
        for vec in (True, False):
            ilt = call(Talbot, F if vec else one, n, shift, vec)
            whole = call(ilt, np.array(T), args)
            want = np.array([f(t, *args) for t in T])
            ctx.step()
            ctx.state((name, n, args, vec))
            case = dict(f=name, n=n, args=args, vectorized=vec)
            ok = not isinstance(whole, Raised)
            ctx.check(ok and close(whole, want, tol, tol), "Talbot", case, "%r want %r" % (whole, want))
            for i, t in enumerate(T):
                got = call(ilt, t, args)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and np.ndim(got) == 0 and ok and abs(got - whole[i]) <= 1e-12 * (1 + abs(whole[i])), "Talbot of many times differs from one at a time", dict(case, t=t), "%r" % (got,))
            back = call(ilt, list(reversed(T)), args)
            ctx.check(not isinstance(back, Raised) and ok and close(back[::-1], whole, 1e-13, 1e-14), "Talbot depends on the order of times", case, repr(back))
            ints = call(ilt, [1, 2, 3], args)
            ctx.check(not isinstance(ints, Raised) and close(ints, [f(float(t), *args) for t in (1, 2, 3)], tol, tol), "Talbot of whole times", case, repr(ints))
            for bad in (0, [1.0, 0.0], np.array([0.0])):
                r = call(ilt, bad, args)
                ctx.check(isinstance(r, Raised) and r.type == "ValueError", "Talbot at time zero", case, repr(r))
            if n % 2:
                r = call(call(Talbot, F if vec else one, n + 1, shift, vec), np.array(T), args)
                ctx.check(not isinstance(r, Raised) and ok and close(r, whole, 1e-12, 1e-13), "odd number of points", case, "%r %r" % (r, whole))
    ctx.trace()


def mp_case(ctx, item):
    import mpmath
    from geotecha.mathematics.mp_laplace import Talbot
    name, n, dps = item
    M = {"one": (lambda s: 1 / s, lambda t: mpmath.mpf(1), 0), "exp": (lambda s, a=2: 1 / (s + a), lambda t: mpmath.exp(-2 * t), 0), "ramp": (lambda s: 1 / s ** 2, lambda t: t, 0),
         "sin": (lambda s: 1 / (s ** 2 + 1), mpmath.sin, 0), "grow": (lambda s: 1 / (s - 1), mpmath.exp, 1)}
    F, f, shift = M[name]
    old = mpmath.mp.dps
    try:
        ilt = call(Talbot, F, n, shift, dps)
        if not ctx.check(not isinstance(ilt, Raised) and ilt.dps == dps, "mp Talbot precision", dict(f=name, n=n, dps=dps), repr(ilt)):
            return
        T = [0.5, 1.0, 2.0]
        whole = call(ilt, np.array(T))
        tol = 10 ** (-min(dps, {24: 10, 48: 22, 25: 10}[n]) + 2) * (1e4 if name == "sin" else 1)
        for i, t in enumerate(T):
            got = call(ilt, t)
            ctx.step()
            ctx.state((name, n, dps, t))
            ctx.check(not isinstance(got, Raised) and abs(got - f(mpmath.mpf(t))) < tol * 10, "mp Talbot", dict(f=name, n=n, dps=dps, t=t), "%r want %r" % (got, f(mpmath.mpf(t))))
            ctx.check(not isinstance(got, Raised) and not isinstance(whole, Raised) and abs(whole[i] - got) < tol * tol + 10 ** (3 - dps), "mp Talbot of many times differs from one at a time", dict(f=name, n=n, dps=dps, t=t), "%r %r" % (got, whole))
        ctx.trace()
    finally:
        mpmath.mp.dps = old


# ---------------------------------------------------------------- many variables
def multi_cases():
    """(transforms, kinds of factor)"""
    four = ["Fourier", "Fourier_inverse"]
    firsts = ["Hankel", "Hankel_inverse", "Laplace_inverse"]
    out = [(t,) for t in four + firsts]
    out += [(a, b) for a in four for b in four]
    out += [(a, b) for a in firsts for b in four]
    out += [("Laplace_inverse", "Laplace_inverse"), ("Hankel", "Laplace_inverse")]
    return out


ONE = {  # transform -> factor, exact, options
    "Fourier": (lambda x: np.exp(-(x - 1) ** 2 / 2.), lambda s: math.sqrt(2 * math.pi) * math.exp(-s * s / 2) * np.exp(-1j * s), dict(b=9.0)),
    "Fourier_inverse": (lambda x: np.exp(-x * x / 2. + 0j * x), lambda s: math.exp(-s * s / 2) / math.sqrt(2 * math.pi), dict(b=9.0, real_part_even=True, imag_part_even=True)),
    "Hankel": (lambda r: np.exp(-r * r), lambda s: 0.5 * math.exp(-s * s / 4), {}),
    "Hankel_inverse": (lambda r: np.exp(-2 * r), lambda s: 2 / (s * s + 4) ** 1.5, dict(m=30)),
    "Laplace_inverse": (lambda p: 1 / (p + 2.0), lambda t: math.exp(-2 * t), {})}


def multi_case(ctx, trs):
    from geotecha.mathematics.multi_transform import ntransform
    n = len(trs)
    base = []
    for i, t in enumerate(trs):
        o = dict(ONE[t][2])
        if t == "Laplace_inverse" and i > 0:
            o["vectorized"] = False
        base.append(o)
    forms = [("list", list(base)), ("tuple", tuple(dict(o) for o in base)), ("calls", [lambda *a, o=o: o for o in base]),
             ("mixed", [(lambda *a, o=o: o) if i % 2 else o for i, o in enumerate(base)])]
    if all(o == base[0] for o in base):
        forms.append(("dict", dict(base[0])))
        if not base[0]:
            forms += [("none", None)]
    for form, opts in forms:
        for vals in itertools.product((0.5, 1.2), repeat=n) if form == "list" or n == 1 else [(0.5, 1.2)]:
            for args in ((), (3.0,)) if n == 1 or form == "list" and vals[0] != vals[1] else ((3.0,),):
                def f(*x):
                    k = x[n] if len(x) > n else 1.0
                    r = k
                    for t, v in zip(trs, x):
                        r = r * ONE[t][0](v)
                    return r
                tv = list(vals)
                got = call(ntransform, f, trs if form != "tuple" else list(trs), tv, args or None, opts)
                want = (args[0] if args else 1.0)
                for t, v in zip(trs, vals):
                    want = want * ONE[t][1](v)
                ctx.step()
                ctx.state((trs, form, vals, args))
                ctx.check(not isinstance(got, Raised) and abs(got[0] - want) < 1e-6 and got[1] >= 0, "ntransform", dict(transforms=trs, opts=form, at=vals, args=args), "%r want %r" % (got, want))
                ctx.check(tv == list(vals) and (form != "list" or opts == base), "inputs altered", dict(transforms=trs, opts=form), "")
    ctx.trace()


def multi_order(ctx, item):
    """first variable goes with the first transform: functions that are not products"""
    from geotecha.mathematics.multi_transform import ntransform
    A = np.array(item[0])
    s = np.array(item[1])
    Ai = np.linalg.inv(A)
    want = math.pi / math.sqrt(np.linalg.det(A)) * math.exp(-s.dot(Ai).dot(s) / 4)
    seen = []

    def opt0(*args):
        seen.append(args)
        return dict(b=8.0)
    got = call(ntransform, lambda x, y, k: k * np.exp(-(A[0, 0] * x * x + 2 * A[0, 1] * x * y + A[1, 1] * y * y)), ["Fourier", "Fourier"], list(s), (1.0,), [opt0, dict(b=8.0)])
    ctx.step()
    ctx.state(item)
    ctx.trace()
    ctx.check(not isinstance(got, Raised) and abs(got[0] - want) < 1e-6, "ntransform of two variables", dict(A=item[0], s=item[1]), "%r want %r" % (got, want))
    ctx.check(bool(seen) and all(len(a) == 2 and a[1] == 1.0 for a in seen), "option function arguments", dict(A=item[0]), repr(seen[:2]))
    # forward then inverse: the function itself
    if item[1] == (0.5, 1.0):
        got = call(ntransform, lambda x, w: np.exp(-x * x + x) * 1.0, ["Fourier"], [0.7], (2.0,), [dict(b=9.0)])
        ctx.check(not isinstance(got, Raised), "ntransform with an unused argument", dict(), repr(got))


def multi_refused(ctx):
    from geotecha.mathematics.multi_transform import ntransform
    for trs, tv, kind in ((["Fourier"], [1, 2], "AssertionError"), (["Fourier", "Fourier"], [1], "AssertionError"), (["Fourier"], 1.0, "TypeError")):
        r = call(ntransform, lambda *a: 1.0, trs, tv)
        ctx.step()
        ctx.state((tuple(trs), str(tv)))
        ctx.check(isinstance(r, Raised) and r.type == kind, "mismatched transforms accepted", dict(transforms=trs, transvars=tv), repr(r))


def run(ctx):
    on = lambda g: not ctx.only or ctx.only in g
    if on("quadrature"):
        with ctx.group("quadrature"):
            ctx.parallel(quad_case, [("gl", n) for n in GL] + [("gk", n) for n in GK])
            quad_refused(ctx)
    if on("shanks"):
        with ctx.group("shanks"):
            ctx.parallel(shanks_case, [(L, r, n) for L in (0.0, 2.0, -7.5) for r in (0.5, -0.5, 0.9, -0.9, 1 / 3., 0.1, -0.99, 2, -2, 3, -3, 1.5) for n in range(3, 14 if ctx.thorough else 10)])
    if on("cosine"):
        with ctx.group("cosine"):
            ctx.parallel(cos_case, [(n, a) for n in half_line() for a in (0.8, 1.5, 3.0)])
            forms_case(ctx)
    if on("fourier"):
        with ctx.group("fourier"):
            P = list(parts())
            ctx.parallel(fourier_case, [(r, i) for r in P for i in P] if ctx.thorough else [(r, i) for j, r in enumerate(P) for k, i in enumerate(P) if r == "zero" or i == "zero" or (j + k) % 3 == 0])
    if on("hankel"):
        with ctx.group("hankel"):
            ctx.parallel(hankel_case, [(n, o, a) for n, p in hankel_pairs().items() for o in p[1] for a in (1.0, 2.0)])
            ctx.parallel(hankel_limits, [(o, m) for o in (0, 1, 2, 3) for m in (1, 2, 3, 5, 20, 40)])
            hankel_pictures(ctx)
    if on("laplace"):
        with ctx.group("laplace"):
            ctx.parallel(laplace_case, [(n, k) for n in laplace_pairs() for k in (20, 21, 23, 24, 25, 30)])
            ctx.parallel(mp_case, [(f, n, d) for f in ("one", "exp", "ramp", "sin", "grow") for n, d in ((24, 15), (25, 20), (48, 30))])
    if on("multi"):
        with ctx.group("multi"):
            ctx.parallel(multi_case, multi_cases())
            ctx.parallel(multi_order, [(A, s) for A in (((1.0, 0.3), (0.3, 2.0)), ((1.5, -0.4), (-0.4, 1.0)), ((1.0, 0.0), (0.0, 3.0))) for s in ((0.5, 1.0), (1.0, -0.5), (0.0, 2.0))])
            multi_refused(ctx)
