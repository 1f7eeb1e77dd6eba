"""C23 root finding returns the first roots in order, each once.

Every arrangement of one to four roots of a lattice x function shape x start x step x growth whose
roots are further apart than the largest step the search can reach."""
import functools
import itertools
import math
import warnings
import numpy as np
import scipy.special
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of root arrangements x function shapes x starts x steps x growths executed on the real search with a budget of function calls, "
             "each result compared with the known roots; iteration maps x starts for the fixed point")
BOUNDS = ("all sets of 1-4 of 7 (thorough 8) lattice roots, 9 shapes, 3 starts, 4 (5) steps, 3 growths, shifts; 4 other units of length (also for the fixed point); special functions up to 39 roots; poles, jumps, no roots, "
          "start on a root; fixed point: 6 maps x starts x scalar/1-d/2-d")
BUDGET = 300000


class Budget(Exception):
    pass


def counted(f, N=BUDGET):
    c = [0]

    def g(x, *a):
        c[0] += 1
        if c[0] > N:
            raise Budget("more than %d evaluations" % N)
        return f(x, *a)
    return g


def finder():
    from geotecha.mathematics import root_finding
    return root_finding


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return call(f, *a, **k)


def prod(r):
    return lambda x: functools.reduce(lambda a, q: a * (x - q), r, 1.0)


SHAPES = {
    "polynomial": prod,
    "scaled down": lambda r: (lambda x: 1e-9 * prod(r)(x)),
    "scaled up": lambda r: (lambda x: -1e9 * prod(r)(x)),
    "steep": lambda r: (lambda x: np.sinh(3 * prod(r)(x))),
    "flat ends": lambda r: (lambda x: np.tanh(5 * prod(r)(x))),
    "cubed": lambda r: (lambda x: prod(r)(x) ** 3),
    "decaying": lambda r: (lambda x: np.exp(-2 * x) * prod(r)(x)),
    "growing": lambda r: (lambda x: np.exp(2 * x) * prod(r)(x)),
    "wavy": lambda r: (lambda x: (1.2 + np.sin(40 * x)) * prod(r)(x)),
}
LATTICE = (.25, .5, 1., 1.5, 2., 3., 4.)


def lattice_case(ctx, item):
    shape, k, thorough = item
    mk = SHAPES[shape]
    tol = 1e-3 if shape == "cubed" else 1e-6
    f = finder().find_n_roots
    for r in itertools.combinations(LATTICE + ((5.5,) if thorough else ()), k):
        for x0, dx, p, sh in itertools.product((-1., 0., .1), (.01, .0625, .1, .2) + ((.33,) if thorough else ()), (1., 1.01, 1.1), (0., -.6)):
            rr = [q + sh for q in r]
            if rr[0] <= x0 + 1e-9:
                continue
            biggest = p * (dx + (p - 1) * (rr[-1] - x0))
            if min([rr[0] - x0] + [b - a for a, b in zip(rr, rr[1:])]) <= biggest:
                continue
            for n in ((k,) if k == 1 else (k, k - 1)):
                z = quiet(f, counted(mk(rr)), n=n, x0=x0, dx=dx, p=p, max_iter=20000)
                case = dict(shape=shape, roots=rr, n=n, x0=x0, dx=dx, p=p)
                ctx.step()
                ok = not isinstance(z, Raised) and np.shape(z) == (n,)
                if ctx.check(ok, "no answer", case, repr(z)):
                    ctx.check(np.all(np.diff(z) > 0), "order or duplicate", case, "%s" % z)
                    ctx.check(np.allclose(z, rr[:n], rtol=0, atol=tol), "wrong roots", case, "%s" % z)
                ctx.trace()
            ctx.state((shape, r, x0, dx, p, sh))


def units_case(ctx, item):
    """the same arrangements in other units of length"""
    shape, k, lam, thorough = item
    mk = SHAPES[shape]
    tol = 1e-3 if shape == "cubed" else 1e-6
    f = finder().find_n_roots
    for r in itertools.combinations(LATTICE if thorough else LATTICE[:6], k):
        g = mk(list(r))
        for x0, dx, p in itertools.product((-1., .1), (.01, .1, .2), (1., 1.05)):
            biggest = p * (dx + (p - 1) * (r[-1] - x0))
            if min([r[0] - x0] + [b - a for a, b in zip(r, r[1:])]) <= biggest * (1 + 1e-9):
                continue
            z = quiet(f, counted(lambda x: g(x / lam)), n=k, x0=x0 * lam, dx=dx * lam, p=p, max_iter=20000)
            case = dict(shape=shape, roots=r, times=lam, x0=x0, dx=dx, p=p)
            ctx.step()
            if shape == "cubed" and isinstance(z, Raised) and z.type == "RuntimeError":
                ctx.outcome("refused")  # a multiple root the bracketing search may not settle on
                continue
            if ctx.check(not isinstance(z, Raised) and np.shape(z) == (k,), "no answer in other units", case, repr(z)):
                ctx.check(np.all(np.diff(z) > 0) and np.allclose(z / lam, r, rtol=0, atol=tol), "wrong roots in other units", case, "%s" % (z / lam))
            ctx.trace()
            ctx.state((shape, r, lam, x0, dx, p))


def special_items():
    pi = np.pi
    c = np.arange(1, 40)

    def bracketed(g, los, his):
        import scipy.optimize
        return np.array([scipy.optimize.brentq(g, a, b, xtol=1e-13) for a, b in zip(los, his)])
    out = [("sin", math.sin, (), c * pi), ("cos", np.cos, (), (c - .5) * pi), ("J0", scipy.special.j0, (), scipy.special.jn_zeros(0, 39)),
           ("J2", lambda x: scipy.special.jn(2, x), (), scipy.special.jn_zeros(2, 39)), ("Y1", scipy.special.y1, (), scipy.special.y1_zeros(39)[0].real)]
    for a, b in ((1., 0.), (2.5, .3), (.4, 1.)):
        out.append(("sin(a x + b)", lambda x, a, b: np.sin(a * x + b), (a, b), (c * pi - b) / a))
    for h in (.1, 1., 10.):
        g = lambda x, h=h: x * np.sin(x) - h * np.cos(x)
        out.append(("x sin x = h cos x", lambda x, h: x * np.sin(x) - h * np.cos(x), (h,), bracketed(g, (c - 1) * pi + 1e-12, (c - .5) * pi)))
        out.append(("object", functools.partial(lambda h, x: x * np.sin(x) - h * np.cos(x), h), (), bracketed(g, (c - 1) * pi + 1e-12, (c - .5) * pi)))
    out.append(("cos cosh = 1 (scaled)", lambda x: np.cos(x) - 1 / np.cosh(x), (), bracketed(lambda x: np.cos(x) - 1 / np.cosh(x), (c + .5) * pi - .1, (c + .5) * pi + .1)))
    out.append(("tan (poles)", np.tan, (), c * pi))
    out.append(("cot (poles)", lambda x: 1 / np.tan(x), (), (c - .5) * pi))
    out.append(("tan x - x", lambda x: np.tan(x) - x, (), bracketed(lambda x: np.sin(x) - x * np.cos(x), c * pi, (c + .5) * pi)))
    out.append(("pole then root", lambda x: (x - 2.) / np.float64(x - 1.), (), np.array([2.])))
    out.append(("jump then root", lambda x: (x - 2.) if x > 1 else 1., (), np.array([2.])))
    return out


def special_case(ctx, i):
    name, g, args, roots = special_items()[i]
    f = finder().find_n_roots
    gap = min(roots[0], np.min(np.diff(roots))) if len(roots) > 1 else .9
    for n, x0, dx, p in itertools.product((1, 2, 3, 5, 12, 21, 39), (.001, .01, .3), (.001, .01, .05, .1, .3), (1., 1.01, 1.05)):
        if n > len(roots) or n > 20 and (x0 != .01 or p != 1.05 and not ctx.thorough):
            continue
        r = roots[roots > x0 + 1e-9][:n]
        if n > 5 and (dx == .001 or p == 1.):  # the step is halved at every root: needs too many steps
            continue
        poles = "pole" in name or "tan x" in name
        biggest = p * (dx + (p - 1) * (r[-1] - x0))
        near = .04 if poles or "jump" in name else 1.
        if biggest >= near * min([gap, r[0] - x0] + list(np.diff(r))):
            continue
        if name.startswith("cos cosh") and x0 < .3:
            continue  # vanishes to fourth order at the origin
        case = dict(function=name, args=args, n=n, x0=x0, dx=dx, p=p)
        z = quiet(f, counted(g), args, n=n, x0=x0, dx=dx, p=p, max_iter=200000)
        y = quiet(f, counted(g), args, n=n, x0=x0, dx=dx, p=p, max_iter=200000)
        ctx.step(2)
        if ctx.check(not isinstance(z, Raised), "no answer", case, repr(z)):
            ctx.check(np.all(np.diff(z) > 0), "order or duplicate", case, "%s" % z)
            ctx.check(np.allclose(z, r, rtol=1e-7, atol=1e-6), "wrong roots", case, "%s should be %s" % (z, r))
            ctx.check(np.array_equal(z, y), "second search differs", case, "%s %s" % (z, y))
        ctx.trace()
        ctx.state((name, args, n, x0, dx, p))
    if len(roots) > 1 and "pole" not in name and .01 < roots[0] < 1.9 and not name.startswith("cos cosh"):
        z = quiet(f, counted(g), args)
        ctx.check(not isinstance(z, Raised) and np.allclose(z, roots[:1], rtol=1e-7) and np.shape(z) == (1,), "default call", dict(function=name), repr(z))


def refuse_case(ctx, item):
    name, x0, dx, p = item
    f = finder().find_n_roots
    g = {"none": lambda x: np.exp(-x) + 1, "touching": lambda x: (x - 2.) ** 2 + 1e-3, "jump": lambda x: 1. if x < 2.1 else -1., "pole": lambda x: 1 / (x - 2.137),
         "nan": lambda x: np.nan, "object": functools.partial(lambda a, x: x + a, 10.), "one of two": lambda x: x - 1.7}[name]
    for n in (1, 2):
        if name == "one of two" and n == 1:
            continue
        case = dict(function=name, n=n, x0=x0, dx=dx, p=p)
        z = quiet(f, counted(g), n=n, x0=x0, dx=dx, p=p, max_iter=300)
        ctx.step()
        ctx.check(isinstance(z, Raised) and z.type != "Budget", "answer without a root", case, repr(z))
        ctx.check(not isinstance(z, Raised) or z.type in ("ValueError", "OverflowError", "ZeroDivisionError"), "unclear refusal", case, repr(z))
        ctx.trace()
        ctx.state((name, x0, dx, p, n))


def onroot_case(ctx, item):
    """start exactly on a root: the roots to the right, or a refusal, but no hang, duplicate or non-root"""
    shape, r, dx, p = item
    g = SHAPES[shape](list(r))
    for n in range(1, len(r) + 1):
        z = quiet(finder().find_n_roots, counted(g), n=n, x0=r[0], dx=dx, p=p)
        case = dict(shape=shape, roots=r, n=n, x0=r[0], dx=dx, p=p)
        ctx.step()
        if isinstance(z, Raised):
            ctx.check(z.type == "ValueError", "hangs or fails obscurely", case, repr(z))
        else:
            ctx.check(np.all(np.diff(z) > 0) and all(min(abs(q - s) for s in r) < 1e-3 for q in z), "order, duplicate or not a root", case, "%s" % z)
        ctx.trace()
    ctx.state(item)


def fixed_case(ctx, item):
    name, start, form = item
    maps = {"cos": (np.cos, (), 1.), "sqrt": (lambda x, a, b: np.sqrt(a / (x + b)), (10., 3.), 1.), "half": (lambda x: x * .5 + 1, (), .5), "negative": (lambda x: .3 * x - 2, (), .5),
            "zero": (lambda x: x * .25, (), 1.), "double": (lambda x: 2 * x + 1., (), None), "flip": (lambda x: 1. - x, (), None)}
    g, args, L = maps[name]
    x0 = {"scalar": start, "list": [start, start + .5], "array": np.array([start, 1., start + .25]), "column": np.array([[start], [start + 1.]]), "zero-d": np.array(start)}[form]
    keep = np.array(x0, dtype=float)
    for xtol, maxiter in itertools.product((1e-4, 1e-8, 1e-12), (5, 60, 500)):
        case = dict(map=name, x0=x0, xtol=xtol, maxiter=maxiter)
        r = quiet(finder().fixed_point_no_accel, g, x0, args=args, xtol=xtol, maxiter=maxiter)
        ctx.step()
        if isinstance(r, Raised):
            ctx.check(r.type == "RuntimeError", "unclear refusal", case, repr(r))
            ctx.check(L is None or maxiter < 500 or (name == "zero"), "converging map refused", case, repr(r))
        else:
            d = np.abs(g(np.asarray(r), *args) - r)
            ctx.check(np.shape(r) == np.shape(x0) and np.all(d <= xtol * 1.01 * np.maximum(np.abs(r), xtol)) or name == "zero" and np.all(np.abs(r) < 1e-3) and np.shape(r) == np.shape(x0),
                      "not a fixed point", case, "%s maps to %s" % (r, g(np.asarray(r), *args)))
            ctx.check(L is not None or np.all(d == 0), "diverging map answered", case, repr(r))
        ctx.check(np.array_equal(keep, np.array(x0, dtype=float)), "start altered", case, "")
        ctx.trace()
    ctx.state(item if form == "scalar" else (name, start, form))


def fixed_units_case(ctx, item):
    """the same maps in other units: the iterates are scaled and nothing else changes"""
    name, start, u = item
    maps = {"cos": np.cos, "sqrt": lambda x: np.sqrt(10. / (x + 3.)), "half": lambda x: x * .5 + 1, "negative": lambda x: .3 * x - 2}
    g = maps[name]
    for form, xtol in itertools.product((0, 1), (1e-4, 1e-9)):
        x0 = start if not form else np.array([start, 1.])
        want = quiet(finder().fixed_point_no_accel, g, x0, xtol=xtol)
        got = quiet(finder().fixed_point_no_accel, lambda x: u * g(x / u), x0 * u, xtol=xtol)
        ctx.step()
        case = dict(map=name, x0=x0, unit=u, xtol=xtol)
        if ctx.check(not isinstance(got, Raised) and not isinstance(want, Raised), "converging map refused in other units", case, repr(got)):
            ctx.check(np.all(np.abs(got / u - want) <= 5 * xtol * np.abs(want)), "fixed point depends on the units", case, "%r %r" % (got / u, want))
        ctx.trace()
    ctx.state(item)


def run(ctx):
    on = lambda g: not ctx.only or ctx.only in g
    if on("arrangements"):
        with ctx.group("arrangements"):
            ctx.parallel(lattice_case, [(s, k, ctx.thorough) for s in SHAPES for k in (4, 3, 2, 1)])
    if on("units"):
        with ctx.group("units"):
            ctx.parallel(units_case, [(s, k, lam, ctx.thorough) for s in SHAPES if s != "growing" for k in (4, 2, 1) for lam in (1e-5, 1e-3, 1e3, 1e6)])
    if on("special"):
        with ctx.group("special"):
            ctx.parallel(special_case, range(len(special_items())))
    if on("refused"):
        with ctx.group("refused"):
            ctx.parallel(refuse_case, list(itertools.product(("none", "touching", "jump", "pole", "nan", "object", "one of two"), (0., .3, 1.), (.01, .1, .25), (1., 1.05))))
    if on("start on a root"):
        with ctx.group("start on a root"):
            ctx.parallel(onroot_case, [(s, r, dx, p) for s in SHAPES for r in ((1.,), (1., 2.), (0., 1.), (.5, 1., 1.5, 3.)) for dx in (.01, .125, .2) for p in (1., 1.05)])
    if on("fixed units"):
        with ctx.group("fixed units"):
            ctx.parallel(fixed_units_case, [(m, s, u) for m in ("cos", "sqrt", "half", "negative") for s in (.5, 1., 7.) for u in (2. ** -40, 2. ** -30, 2. ** 10, 2. ** 30)])
    if on("fixed point"):
        with ctx.group("fixed point"):
            ctx.parallel(fixed_case, [(m, s, f) for m in ("cos", "sqrt", "half", "negative", "zero", "double", "flip") for s in (0., .5, 1., 7.) for f in ("scalar", "list", "array", "column", "zero-d")])
