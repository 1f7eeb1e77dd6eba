"""C01 polyline arithmetic.

Space A (inputs): every ordered pair of small polylines (steps anywhere, disjoint,
touching and nested ranges, reversed listing) under + and -, every scalar operation.
Space B (histories): every sequence of operations and view reads up to a depth over a
pool of live objects that share arrays, replayed on fresh real objects; after each
history every object in the pool is compared with the reference function.
"""
import itertools
import operator
import numpy as np
from mc.core import call, Raised
from mc import pw

LEVEL = "model_checking"
BOUNDS = "polylines of up to 4 points on a 3x3 lattice (8x magnified, shifted); histories up to 3 (quick) or 4 operations; pairs of patterned polylines of 6-40 (150) points; steps small beside the values"
ASSUMPTIONS = ["x positions closer than the documented comparison tolerance (1e-5) are not explored"]


def shapes_for(tier_thorough):
    s = list(pw.shapes([2, 3], (0., 1., 2.), (-1., 0., 2.)))
    s4 = list(pw.shapes([4], (0., 1., 2.), (0., 2.)))
    return s, s4


def build(PolyLine, x, y, form):
    if form == 0:
        return PolyLine(list(x), list(y))
    if form == 1:
        return PolyLine(np.array(list(zip(x, y)), dtype=float))
    if form == 2:
        return PolyLine(list(x)[::-1], list(y)[::-1])
    if form == 3:   # layered form; end steps cannot be given this way
        i = [k for k in range(len(x) - 1) if x[k] != x[k + 1]]
        return PolyLine([x[k] for k in i], [x[k + 1] for k in i], [y[k] for k in i], [y[k + 1] for k in i])


def layered_fn(f):
    """function described by the layered form of f (end steps lost)"""
    pts = []
    for (x0, y0), (x1, y1) in zip(f[:-1], f[1:]):
        if x0 != x1:
            pts += [(x0, y0), (x1, y1)]
    return tuple(pts)


def impl_fn(p):
    return pw.fn(p.x, p.y)


def combine(ctx, PolyLine, fa, fb, pa, pb, case, kindpre):
    for opn, op in (("add", operator.add), ("sub", operator.sub)):
        r = call(op, pa, pb)
        ctx.step()
        if isinstance(r, Raised):
            ctx.fail("%s:%s:raised" % (kindpre, opn), case, r)
            continue
        d = compare(fa, fb, r, op)
        ctx.outcome((opn, len(r.x)))
        ctx.check(d is None, "%s:%s" % (kindpre, opn), dict(case, op=opn, got=[list(map(float, r.x)), list(map(float, r.y))]), d)


def compare(fa, fb, r, op):
    g = call(impl_fn, r)
    if isinstance(g, Raised):
        return "result is not monotone: %r" % (r,)
    lo, hi = min(fa[0][0], fb[0][0]), max(fa[-1][0], fb[-1][0])
    if abs(g[0][0] - lo) > 1e-9 or abs(g[-1][0] - hi) > 1e-9:
        return "range %r..%r expected %r..%r" % (g[0][0], g[-1][0], lo, hi)
    for x in pw.crit(fa, fb, g):
        for s in "LR":
            want = op(pw.val(fa, x, s), pw.val(fb, x, s))
            got = pw.val_tol(g, x, s)
            if not abs(got - want) <= 1e-9 * (1 + abs(want)):
                return "at x=%r%s got %r want %r" % (x, s, got, want)
    return None


def pairs(ctx, item):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    A, B, shift, scale, yscale, fa_form, fb_form, lo, hi = item
    for (xa, ya) in A[lo:hi]:
        xa_, ya_ = [v * scale for v in xa], [v * yscale for v in ya]
        fa = pw.fn(xa_, ya_)
        pa0 = build(PolyLine, xa_, ya_, fa_form)
        for (xb, yb) in B:
            xb_ = [v * scale + shift for v in xb]
            yb_ = [v * yscale for v in yb]
            fb = pw.fn(xb_, yb_)
            pb = build(PolyLine, xb_, yb_, fb_form)
            ctx.state((tuple(xa_), tuple(ya_), tuple(xb_), tuple(yb_), fa_form, fb_form))
            case = dict(a=[xa_, ya_], b=[xb_, yb_], forms=[fa_form, fb_form])
            combine(ctx, PolyLine, layered_fn(fa) if fa_form == 3 else fa,
                    layered_fn(fb) if fb_form == 3 else fb, pa0, pb, case, "pair")
            ctx.trace()
        # the shared operand must still be what it was
        d = pw.same_function(impl_fn(pa0), layered_fn(fa) if fa_form == 3 else fa)
        ctx.check(d is None, "pair:operand changed", dict(a=[xa_, ya_]), d)
    if A:
        ctx.sample(dict(a=A[lo:hi][:1], b=B[:1], shift=shift))


SCALARS = (0, 1, -1, 2, 0.5, -3.0, np.float64(2.5), np.int64(3))


def scalars(ctx, shapes):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    for (x, y) in shapes:
        f = pw.fn(x, y)
        for form in (0, 1, 2, 3):
            if form == 3:
                f_ = layered_fn(f)
            else:
                f_ = f
            ctx.state((x, y, form, "s"))
            p = build(PolyLine, x, y, form)
            for c in SCALARS:
                cc = float(c)
                ops = [("p+c", lambda: p + c, lambda v: v + cc), ("p-c", lambda: p - c, lambda v: v - cc),
                       ("p*c", lambda: p * c, lambda v: v * cc)]
                if not isinstance(c, np.generic):   # numpy scalars broadcast over an object instead
                    ops += [("c+p", lambda: c + p, lambda v: cc + v), ("c-p", lambda: c - p, lambda v: cc - v),
                            ("c*p", lambda: c * p, lambda v: cc * v)]
                    if all(v != 0 for v in y):
                        # piecewise linear only at the nodes: compare the nodes
                        ops += [("c/p", lambda: c / p, None)]
                if c != 0:
                    ops += [("p/c", lambda: p / c, lambda v: v / cc)]
                for name, do, ref in ops:
                    r = call(do)
                    ctx.step()
                    case = dict(x=x, y=y, form=form, c=cc, op=name)
                    if isinstance(r, Raised) or not isinstance(r, PolyLine):
                        ctx.fail("scalar:%s:raised" % name, case, r)
                        continue
                    g = impl_fn(r)
                    if ref is None:
                        want = tuple((a, cc / b) for a, b in f_)
                        # nodes only (the layered form may merge equal points)
                        dd = None if {(a, round(b, 9)) for a, b in g} == {(a, round(b, 9)) for a, b in want} else "nodes %r want %r" % (g, want)
                    else:
                        dd = pw.same_function(g, tuple((a, ref(b)) for a, b in f_))
                    ctx.check(dd is None, "scalar:%s" % name, case, dd)
            d = pw.same_function(impl_fn(p), f_)
            ctx.check(d is None, "scalar:operand changed", dict(x=x, y=y, form=form), d)
            ctx.trace()


def views(ctx, shapes):
    """order of reading views, equality and repr"""
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    names = ("x", "y", "xy", "x1", "x2", "y1", "y2", "x1_x2_y1_y2")
    orders = list(itertools.permutations(("xy", "x", "x1", "y2"), 3)) + [tuple([n]) for n in names]
    for (x, y) in shapes:
        f = pw.fn(x, y)
        segs = [(a, b) for a, b in zip(f[:-1], f[1:]) if a[0] != b[0]]
        for form in (0, 1, 3):
            want_f = layered_fn(f) if form == 3 else f
            for order in orders:
                ctx.state((x, y, form, order))
                p = build(PolyLine, x, y, form)
                for n in order:
                    getattr(p, n)
                    ctx.step()
                case = dict(x=x, y=y, form=form, order=order)
                got = (list(p.x1), list(p.x2), list(p.y1), list(p.y2))
                wl = ([a[0] for a, b in segs], [b[0] for a, b in segs], [a[1] for a, b in segs], [b[1] for a, b in segs])
                ctx.check(got == wl, "views:layered", case, "%r want %r" % (got, wl))
                d = pw.same_function(pw.fn(p.x, p.y), want_f)
                ctx.check(d is None, "views:points", case, d)
                ctx.check(np.array_equal(p.xy, np.column_stack([p.x, p.y])), "views:xy", case, p.xy)
                t = p.x1_x2_y1_y2
                ctx.check([list(v) for v in t] == [list(v) for v in got], "views:tuple", case, t)
                ctx.trace()
            p = build(PolyLine, x, y, form)
            q = call(lambda: eval(repr(p), dict(np=np, PolyLine=PolyLine)))
            ctx.check(not isinstance(q, Raised) and q == p and not (q != p) and np.array_equal(q.xy, p.xy), "views:repr",
                      dict(x=x, y=y, form=form), lambda: repr(p))
            import copy
            for c in (copy.copy(p), copy.deepcopy(p)):
                ctx.check(c == p and not (c != p), "views:copy equal", dict(x=x, y=y, form=form))
            moved = PolyLine(list(p.x), [v + (1 if i == len(p.y) - 1 else 0) for i, v in enumerate(p.y)])
            ctx.check(moved != p and not (moved == p), "views:different compares equal", dict(x=x, y=y, form=form))
            longer = PolyLine(list(p.x) + [p.x[-1] + 1], list(p.y) + [0.])
            ctx.check(longer != p and not (p == longer), "views:longer compares equal", dict(x=x, y=y, form=form))


# ---- histories
INITS = [
    ((0., 1.), (1., 3.)),
    ((0., 0., 1.), (0., 2., 2.)),
    ((0., 1., 1., 2.), (4., 4., -1., 0.)),
    ((1., 2., 2.), (1., 1., 5.)),
    ((-1., 3.), (2., 2.)),
]


def run_history(PolyLine, init, forms, hist):
    """Replays a history; returns (pool of impl objects, pool of reference functions, sources)."""
    pool, ref, sources = [], [], []
    for k, (x, y) in enumerate(init):
        f = pw.fn(x, y)
        form = forms[k]
        if form == 1:
            src = np.array(list(zip(x, y)), dtype=float)
            p = PolyLine(src)
            sources.append((src, src.copy()))
        elif form == 4:
            i = [j for j in range(len(x) - 1) if x[j] != x[j + 1]]
            arrs = [np.array([x[j] for j in i]), np.array([x[j + 1] for j in i]),
                    np.array([y[j] for j in i]), np.array([y[j + 1] for j in i])]
            p = PolyLine(*arrs)
            sources += [(a, a.copy()) for a in arrs]
            f = layered_fn(f)
        else:
            a, b = np.array(x), np.array(y)
            p = PolyLine(a, b)
            sources += [(a, a.copy()), (b, b.copy())]
        pool.append(p)
        ref.append(f)
    for op in hist:
        name, i, j = op
        a, fa = pool[i], ref[i]
        if name == "+":
            b, fb = pool[j], ref[j]
            pool.append(a + b)
            ref.append(refop(fa, fb, operator.add))
        elif name == "-":
            b, fb = pool[j], ref[j]
            pool.append(a - b)
            ref.append(refop(fa, fb, operator.sub))
        elif name == "+c":
            pool.append(a + 2)
            ref.append(tuple((x, y + 2) for x, y in fa))
        elif name == "c-":
            pool.append(2 - a)
            ref.append(tuple((x, 2 - y) for x, y in fa))
        elif name == "*c":
            pool.append(a * 3)
            ref.append(tuple((x, y * 3) for x, y in fa))
        elif name == "/c":
            pool.append(a / 2)
            ref.append(tuple((x, y / 2) for x, y in fa))
        elif name == "+=":
            a += 1     # python rebinding: the old object must stay as it was
            pool.append(a)
            ref.append(tuple((x, y + 1) for x, y in fa))
        elif name == "sum":
            pool.append(sum(pool[:2]))
            ref.append(refop(ref[0], ref[1], operator.add))
        elif name == "x1":
            a.x1, a.y2
        elif name == "repr":
            repr(a), str(a)
    return pool, ref, sources


def refop(fa, fb, op):
    pts = []
    for x in sorted(set(p[0] for p in fa + fb)):
        pts.append((x, op(pw.val(fa, x, "L"), pw.val(fb, x, "L"))))
        pts.append((x, op(pw.val(fa, x, "R"), pw.val(fb, x, "R"))))
    return tuple(pts)


def histories(ctx, item):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    init, forms, depth = item
    seen = set()
    frontier = [()]
    while frontier:
        nxt = []
        for hist in frontier:
            r = call(run_history, PolyLine, init, forms, hist)
            ctx.step(len(hist))
            case = dict(init=init, forms=forms, history=hist)
            if isinstance(r, Raised):
                ctx.fail("history:raised:%s" % r.type, case, r)
                continue
            pool, ref, sources = r
            ok = True
            for k, (p, f) in enumerate(zip(pool, ref)):
                d = pw.same_function(impl_fn(p), f)
                ok &= ctx.check(d is None, "history:value", dict(case, object=k), d)
                segs = [(a, b) for a, b in zip(f[:-1], f[1:]) if a[0] != b[0]]
                g = pw.fn(np.column_stack([p.x1, p.x2]).ravel(), np.column_stack([p.y1, p.y2]).ravel())
                d = pw.same_function(g, layered_fn(f))
                ok &= ctx.check(d is None, "history:layer view", dict(case, object=k), d)
            for s, c in sources:
                ok &= ctx.check(np.array_equal(s, c), "history:constructor argument altered", case, "%r -> %r" % (c, s))
            ctx.trace()
            key = (tuple(pw.distinct(f) for f in ref), tuple(h[0] for h in hist if h[0] in ("x1", "repr")))
            if key in seen or not ok:
                continue
            seen.add(key)
            ctx.state((forms, key))
            ctx.outcome(len(pool))
            if len(hist) == depth:
                continue
            n = len(pool)
            for i in range(n):
                for name in ("+c", "c-", "*c", "/c", "+=", "x1", "repr"):
                    nxt.append(hist + ((name, i, 0),))
                for j in range(n):
                    nxt.append(hist + (("+", i, j),))
                    nxt.append(hist + (("-", i, j),))
            nxt.append(hist + (("sum", 0, 0),))
        frontier = nxt
    ctx.sample(dict(init=init, forms=forms, deepest=hist))


def rejects(ctx):
    """polyline*polyline, polyline/polyline and switchback sums must be refused, not silently wrong"""
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    a, b = PolyLine([0, 1], [1, 2]), PolyLine([0, 2], [1, 2])
    sw = PolyLine([0, 2, 1], [0, 1, 2])
    for name, do in (("*", lambda: a * b), ("/", lambda: a / b), ("a+sw", lambda: a + sw), ("sw-a", lambda: sw - a),
                     ("bad args", lambda: PolyLine([0, 1], [1, 2], [3, 4])), ("lengths", lambda: PolyLine([0, 1], [1, 2, 3])),
                     ("one point", lambda: PolyLine([0], [1])), ("lengths4", lambda: PolyLine([0, 1], [1, 2], [1], [2, 3]))):
        r = call(do)
        ctx.step()
        ctx.state(name)
        ctx.check(isinstance(r, Raised), "reject:%s" % name, dict(op=name), r)
        ctx.trace()


def precise_repr(ctx):
    """the printed form rebuilds the polyline for any values and any number of points"""
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    for n in (2, 3, 7, 499, 500, 501, 1200):
        for k in (1., 1e-10, 1. / 3, 1e7):
            p = PolyLine([i / 3. for i in range(n)], [k * (i % 5 - 1.1) for i in range(n)])
            before = np.get_printoptions()
            q = call(lambda: eval(repr(p), dict(np=np, PolyLine=PolyLine)))
            ctx.step()
            ctx.state(("repr", n, k))
            ctx.check(not isinstance(q, Raised) and np.array_equal(q.xy, p.xy), "repr:exact", dict(n=n, k=k), repr(q)[:200])
            ctx.check(np.get_printoptions() == before, "repr:print options changed", dict(n=n))
            ctx.trace()


def run(ctx):
    s3, s4 = shapes_for(ctx.thorough)
    small = [s for s in s3 if len(s[0]) == 2] + [s for s in s3 if len(s[0]) == 3][::3]
    with ctx.group("pairs"):
        items = []
        A = s3
        B = s3 if ctx.thorough else small
        for shift in (0., 0.5, 1., 2., 2.5, -3.):
            items += [(A, B, shift, 1., 1., 0, 0, lo, lo + 24) for lo in range(0, len(A), 24)]
        for forms in ((0, 2), (2, 0), (3, 1), (1, 3), (2, 2), (3, 3)):
            items += [(A, small, 0.5, 1., 1., forms[0], forms[1], lo, lo + 48) for lo in range(0, len(A), 48)]
        # magnitude: breakpoints far from the origin, tiny values
        items += [(A, small, 0., 8192., 1., 0, 0, lo, lo + 48) for lo in range(0, len(A), 48)]
        items += [(A, small, 0.5, 1., 1024., 0, 0, lo, lo + 48) for lo in range(0, len(A), 48)]
        F, T = (s4, s4) if ctx.thorough else (s4[::2], [s for s in s4 if s[0] in ((0., 0., 1., 2.), (0., 1., 1., 2.), (0., 1., 2., 2.), (0., 1., 1., 1.), (0., 0., 2., 2.))][::4])
        for shift in (0., 1.):
            items += [(F, T, shift, 1., 1., 0, 0, lo, lo + 10) for lo in range(0, len(F), 10)]
        ctx.parallel(pairs, items)
    with ctx.group("tiny magnitudes"):
        # steps and values far below the default tolerances of array comparison
        ctx.parallel(tiny, [(s3, lo, lo + 30) for lo in range(0, len(s3), 30)])
    with ctx.group("small steps on large values"):
        L = s3 if ctx.thorough else s3[::2]
        ctx.parallel(large, [(L, small[::4], lo, lo + 20) for lo in range(0, len(L), 20)])
    with ctx.group("scalars"):
        S = s3 + (s4 if ctx.thorough else s4[::5])
        ctx.parallel(scalars, [S[k::16] for k in range(16)])
    with ctx.group("views"):
        S = s3 + (s4 if ctx.thorough else s4[::3])
        ctx.parallel(views, [S[k::16] for k in range(16)])
        precise_repr(ctx)
    with ctx.group("histories"):
        items = []
        for i, j in itertools.permutations(range(len(INITS)), 2):
            for forms in ((0, 1), (1, 4), (4, 0)):
                if not ctx.thorough and (i + j + forms[0]) % 3:
                    continue
                items.append(((INITS[i], INITS[j]), forms, 3 if ctx.thorough else 2))
        items += [((INITS[1], INITS[2]), (1, 1), 3)]
        ctx.parallel(histories, items)
    with ctx.group("rejects"):
        rejects(ctx)
    with ctx.group("many points"):
        S = list(pw.long_shapes((6, 9, 13, 24, 40) + ((70, 150) if ctx.thorough else ())))
        B = S[::5] + s3[::37]
        items = [(S, B if len(S[lo][0]) < 24 or ctx.thorough else B[::3], sh, 1., 1., 0, 0, lo, lo + 2) for sh in (0., .5, -7.25) for lo in range(0, len(S), 2)]
        ctx.parallel(pairs, items)


def large(ctx, item):
    """small steps and slopes on a large value must survive combination"""
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    S, B, lo, hi = item
    k = 2.0 ** 20
    for x, y in S[lo:hi]:
        ctx.state((x, y))
        for xb, yb in B:
            for ka, kb in ((k, 0.), (0., k), (k, -k)):
                ya, yc = [v + ka for v in y], [v + kb for v in yb]
                fa, fb = pw.fn(x, ya), pw.fn(xb, yc)
                for nm, op in (("+", operator.add), ("-", operator.sub)):
                    r = call(lambda: op(PolyLine(x, ya), PolyLine(xb, yc)))
                    ctx.step()
                    case = dict(op=nm, a=[x, ya], b=[xb, yc])
                    if isinstance(r, Raised):
                        ctx.fail("large:raised", case, r)
                        continue
                    g = impl_fn(r)
                    want_f = refop(fa, fb, op)
                    for c in pw.crit(fa, fb):
                        for sd in "LR":
                            want, got = pw.val(want_f, c, sd), pw.val_tol(g, c, sd)
                            ctx.check(abs(got - want) <= 1e-7, "large:value", dict(case, at=c, side=sd), "%r want %r" % (got, want))
        ctx.trace()


def tiny(ctx, item):
    """values of order 1e-6: a step must survive combination with another polyline"""
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    S, lo, hi = item
    k = 2.0 ** -20
    b = PolyLine([0.5, 1.5], [0., 0.])
    fb = pw.fn([0.5, 1.5], [0., 0.])
    for x, y in S[lo:hi]:
        y = [v * k for v in y]
        f = pw.fn(x, y)
        r = call(lambda: PolyLine(x, y) + b)
        ctx.step()
        ctx.state((x, tuple(y)))
        ctx.trace()
        if isinstance(r, Raised):
            ctx.fail("tiny:raised", dict(x=x, y=y), r)
            continue
        g = impl_fn(r)
        for c in pw.crit(f, fb):
            for s in "LR":
                want, got = pw.val(f, c, s), pw.val_tol(g, c, s)
                ctx.check(abs(got - want) <= 2e-8, "tiny:value", dict(x=x, y=y, at=c, side=s), "%r want %r" % (got, want))
