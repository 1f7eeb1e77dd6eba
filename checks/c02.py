"""C02 piecewise-linear queries against exact evaluation.

Space: every piecewise-linear point list of up to 4 points on a small lattice
(including switchbacks for the location and interpolation queries), every query
position (nodes, middles, outside), every pair of positions inside the data for
integrals, every pair of shapes for products.
"""
import itertools
import numpy as np
from mc.core import call, Raised, close
from mc import pw

LEVEL = "model_checking"
BOUNDS = "point lists of 2-4 points, x in {0,1,2}, y in up to 3 values; 10 query positions; 5 points with coarse y in thorough; patterned data of 6-40 (70) points; 5 unit/offset maps; every subset of whole-number arguments as integers"
ASSUMPTIONS = ["integrals are asked between positions inside the data with the lower limit first (as documented)"]

# the same data in other units or far from the origin: x -> sx x + ox, y -> sy y + oy (all exact in binary)
UNITS = ((1., 2.**20, 1., 0.), (1., -2.**24, 2.**-30, 0.), (2.**-20, 0., 2.**-30, 0.), (2.**20, 2.**24, 2.**20, 0.), (2.**-24, 1., 1., 2.**10))

Q = [-1., -0.25, 0., 0.25, 0.5, 1., 1.25, 1.5, 2., 2.5]


def args_intact(ctx, kind, case, pairs):
    for a, c in pairs:
        if not np.array_equal(np.asarray(a), np.asarray(c)):
            ctx.fail(kind + ":arguments altered", case, "%r -> %r" % (c, a))


# ------------------------------------------------ reference for location queries
def containing(x, v, subset=None):
    n = range(len(x) - 1) if subset is None else subset
    return [i for i in n if x[i] != x[i + 1] and min(x[i], x[i + 1]) <= v <= max(x[i], x[i + 1])]


def interp(x, y, v, choose_max):
    c = containing(x, v)
    if c:
        j = c[-1] if choose_max else c[0]
        return y[j] + (y[j + 1] - y[j]) * (v - x[j]) / (x[j + 1] - x[j])
    return y[0] if abs(v - x[0]) < abs(v - x[-1]) else y[-1]


def locate(ctx, shapes):
    from geotecha.piecewise import piecewise_linear_1d as m
    q = np.array(Q)
    for x in shapes:
        ctx.state(("loc", x))
        xa = np.array(x)
        n = len(x) - 1
        for cm in (False, True):
            subsets = [None]
            for r in range(1, n + 1):
                subsets += [list(c) for c in itertools.combinations(range(n), r)]
            subsets.append([])
            for sub in subsets:
                got = call(m.segment_containing_xi, xa, q, sub, cm)
                ctx.step()
                case = dict(x=x, subset=sub, choose_max=cm)
                if isinstance(got, Raised):
                    ctx.fail("locate:raised", case, got)
                    continue
                for v, g in zip(Q, got):
                    c = containing(x, v, sub)
                    w = [c[-1] if cm else c[0]] if c else []
                    ctx.check([int(k) for k in g] == w, "locate:containing", dict(case, xi=v), "%r want %r" % (list(g), w))
        if all(b >= a for a, b in zip(x[:-1], x[1:])):
            for oe in (False, True):
                for sub in (None, list(range(n))[::2]):
                    got = call(m.segments_less_than_xi, xa, q, sub, oe)
                    ctx.step()
                    if isinstance(got, Raised):
                        ctx.fail("locate:less raised", dict(x=x, subset=sub), got)
                        continue
                    for v, g in zip(Q, got):
                        w = [i for i in (range(n) if sub is None else sub) if (x[i + 1] <= v if oe else x[i + 1] < v)]
                        ctx.check([int(k) for k in g] == w, "locate:less than", dict(x=x, xi=v, or_equal_to=oe, subset=sub), "%r want %r" % (list(g), w))
            # segments between
            inside = [v for v in Q if x[0] <= v <= x[-1]]
            for a, b in itertools.combinations_with_replacement(inside, 2):
                if a == b:
                    continue
                r = call(m.segments_between_xi_and_xj, list(x), a, b)
                ctx.step()
                if isinstance(r, Raised):
                    ctx.fail("locate:between raised", dict(x=x, xi=a, xj=b), r)
                    continue
                i1, i2 = containing(x, a)[-1], containing(x, b)[0]
                if i1 == i2:
                    w = ([i1], [], [], [])
                else:
                    w = ([], [i1], [i2], list(range(i1 + 1, i2)))
                g = tuple([int(k) for k in part[0]] for part in r)
                ctx.check(g == w, "locate:between", dict(x=x, xi=a, xj=b), "%r want %r" % (g, w))
        for sx, ox, sy, oy in UNITS:
            X, V = [sx * v + ox for v in x], [sx * v + ox for v in Q]
            for cm in (False, True):
                got = call(m.segment_containing_xi, X, V, None, cm)
                ctx.step()
                w = [[c[-1] if cm else c[0]] if c else [] for c in (containing(x, v) for v in Q)]
                ctx.check(not isinstance(got, Raised) and [[int(k) for k in g] for g in got] == w, "locate:containing", dict(x=X, xi=V, choose_max=cm), "%r want %r" % (got, w))
        args_intact(ctx, "locate", dict(x=x), [(xa, x), (q, Q)])
        ctx.trace()


def classify(ctx, shapes):
    from geotecha.piecewise import piecewise_linear_1d as m
    q = np.array(Q)
    for x, y in shapes:
        ctx.state(("cls", x, y))
        n = len(x) - 1
        ramps = [i for i in range(n) if x[i] != x[i + 1] and y[i] != y[i + 1]]
        const = [i for i in range(n) if x[i] != x[i + 1] and y[i] == y[i + 1]]
        steps = [i for i in range(n) if x[i] == x[i + 1] and y[i] != y[i + 1]]
        case = dict(x=x, y=y)
        for as_ in (list, np.array):
            r = call(m.ramps_constants_steps, as_(x), as_(y))
            ctx.step()
            ctx.check(not isinstance(r, Raised) and tuple([int(k) for k in v] for v in r) == (ramps, const, steps), "classify", case, r)
        for sx, ox, sy, oy in UNITS:
            X, Y = [sx * v + ox for v in x], [sy * v + oy for v in y]
            r = call(m.ramps_constants_steps, X, Y)
            ctx.step()
            ctx.check(not isinstance(r, Raised) and tuple([int(k) for k in v] for v in r) == (ramps, const, steps), "classify", dict(x=X, y=Y), r)
        ctx.outcome((len(ramps), len(const), len(steps)))
        for so, ro, cm in itertools.product((True, False), repeat=3):
            r = call(m.segment_containing_also_segments_less_than_xi, x, y, q, so, ro, cm)
            ctx.step()
            c2 = dict(case, steps_or_equal_to=so, ramp_const_or_equal_to=ro, choose_max=cm)
            if isinstance(r, Raised):
                ctx.fail("classify:raised", c2, r)
                continue
            for k, v in enumerate(Q):
                less = lambda idx, oe: [i for i in idx if (x[i + 1] <= v if oe else x[i + 1] < v)]
                c = containing(x, v)
                j = (c[-1] if cm else c[0]) if c else None
                w = [less(ramps, ro), less(const, ro), less(steps, so),
                     [j] if j is not None and j in ramps else [], [j] if j is not None and j not in ramps else []]
                g = [[int(t) for t in part[k]] for part in r]
                ctx.check(g == w, "classify:containing and less", dict(c2, xi=v), "%r want %r" % (g, w))
        ctx.trace()


def interpolate(ctx, shapes):
    from geotecha.piecewise import piecewise_linear_1d as m
    q = np.array(Q)
    for x, y in shapes:
        ctx.state(("int", x, y))
        mono = all(b >= a for a, b in zip(x[:-1], x[1:]))
        for cm in (False, True):
            want = [interp(x, y, v, cm) for v in Q]
            case = dict(x=x, y=y, choose_max=cm)
            xa, ya = np.array(x), np.array(y)
            forms = [("array", lambda: m.interp_x_y(xa, ya, q, choose_max=cm)),
                     ("list", lambda: m.interp_x_y(list(x), list(y), list(Q), choose_max=cm)),
                     ("one at a time", lambda: np.concatenate([m.interp_x_y(xa, ya, v, choose_max=cm) for v in Q])),
                     ("reversed queries", lambda: m.interp_x_y(xa, ya, q[::-1], choose_max=cm)[::-1]),
                     ("polyline", lambda: m.pinterp_x_y(m.PolyLine(xa, ya), q, choose_max=cm)),
                     ("ints", lambda: m.interp_x_y([int(4 * v) for v in x], [int(8 * v) for v in y], 4 * q, choose_max=cm) / 8.)]
            for name, do in forms:
                got = call(do)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and close(got, want, 1e-12, 1e-12), "interpolate:%s" % name, case, "%r want %r" % (got, want))
            args_intact(ctx, "interpolate", case, [(xa, x), (ya, y), (q, Q)])
            for sx, ox, sy, oy in UNITS:
                X, Y, V = [sx * v + ox for v in x], [sy * v + oy for v in y], [sx * v + ox for v in Q]
                got = call(m.interp_x_y, X, Y, V, choose_max=cm)
                ctx.step()
                w = [sy * v + oy for v in want]
                ctx.check(not isinstance(got, Raised) and close(got, w, 1e-12, 1e-12 * sy), "interpolate:units", dict(x=X, y=Y, xi=V, choose_max=cm), "%r want %r" % (got, w))
            if mono:
                f = pw.fn(x, y)
                # between nodes both choices must be the function itself, at steps the sides
                for v, g in zip(Q, want):
                    if x[0] < v < x[-1]:
                        assert abs(g - pw.val(f, v, "R" if cm else "L")) < 1e-12
                i = [k for k in range(len(x) - 1) if x[k] != x[k + 1]]
                L = [[x[k] for k in i], [x[k + 1] for k in i], [y[k] for k in i], [y[k + 1] for k in i]]
                lx = [v for k in i for v in (x[k], x[k + 1])]
                ly = [v for k in i for v in (y[k], y[k + 1])]
                wl = [interp(lx, ly, v, cm) for v in Q]
                for name, do in (("layers", lambda: m.interp_x1_x2_y1_y2(*(L + [q]), choose_max=cm)),
                                 ("player", lambda: m.pinterp_x1_x2_y1_y2(m.PolyLine(*L), q, choose_max=cm)),
                                 ("layers one at a time", lambda: np.concatenate([m.interp_x1_x2_y1_y2(*(L + [[v]]), choose_max=cm) for v in Q]))):
                    got = call(do)
                    ctx.step()
                    ctx.check(not isinstance(got, Raised) and close(got, wl, 1e-12, 1e-12), "interpolate:%s" % name, case, "%r want %r" % (got, wl))
                # the same layers listed downwards, and in other units
                D = [L[1][::-1], L[0][::-1], L[3][::-1], L[2][::-1]]
                wd = [interp(lx[::-1], ly[::-1], v, cm) for v in Q]
                got = call(m.interp_x1_x2_y1_y2, *(D + [q]), choose_max=cm)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and close(got, wd, 1e-12, 1e-12), "interpolate:layers decreasing", dict(case, layers=D), "%r want %r" % (got, wd))
                for sx, ox, sy, oy in UNITS:
                    LL = [[sx * v + ox for v in L[0]], [sx * v + ox for v in L[1]], [sy * v + oy for v in L[2]], [sy * v + oy for v in L[3]]]
                    V = [sx * v + ox for v in Q]
                    got = call(m.interp_x1_x2_y1_y2, *(LL + [V]), choose_max=cm)
                    ctx.step()
                    w = [sy * v + oy for v in wl]
                    ctx.check(not isinstance(got, Raised) and close(got, w, 1e-12, 1e-12 * sy), "interpolate:units layers", dict(layers=LL, xi=V, choose_max=cm), "%r want %r" % (got, w))
        ctx.trace()


def layers_of(x, y):
    i = [k for k in range(len(x) - 1) if x[k] != x[k + 1]]
    return [[x[k] for k in i], [x[k + 1] for k in i], [y[k] for k in i], [y[k + 1] for k in i]]


def integrate(ctx, shapes):
    from geotecha.piecewise import piecewise_linear_1d as m
    for x, y in shapes:
        ctx.state(("itg", x, y))
        f = pw.fn(x, y)
        inside = [v for v in Q if x[0] <= v <= x[-1]]
        P = [(a, b) for a in inside for b in inside if a < b]
        xi, xj = np.array([p[0] for p in P]), np.array([p[1] for p in P])
        want = np.array([pw.integral(f, a, b) for a, b in P])
        L = layers_of(x, y)
        xa, ya = np.array(x), np.array(y)
        La = [np.array(v) for v in L]
        p, pl = m.PolyLine(xa, ya), m.PolyLine(*La)
        case = dict(x=x, y=y)
        for name, do, w in (
                ("x y", lambda: m.integrate_x_y_between_xi_xj(xa, ya, xi, xj), want),
                ("x y lists", lambda: m.integrate_x_y_between_xi_xj(list(x), list(y), list(xi), list(xj)), want),
                ("x y scalar", lambda: np.concatenate([m.integrate_x_y_between_xi_xj(xa, ya, a, b) for a, b in P]), want),
                ("polyline", lambda: m.pintegrate_x_y_between_xi_xj(p, xi, xj), want),
                ("layers", lambda: m.integrate_x1_x2_y1_y2_between_xi_xj(*(La + [xi, xj])), want),
                ("layers lists", lambda: m.integrate_x1_x2_y1_y2_between_xi_xj(*(L + [list(xi), list(xj)])), want),
                ("player", lambda: m.pintegrate_x1_x2_y1_y2_between_xi_xj(pl, xi, xj), want),
                ("player from points", lambda: m.pintegrate_x1_x2_y1_y2_between_xi_xj(p, xi, xj), want),
                ("avg x y", lambda: m.avg_x_y_between_xi_xj(xa, ya, xi, xj), want / (xj - xi)),
                ("avg polyline", lambda: m.pavg_x_y_between_xi_xj(p, xi, xj), want / (xj - xi)),
                ("avg layers", lambda: m.avg_x1_x2_y1_y2_between_xi_xj(*(La + [xi, xj])), want / (xj - xi)),
                ("avg player", lambda: m.pavg_x1_x2_y1_y2_between_xi_xj(pl, xi, xj), want / (xj - xi)),
                ("zero length", lambda: m.integrate_x_y_between_xi_xj(xa, ya, inside, inside), np.zeros(len(inside))),
                ("zero length layers", lambda: m.integrate_x1_x2_y1_y2_between_xi_xj(*(La + [inside, inside])), None)):
            got = call(do)
            ctx.step()
            if w is None:
                w = np.zeros(len(inside))
            if name.startswith("zero length"):
                # at an interior node the two limits may be taken in different segments: not defined
                keep = [k for k, v in enumerate(inside) if len(containing(L[0] + [L[1][-1]], v)) == 1]
                if isinstance(got, Raised):
                    ctx.fail("integrate:%s" % name, case, got)
                    continue
                got, w = np.asarray(got)[keep], w[keep]
            ctx.check(not isinstance(got, Raised) and close(got, w, 1e-12, 1e-12), "integrate:%s" % name, case, "%r want %r" % (got, w))
        for sx, ox, sy, oy in UNITS:
            X, Y, I, J = [sx * v + ox for v in x], [sy * v + oy for v in y], [sx * v + ox for v in xi], [sx * v + ox for v in xj]
            LL = [[sx * v + ox for v in L[0]], [sx * v + ox for v in L[1]], [sy * v + oy for v in L[2]], [sy * v + oy for v in L[3]]]
            w = sx * (sy * want + oy * (xj - xi))
            for name, do, w_ in (("x y", lambda: m.integrate_x_y_between_xi_xj(X, Y, I, J), w),
                                 ("avg x y", lambda: m.avg_x_y_between_xi_xj(X, Y, I, J), w / (sx * (xj - xi))),
                                 ("layers", lambda: m.integrate_x1_x2_y1_y2_between_xi_xj(*(LL + [I, J])), w),
                                 ("avg layers", lambda: m.avg_x1_x2_y1_y2_between_xi_xj(*(LL + [I, J])), w / (sx * (xj - xi)))):
                got = call(do)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and close(got, w_, 1e-12, 1e-12 * sy), "integrate:units %s" % name, dict(x=X, y=Y), "%r want %r" % (got, w_))
        args_intact(ctx, "integrate", case, [(xa, x), (ya, y)] + list(zip(La, L)) + [(xi, [q[0] for q in P]), (xj, [q[1] for q in P])])
        ctx.trace()


def products(ctx, item):
    from geotecha.piecewise import piecewise_linear_1d as m
    A, B = item
    for x, y in A:
        f = pw.fn(x, y)
        pa = m.PolyLine(list(x), list(y))
        for x2, y2 in B:
            g = pw.fn(x2, y2)
            pb = m.PolyLine(list(x2), list(y2))
            ctx.state(("prod", x, y, x2, y2))
            lo, hi = min(x[0], x2[0]), max(x[-1], x2[-1])
            grid = [v for v in Q if lo <= v <= hi]
            P = [(a, b) for k, a in enumerate(grid) for b in grid[k + 1:]]
            xi, xj = [p[0] for p in P], [p[1] for p in P]
            want = np.array([pw.integral2(f, g, a, b) for a, b in P])
            case = dict(a=[x, y], b=[x2, y2])
            got = call(m.pintegrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between, pa, pb, xi, xj)
            ctx.step()
            # steps at the very ends cannot be represented in layer form
            ctx.check(not isinstance(got, Raised) and close(got, want, 1e-10, 1e-10), "product:integral", case, "%r want %r" % (got, want))
            got2 = call(lambda: np.concatenate([m.pintegrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(pb, pa, a, b) for a, b in P[::5]]))
            ctx.step()
            ctx.check(not isinstance(got2, Raised) and close(got2, want[::5], 1e-10, 1e-10), "product:swapped, one at a time", case, "%r want %r" % (got2, want[::5]))
            if x == x2:
                La, Lb = layers_of(x, y), layers_of(x2, y2)
                k = [i for i, (a, b) in enumerate(P) if x[0] <= a and b <= x[-1]]
                got3 = call(m.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between, *(La + Lb + [[xi[i] for i in k], [xj[i] for i in k]]))
                ctx.step()
                ctx.check(not isinstance(got3, Raised) and close(got3, want[k], 1e-10, 1e-10), "product:layers", case, "%r want %r" % (got3, want[k]))
            # composites: one interpolated, other interpolated / averaged
            xai = [-0.25, 0.25, 1., 2., 2.5]
            inside = [v for v in Q if x2[0] <= v <= x2[-1]]
            PB = [(a, b) for k, a in enumerate(inside) for b in inside[k + 1:]]
            for cm in (False, True):
                fa = np.array([interp(x, y, v, cm) for v in xai])
                Lb = layers_of(x2, y2)
                for bcm in (False, True):
                    lx = [v for k in range(len(Lb[0])) for v in (Lb[0][k], Lb[1][k])]
                    ly = [v for k in range(len(Lb[0])) for v in (Lb[2][k], Lb[3][k])]
                    gb = np.array([interp(lx, ly, v, bcm) for v in Q])
                    got = call(m.pinterp_xa_ya_multipy_x1b_x2b_y1b_y2b, pa, pb, xai, Q, achoose_max=cm, bchoose_max=bcm)
                    ctx.step()
                    ctx.check(not isinstance(got, Raised) and close(got, gb[:, None] * fa[None, :], 1e-11, 1e-11), "composite:interpolate", dict(case, achoose_max=cm, bchoose_max=bcm), got)
                ab = np.array([pw.integral(g, a, b) / (b - a) for a, b in PB])
                got = call(m.pxa_ya_multipy_avg_x1b_x2b_y1b_y2b_between, pa, pb, xai, [p[0] for p in PB], [p[1] for p in PB], achoose_max=cm)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and close(got, ab[:, None] * fa[None, :], 1e-11, 1e-11), "composite:average", dict(case, achoose_max=cm), got)
            for p, h, src in ((pa, f, (x, y)), (pb, g, (x2, y2))):
                ctx.check(list(p.x) == list(src[0]) and list(p.y) == list(src[1]), "product:operand altered", case, p)
            ctx.trace()


def whole(ctx, shapes):
    """numbers given as integers, any subset of the arguments"""
    from geotecha.piecewise import piecewise_linear_1d as m
    for x, y in shapes:
        ctx.state(("whole", x, y))
        f = pw.fn(x, y)
        for scale, qs in ((1, [0., 1., 2.]), (1, [0., .25, 1.]), (2, [0., 1., 3.])):
            X = [scale * v for v in x]
            F = pw.fn(X, y)
            qs = [v for v in qs if X[0] <= v <= X[-1]] + [X[-1]]
            P = [(a, b) for a in qs for b in qs if a < b]
            if not P:
                continue
            xi, xj = [p[0] for p in P], [p[1] for p in P]
            want = np.array([pw.integral(F, a, b) for a, b in P])
            L = layers_of(X, y)
            lx = [v for k in range(len(L[0])) for v in (L[0][k], L[1][k])]
            ly = [v for k in range(len(L[0])) for v in (L[2][k], L[3][k])]
            for as_ in (list, np.array):
                for a in pw.number_types(X, y, xi, xj):
                    a = [as_(v) for v in a]
                    for name, do, w in (("x y", m.integrate_x_y_between_xi_xj, want), ("avg x y", m.avg_x_y_between_xi_xj, want / (np.array(xj) - xi)),
                                        ("interpolate", lambda p, q, r, t: m.interp_x_y(p, q, r, choose_max=True), [interp(X, y, v, True) for v in xi])):
                        g = call(do, *a)
                        ctx.step()
                        ctx.check(not isinstance(g, Raised) and close(g, w, 1e-12, 1e-12), "whole numbers:" + name, dict(arguments=a), "%r want %r" % (g, w))
                for a in pw.number_types(*(L + [xi, xj])):
                    a = [as_(v) for v in a]
                    for name, do, w in (("layers", m.integrate_x1_x2_y1_y2_between_xi_xj, want), ("avg layers", m.avg_x1_x2_y1_y2_between_xi_xj, want / (np.array(xj) - xi)),
                                        ("interpolate layers", lambda p, q, r, t, u, v: m.interp_x1_x2_y1_y2(p, q, r, t, u), [interp(lx, ly, v, False) for v in xi]),
                                        ("product", lambda p, q, r, t, u, v: m.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(p, q, r, t, p, q, r, t, u, v), [pw.integral2(F, F, c, d) for c, d in P])):
                        g = call(do, *a)
                        ctx.step()
                        ctx.check(not isinstance(g, Raised) and close(g, w, 1e-12, 1e-12), "whole numbers:" + name, dict(arguments=a), "%r want %r" % (g, w))
        ctx.trace()


def many(ctx, shapes):
    """data of many points, asked at many positions in one call"""
    from geotecha.piecewise import piecewise_linear_1d as m
    for x, y in shapes:
        ctx.state(("many", x, y))
        f = pw.fn(x, y)
        n = len(x) - 1
        V = pw.crit(f)
        case = dict(x=x, y=y)
        for cm in (False, True):
            want = [interp(x, y, v, cm) for v in V]
            wc = [(lambda c: [c[-1] if cm else c[0]] if c else [])(containing(x, v)) for v in V]
            got = call(m.segment_containing_xi, list(x), V, None, cm)
            ctx.check(not isinstance(got, Raised) and [[int(k) for k in g] for g in got] == wc, "many:containing", dict(case, choose_max=cm), got)
            for name, do in (("points", lambda: m.interp_x_y(x, y, V, choose_max=cm)), ("polyline", lambda: m.pinterp_x_y(m.PolyLine(list(x), list(y)), V, choose_max=cm))):
                got = call(do)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and close(got, want, 1e-12, 1e-12), "many:interpolate " + name, dict(case, choose_max=cm), got)
        ramps = [i for i in range(n) if x[i] != x[i + 1] and y[i] != y[i + 1]]
        const = [i for i in range(n) if x[i] != x[i + 1] and y[i] == y[i + 1]]
        steps = [i for i in range(n) if x[i] == x[i + 1] and y[i] != y[i + 1]]
        r = call(m.ramps_constants_steps, list(x), list(y))
        ctx.check(not isinstance(r, Raised) and tuple([int(k) for k in v] for v in r) == (ramps, const, steps), "many:classify", case, r)
        # every pair of limits two or more positions apart from a coarse set, and consecutive ones
        I = V[1:-1]
        P = [(a, b) for k, a in enumerate(I) for b in I[k + 1::max(1, len(I) // 12)] if a < b]
        xi, xj = [p[0] for p in P], [p[1] for p in P]
        want = np.array([pw.integral(f, a, b) for a, b in P])
        L = layers_of(x, y)
        lx = [v for k in range(len(L[0])) for v in (L[0][k], L[1][k])]
        ly = [v for k in range(len(L[0])) for v in (L[2][k], L[3][k])]
        d = np.array(xj) - xi
        p = m.PolyLine(list(x), list(y))
        for name, do, w in (("integral", lambda: m.integrate_x_y_between_xi_xj(x, y, xi, xj), want),
                            ("average", lambda: m.avg_x_y_between_xi_xj(x, y, xi, xj), want / d),
                            ("polyline integral", lambda: m.pintegrate_x_y_between_xi_xj(p, xi, xj), want),
                            ("layer integral", lambda: m.integrate_x1_x2_y1_y2_between_xi_xj(*(L + [xi, xj])), want),
                            ("layer average", lambda: m.pavg_x1_x2_y1_y2_between_xi_xj(p, xi, xj), want / d),
                            ("layer interpolate", lambda: m.interp_x1_x2_y1_y2(*(L + [V])), [interp(lx, ly, v, False) for v in V]),
                            ("product", lambda: m.pintegrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(p, m.PolyLine([x[0], x[2], x[-1]], [1., 3., -2.]), xi, xj),
                             np.array([pw.integral2(f, pw.fn([x[0], x[2], x[-1]], [1., 3., -2.]), a, b) for a, b in P])),
                            ("square", lambda: m.integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between(*(L + L + [xi, xj])), np.array([pw.integral2(f, f, a, b) for a, b in P]))):
            got = call(do)
            ctx.step()
            ctx.check(not isinstance(got, Raised) and close(got, w, 1e-10, 1e-9), "many:" + name, case, "%r want %r" % (got, w))
        ctx.trace()


def split(s, k):
    return [s[i::k] for i in range(k)]


def run(ctx):
    T = ctx.thorough
    with ctx.group("locate"):
        S = [x for n in (2, 3, 4) + ((5,) if T else ()) for x in itertools.product((0., 1., 2.), repeat=n) if len(set(x)) > 1]
        ctx.parallel(locate, split(S, 24))
    s3 = list(pw.shapes([2, 3], (0., 1., 2.), (-1., 0., 2.)))
    s4 = list(pw.shapes([4], (0., 1., 2.), (-1., 0., 2.) if T else (0., 2.)))
    s5 = list(pw.shapes([5], (0., 1., 2.), (0., 2.))) if T else [s for s in pw.shapes([5], (0., 1., 2.), (0., 2.))][::4]
    with ctx.group("classify"):
        ctx.parallel(classify, split(s3 + s4, 16))
    with ctx.group("interpolate"):
        S = list(s3 + s4 + s5)
        # decreasing and zig-zag data
        for n in (2, 3, 4):
            for x in itertools.product((0., 1., 2.), repeat=n):
                if len(set(x)) > 1 and any(b < a for a, b in zip(x[:-1], x[1:])):
                    for y in itertools.product((0., 3.), repeat=n):
                        S.append((x, y))
        ctx.parallel(interpolate, split(S, 32))
    with ctx.group("integrate"):
        ctx.parallel(integrate, split(s3 + s4 + s5, 16))
    with ctx.group("whole numbers"):
        S = list(pw.shapes([2, 3], (0., 1., 2.5), (-1., 0.5, 2.))) + list(pw.shapes([4], (0., 1., 2., 3.5), (-1., 0.5, 2.)))[::1 if T else 13]
        ctx.parallel(whole, split(S, 32))
    with ctx.group("many points"):
        ctx.parallel(many, split(list(pw.long_shapes((6, 9, 13, 24, 40) + ((70,) if T else ()))), 40))
    with ctx.group("products"):
        A = s3 + s4[::2 if T else 7]
        B = (s3 if T else s3[::5]) + s4[::5 if T else 17]
        ctx.sample(dict(shapes=len(A), others=len(B), first=A[0], last=B[-1]))
        ctx.parallel(products, [(a, B) for a in split(A, 48)])
