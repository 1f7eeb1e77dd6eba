"""C03 reshaping helpers: every short sequence / point list over a small alphabet."""
import itertools
import numpy as np
from mc.core import call, Raised, close
from mc import pw
from checks.c01 import layered_fn, impl_fn

LEVEL = "model_checking"
BOUNDS = "sequences of 2-5 values over 3-4 letters; pairs and triples of polylines of 2-4 points; patterned data of 7-40 points; up to 12 layers; 5 spacings, 4 minimum counts, log/linear"
ASSUMPTIONS = ["directions are not defined for a constant sequence", "spacing is approximate: the count may be the ratio rounded either way"]


def split(s, k):
    s = list(s)
    return [s[i::k] for i in range(k)]


def monotone(ctx, seqs):
    from geotecha.piecewise import piecewise_linear_1d as m
    for x in seqs:
        ctx.state(("mono", x))
        d = [b - a for a, b in zip(x[:-1], x[1:])]
        want = dict(has_steps=any(v == 0 for v in d), strictly_increasing=all(v > 0 for v in d),
                    strictly_decreasing=all(v < 0 for v in d), non_increasing=all(v <= 0 for v in d),
                    non_decreasing=all(v >= 0 for v in d))
        nz = [v for v in d if v]
        if nz:
            want["is_initially_increasing"] = nz[0] > 0
        for form in (list, tuple, np.array, lambda s: np.array(s, dtype=int)):
            a = form(x)
            for k, w in want.items():
                g = call(getattr(m, k), a)
                ctx.step()
                ctx.check(not isinstance(g, Raised) and bool(g) == w, "monotone:" + k, dict(x=x), "%r want %r" % (g, w))
            if nz:
                for end in (False, True):
                    g = call(m.non_increasing_and_non_decreasing_parts, a, end)
                    ctx.step()
                    # reference: cut where the (non-zero) direction flips
                    parts, cur = [[0]], (1 if nz[0] > 0 else -1)
                    for i in range(1, len(d)):
                        s = (d[i] > 0) - (d[i] < 0)
                        if s and s != cur:
                            parts.append([])
                            cur = s
                        parts[-1].append(i)
                    if end:
                        parts = [p + [p[-1] + 1] for p in parts]
                    ctx.check(not isinstance(g, Raised) and [[int(v) for v in p] for p in g] == parts, "monotone:parts", dict(x=x, end=end), "%r want %r" % (g, parts))
            ctx.check(list(a) == list(x), "monotone:arguments altered", dict(x=x))
        ctx.trace()
        # forcing
        y = list(range(10, 10 + len(x)))
        for scale, form in itertools.product((1., 1e3, 1e6, 0.001), ("list", "array", "int")):
            if form == "int" and scale < 1:
                continue
            xs = [v * scale for v in x]
            xa = list(xs) if form == "list" else np.array(xs, dtype=float if form == "array" else int)
            ya = list(y) if form == "list" else np.array(y, dtype=float)
            for keep in (True, False):
                r = call(m.force_strictly_increasing, xa, ya, keep_end_points=keep)
                ctx.step()
                case = dict(x=xs, form=form, keep_end_points=keep)
                if not (want["non_decreasing"] or want["non_increasing"]):
                    ctx.check(isinstance(r, Raised) and r.type == "ValueError", "force strictly:not rejected", case, r)
                elif isinstance(r, Raised):
                    ctx.fail("force strictly:raised", case, r)
                else:
                    rx, ry = np.asarray(r[0], dtype=float), np.asarray(r[1], dtype=float)
                    ox, oy = (xs, y) if want["non_decreasing"] else (xs[::-1], y[::-1])
                    if not nz and list(ry) == oy[::-1]:
                        oy = oy[::-1]     # a constant sequence has no direction
                    ctx.check(np.all(np.diff(rx) > 0), "force strictly:not increasing", case, list(rx))
                    ctx.check(close(rx, ox, 1e-12, 1e-12) and list(ry) == oy, "force strictly:moved", case, "%r %r" % (rx, ry))
                    ctx.check((rx[-1] == ox[-1]) if keep else (rx[0] == ox[0]), "force strictly:end point moved", case, list(rx))
                ctx.check([float(v) for v in xa] == [float(v) for v in xs] and [float(v) for v in ya] == y, "force strictly:arguments altered", case, xa)
            r = call(m.force_non_decreasing, xa, ya)
            ctx.step()
            if not (want["non_decreasing"] or want["non_increasing"]):
                ctx.check(isinstance(r, Raised) and r.type == "ValueError", "force non decreasing:not rejected", dict(x=xs), r)
            elif isinstance(r, Raised):
                ctx.fail("force non decreasing:raised", dict(x=xs), r)
            else:
                ox, oy = (xs, y) if want["non_decreasing"] else (xs[::-1], y[::-1])
                ctx.check(list(r[0]) == ox and list(r[1]) == oy, "force non decreasing:value", dict(x=xs), r)
            ctx.check([float(v) for v in xa] == [float(v) for v in xs], "force non decreasing:arguments altered", dict(x=xs), xa)


def reshape(ctx, shapes):
    from geotecha.piecewise import piecewise_linear_1d as m
    for x, y in shapes:
        f = pw.fn(x, y)
        ctx.state(("reshape", x, y))
        case = dict(x=x, y=y)
        # superfluous points
        for form in (list, np.array):
            xa, ya = form(x), form(y)
            r = call(m.remove_superfluous_from_x_y, xa, ya)
            ctx.step()
            if isinstance(r, Raised):
                ctx.fail("superfluous:raised", case, r)
            else:
                g = pw.fn(r[0], r[1])
                d = pw.same_function(g, f)
                ctx.check(d is None, "superfluous:function", case, "%s: %r" % (d, g))
                ctx.check(g[0] == f[0] and g[-1] == f[-1], "superfluous:end points", case, g)
                it = iter(f)
                ctx.check(all(p in it for p in g), "superfluous:not a subset", case, g)
                strict = all(b > a for a, b in zip(x[:-1], x[1:]))
                for p0, p1, p2 in zip(g[:-2], g[1:-1], g[2:]) if strict else ():
                    cross = (p1[0] - p0[0]) * (p2[1] - p0[1]) - (p1[1] - p0[1]) * (p2[0] - p0[0])
                    ctx.check(abs(cross) > 1e-9, "superfluous:point left", case, g)
                ctx.outcome(("removed", len(f) - len(g)))
            ctx.check(list(xa) == list(x) and list(ya) == list(y), "superfluous:arguments altered", case)
        # point form <-> layer form
        for form in (list, np.array):
            L = call(m.convert_x_y_to_x1_x2_y1_y2, form(x), form(y))
            ctx.step()
            i = [k for k in range(len(x) - 1) if x[k] != x[k + 1]]
            w = [[x[k] for k in i], [x[k + 1] for k in i], [y[k] for k in i], [y[k + 1] for k in i]]
            ctx.check(not isinstance(L, Raised) and [list(map(float, v)) for v in L] == w, "convert:to layers", case, L)
            for w_ in (w, [np.array(v) for v in w], [[int(2 * t) for t in v] for v in w]):
                k = 2 if isinstance(w_[0], list) and isinstance(w_[0][0], int) else 1
                r = call(m.convert_x1_x2_y1_y2_to_x_y, *w_)
                ctx.step()
                if isinstance(r, Raised):
                    ctx.fail("convert:raised", case, r)
                    continue
                lf = layered_fn(f)
                d = pw.same_function(tuple((a / k, b / k) for a, b in pw.fn(*r)), lf)
                ctx.check(d is None, "convert:to points", case, d)
        # mixed int and float
        half = [[int(v) for v in w[0]], [int(v) for v in w[1]], [int(v) for v in w[2]], [v + 0.5 for v in w[3]]]
        r = call(m.convert_x1_x2_y1_y2_to_x_y, *half)
        ctx.step()
        want = tuple(p for a, b, c, d in zip(*half) for p in ((a, c), (b, d)))
        ctx.check(not isinstance(r, Raised) and pw.same_function(pw.fn(*r), want) is None, "convert:mixed types", case, r)
        if len(w[0]) > 1:
            bad = [list(v) for v in w]
            bad[0][1] += 0.5
            r = call(m.convert_x1_x2_y1_y2_to_x_y, *bad)
            ctx.check(isinstance(r, Raised), "convert:gap accepted", case, r)
        r = call(m.convert_x_y_to_x1_x2_y1_y2, list(x), list(y)[:-1])
        ctx.check(isinstance(r, Raised), "convert:length mismatch accepted", case, r)
        # the same shape thin in comparison to its x, or in other units
        for sx, ox, sy, oy in ((1., 2.**20, 1., 0.), (1., -2.**24, 2.**-20, 2.**10), (2.**-20, 0., 2.**-30, 0.), (2.**20, 2.**24, 2.**20, 0.), (2.**-30, 1., 1., 2.**30)):
            X, Y = [sx * v + ox for v in x], [sy * v + oy for v in y]
            mcase = dict(x=X, y=Y)
            ww = [[X[k] for k in i], [X[k + 1] for k in i], [Y[k] for k in i], [Y[k + 1] for k in i]]
            L = call(m.convert_x_y_to_x1_x2_y1_y2, X, Y)
            ctx.step()
            ctx.check(not isinstance(L, Raised) and [list(map(float, v)) for v in L] == ww, "convert:to layers", mcase, L)
            r = call(m.convert_x1_x2_y1_y2_to_x_y, *ww)
            ctx.step()
            ctx.check(not isinstance(r, Raised) and pw.same_function(pw.fn(*r), layered_fn(pw.fn(X, Y))) is None, "convert:to points", mcase, r)
            p = m.PolyLine(X, Y)
            ctx.check([list(map(float, v)) for v in (p.x1, p.x2, p.y1, p.y2)] == ww, "convert:polyline to layers", mcase, p)
            d = [b - a for a, b in zip(X[:-1], X[1:])]
            for k, v in (("has_steps", any(t == 0 for t in d)), ("strictly_increasing", all(t > 0 for t in d)), ("non_increasing", all(t <= 0 for t in d))):
                ctx.check(bool(getattr(m, k)(X)) == v, "monotone:" + k, mcase, v)
            if abs(sx) >= 1:
                r = call(m.polyline_make_x_common, p, m.PolyLine([X[0], X[-1]], [0., 1.]))
                ctx.step()
                ctx.check(not isinstance(r, Raised) and list(r[0].x1) == list(r[1].x1) and pw.same_function(pw.fn(r[0].x, r[0].y), pw.fn(X, Y)) is None, "common:function", mcase, r)
        ctx.trace()


def common(ctx, item):
    from geotecha.piecewise import piecewise_linear_1d as m
    A, B, C = item
    for a in A:
        for b in B:
            for c in C:
                srcs = [s for s in (a, b, c) if s is not None]
                for rev in range(2):
                    P = [m.PolyLine(list(x)[::-1], list(y)[::-1]) if (rev and k % 2 == 0) else m.PolyLine(list(x), list(y)) for k, (x, y) in enumerate(srcs)]
                    F = [pw.fn(x, y) for x, y in srcs]
                    ctx.state((a, b, c, rev))
                    r = call(m.polyline_make_x_common, *P)
                    ctx.step()
                    case = dict(polylines=srcs, reversed_even=rev)
                    if isinstance(r, Raised):
                        ctx.fail("common:raised", case, r)
                        continue
                    lo, hi = min(f[0][0] for f in F), max(f[-1][0] for f in F)
                    ctx.check(len(r) == len(P), "common:count", case, len(r))
                    x1, x2 = list(r[0].x1), list(r[0].x2)
                    for p, f in zip(r, F):
                        ctx.check(list(p.x1) == x1 and list(p.x2) == x2, "common:different intervals", case, [list(q.x1) for q in r])
                        g = pw.fn(p.x, p.y)
                        ctx.check(g[0][0] == lo and g[-1][0] == hi, "common:range", case, g)
                        bad = None
                        for x in pw.crit(f, g):
                            if x < lo or x > hi:
                                continue
                            for s in "LR":
                                if abs(pw.val(f, x, s) - pw.val(g, x, s)) > 1e-9:
                                    bad = (x, s, pw.val(f, x, s), pw.val(g, x, s))
                        ctx.check(bad is None, "common:function", case, bad)
                    xs = set(v for f in F for v, _ in f)
                    ctx.check(xs <= set(x1) | set(x2), "common:breakpoint lost", case, x1)
                    for p, (x, y) in zip(P, srcs):
                        ctx.check(pw.fn(p.x, p.y) == pw.fn(x, y), "common:operand altered", case, p)
                    ctx.trace()


def want_count(length, dx, min_segments):
    r = abs(length) / dx
    return {max(int(f(r + e)), min_segments) for f in (np.floor, np.ceil) for e in (-1e-9, 1e-9)}


def subdivide(ctx, item):
    from geotecha.piecewise import piecewise_linear_1d as m
    x, y, dx, ms, jb, lx, ly = item
    x, y = list(x), list(y)
    case = dict(x=x, y=y, dx=dx, min_segments=ms, just_before=jb, logx=lx, logy=ly)
    ctx.state(tuple(map(str, item)))
    zx, zy = 0.125, 0.25
    for form in (list, np.array):
        for what in ("xy", "x"):
            xa, ya = form(x), form(y)
            kw = dict(dx=dx, min_segments=ms, just_before=jb, logx=lx, logxzero=zx)
            if what == "xy":
                r = call(m.subdivide_x_y_into_segments, xa, ya, logy=ly, logyzero=zy, **kw)
            else:
                r = call(m.subdivide_x_into_segments, xa, **kw)
            ctx.step()
            ctx.check(list(xa) == x and list(ya) == y, "subdivide:arguments altered", case, "%r %r" % (xa, ya))
            if (lx and min(x) < 0) or (what == "xy" and ly and min(y) < 0):
                ctx.check(isinstance(r, Raised) and r.type == "ValueError", "subdivide:negative on log accepted", case, r)
                continue
            if isinstance(r, Raised):
                ctx.fail("subdivide:raised", case, r)
                continue
            X, Y = (r if what == "xy" else (r, None))
            X = np.asarray(X, dtype=float)
            tx = (lambda v: np.log10(v)) if lx else (lambda v: np.asarray(v, dtype=float))
            ty = (lambda v: np.log10(v)) if ly else (lambda v: np.asarray(v, dtype=float))
            sx = tx([zx if (lx and v == 0) else v for v in x])
            sy = ty([zy if (ly and v == 0) else v for v in y])
            gx = tx(X)
            gy = None if Y is None else ty(Y)
            full = 2 * (max(sx) - min(sx)) if dx is None else dx
            # walk the intervals: each must be cut evenly into an allowed number of parts
            pos, ok, n_used = 0, True, []
            cands = [sorted(want_count(b - a, full, ms)) if full > 0 else [ms] for a, b in zip(sx[:-1], sx[1:])]
            match = None
            for counts in itertools.product(*cands):
                wx, wy = [], []
                for k, n in enumerate(counts):
                    fr = np.arange(n) / n if jb is None else np.arange(n + 1) / n * (1 - jb)
                    wx += list(sx[k] + fr * (sx[k + 1] - sx[k]))
                    wy += list(sy[k] + fr * (sy[k + 1] - sy[k]))
                wx.append(sx[-1])
                wy.append(sy[-1])
                if len(wx) == len(gx) and close(gx, wx, 1e-9, 1e-9) and (gy is None or close(gy, wy, 1e-9, 1e-9)):
                    match = counts
                    break
            ctx.check(match is not None, "subdivide:%s points" % what, case, lambda: "%r %r" % (X, Y))
            if match:
                ctx.outcome(match)
    ctx.trace()


def layers(ctx, item):
    from geotecha.piecewise import piecewise_linear_1d as m
    h, segs, ms = item
    ctx.state((h, segs, ms))
    ha = np.array(h)
    case = dict(h=h, segs=segs, min_segs=ms)
    for form in (list, np.array):
        ha = form(h)
        z = call(m.layer_coords, ha, segs, ms)
        ctx.step()
        ctx.check(list(ha) == list(h), "layers:arguments altered", case)
        if isinstance(z, Raised):
            ctx.fail("layers:raised", case, z)
            continue
        dx = sum(h) / float(segs)
        cands = [sorted(want_count(v, dx, ms)) for v in h]
        ok = False
        for counts in itertools.product(*cands):
            w, top = [], 0.
            for v, n in zip(h, counts):
                w += [top + v * k / float(n) for k in range(n)]
                top += v
            w.append(top)
            if len(w) == len(z) and close(z, w, 1e-10, 1e-10):
                ok = True
                ctx.outcome(counts)
        ctx.check(ok, "layers:partition", case, list(z))
    ctx.trace()


def elements(ctx):
    from geotecha.piecewise import piecewise_linear_1d as m
    for n, h, p, sym in itertools.product(range(1, 10), (1, 1.0, 6.0, 0.7, 3), (0.25, 0.5, 1, 1.0, 1.05, 2, 3.0, 0, -1), (True, False)):
        ctx.state(("el", n, h, p, sym))
        case = dict(n=n, h=h, p=p, symmetry=sym)
        r = call(m.subdivide_into_elements, n=n, h=h, p=p, symmetry=sym)
        ctx.step()
        if p <= 0 or n <= 1:
            ctx.check(isinstance(r, Raised) and r.type == "ValueError", "elements:not rejected", case, r)
            continue
        if isinstance(r, Raised):
            ctx.fail("elements:raised", case, r)
            continue
        e = np.arange(n) if not sym else np.array([min(k, n - 1 - k) for k in range(n)])
        w = float(p) ** e
        w = w / w.sum() * h
        ctx.check(close(np.asarray(r, dtype=float), w, 1e-9, 1e-12), "elements:sizes", case, "%r want %r" % (r, w))
        ctx.trace()


def run(ctx):
    T = ctx.thorough
    with ctx.group("monotone"):
        S = [x for n in (2, 3, 4) for x in itertools.product((0., 1., 2., 20.), repeat=n)]
        S += [x for x in itertools.product((0., 1., 2.), repeat=5)]
        if T:
            S += [x for x in itertools.product((0., 1., 2., 17.), repeat=6)]
        ctx.parallel(monotone, split(S, 24))
    with ctx.group("reshape"):
        S = list(pw.shapes([2, 3], (0., 1., 2.), (-1., 0., 1., 2.))) + list(pw.shapes([4], (0., 1., 2.), (0., 1., 2.)))
        S += list(pw.shapes([5], (0., 1., 2., 3.), (0., 1.) if not T else (0., 1., 2.)))
        S += list(pw.shapes([6], (0., 1., 2., 3.), (0., 1.)))[::1 if T else 5]
        ctx.parallel(reshape, split(S, 32))
    with ctx.group("common breakpoints"):
        s3 = list(pw.shapes([2, 3], (0., 1., 2.), (-1., 0., 2.)))
        s4 = list(pw.shapes([4], (0., 1., 2., 3.), (0., 2.)))
        A = s3 + s4[::3]
        B = s3[::1 if T else 4] + s4[::4 if T else 23]
        items = [(a, B, [None]) for a in split(A, 40)]
        B2 = [((x[0] + 1.5, x[1] + 1.5), y) for x, y in pw.shapes([2], (0., 1.), (0., 3.))] + s4[::41]
        items += [(a, s4[::31], B2) for a in split(A[::2], 24)]
        ctx.parallel(common, items)
    with ctx.group("many points"):
        L = [(tuple(4 * v for v in x), tuple(4 * v for v in y)) for x, y in pw.long_shapes((7, 12, 21, 40))]
        ctx.parallel(reshape, split(L, 32))
        ctx.parallel(monotone, split([tuple(y) for x, y in L] + [x for x, y in L] + [x[::-1] for x, y in L], 16))
        ctx.parallel(common, [([a], L[3::7], [None, L[5]]) for a in L[::2]])
        ctx.parallel(layers, [(tuple([1., 2.5, 2.][k % 3] for k in range(n)), segs, ms) for n in (6, 12) for segs in (1, 15, 24) for ms in (1, 2)])
    with ctx.group("subdivide"):
        items = []
        X = [(0., 1.), (1., 10.), (0., 1., 10.), (1., 1., 10.), (0.5, 4., 4., 100.), (0., 0., 2.), (-1., 2.), (10., 1.), (3., 1., 0.)]
        Ys = {2: [(0., 1.), (5., 5.), (2., -1.)], 3: [(1., 4., 0.), (2., 2., 8.)], 4: [(1., 10., 3., 3.), (0., 0., 1., 10.)]}
        for x in X:
            for y in Ys[len(x)]:
                for dx in (None, 0.3, 0.37, 0.75, 5.):
                    for ms in (1, 2, 3, 7):
                        for jb in (None, 0.125, 1e-3):
                            for lx, ly in ((False, False), (True, False), (False, True), (True, True)):
                                items.append((x, y, dx, ms, jb, lx, ly))
        ctx.sample(items[0])
        ctx.sample(items[-1])
        ctx.parallel(lambda c, it: [subdivide(c, i) for i in it], split(items, 32))
    with ctx.group("layers"):
        items = [(h, segs, ms) for n in (1, 2, 3, 4) for h in itertools.product((1., 2., 2.5, 5.) if n < 4 else (1., 2.5), repeat=n)
                 for segs in (1, 2, 3, 5, 7, 11) for ms in (1, 2, 3, 4)]
        ctx.parallel(lambda c, it: [layers(c, i) for i in it], split(items, 16))
    with ctx.group("elements"):
        elements(ctx)
