"""C25: properties of polygons and polyhedra do not depend on how they are listed."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration: every simple polygon with 3-5 vertices on a 3x3 grid, in every listing (start, direction, open or closed), laid in every plane "
             "of a set of maps into space; every tetrahedron of a 3x3x3 grid, prisms and parallelepipeds; compared with exact rational moments")
BOUNDS = "polygons of 3-5 vertices on a 3x3 grid (4x4 for triangles and quadrilaterals in thorough) and 12 of 6-32 vertices, 21 planes, all listings; tetrahedra of a 3x3x3 grid"
RULE = "distinct (polygon, listing, plane)"


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def onseg(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    s = lambda v: (v > 0) - (v < 0)
    if s(cross(a, b, c)) * s(cross(a, b, d)) < 0 and s(cross(c, d, a)) * s(cross(c, d, b)) < 0:
        return True
    return onseg(a, b, c) or onseg(a, b, d) or onseg(c, d, a) or onseg(c, d, b)


def simple(p):
    n = len(p)
    if n == 3:
        return cross(*p) != 0
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        if onseg(a, b, p[(i + 2) % n]) or onseg(b, p[(i + 2) % n], a):
            return False
        for j in range(i + 2, n):
            if (j + 1) % n == i:
                continue
            if meet(a, b, p[j], p[(j + 1) % n]):
                return False
    return True


def polygons(k, n):
    """simple polygons of n vertices on a k x k grid, counter-clockwise, each once"""
    grid = [(i, j) for i in range(k) for j in range(k)]
    out = []
    for vs in itertools.combinations(grid, n):
        for rest in itertools.permutations(vs[1:]):
            if rest[0] > rest[-1]:
                continue
            p = (vs[0],) + rest
            if simple(p):
                out.append(p if moments(p)[0] > 0 else p[:1] + p[:0:-1])
    return out


def moments(p):
    """exact A, (cu, cv), mean (u-cu)^2, (u-cu)(v-cv), (v-cv)^2"""
    A = Su = Sv = Suu = Suv = Svv = Fr(0)
    n = len(p)
    for i in range(n):
        (a, b), (c, d) = p[i], p[(i + 1) % n]
        w = Fr(a * d - c * b)
        A += w / 2
        Su += w * (a + c) / 6
        Sv += w * (b + d) / 6
        Suu += w * (a * a + a * c + c * c) / 12
        Svv += w * (b * b + b * d + d * d) / 12
        Suv += w * (2 * a * b + a * d + c * b + 2 * c * d) / 24
    cu, cv = Su / A, Sv / A
    return A, (cu, cv), Suu / A - cu * cu, Suv / A - cu * cv, Svv / A - cv * cv


R2, R3 = math.sqrt(0.5), math.sqrt(1 / 3.)
C90, S90 = math.cos(math.pi / 2), math.sin(math.pi / 2)     # not quite 0
T = 1e-9
PLANES = {   # name -> origin, e1, e2; None: two-dimensional points
    "2d": None,
    "xy": ((0, 0, 0), (1, 0, 0), (0, 1, 0)), "yz": ((0, 0, 0), (0, 1, 0), (0, 0, 1)), "zx": ((0, 0, 0), (0, 0, 1), (1, 0, 0)),
    "xy at 5": ((0, 0, 5), (1, 0, 0), (0, 1, 0)), "yz at -3": ((-3, 0, 0), (0, 1, 0), (0, 0, 1)), "zx at 2": ((1, 2, 4), (0, 0, 1), (1, 0, 0)),
    "xz": ((0, 0.5, 0), (1, 0, 0), (0, 0, 1)), "yx": ((0, 0, -1), (0, 1, 0), (1, 0, 0)),
    "along x": ((0, 0, 1), (1, 0, 0), (0, 1, 1)), "along y": ((2, 0, 0), (0, 1, 0), (1, 0, -1)), "along z": ((0, -1, 0), (0, 0, 1), (1, 2, 0)),
    "tilt": ((0, 0, 0), (1, 0, 1), (0, 1, 1)), "tilt2": ((3, -2, 7), (1, 2, -1), (-2, 1, 3)), "negative": ((-9, -9, -9), (-1, 0, 2), (0, -2, -1)),
    "turned": ((0, 0, 4), (C90, S90, 0), (-S90, C90, 0)), "turned2": ((1, 2, 3), (S90, 0, C90), (-C90, 0, S90)), "turned3": ((1, 2, 3), (C90, -S90, C90), (C90, C90, S90)),
    "nearly flat": ((0, 0, 3), (1, 0, T), (0, 1, 0)), "nearly upright": ((5, 0, 0), (T, 1, 0), (0, T, 1)), "slight": ((1, 1, 1), (1, 0, 1e-4), (0, 1, -1e-3)),
    "far": ((1000, -2000, 500), (1, 0, 1), (0, 2, 1))}


def vec(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def listings(p):
    n = len(p)
    for turn in (1, -1):
        for s in range(n):
            yield turn, [p[(s + turn * i) % n] for i in range(n)]


def polygon_case(ctx, block):
    from geotecha.mathematics import geometry as G
    for pi, p in block:
        A, (cu, cv), suu, suv, svv = moments(p)
        A, cu, cv, suu, suv, svv = [float(v) for v in (A, cu, cv, suu, suv, svv)]
        for name, pl in PLANES.items():
            if not ctx.thorough and len(p) == 5 and (pi + len(name)) % 4 and name != "2d":
                continue
            o, e1, e2 = pl or PLANES["xy"]
            nn = vec(e1, e2)
            ln = math.sqrt(sum(v * v for v in nn))
            nn = [v / ln for v in nn]
            area = A * ln
            cen = [o[i] + cu * e1[i] + cv * e2[i] for i in range(3)]
            mom = [suu * e1[i] ** 2 + 2 * suv * e1[i] * e2[i] + svv * e2[i] ** 2 for i in range(3)]
            far = max(abs(v) for v in o) + 10
            for turn, q in listings(p):
                for closed in (False, True):
                    if closed and not (ctx.thorough or q[0] == p[0]):
                        continue
                    pts = [list(v) if pl is None else [o[i] + v[0] * e1[i] + v[1] * e2[i] for i in range(3)] for v in q]
                    if closed:
                        pts = pts + pts[:1]
                    arr = np.array(pts, dtype=float)
                    given = pts if (pi + turn) % 2 else (arr if not closed else tuple(tuple(v) for v in pts))
                    case = dict(points=pts, plane=name)
                    ctx.step(4)
                    ctx.state((p, name, turn, tuple(q[0]), closed))
                    (r,) = (call(G.eqn_of_plane, given),)
                    ok = not isinstance(r, Raised) and close(r[0], [turn * v for v in nn], 1e-8)
                    ctx.check(ok, "normal of the plane", case, "%r want %r" % (r, [turn * v for v in nn]))
                    if ok:
                        ctx.check(max(abs(np.dot(arr.dot(r[0]) if arr.shape[1] == 3 else arr.dot(r[0][:2]), 1.0) + r[1])) < 1e-9 * far, "plane does not contain the points", case, repr(r))
                    r = call(G.polygon_area, given)
                    ctx.check(not isinstance(r, Raised) and close(r, area, 1e-8 * area), "area", case, "%r want %r" % (r, area))
                    r = call(G.polygon_centroid, given)
                    ctx.check(not isinstance(r, Raised) and close(r, cen, 1e-8 * far), "centroid", case, "%r want %r" % (r, cen))
                    r = call(G.polygon_2nd_moment_of_area, given)
                    ctx.check(not isinstance(r, Raised) and close(r, mom, 1e-9 * far ** 2), "second moments", case, "%r want %r" % (r, mom))
                    if given is arr:
                        ctx.check(np.array_equal(arr, np.array(pts, dtype=float)), "points altered", case, "")
            ctx.trace()
        # open and closed coordinates
        for pts in ([list(v) for v in p], [list(v) + [i] for i, v in enumerate(p)]):
            for cl in (False, True):
                r = call(G.xyz_from_pts, pts, cl)
                w = [[v[i] if i < len(v) else 0 for v in (pts + pts[:1] if cl else pts)] for i in range(3)]
                ctx.step()
                ctx.check(not isinstance(r, Raised) and all(np.array_equal(a, b) for a, b in zip(r, w)), "coordinates", dict(points=pts, close=cl), repr(r))


def volume(faces):
    """six times the exact volume, faces with integer corners"""
    v = 0
    for f in faces:
        for i in range(1, len(f) - 1):
            a, b, c = f[0], f[i], f[i + 1]
            v += sum(a[j] * vec(b, c)[j] for j in range(3))
    return v


def check_faces(ctx, G, faces, want, case, orders=True):
    """faces counter-clockwise from outside"""
    scale = max(1, max(abs(v) for f in faces for q in f for v in q)) ** 3
    variants = [("as is", faces), ("reversed", [f[::-1] for f in faces])]
    if orders:
        variants += [("rotated", [f[1:] + f[:1] for f in faces]), ("rotated twice", [f[2:] + f[:2] for f in faces]), ("closed", [f + f[:1] for f in faces]), ("faces", faces[::-1]),
                     ("some rotated", [f[i % len(f):] + f[:i % len(f)] for i, f in enumerate(faces)])]
        for perm in itertools.permutations(range(3)):
            variants.append(("axes %d%d%d" % perm, [[[q[k] for k in perm] for q in f] for f in faces]))
        for sh in ((4, 5, 6), (-7, 0, 2), (0.25, -0.5, 0)):
            variants.append(("moved", [[[q[k] + sh[k] for k in range(3)] for q in f] for f in faces]))
        c, s = math.cos(math.pi / 2), math.sin(math.pi / 2)
        variants.append(("turned", [[[c * q[0] - s * q[1], s * q[0] + c * q[1], q[2]] for q in f] for f in faces]))
        variants.append(("turned a little", [[[q[0] - 1e-9 * q[1], 1e-9 * q[0] + q[1], q[2]] for q in f] for f in faces]))
        variants.append(("turned 45", [[[R2 * q[0] - R2 * q[2], q[1], R2 * q[0] + R2 * q[2]] for q in f] for f in faces]))
    for nm, fs in variants:
        sign = -1 if nm == "reversed" or nm in ("axes 021", "axes 102", "axes 210") else 1
        for form in (0, 1) if orders else (0,):
            given = [np.array(f, dtype=float) for f in fs] if form else fs
            r = call(G.polyhedron_volume, given)
            ctx.step()
            ctx.check(not isinstance(r, Raised) and abs(r - sign * want) <= 1e-9 * scale * 100, "volume", dict(case, listing=nm), "%r want %r" % (r, sign * want))
            if form:
                ctx.check(all(np.array_equal(a, np.array(b, dtype=float)) for a, b in zip(given, fs)), "points altered", dict(case, listing=nm), "")


def tetra_case(ctx, block):
    from geotecha.mathematics import geometry as G
    for i, (a, b, c, d) in block:
        m = [[v[k] - a[k] for k in range(3)] for v in (b, c, d)]
        det = sum(m[0][k] * vec(m[1], m[2])[k] for k in range(3))
        if det < 0:
            b, c, det = c, b, -det
        faces = [[list(v) for v in f] for f in ((a, c, b), (a, b, d), (b, c, d), (c, a, d))]
        ctx.state((a, b, c, d))
        check_faces(ctx, G, faces, det / 6., dict(tetrahedron=[a, b, c, d]), orders=ctx.thorough or i % 5 == 0)
        ctx.trace()


def prism_case(ctx, block):
    from geotecha.mathematics import geometry as G
    for p in block:
        A = float(moments(p)[0])
        n = len(p)
        for up in ((0, 0, 1), (0, 0, 3), (1, 0, 2), (1, -1, 1)):
            low = [[u, v, 0] for u, v in p]
            top = [[q[k] + up[k] for k in range(3)] for q in low]
            faces = [low[::-1], top] + [[low[i], low[(i + 1) % n], top[(i + 1) % n], top[i]] for i in range(n)]
            ctx.state((p, up))
            check_faces(ctx, G, faces, A * up[2], dict(base=p, up=up), orders=True)
            ctx.trace()


def hexa_case(ctx):
    from geotecha.mathematics import geometry as G
    unit = [(-1, -1, -1), (-1, -1, 1), (1, -1, 1), (1, -1, -1), (-1, 1, -1), (-1, 1, 1), (1, 1, 1), (1, 1, -1)]
    for rows in itertools.product(((1, 0, 0), (2, 1, 0), (0, 1, 1), (1, 0, -1), (0, 0, 3)), repeat=3):
        det = sum(rows[0][k] * vec(rows[1], rows[2])[k] for k in range(3))
        if not det:
            continue
        for o in ((0, 0, 0), (3, -1, 2)):
            co = [[o[k] + sum(v[i] * rows[i][k] for i in range(3)) for k in range(3)] for v in unit]
            for form in (list, np.array):
                given = form(co)
                faces = call(G.make_hexahedron, given)
                ctx.step()
                ctx.state((rows, o))
                if not ctx.check(not isinstance(faces, Raised) and len(faces) == 6 and all(np.shape(f) == (4, 3) for f in faces), "hexahedron faces", dict(coords=co), repr(faces)):
                    continue
                fs = [np.array(f).tolist() for f in faces]
                each = [sum(q in f for f in fs) for q in co]
                ctx.check(each == [3] * 8, "every corner belongs to three faces", dict(coords=co), each)
                edges = [tuple(map(tuple, (f[i], f[(i + 1) % 4]))) for f in fs for i in range(4)]
                ctx.check(len(set(edges)) == 24 and all((b, a) in edges for a, b in edges), "faces do not close consistently", dict(coords=co), "")
                check_faces(ctx, G, fs, 8. * det, dict(hexahedron=co), orders=form is list)
        ctx.trace()


def code_case(ctx, block):
    """generated integration code against exact integrals"""
    import sympy
    from geotecha.mathematics import geometry as G
    x, y, z = sympy.symbols("x,y,z")
    for i, j in block:
        f = x ** i * y ** j + (2 if i else 0)
        src = call(G.integrate_f_over_polygon_code, f)
        ns = dict(np=np, xyz_from_pts=G.xyz_from_pts)
        r = call(exec, src, ns) if not isinstance(src, Raised) else src
        if not ctx.check(not isinstance(r, Raised), "generated code", dict(f=str(f)), repr(r)):
            continue
        for p in POLY:
            # exact: split in triangles from the origin, polynomial rule by sympy-free expansion
            want = float(exact(p, i, j) + (2 * moments(p)[0] if i else 0))
            for turn, q in listings(p):
                got = call(ns["ifxy"], [list(v) for v in q])
                ctx.step()
                ctx.state((i, j, p, tuple(q[0]), turn))
                ctx.check(not isinstance(got, Raised) and abs(got - turn * want) < 1e-9 * (1 + abs(want)), "generated polygon integral", dict(f=str(f), points=q), "%r want %r" % (got, turn * want))
        ctx.trace()
        for k in (0, 1):
            g = x ** i * y ** j * z ** k
            src = call(G.integrate_f_over_polyhedra_code, g)
            ns = dict(np=np, xyz_from_pts=G.xyz_from_pts, eqn_of_plane=G.eqn_of_plane)
            r = call(exec, src, ns) if not isinstance(src, Raised) else src
            ctx.step()
            if not ctx.check(not isinstance(r, Raised), "generated code", dict(f=str(g)), repr(r)):
                continue
            box = [[0, 0, 0], [0, 0, 3], [1, 0, 3], [1, 0, 0], [0, 2, 0], [0, 2, 3], [1, 2, 3], [1, 2, 0]]
            for form, faces in (("box", [np.array(f, float) for f in G.make_hexahedron(box)]),):
                want = 1. / (i + 1) * 2 ** (j + 1) / (j + 1.) * 3 ** (k + 1) / (k + 1.)
                got = call(ns["ifxyz"], faces)
                ctx.step()
                if isinstance(got, Raised):
                    ctx.check(False, "generated polyhedron code cannot run", dict(f=str(g)), repr(got))
                    # its integrand, with the coordinates of each face read inside the loop
                    ns2 = dict(ns, eqn_of_plane=lambda pts: (ns2.update(zip("xyz", G.xyz_from_pts(pts, True))), G.eqn_of_plane(pts))[1])
                    got = call(lambda: (exec(src.replace("x, y, z = xyz_from_pts(pts,True)", "pass"), ns2), ns2["ifxyz"](faces))[1])
                if ctx.check(not isinstance(got, Raised), "generated polyhedron integrand", dict(f=str(g)), repr(got)):
                    ctx.check(abs(got - want) < 1e-9 * (1 + want), "generated polyhedron integral", dict(f=str(g)), "%r want %r" % (got, want))


POLY = [((0, 0), (2, 0), (2, 1), (0, 1)), ((0, 0), (1, 0), (0, 1)), ((0, 0), (2, 1), (1, 2)), ((0, 0), (2, 0), (1, 1), (2, 2), (0, 2)), ((0, 1), (1, 0), (2, 2))]


def exact(p, i, j):
    """integral of u^i v^j over the polygon, exactly: boundary integral of u^(i+1)/(i+1) v^j dv"""
    tot = Fr(0)
    for k in range(len(p)):
        (a, b), (c, d) = p[k], p[(k + 1) % len(p)]
        poly = [Fr(1)]
        for base, step, times in ((a, c - a, i + 1), (b, d - b, j)):
            for _ in range(times):
                new = [Fr(0)] * (len(poly) + 1)
                for m, co in enumerate(poly):
                    new[m] += co * base
                    new[m + 1] += co * step
                poly = new
        tot += sum(co / (m + 1) for m, co in enumerate(poly)) * (d - b) / (i + 1)
    return tot


def text_case(ctx):
    from geotecha.mathematics import geometry as G
    for names in (None, ["x"], ["x", "y", "z"], ["f"], ["u", "v"], []):
        for s in ("x0", "x1 + x0*y1", "z0**2/x1", "f0 - f1", "n1*x0", "u0+v1", "x[0]", "", "(x0 + y0)/(2*x1)"):
            want = s
            for n in names if names is not None else "xyz":
                want = want.replace(n + "0", n + "[:-1]").replace(n + "1", n + "[1:]")
            r = call(G.replace_x0_and_x1_with_vect, s, *([] if names is None else [names]))
            ctx.step()
            ctx.state((s, str(names)))
            ctx.check(r == want, "names replaced", dict(s=s, names=names), repr(r))


def level_case(ctx):
    from geotecha.mathematics.transformations import depth_to_reduced_level as L
    zs = [0, 0.25, 1, 0.5, 1.0, 2.0, -0.5]
    for H in (1.0, 2, 7.5, 0.1):
        for rl in (None, 0, 12.5, -3.0, 1):
            for z in zs + [np.array(zs), np.array([0, 1, 2]), np.array([[0.1, 0.2], [0.3, 1.0]])]:
                keep = np.array(z)
                r = call(L, z, H, rl)
                want = keep * H if rl is None else rl - keep * H
                ctx.step()
                ctx.state((str(z), H, rl))
                ok = not isinstance(r, Raised) and close(r, want, 1e-13)
                ctx.check(ok, "reduced level", dict(z=str(z), H=H, rl=rl), repr(r))
                ctx.check(np.array_equal(z, keep), "depth altered", dict(z=str(z), H=H, rl=rl), "")
                if ok and rl is not None:
                    back = (rl - r) / float(H)
                    ctx.check(close(back, keep, 1e-12), "reduced level and back", dict(z=str(z), H=H, rl=rl), repr(back))
                    two = call(L, (r - rl) / -float(H), H, rl)
                    ctx.check(not isinstance(two, Raised) and close(two, r, 1e-12), "reduced level and back", dict(z=str(z), H=H, rl=rl), repr(two))
    for kw in ({}, dict(H=3.0), dict(rlzero=2.0)):
        r = call(L, 0.5, **kw)
        ctx.check(r == (kw.get("rlzero", 0) - 0.5 if "rlzero" in kw else 0.5 * kw.get("H", 1.0)), "defaults", kw, repr(r))


def larger():
    """polygons of 6-32 vertices: convex ones, staircases, combs, spirals, and ones with vertices along straight sides"""
    out = []
    for R in (1, 2, 3):
        vs = [(a, b) for a in range(-R, R + 1) for b in range(-R, R + 1) if math.gcd(a, b) == 1]
        vs.sort(key=lambda v: math.atan2(v[1], v[0]))
        p, at = [], (0, 0)
        for v in vs:
            p.append(at)
            at = (at[0] + v[0], at[1] + v[1])
        out.append(tuple(p))
    for k in (2, 3, 6):
        st = [(0, 0), (k, 0)] + [q for i in range(k) for q in ((k - i, i + 1), (k - i - 1, i + 1))]
        out.append(tuple(st))
        out.append(tuple([(0, -1), (2 * k - 1, -1)] + [q for i in range(k - 1, -1, -1) for q in ((2 * i + 1, 2 + i), (2 * i, 2 + i)) + (((2 * i, 0), (2 * i - 1, 0)) if i else ())]))
    out.append(((0, 0), (6, 0), (6, 5), (1, 5), (1, 2), (4, 2), (4, 3), (2, 3), (2, 4), (5, 4), (5, 1), (0, 1)))
    out.append(((0, 0), (1, 0), (2, 0), (2, 2), (1, 2), (0, 2), (0, 1)))
    out.append(tuple([(i, 0) for i in range(8)] + [(7, i) for i in range(1, 5)] + [(0, 4)]))
    for p in out:
        assert moments(p)[0] > 0, p
    return out


def blocks(items, n=64):
    return [items[i::n] for i in range(n) if items[i::n]]


def run(ctx):
    import geotecha.mathematics.geometry
    on = lambda g: not ctx.only or ctx.only in g
    ps = [p for n in (3, 4, 5) for p in polygons(3, n)]
    if ctx.thorough:
        ps += [p for n in (3, 4) for p in polygons(4, n) if max(max(v) for v in p) == 3]
    if on("polygons"):
        with ctx.group("polygons"):
            ctx.parallel(polygon_case, blocks(list(enumerate(ps))))
    if on("many vertices"):
        with ctx.group("many vertices"):
            big = larger()
            ctx.parallel(polygon_case, [[(i, p)] for i, p in enumerate(big)])
            ctx.parallel(prism_case, [[p] for p in big])
    if on("polyhedra"):
        with ctx.group("polyhedra"):
            g = list(itertools.product(range(3), repeat=3))
            tets = [t for t in itertools.combinations(g, 4) if t[0] == (0, 0, 0) or ctx.thorough]
            tets = [t for t in tets if sum((t[1][k] - t[0][k]) * vec([t[2][m] - t[0][m] for m in range(3)], [t[3][m] - t[0][m] for m in range(3)])[k] for k in range(3))]
            ctx.parallel(tetra_case, blocks(list(enumerate(tets))))
            ctx.parallel(prism_case, blocks(ps[::1 if ctx.thorough else 6]))
            hexa_case(ctx)
    if on("generated"):
        with ctx.group("generated"):
            ctx.parallel(code_case, [[(i, j)] for i in range(4) for j in range(4 - i)])
            text_case(ctx)
    if on("levels"):
        with ctx.group("levels"):
            level_case(ctx)
            ctx.trace()
