"""Boring reference model of a piecewise linear function given by points.

A function is a tuple of (x, y) points with non-decreasing x.  At an x shared by
several points the first is the value from the left, the last from the right.
Outside the points the end values hold.
"""
import itertools
import numpy as np


def fn(x, y):
    pts = [(float(a), float(b)) for a, b in zip(x, y)]
    xs = [p[0] for p in pts]
    if any(b < a for a, b in zip(xs[:-1], xs[1:])):
        pts = pts[::-1]
        xs = xs[::-1]
        assert all(b >= a for a, b in zip(xs[:-1], xs[1:]))
    return tuple(pts)


def val(f, x, side):
    """value of f at x from side 'L' or 'R'"""
    at = [p[1] for p in f if p[0] == x]
    if at:
        return at[0] if side == "L" else at[-1]
    if x < f[0][0]:
        return f[0][1]
    if x > f[-1][0]:
        return f[-1][1]
    for (x0, y0), (x1, y1) in zip(f[:-1], f[1:]):
        if x0 < x < x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def val_tol(f, x, side, tol=1e-9):
    """as val but nodes within tol of x count as being at x"""
    at = [p[1] for p in f if abs(p[0] - x) <= tol]
    if at:
        return at[0] if side == "L" else at[-1]
    return val(f, x, side)


def crit(*fs):
    """critical x values of several functions: nodes, middles and outside points"""
    xs = sorted(set(p[0] for f in fs for p in f))
    out = [xs[0] - 1.0]
    for a, b in zip(xs[:-1], xs[1:]):
        out += [a, (a + b) / 2.0]
    return out + [xs[-1], xs[-1] + 1.0]


def integral(f, a, b):
    """exact integral of f over [a, b], a <= b"""
    xs = sorted(set([a, b] + [p[0] for p in f if a < p[0] < b]))
    s = 0.0
    for x0, x1 in zip(xs[:-1], xs[1:]):
        s += (val(f, x0, "R") + val(f, x1, "L")) / 2 * (x1 - x0)
    return s


def integral2(f, g, a, b):
    """exact integral of f*g over [a, b]"""
    xs = sorted(set([a, b] + [p[0] for h in (f, g) for p in h if a < p[0] < b]))
    s = 0.0
    for x0, x1 in zip(xs[:-1], xs[1:]):
        f0, f1, g0, g1 = val(f, x0, "R"), val(f, x1, "L"), val(g, x0, "R"), val(g, x1, "L")
        fm, gm = (f0 + f1) / 2, (g0 + g1) / 2
        s += (f0 * g0 + 4 * fm * gm + f1 * g1) / 6 * (x1 - x0)
    return s


def xseqs(n, alphabet):
    """non-decreasing sequences of length n spanning a non-zero range"""
    for c in itertools.combinations_with_replacement(alphabet, n):
        if c[0] < c[-1]:
            yield c


def shapes(ns, xa, ya):
    for n in ns:
        for x in xseqs(n, xa):
            for y in itertools.product(ya, repeat=n):
                yield x, y


def distinct(f):
    """canonical form: what both sides are at every node"""
    return tuple((x, val(f, x, "L"), val(f, x, "R")) for x in sorted(set(p[0] for p in f)))


def same_function(f, g, tol=1e-9, exclude_ends=False):
    """None if equal on both sides everywhere, else a description"""
    for x in crit(f, g):
        for s in "LR":
            a, b = val_tol(f, x, s), val_tol(g, x, s)
            if not abs(a - b) <= tol * (1 + abs(b)):
                return "at x=%r%s: %r != %r" % (x, {"L": "-", "R": "+"}[s], a, b)
    return None


def number_types(*args):
    """the same arguments with every subset of the whole-number ones given as integers"""
    args = [list(a) for a in args]
    k = [i for i, a in enumerate(args) if all(float(v).is_integer() for v in a)]
    for mask in itertools.product((0, 1), repeat=len(k)):
        out = [list(map(float, a)) for a in args]
        for i, t in zip(k, mask):
            if t:
                out[i] = [int(v) for v in args[i]]
        yield out


def long_shapes(sizes):
    """point lists of many points: every pattern of steps, plateaus and repeated points, all values exact in binary"""
    for n in sizes:
        for step in (0, 2, 3, 7):            # every step-th point stands above the one before it
            for kind in range(4):
                x, y, v = [], [], 0.
                for k in range(n):
                    if not (step and k and k % step == 0):
                        v += 1. + .25 * (k % 3)
                    x.append(v)
                    y.append(float((k * 5) % 7 - 3) if kind == 0 else float(k // 2) if kind == 1 else float(-(k % 2)) if kind == 2 else 4. if k % 5 else -k / 4.)
                yield tuple(x), tuple(y)
