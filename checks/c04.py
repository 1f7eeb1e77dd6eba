"""C04 superposition of time-depth loads: every list of up to three loads from an
alphabet of time histories x depth distributions x (optional) frequency/phase."""
import itertools
import numpy as np
from mc.core import call, Raised, close
from mc import pw
from checks.c02 import interp, layers_of

LEVEL = "model_checking"
BOUNDS = "lists of 1-3 loads over 7 histories x 5 distributions x 4 (omega, phase) options; 4 property profiles; 9 times, 10 depth intervals"

TIMES = [-1., 0., 0.5, 1., 1.5, 2., 3., 4., 5.]
A = [((0., 1.), (0., 1.)), ((0., 0., 4.), (0., 2., 2.)), ((1., 1., 2., 3.), (0., -1., 3., 3.)),
     ((0., 1., 1., 2.), (1., 1., 4., 0.)), ((0., 4.), (3., 3.)), ((2., 2., 2., 4.), (0., 1., -2., 1.)), ((0., 3.), (0., 0.))]
B = [((0., 1.), (1., 1.)), ((0., 1.), (2., -1.)), ((0., 0.25, 0.25, 1.), (1., 1., 3., 0.5)),
     ((0., 0.5), (0., 4.)), ((0.25, 0.75), (1., 2.))]
C = [((0., 1.), (1., 1.)), ((0., 0.5, 0.5, 1.), (1., 2., 0.5, 0.5)), ((0., 0.3, 1.), (0., 1., 4.)), ((0., 0.25, 0.25, 0.5, 0.5, 1.), (1., 1., 2., 2., 7., 3.))]
OM = [None, (2., 0.5), (0., 0.), (0., np.pi), (5., -1.)]
Z = [0., 0.1, 0.25, 0.5, 1.]
ZI = [(a, b) for i, a in enumerate(Z) for b in Z[i + 1:]]


def one(a, b, c, om, cm):
    ya = np.array([interp(a[0], a[1], t, cm) for t in TIMES])
    if om is not None:
        ya = ya * np.cos(om[0] * np.array(TIMES) + om[1])
    fb, fc = pw.fn(*b), pw.fn(*c)
    yb = np.array([pw.integral2(fb, fc, z0, z1) for z0, z1 in ZI])
    return yb[:, None] * ya[None, :]


def case_list(ctx, items):
    from geotecha.piecewise import piecewise_linear_1d as m
    F = m.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super
    G = m.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super
    f1 = m.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between
    g1 = m.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between
    memo = {}

    def ref(ia, ib, ic, io, cm):
        k = (ia, ib, ic, io, cm)
        if k not in memo:
            memo[k] = one(A[ia], B[ib], C[ic], OM[io], cm)
        return memo[k]
    PL = m.PolyLine
    z0, z1 = [z[0] for z in ZI], [z[1] for z in ZI]
    for loads, ic in items:
        ctx.state((loads, ic))
        a = [PL(*map(list, A[i])) for i, j, k in loads]
        b = [PL(*map(list, B[j])) for i, j, k in loads]
        om = [OM[k] for i, j, k in loads]
        c = PL(*map(list, C[ic]))
        for cm in (False, True):
            case = dict(loads=[dict(history=A[i], depth=B[j], omega_phase=OM[k]) for i, j, k in loads], profile=C[ic], achoose_max=cm)
            want = sum(ref(i, j, ic, k, cm) for i, j, k in loads)
            want0 = sum(ref(i, j, ic, 0, cm) for i, j, k in loads)
            calls = [("cos", lambda: G(a, b, c, TIMES, z0, z1, omega_phase=om, achoose_max=cm), want),
                     ("cos arrays", lambda: G(a, b, c, np.array(TIMES), np.array(z0), np.array(z1), omega_phase=om, achoose_max=cm), want),
                     ("no cos", lambda: F(a, b, c, TIMES, z0, z1, achoose_max=cm), want0),
                     ("cos without pairs", lambda: G(a, b, c, TIMES, z0, z1, achoose_max=cm), want0),
                     ("one time", lambda: np.hstack([G(a, b, c, [t], z0[:3], z1[:3], omega_phase=om, achoose_max=cm) for t in TIMES[1::3]]), want[:3, 1::3]),
                     ("one interval", lambda: np.vstack([F(a, b, c, TIMES[::2], [p], [q], achoose_max=cm) for p, q in ZI[::4]]), want0[::4, ::2])]
            if len(loads) == 1:
                i, j, k = loads[0]
                calls += [("single", lambda: F(a[0], b[0], c, TIMES, z0, z1, achoose_max=cm), want0),
                          ("single cos", lambda: G(a[0], b[0], c, TIMES, z0, z1, omega_phase=om[0], achoose_max=cm), want),
                          ("plain", lambda: f1(a[0], b[0], c, TIMES, z0, z1, achoose_max=cm), want0)]
                if om[0] is not None:
                    calls.append(("plain cos", lambda: g1(a[0], om[0][0], om[0][1], b[0], c, TIMES, z0, z1, achoose_max=cm), want))
            else:
                calls.append(("reversed order", lambda: G(a[::-1], b[::-1], c, TIMES, z0, z1, omega_phase=om[::-1], achoose_max=cm), want))
            for name, do, w in calls:
                got = call(do)
                ctx.step()
                ctx.check(not isinstance(got, Raised) and close(got, w, 1e-10, 1e-10), "superpose:" + name, case, lambda: "%r want %r" % (got, w))
        for p, src in list(zip(a, [A[i] for i, j, k in loads])) + list(zip(b, [B[j] for i, j, k in loads])) + [(c, C[ic])]:
            ctx.check(list(p.x) == list(src[0]) and list(p.y) == list(src[1]), "superpose:operand altered", case, p)
        ctx.check(len(a) == len(loads) and om == [OM[k] for i, j, k in loads], "superpose:list altered", case)
        ctx.trace()


def mismatches(ctx):
    from geotecha.piecewise import piecewise_linear_1d as m
    F = m.pxa_ya_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super
    G = m.pxa_ya_cos_multiply_integrate_x1b_x2b_y1b_y2b_multiply_x1c_x2c_y1c_y2c_between_super
    p = m.PolyLine([0, 1], [1, 1])
    for na, nb, no in itertools.product(range(1, 4), range(1, 4), range(1, 4)):
        ok = na == nb == no
        r = call(G, [p] * na, [p] * nb, p, [0.], [0.], [1.], omega_phase=[(1., 0.)] * no)
        ctx.step()
        ctx.state((na, nb, no))
        ctx.check(isinstance(r, Raised) != ok, "mismatch:cos", dict(a=na, b=nb, omega_phase=no), r)
        r = call(F, [p] * na, [p] * nb, p, [0.], [0.], [1.])
        ctx.check(isinstance(r, Raised) != (na == nb), "mismatch", dict(a=na, b=nb), r)
        ctx.trace()


def run(ctx):
    T = ctx.thorough
    alpha = list(itertools.product(range(len(A)), range(len(B)), range(len(OM))))
    items = [((l,), ic) for l in alpha for ic in range(len(C))]
    two = list(itertools.product(alpha, repeat=2))
    three = list(itertools.product(alpha[::3], alpha[1::7], alpha[2::11]))
    for k, p in enumerate(two):
        if T or k % 13 == 0:
            items.append((p, k % len(C)))
    for k, p in enumerate(three):
        if T or k % 7 == 0:
            items.append((p, k % len(C)))
    ctx.sample(items[0])
    ctx.sample(items[-1])
    with ctx.group("superposition"):
        ctx.parallel(case_list, [items[k::32] for k in range(32)])
    with ctx.group("mismatches"):
        mismatches(ctx)
