"""C27 moving loads on a beam act where and when they should, and superpose.

Vehicles are enumerated over a lattice of layouts, speeds, directions, starts and travelled
lengths and asked for their axles at every time of a lattice that straddles every entry and
exit; the beam programs are executed on every combination of a lattice of section properties and
loads and compared with an independent Galerkin model (own quadrature, own time integration)."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from scipy.integrate import solve_ivp, quad
from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of vehicle, section-property and load lattices; every configuration executed on the real code and on an "
             "independent Galerkin model with its own quadrature and time integration, plus all histories of queries up to a depth")
BOUNDS = ("vehicles: 3 axle layouts x offset x velocity (both signs) x t0 x x0 x L, 30-60 times each, all query histories of depth 2-3; infinite beam: "
          "velocity ratio x damping ratio x stiffness ratio lattice; beams: 5 Galerkin terms, every section property varied in turn and together "
          "(constant, stepped, linear), up to 2 vehicles and 2 stationary loads, raw and normalised input, three implementations; "
          "numerical and nonlinear paths with 3 terms; Ding et al: 3 boundary conditions, linear and cubic foundation")

NT = 5


# ------------------------------------------------------------------ vehicles
def axles(x, off, v, t0, x0, L, t):
    """position of every axle and whether it is on its stretch of beam (None on the boundary)"""
    d = [xi + off for xi in x]
    if v > 0:
        pos = [x0 + di + v * (t - t0) for di in d]
    else:
        pos = [x0 + L - di + v * (t - t0) for di in d]
    on = []
    for p in pos:
        a = min(p - x0, x0 + L - p)
        on.append(None if abs(a) < 1e-9 * (1 + L) else a > 0)
    return np.array(pos), on


def ask(m, q, kw):
    """one query of a vehicle -> plain result"""
    x, off, v, t0, x0, L, p = kw
    if q[0] == "beam":
        return [np.array(a) for a in m.point_loads_on_beam(q[1])]
    if q[0] == "pos":
        return np.array(m.axle_positions(t=q[1], v0=q[2], t0=q[3], x0=q[4]))
    if q[0] == "pass":
        return np.array(m.time_axles_pass_beam_point(q[1]))
    if q[0] == "passx":
        return np.array(m.time_axles_pass_point(q[1], v0=q[2], t0=q[3], x0=q[4]))
    if q[0] == "conv":
        pl, om = m.convert_to_specbeam()
        return [(list(a.x), list(a.y)) for a in pl], [tuple(map(float, o)) for o in om]


def expect(ctx, q, r, kw, case):
    x, off, v, t0, x0, L, p = kw
    ptp = 1e-9 * (1 + abs(L) + max(map(abs, x)) + abs(x0) + abs(off))
    if q[0] == "beam":
        pos, on = axles(x, off, v, t0, x0, L, q[1])
        ctx.check(np.shape(r[0]) == pos.shape and np.allclose(r[0], pos, rtol=0, atol=ptp), "axle position on the beam", case,
                  lambda: "got %s want %s" % (r[0], pos))
        for a, b, c in zip(r[1], p, on):
            ctx.check((a == b or a == 0) if c is None else a == (b if c else 0), "axle load on the beam", case,
                      lambda: "got %s want %s at %s" % (r[1], [pp if c else 0 for pp, c in zip(p, on)], pos))
    elif q[0] == "pos":
        s = -1 if q[2] < 0 else 1
        want = [s * (xi + off) + q[4] + q[2] * (q[1] - q[3]) for xi in x]
        ctx.check(np.allclose(r, want, rtol=0, atol=1e-9 + 1e-9 * np.max(np.abs(want))), "axle positions", case, lambda: "got %s want %s" % (r, want))
    elif q[0] == "pass":
        for i, tt in enumerate(r):
            pos, _ = axles(x, off, v, t0, x0, L, tt)
            ctx.check(abs(pos[i] - q[1]) < 10 * ptp, "time an axle passes a beam point", case, lambda: "axle %d is at %g at t=%g" % (i, pos[i], tt))
    elif q[0] == "passx":
        s = -1 if q[2] < 0 else 1
        for xi, tt in zip(x, r):
            at = s * (xi + off) + q[4] + q[2] * (tt - q[3])
            ctx.check(abs(at - q[1]) < 1e-8 * (1 + abs(q[1]) + abs(q[4]) + abs(xi)), "time an axle passes a point", case, lambda: "axle is at %g" % at)
    elif q[0] == "conv":
        pl, om = r
        ctx.check(len(pl) == len(om) == len(x), "one load history per axle", case, lambda: str(r))
        for i, (a, o, pi) in enumerate(zip(pl, om, p)):
            ts = np.array(a[0])
            ctx.check(len(ts) == 4 and a[1][0] == 0 and a[1][-1] == 0 and list(a[1][1:3]) == [pi, pi] and np.all(np.diff(ts) >= 0),
                      "axle load history shape", case, lambda: str(a))
            for tt in (ts[0], .3 * ts[0] + .7 * ts[-1], ts[-1]):
                pos, _ = axles(x, off, v, t0, x0, L, tt)
                ctx.check(abs(o[0] * tt + o[1] - pos[i]) < 10 * ptp, "axle position in spectral form", case,
                          lambda: "omega*t+phase=%g, axle at %g" % (o[0] * tt + o[1], pos[i]))
            ends = sorted([axles(x, off, v, t0, x0, L, ts[0])[0][i], axles(x, off, v, t0, x0, L, ts[-1])[0][i]])
            ctx.check(abs(ends[0] - x0) < 10 * ptp and abs(ends[1] - x0 - L) < 10 * ptp, "axle enters and leaves at the ends", case,
                      lambda: "ends %s, stretch %g..%g" % (ends, x0, x0 + L))


def case_vehicle(ctx, item):
    from geotecha.beam_on_foundation.specbeam import MovingPointLoads
    x, p, off, v, t0, x0, L = item
    ctx.state(("veh",) + tuple(map(str, item)))
    kw = (x, off, v, t0, x0, L, p)
    base = lambda: dict(x=x, p=p, offset=off, v=v, t0=t0, x0=x0, L=L)

    def make():
        return MovingPointLoads(x=x, p=p, offset=off, v=v, L=L, t0=t0, x0=x0)
    m = make()
    times = set()
    for xi in x:
        d = xi + off
        a, b = t0 - d / v, t0 + (L - d) / v
        if v < 0:
            a, b = t0 + d / v, t0 - (L - d) / v
        e = (b - a) * 1e-5
        times |= {a - e, a + e, b - e, b + e, .5 * (a + b), a - .3 * (b - a), b + .3 * (b - a), .77 * a + .23 * b}
    times |= {t0, 0., t0 + .37 * L / abs(v)}
    qs = [("beam", float(t)) for t in sorted(times)]
    qs += [("pos", tt, vv, s, xx) for tt in (0., 2.5) for vv in (v, -v, 0) for s in (0., 1.5) for xx in (0., -3.)]
    qs += [("pass", x0), ("pass", x0 + .3 * L), ("pass", x0 + L), ("passx", .4, v, 0., 0.), ("passx", 2., -v, 1.5, -1.), ("conv",)]
    first = {}
    for q in qs:
        r = ask(m, q, kw)
        ctx.step()
        expect(ctx, q, r, kw, lambda: dict(base(), query=q))
        first[q] = repr(r)
    # every pair of queries gives the same answers as a fresh vehicle, and held answers do not change
    few = [q for q in qs if q[0] != "beam"][::3] + qs[1:len(times):5] + [("conv",)]
    for q1, q2 in itertools.product(few, few):
        m = make()
        if q1[0] == "beam":
            held = m.point_loads_on_beam(q1[1])
        elif q1[0] == "pos":
            held = m.axle_positions(t=q1[1], v0=q1[2], t0=q1[3], x0=q1[4])
        else:
            held = ask(m, q1, kw)
        before = repr(held)
        r = ask(m, q2, kw)
        ctx.step(2)
        ctx.check(repr(held) == before, "answers of a vehicle stay what they were", lambda: dict(base(), held=q1, then=q2),
                  lambda: "%s became %s" % (before, held))
        ctx.check(repr(r) == first[q2], "answers do not depend on earlier questions", lambda: dict(base(), first=q1, then=q2),
                  lambda: "%s want %s" % (r, first[q2]))
    # the velocity given later or to the conversion
    r1 = MovingPointLoads(x=x, p=p, offset=off, L=L, t0=t0, x0=x0).convert_to_specbeam(v=v)
    r2 = MovingPointLoads(x=x, p=p, offset=off).convert_to_specbeam(v=v, L=L, t0=t0, x0=x0)
    c = lambda r: repr(([(list(a.x), list(a.y)) for a in r[0]], [tuple(map(float, o)) for o in r[1]]))
    m = MovingPointLoads(x=x, p=p, offset=off, L=L, t0=t0, x0=x0)
    m.v = v
    ctx.step(3)
    ctx.check(c(r1) == c(r2) == first[("conv",)] == c(m.convert_to_specbeam()), "velocity given to the vehicle or to the conversion", base,
              lambda: "%s / %s / %s" % (c(r1), c(r2), first[("conv",)]))
    a, b = m.point_loads_on_beam(t0), make().point_loads_on_beam(t0)
    ctx.check(repr(a) == repr(b), "velocity set later", base, lambda: "%s %s" % (a, b))
    r = call(m.convert_to_specbeam, v=0)
    ctx.check(isinstance(r, Raised) and r.type == "ValueError", "a vehicle that stands still is refused", base, lambda: repr(r))
    ctx.trace()


# ------------------------------------------------------------------ infinite beam
def case_infinite(ctx, item):
    from geotecha.beam_on_foundation import specbeam as S
    alp, bet, kr = item
    ctx.state(("inf", item))
    case = lambda: dict(alp=alp, bet=bet, kratio=kr)
    a, b = alp / kr ** .25, bet / kr ** .5
    rt = np.roots([1, 0, -4 * a * a, -8j * a * b, 4])
    if min(abs(u - v) for u, v in itertools.combinations(rt, 2)) < 1e-3:
        ctx.trace()          # critical damping: repeated roots, the published partial fractions do not exist
        return
    s, w = S.moving_load_on_beam_on_elastic_foundation(a, b, slim=(-30, 30), npts=6001)
    ctx.step()
    s = np.real(s)
    sc = np.max(np.abs(w))
    ctx.check(np.max(np.abs(np.imag(w))) < 1e-8 * sc, "infinite beam deflection is real", case, lambda: "imag %g" % np.max(np.abs(np.imag(w))))
    # independent: Fourier integral  w(s) = 8/(2 pi) int exp(iks)/(k^4 - 4a^2k^2 - 8iabk + 4) dk, by residues
    k = np.array(sorted(np.roots([1, 0, -4 * a * a, -8j * a * b, 4]), key=lambda z: z.imag))
    dp = lambda z: 4 * z ** 3 - 8 * a * a * z - 8j * a * b
    want = np.empty(len(s), dtype=complex)
    up, lo = k[k.imag > 0], k[k.imag < 0]
    P, N = s >= 0, s < 0
    want[P] = sum(8j * np.exp(1j * z * s[P]) / dp(z) for z in up)
    want[N] = sum(-8j * np.exp(1j * z * s[N]) / dp(z) for z in lo)
    ctx.check(len(up) == len(lo) == 2 and np.max(np.abs(w - want)) < 1e-6 * sc, "infinite beam deflection", case,
              lambda: "max difference %g" % np.max(np.abs(w - want)))
    # nothing but the window depends on the window
    s2, w2 = S.moving_load_on_beam_on_elastic_foundation(a, b, slim=(-3, 1), npts=401)
    ctx.check(np.allclose(np.interp(np.real(s2), s, np.real(w)), np.real(w2), rtol=0, atol=2e-3 * sc), "infinite beam window", case)
    six = np.abs(s) <= 6 + 1e-9
    D = S.DAFinfinite(alp, bet, kr)
    Dr = S.DAFrelative(alp, bet, kr)
    top = np.max(np.real(want[six])) * kr ** -.75
    top8 = np.max(np.real(want[np.abs(s) <= 8 + 1e-9])) * kr ** -.75
    ctx.step(3)
    ctx.check(abs(D - top) < 2e-3 * top, "amplification of an infinite beam", case, lambda: "%g want %g" % (D, top))
    ctx.check(abs(Dr - top8) < 2e-3 * top8, "relative amplification", case, lambda: "%g want %g" % (Dr, top8))
    if alp == 0:
        ctx.check(abs(D - kr ** -.75) < 1e-9, "a standing load is not amplified", case, lambda: "%g" % D)
        st = S.static_point_load_shape(s, 1.)
        ctx.check(np.max(np.abs(np.real(w) - st)) < 1e-6, "static shape", case)
    ctx.trace()


def case_static(ctx, item):
    from geotecha.beam_on_foundation import specbeam as S
    L, xc, fr = item
    ctx.state(("sta", str(item)))
    x, w = S.multi_static(list(xc), list(fr), wsingle=2.5, xlim=(-7, 9), n=33, L=L)
    shape = lambda d: np.exp(-abs(d) / L) * (np.cos(abs(d) / L) + np.sin(abs(d) / L))
    want = np.array([sum(f * shape(xx - c) for c, f in zip(xc, fr)) for xx in np.linspace(-7, 9, 33)]) * 2.5
    ctx.step(4)
    case = lambda: dict(L=L, xc=xc, frel=fr)
    ctx.check(np.allclose(x, np.linspace(-7, 9, 33)) and np.allclose(w, want, rtol=1e-10, atol=1e-12), "static deflections superpose", case,
              lambda: "%s want %s" % (w, want))
    for c in xc:
        ctx.check(np.allclose(S.point_load_static_defl_shape_function(x, L, c), shape(x - c), rtol=1e-10, atol=1e-12), "static shape function", case)
    ctx.check(np.allclose(S.static_point_load_shape(x, L), shape(x), rtol=1e-10, atol=1e-12), "static shape function 2", case)
    ctx.trace()


# ------------------------------------------------------------------ transitions
def case_transition(ctx, item):
    from geotecha.beam_on_foundation import specbeam as S
    kind = item[0]
    ctx.state(("tr",) + item)
    case = lambda: dict(item=item)
    if kind == "tanh":
        a, b = item[1:]
        x = a + b * np.linspace(-3, 3, 25)
        y = S.tanhtran(x, a, b)
        ctx.step(4)
        ctx.check(np.allclose(y, .5 + .5 * np.tanh((x - a) / b), rtol=0, atol=1e-13), "tanh transition", case, lambda: str(y))
        ctx.check(np.allclose(S.tanhtrani(y, a, b), x, rtol=1e-6, atol=1e-6), "inverse of the tanh transition", case)
        bb = [S.tanhtranib(xx, yy, a) for xx, yy in zip(x, y) if abs(xx - a) > 1e-6]
        ctx.check(np.allclose(bb, b, rtol=1e-6), "sharpness of the tanh transition", case, lambda: str(bb))
        ctx.check(np.isscalar(float(S.tanhtran(float(x[3]), a, b))) and abs(S.tanhtran(float(x[3]), a, b) - y[3]) < 1e-14, "tanh transition of a scalar", case)
    else:
        x1, y1, x2, y2, form = item[1:]
        x = np.unique(np.r_[np.linspace(min(x1, x2) - 2, max(x1, x2) + 2, 41), x1, x2, .5 * (x1 + x2)])
        if form == "int":
            x = np.arange(int(min(x1, x2)) - 2, int(max(x1, x2)) + 3)
        xin = list(x) if form == "list" else x
        y = S.reverse_curve_transition(xin, x1, y1, x2, y2)
        ctx.step()
        lo, hi = (x1, x2) if x1 < x2 else (x2, x1)
        ylo, yhi = (y1, y2) if x1 < x2 else (y2, y1)
        want = np.empty(len(x))
        h, l = abs(y2 - y1), abs(x2 - x1)
        if h:
            R = (h * h + l * l) / (4 * h)      # two equal arcs tangent to the horizontals
            sg = np.sign(yhi - ylo)
            for i, xx in enumerate(map(float, x)):
                if xx <= lo:
                    want[i] = ylo
                elif xx >= hi:
                    want[i] = yhi
                elif xx < .5 * (lo + hi):
                    want[i] = ylo + sg * (R - np.sqrt(R * R - (xx - lo) ** 2))
                else:
                    want[i] = yhi - sg * (R - np.sqrt(R * R - (xx - hi) ** 2))
        else:
            want[:] = y1
        ctx.check(np.shape(y) == want.shape and np.allclose(y, want, rtol=0, atol=1e-9 * (1 + h)), "reverse curve transition", case,
                  lambda: "got %s want %s at %s" % (y, want, x))
        d = np.diff(y) * np.sign(yhi - ylo or 1)
        ctx.check(np.all(d >= -1e-12) and np.all(y >= min(y1, y2) - 1e-12) and np.all(y <= max(y1, y2) + 1e-12), "transition is monotone between its end values",
                  case, lambda: str(y))
    ctx.trace()


# ------------------------------------------------------------------ finite beam model
class PWL(object):
    """piecewise linear property from layers [(x0,x1,y0,y1)]"""

    def __init__(self, layers):
        self.l = layers

    def breaks(self):
        return {a for q in self.l for a in q[:2]}

    def __call__(self, x):
        y = np.empty_like(x)
        for a, b, p, q in self.l:
            m = (x >= a) & (x <= b)
            y[m] = p + (q - p) * (x[m] - a) / (b - a)
        return y

    def poly(self):
        from geotecha.piecewise.piecewise_linear_1d import PolyLine
        return PolyLine([q[0] for q in self.l], [q[1] for q in self.l], [q[2] for q in self.l], [q[3] for q in self.l])


ONE = PWL([(0, 1, 1, 1)])
PROPS = [ONE, PWL([(0, .5, 1, 1), (.5, 1, 2.5, 2.5)]), PWL([(0, .4, 1, 1), (.4, .6, 1, 3), (.6, 1, 3, 3)]), PWL([(0, 1, 2, .5)])]
NAMES = ["Ebar", "Ibar", "Abar", "rhobar", "k1bar", "mubar"]


class Model(object):
    def __init__(self, nt, kf, k1, mu, props, k3=0., k3bar=ONE, phi=None, d2=None, beta=None):
        br = {0., 1.}
        for p in props.values():
            br |= p.breaks()
        br |= k3bar.breaks()
        br = sorted(br)
        g, w = np.polynomial.legendre.leggauss(40)
        X = np.concatenate([.5 * (b + a) + .5 * (b - a) * g for a, b in zip(br, br[1:])])
        W = np.concatenate([.5 * (b - a) * w for a, b in zip(br, br[1:])])
        self.beta = np.pi * np.arange(1, nt + 1) if beta is None else beta
        self.phi = (lambda x: np.sin(np.outer(self.beta, np.atleast_1d(x)))) if phi is None else phi
        F = self.phi(X)
        D = (-self.beta[:, None] ** 2 * F) if d2 is None else d2(X)
        P = lambda n: props.get(n, ONE)(X)
        self.M = (F * (W * P("rhobar") * P("Abar"))) @ F.T
        self.C = mu * (F * (W * P("mubar"))) @ F.T
        self.K = kf ** 2 * (D * (W * P("Ebar") * P("Ibar"))) @ D.T + k1 * (F * (W * P("k1bar"))) @ F.T
        self.F, self.W3, self.k3 = F, W * k3bar(X), k3
        self.nt = nt
        self.Mi = np.linalg.inv(self.M)

    def solve(self, loads, tend, rtol=1e-10):
        """loads: list of (tstart, tend, position(t), magnitude(t)) ; returns q(t)"""
        n = self.nt
        ev = sorted({0., tend} | {float(e) for l in loads for e in l[:2] if 0 < e < tend})
        pre = [l for l in loads if l[0] < 0]
        if pre:
            ev = sorted({min(float(l[0]) for l in pre)} | set(ev) | {float(l[1]) for l in pre if l[1] < tend} | {float(l[0]) for l in pre})
        y = np.zeros(2 * n)
        sols = []
        for a, b in zip(ev, ev[1:]):
            mid = .5 * (a + b)
            act = [l for l in loads if l[0] < mid < l[1]]

            def f(t, y):
                r = -self.K @ y[:n] - self.C @ y[n:]
                for l in act:
                    r = r + l[3](t) * self.phi(l[2](t))[:, 0]
                if self.k3:
                    r = r - self.k3 * self.F @ (self.W3 * (y[:n] @ self.F) ** 3)
                return np.r_[y[n:], self.Mi @ r]
            s = solve_ivp(f, (a, b), y, method="DOP853", rtol=rtol, atol=rtol * 1e-3, dense_output=True)
            y = s.y[:, -1]
            sols.append((a, b, s.sol))

        def q(t):
            if t <= ev[0]:
                return np.zeros(n)
            for a, b, s in sols:
                if t <= b:
                    return s(t)[:n]
        return q

    def defl(self, loads, x, t):
        q = self.solve(loads, float(np.max(t)) + 1e-9)
        return np.array([q(tt) for tt in t]) @ self.phi(np.asarray(x)) if True else None


def vehicle_loads(v):
    out = []
    x, p, off, vel, t0, x0, L = v
    for xi, pi in zip(x, p):
        d = xi + off
        if vel > 0:
            a, b = t0 - d / vel, t0 + (L - d) / vel
            pos = lambda t, d=d: x0 + d + vel * (t - t0)
        else:
            a, b = t0 + d / vel, t0 - (L - d) / vel
            pos = lambda t, d=d: x0 + L - d + vel * (t - t0)
        out.append((a, b, pos, lambda t, pi=pi: pi))
    return out


def stationary_load(x, ts, ys, op):
    out = []
    for i in range(len(ts) - 1):
        if ts[i + 1] > ts[i]:
            def mag(t, i=i):
                m = ys[i] + (ys[i + 1] - ys[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])
                return m if op is None else m * np.cos(op[0] * t + op[1])
            out.append((ts[i], ts[i + 1], lambda t: x, mag))
    return out


def kwargs_of(veh, sta):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    d = {}
    if veh:
        d.update(moving_loads_x_norm=[list(v[0]) for v in veh], moving_loads_Fz_norm=[list(v[1]) for v in veh], moving_loads_offset_norm=[v[2] for v in veh],
                 moving_loads_v_norm=[v[3] for v in veh], moving_loads_t0_norm=[v[4] for v in veh], moving_loads_x0_norm=[v[5] for v in veh],
                 moving_loads_L_norm=[v[6] for v in veh])
    if sta:
        d.update(stationary_loads_x_norm=[s[0] for s in sta], stationary_loads_vs_t_norm=[PolyLine(list(s[1]), list(s[2])) for s in sta],
                 stationary_loads_omega_phase_norm=[s[3] for s in sta])
    return d


def raw_kwargs(veh, sta, E, A, L, rho):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    T = L * np.sqrt(rho / E)
    d = {}
    if veh:
        d.update(moving_loads_x=[[x * L for x in v[0]] for v in veh], moving_loads_Fz=[[p * E * A for p in v[1]] for v in veh],
                 moving_loads_offset=[v[2] * L for v in veh], moving_loads_v=[v[3] * L / T for v in veh], moving_loads_t0=[v[4] * T for v in veh],
                 moving_loads_x0=[v[5] * L for v in veh], moving_loads_L=[v[6] * L for v in veh])
    if sta:
        d.update(stationary_loads_x=[s[0] * L for s in sta],
                 stationary_loads_vs_t=[PolyLine([t * T for t in s[1]], [y * E * A for y in s[2]]) for s in sta],
                 stationary_loads_omega_phase=[None if s[3] is None else (s[3][0] / T, s[3][1]) for s in sta])
    return d


def all_loads(veh, sta):
    return [l for v in veh for l in vehicle_loads(v)] + [l for s in sta for l in stationary_load(*s)]


def beam(**kw):
    from geotecha.beam_on_foundation.specbeam import SpecBeam
    d = dict(BC="SS", nterms=NT, nquad=12, use_analytical=True, force_calc=True, k3_norm=0, k3=0, file_stem="nofile")
    d.update(kw)
    s = SpecBeam(**d)
    s.runme()
    return s


XS = np.array([0, .13, .5, .71, 1.])
TS = np.array([0., .4, 1.1, 2.3, 3.7, 6.])

V1 = ((0, -.25), (1., .7), 0., .4, 0., 0., 1.)
V2 = ((0,), (-.8,), -.1, -.3, .5, 0., 1.)
V3 = ((0, -.1), (.5, .5), 0., .5, 1.2, .2, .5)
V4 = ((0, -.3), (.5, .9), .05, -.7, .8, .3, .6)
S1 = (.3, (0, 0, 3., 10.), (0, 1., 1., .2), None)
S2 = (.62, (0, 1., 2., 10.), (0, 0, 2., 2.), (1.7, .6))
LOADS = [([V1], []), ([V2], []), ([V3], []), ([V4], []), ([V1, V2], []), ([], [S1]), ([], [S2]), ([V3, V4], [S1, S2])]


def small(a, b, tol, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol * (np.max(np.abs(b)) if scale is None else scale) + 1e-300


def case_linear(ctx, item):
    pars, pv, li = item
    ctx.state(("lin", pars, pv, li))
    kf, k1, mu = pars
    props = {n: PROPS[i] for n, i in zip(NAMES, pv) if i}
    veh, sta = LOADS[li]
    case = lambda: dict(kf=kf, k1_norm=k1, mu_norm=mu, props={n: p.l for n, p in props.items()}, vehicles=veh, stationary=sta)
    want = Model(NT, kf, k1, mu, props).defl(all_loads(veh, sta), XS, TS).T
    base = dict(kf=kf, k1_norm=k1, mu_norm=mu, tvals_norm=TS, xvals_norm=XS)
    base.update({n: PROPS[i].poly() for n, i in zip(NAMES, pv)})
    base.update(k3bar=ONE.poly())
    st = np.random.get_state()[1].copy(), np.random.get_state()[2]
    s = beam(implementation="vectorized", **dict(base, **kwargs_of(veh, sta)))
    ctx.step()
    ctx.check(small(s.defl_norm, want, 1e-5), "deflection of the beam", case, lambda: "got\n %s\nwant\n %s" % (s.defl_norm, want))
    ctx.check(np.all(st[0] == np.random.get_state()[1]) and st[1] == np.random.get_state()[2], "random state left alone", case)
    sc = np.max(np.abs(want))
    for imp in ("scalar", "fortran"):
        s2 = beam(implementation=imp, **dict(base, **kwargs_of(veh, sta)))
        ctx.step()
        ctx.check(small(s2.defl_norm, s.defl_norm, 1e-8, sc), "implementations agree", lambda: dict(case(), implementation=imp),
                  lambda: "got\n %s\nwant\n %s" % (s2.defl_norm, s.defl_norm))
    # raw input
    E, A, L, rho = 3.5e3, .7, 12., 1.9
    T = L * np.sqrt(rho / E)
    d = dict(base, E=E, A=A, L=L, rho=rho, I=A * (kf * L) ** 2, k1=k1 * E * A / L ** 2, mu=mu * A * np.sqrt(rho * E) / L, k3=0., tvals=TS * T, xvals=XS * L)
    for n in ("kf", "k1_norm", "mu_norm", "tvals_norm", "xvals_norm"):
        del d[n]
    r = beam(implementation="vectorized", k3_norm=None, **dict(d, **raw_kwargs(veh, sta, E, A, L, rho))) if "k3_norm" not in d else None
    ctx.step()
    ctx.check(small(r.defl_norm, s.defl_norm, 1e-8, sc) and small(r.defl, s.defl_norm * L, 1e-8, sc * L), "raw and normalised input agree", case,
              lambda: "got\n %s\nwant\n %s" % (r.defl_norm, s.defl_norm))
    # output arrangement
    ti = [3, 5]
    s3 = beam(implementation="vectorized", **dict(base, tvals_norm=TS[ti], xvals_norm=XS[[2, 3, 1]], **kwargs_of(veh, sta)))
    ctx.step()
    ctx.check(small(s3.defl_norm, s.defl_norm[[2, 3, 1]][:, ti], 1e-9, sc), "deflection does not depend on what else is asked for", case,
              lambda: "got\n %s\nwant\n %s" % (s3.defl_norm, s.defl_norm[[2, 3, 1]][:, ti]))
    ctx.trace()


def case_super(ctx, item):
    """the response to several loads is the sum of the responses to each; scaling and delaying loads scales and delays it"""
    pars, pv, names, fac = item
    pool = dict(V1=V1, V2=V2, V3=V3, V4=V4, S1=S1, S2=S2)
    kf, k1, mu = pars
    ctx.state(("sup",) + item)
    base = dict(kf=kf, k1_norm=k1, mu_norm=mu, tvals_norm=TS, xvals_norm=XS, implementation="vectorized", k3bar=ONE.poly())
    base.update({n: PROPS[i].poly() for n, i in zip(NAMES, pv)})
    case = lambda: dict(pars=pars, props=pv, loads=names, factors=fac)

    def run(nm, f):
        veh = [(v[0], tuple(p * ff for p in v[1])) + v[2:] for v, ff in ((pool[n], g) for n, g in zip(nm, f)) if len(v) == 7]
        sta = [(v[0], v[1], tuple(y * ff for y in v[2]), v[3]) for v, ff in ((pool[n], g) for n, g in zip(nm, f)) if len(v) == 4]
        ctx.step()
        return beam(**dict(base, **kwargs_of(veh, sta))).defl_norm
    r = call(run, names, fac)
    if not ctx.check(not isinstance(r, Raised), "loads of any size are accepted", case, lambda: repr(r)):
        return
    want = sum(f * run((n,), (1.,)) for n, f in zip(names, fac))
    ctx.check(small(r, want, 1e-8, sum(abs(f) for f in fac)), "responses superpose", case, lambda: "got\n %s\nwant\n %s" % (r, want))
    ctx.trace()


def case_delay(ctx, item):
    """nothing moves before the first load arrives, and loads that start later give the same response later"""
    pars, pv, veh, dt = item
    kf, k1, mu = pars
    ctx.state(("del",) + tuple(map(str, item)))
    base = dict(kf=kf, k1_norm=k1, mu_norm=mu, xvals_norm=XS, implementation="vectorized", k3bar=ONE.poly())
    base.update({n: PROPS[i].poly() for n, i in zip(NAMES, pv)})
    a = beam(**dict(base, tvals_norm=TS[1:], **kwargs_of([veh], []))).defl_norm
    v2 = veh[:4] + (veh[4] + dt,) + veh[5:]
    b = beam(**dict(base, tvals_norm=np.r_[np.array([0, .3, .9]) * dt, TS[1:] + dt], **kwargs_of([v2], []))).defl_norm
    ctx.step(2)
    case = lambda: dict(pars=pars, props=pv, vehicle=veh, delay=dt)
    sc = np.max(np.abs(a))
    ctx.check(small(b[:, 3:], a, 1e-8, sc), "a later vehicle gives the same response later", case, lambda: "%s\n%s" % (b, a))
    first = min(l[0] for l in vehicle_loads(v2))
    t = np.array([0, .3, .9]) * dt
    ctx.check(np.max(np.abs(b[:, :3][:, t <= first]), initial=0) <= 1e-12 * sc, "nothing moves before a load arrives", case, lambda: str(b[:, :3]))
    # mirror image beam and vehicle
    if all(i == 0 for i in pv):
        vm = (veh[0], veh[1], veh[2], -veh[3], veh[4], 1 - veh[5] - veh[6], veh[6])
        m = beam(**dict(base, tvals_norm=TS[1:], xvals_norm=1 - XS[::-1], **{k: v for k, v in kwargs_of([vm], []).items()})).defl_norm
        ctx.step()
        ctx.check(small(m[::-1], a, 1e-8, sc), "a vehicle going the other way gives the mirror image", case, lambda: "%s\n%s" % (m[::-1], a))
    ctx.trace()


# ------------------------------------------------------------------ numerical path
def case_numeric(ctx, item):
    pars, pv, li, k3, k3i, nquad, tlist = item
    ctx.state(("num",) + tuple(map(str, item)))
    kf, k1, mu = pars
    n = 3
    veh, sta = NLOADS[li]
    props = {nm: PROPS[i] for nm, i in zip(NAMES, pv) if i}
    case = lambda: dict(pars=pars, props=pv, vehicles=veh, stationary=sta, k3_norm=k3, k3bar=PROPS[k3i].l, nquad=nquad, tvals=list(tlist))
    ts = np.array(tlist)
    want = Model(n, kf, k1, mu, props, k3, PROPS[k3i]).defl(all_loads(veh, sta), XS, ts).T
    base = dict(kf=kf, k1_norm=k1, mu_norm=mu, tvals_norm=ts, xvals_norm=XS, k3_norm=k3, k3=None, k3bar=PROPS[k3i].poly(), nterms=n, nquad=nquad,
                use_analytical=False)
    base.update({nm: PROPS[i].poly() for nm, i in zip(NAMES, pv)})
    st = np.random.get_state()[1].copy(), np.random.get_state()[2]
    r = call(beam, **dict(base, **kwargs_of(veh, sta)))
    ctx.step()
    if not ctx.check(not isinstance(r, Raised), "numerical path runs", case, lambda: repr(r)):
        return
    ctx.check(st[1] == np.random.get_state()[2] and np.all(st[0] == np.random.get_state()[1]), "random state left alone by the numerical path", case)
    tol = 1e-3 if nquad is None or k3i in (0, 3) or not k3 else 5e-2
    ctx.check(small(r.defl_norm, want, tol), "deflection by numerical integration", case, lambda: "got\n %s\nwant\n %s" % (r.defl_norm, want))
    if k3 and nquad is not None and len(ts) < 10:
        E, A, L, rho = 3.5e3, .7, 12., 1.9
        T = L * np.sqrt(rho / E)
        d = {k: v for k, v in base.items() if k not in ("kf", "k1_norm", "mu_norm", "tvals_norm", "xvals_norm", "k3_norm", "k3")}
        d.update(E=E, A=A, L=L, rho=rho, I=A * (kf * L) ** 2, k1=k1 * E * A / L ** 2, mu=mu * A * np.sqrt(rho * E) / L, k3=k3 * E * A / L ** 4,
                 k3_norm=None, tvals=ts * T, xvals=XS * L)
        r2 = call(beam, **dict(d, **raw_kwargs(veh, sta, E, A, L, rho)))
        ctx.step()
        ctx.check(not isinstance(r2, Raised) and small(r2.defl_norm, r.defl_norm, 1e-5), "raw and normalised input agree by numerical integration", case,
                  lambda: "got\n %s\nwant\n %s" % (r2.defl_norm if not isinstance(r2, Raised) else r2, r.defl_norm))
    # parts of the stored solution
    for sl in (slice(None), slice(1, None), slice(None, None, 2)):
        w = call(r.wofx, x_norm=XS, tslice=sl)
        ctx.check(not isinstance(w, Raised) and small(w, r.defl_norm[:, sl], 1e-12), "deflection of a slice of times", lambda: dict(case(), tslice=str(sl)), lambda: repr(w))
    r.calulate_qk(t_norm=ts[:3])
    w = call(r.wofx, x_norm=XS[1:3])
    ctx.step()
    ctx.check(not isinstance(w, Raised) and np.shape(w) == (2, 3) and small(w, r.defl_norm[1:3, :3], 1e-4, np.max(np.abs(want))), "deflection at newly solved times", case,
              lambda: "%r want %s" % (w, r.defl_norm[1:3, :3]))
    ctx.trace()


V5 = ((0, -.2), (1., .7), 0., .4, .0, 0., 1.)
V6 = ((0,), (.8,), 0., -.3, 0., 0., 1.)
V7 = ((0,), (.9,), 0., .25, 0., .2, .6)
V8 = ((0, -1.), (.9, -.4), 0., 4., 3.3, 0., 1.)      # nothing happens for a while
V9 = ((0,), (.9,), 0., -9., .1, .1, .2)
NLOADS = [([V8], []), ([V9], []), ([V5], []), ([V6], []), ([V7, V6], []), ([], [S1]), ([V7], [(.62, (0, 1., 3., 10.), (1., 1., 2., 2.), (1.7, .6))])]


# ------------------------------------------------------------------ Ding et al
def ding_funcs(bc, beta):
    if bc == "SS":
        return (lambda x: np.sin(np.outer(beta, np.atleast_1d(x)))), (lambda x: -beta[:, None] ** 2 * np.sin(np.outer(beta, np.atleast_1d(x))))
    s = ((np.cosh(beta) - np.cos(beta)) / (np.sinh(beta) - np.sin(beta)))[:, None]

    def f(x):
        z = np.outer(beta, np.atleast_1d(x))
        return np.cosh(z) - np.cos(z) - s * (np.sinh(z) - np.sin(z))

    def d2(x):
        z = np.outer(beta, np.atleast_1d(x))
        return beta[:, None] ** 2 * (np.cosh(z) + np.cos(z) - s * (np.sinh(z) + np.sin(z)))
    return f, d2


def case_ding(ctx, item):
    from geotecha.beam_on_foundation.dingetal2012 import DingEtAl2012
    bc, kf, k1, mu, k3, v, nquad, raw = item
    ctx.state(("ding",) + item)
    case = lambda: dict(BC=bc, kf=kf, k1_norm=k1, mu_norm=mu, k3_norm=k3, v_norm=v, nquad=nquad, raw=raw)
    n = 3
    ts = np.array([0, .3, .8, 1.9, 3.1, 4.4, 6.])
    beta = np.pi * np.arange(1, n + 1) if bc == "SS" else np.array([4.730040744862704, 7.853204624095838, 10.995607838001671])
    f, d2 = ding_funcs(bc, beta)
    m = Model(n, kf, k1, mu, {}, k3, ONE, f, d2, beta)
    want = m.defl([(0, 1 / v, lambda t: v * t, lambda t: .9)], XS, ts).T
    E, A, L, rho = 3.5e3, .7, 12., 1.9
    T = L * np.sqrt(rho / E)
    if raw:
        a = DingEtAl2012(BC=bc, nterms=n, E=E, A=A, L=L, rho=rho, I=A * (kf * L) ** 2, k1=k1 * E * A / L ** 2, mu=mu * A * np.sqrt(rho * E) / L,
                         k3=k3 * E * A / L ** 4, Fz=.9 * E * A, v=v * L / T, nquad=nquad)
        a.calulate_qk(t=ts * T)
    else:
        a = DingEtAl2012(BC=bc, nterms=n, kf=kf, k1_norm=k1, mu_norm=mu, k3_norm=k3, Fz_norm=.9, v_norm=v, L=L, nquad=nquad)
        a.calulate_qk(t_norm=ts)
    w = call(a.wofx, x_norm=XS)
    ctx.step(2)
    if bc == "FF":
        ctx.check(np.all(np.isfinite(w)), "free-free beam", case, lambda: "deflections are %s" % np.ravel(w)[:3])
        ctx.trace()
        return
    ctx.check(small(a.beta, beta, 1e-6), "wave numbers", case, lambda: str(a.beta))
    ctx.check(small(w, want, 2e-3), "Ding et al deflection", case, lambda: "got\n %s\nwant\n %s" % (w, want))
    w2 = a.wofx(x=XS * L, normalise_w=False)
    ctx.check(small(w2, w * L, 1e-10), "deflection in units of length", case, lambda: "%s want %s" % (w2, w * L))
    w3 = a.wofx(x_norm=XS[2], tslice=slice(2, 5))
    ctx.check(small(w3, w[2, 2:5], 1e-10), "deflection at one point, some times", case, lambda: "%s want %s" % (w3, w[2, 2:5]))
    a.calulate_qk(t_norm=ts[3:])
    w4 = a.wofx(x_norm=XS)
    ctx.step()
    ctx.check(small(w4, w[:, 3:], 1e-4), "deflection does not depend on the times asked for", case, lambda: "%s want %s" % (w4, w[:, 2:]))
    ctx.trace()


# ------------------------------------------------------------------ files and derived output
def case_files(ctx, item):
    li, fmt, withL = item
    ctx.state(("file",) + item)
    veh, sta = LOADS[li]
    E, A, L, rho = 3.5e3, .7, 12., 1.9
    T = L * np.sqrt(rho / E)
    kf, k1, mu = .3, 2., .8
    case = lambda: dict(loads=li, form=fmt, withL=withL)
    d = tempfile.mkdtemp(prefix="c27")
    try:
        ts, xs = (TS, XS) if fmt == "grid" else (TS[2:4], XS[1:2]) if fmt == "onex" else (TS[3:4], XS)
        kw = dict(kf=kf, k1_norm=k1, mu_norm=mu, tvals_norm=ts, xvals_norm=xs, k3bar=ONE.poly(), file_stem=os.path.join(d, "out"), implementation="vectorized")
        kw.update({n: ONE.poly() for n in NAMES})
        if withL:
            kw.update(L=L, tvals=ts * T, xvals=xs * L)
        kw.update(kwargs_of(veh, sta))
        s = beam(**kw)
        s.saveme()
        ctx.step(2)
        names = sorted(os.listdir(d))
        ctx.check(names == (["out_defl.csv"] if withL else []) + ["out_defl_norm.csv"], "saved files", case, lambda: str(names))
        r = call(beam, **dict(kw, force_calc=False, nterms=2))       # a re-calculation would be visible: other number of terms
        ctx.step()
        if ctx.check(not isinstance(r, Raised), "saved deflections are loaded", case, lambda: repr(r)):
            ctx.check(np.shape(r.defl_norm) == np.shape(s.defl_norm) and small(r.defl_norm, s.defl_norm, 1e-6), "saved deflections come back", case,
                      lambda: "%s want %s" % (r.defl_norm, s.defl_norm))
            if withL:
                ctx.check(small(r.defl, s.defl_norm * L, 1e-6), "saved deflections come back in units of length", case)
        # a file that holds other times or positions is not an answer
        for what, t2, x2 in (("fewer times", ts[:-1], xs), ("other times", ts + .05, xs), ("more times", np.append(ts, ts[-1] + 1.), xs), ("fewer positions", ts, xs[1:]),
                             ("other positions", ts, xs * .9 + .01), ("positions reversed", ts, xs[::-1])):
            if not (len(t2) and len(x2)) or what == "positions reversed" and len(x2) == 1:
                continue
            kk = dict(kw, tvals_norm=t2, xvals_norm=x2)
            if withL:
                kk.update(tvals=t2 * T, xvals=x2 * L)
            r3 = call(beam, **dict(kk, force_calc=False))
            w3 = beam(**dict(kk, force_calc=True))
            ctx.step()
            ctx.check(not isinstance(r3, Raised) and np.shape(r3.defl_norm) == np.shape(w3.defl_norm) and small(r3.defl_norm, w3.defl_norm, 1e-6), "saved deflections of other times or positions",
                      lambda: dict(case(), asked=what), lambda: "%s want %s" % (r3 if isinstance(r3, Raised) else r3.defl_norm, w3.defl_norm))
        r2 = beam(**dict(kw, force_calc=True, nterms=2))
        ctx.check(not small(r2.defl_norm, s.defl_norm, 1e-6), "force_calc calculates", case)
        if veh and fmt == "grid":
            xs = np.linspace(0, 1, 41)
            q = beam(**dict(kw, xvals_norm=xs, xvals=xs * L if withL else None))
            ctx.step(1)
            pos = [[axles(v[0], v[2], v[3], v[4], v[5], v[6], t)[0] for t in TS] for v in veh]
            on = sorted({round(float(p), 3) for a in pos for b in a for p in b if .05 < p < .95})
            lims = [None, (.25, .75)] + [(0, p - .013) for p in on[:4]] + [(p + .013, 1) for p in on[-4:]]
            for lim in lims:
                q.defl_vs_time_under_loads(*([] if lim is None else [lim]))
                ctx.step(1)
                lo, hi = lim or (0, 1)
                for v, a, w in zip(veh, pos, q.moving_load_w_norm):
                    want = np.full((len(v[0]), len(TS)), np.nan)
                    for j, b in enumerate(a):
                        for i, pp in enumerate(b):
                            if lo - 1e-12 <= pp <= hi + 1e-12:
                                want[i, j] = np.interp(pp, xs, q.defl_norm[:, j])
                    near = np.array([[min(abs(pp - lo), abs(pp - hi)) < 1e-9 for pp in b] for b in a]).T
                    ok = np.shape(w) == want.shape and np.all(near | (np.isnan(w) == np.isnan(want))) and np.allclose(np.where(near, 0, w), np.where(near, 0, want), rtol=1e-9, atol=1e-14, equal_nan=True)
                    ctx.check(ok, "deflection under each axle", lambda: dict(case(), xlim_norm=lim), lambda: "%s want %s" % (w, want))
    finally:
        shutil.rmtree(d)
    ctx.trace()


# ------------------------------------------------------------------ pictures
def arrows(ax):
    return [(tuple(map(float, a.xy)), tuple(map(float, a.xyann))) for a in ax.texts if hasattr(a, "xyann")]


def same_arrows(got, want):
    return len(got) == len(want) and all(np.allclose(np.ravel(g), np.ravel(w), rtol=1e-9, atol=1e-12) for g, w in zip(got, want))


def case_vehicle_pictures(ctx, item):
    from geotecha.beam_on_foundation.specbeam import MovingPointLoads
    import matplotlib.pyplot as plt
    x, p, off, v, t0, x0, L = item
    ctx.state(("vehicle picture", item))
    base = dict(x=x, p=p, offset=off, v=v, t0=t0, x0=x0, L=L)
    m = MovingPointLoads(x=x, p=p, offset=off, v=v, L=L, t0=t0, x0=x0)
    st = np.random.get_state()[1].copy()
    try:
        for t in (t0, t0 + .7, 0.):
            for given in (False, True):
                ax = plt.figure().add_subplot(111) if given else None
                a = call(m.plotme, ax=ax, t=t, v0=v, t0=t0, x0=x0, xlim=(-3, 9), ylim=(-8, 8))
                ctx.step()
                want = [((x0 + (d + off) * (-1 if v < 0 else 1) + v * (t - t0), 0.), ) for d in x]
                want = [(w[0], (w[0][0], float(q))) for w, q in zip(want, p)]
                ctx.check(not isinstance(a, Raised) and (ax is None or a is ax) and same_arrows(arrows(a), want) and a.get_xlim() == (-3, 9) and a.get_ylim() == (-8, 8),
                          "picture of a vehicle", lambda: dict(base, t=t, ax=given), lambda: "%s want %s" % (a if isinstance(a, Raised) else arrows(a), want))
                plt.close("all")
        for given in (False, True):
            ax = plt.figure().add_subplot(111) if given else None
            a = call(m.plot_specbeam_PolyLines, ax=ax, v=v, L=L, t0=t0, x0=x0)
            ctx.step()
            pl, op = m.convert_to_specbeam(v=v, L=L, t0=t0, x0=x0)
            ctx.check(not isinstance(a, Raised) and (ax is None or a is ax) and len(a.lines) == len(x) and
                      all(np.array_equal(l.get_xdata(), q.x) and np.array_equal(l.get_ydata(), q.y) for l, q in zip(a.lines, pl)), "picture of load histories", base)
            plt.close("all")
        an = call(m.animateme, x0=x0, t0=t0, tf=t0 + 2., v0=v)
        if ctx.check(not isinstance(an, Raised), "animated vehicle", base, lambda: repr(an)):
            an._init_draw()
            a = plt.gcf().axes[0]
            fr = list(an.new_frame_seq())
            ctx.check(abs(fr[0] - t0) < 1e-12 and abs(fr[-1] - t0 - 2.) < 1e-12, "animated vehicle times", base, lambda: "%s" % fr)
            for k in (0, len(fr) // 2, len(fr) - 1, 3):
                an._draw_frame(fr[k])
                ctx.step()
                want = [((x0 + (d + off) * (-1 if v < 0 else 1) + v * (fr[k] - t0), 0.)) for d in x]
                want = [((w, 0.) if np.ndim(w) == 0 else w, ((w, 0.) if np.ndim(w) == 0 else w)[0:1] + (float(q),)) for w, q in zip(want, p)]
                ctx.check(same_arrows(arrows(a), want), "animated vehicle", lambda: dict(base, frame=k), lambda: "%s want %s" % (arrows(a), want))
    finally:
        plt.close("all")
    ctx.check(np.array_equal(st, np.random.get_state()[1]), "random state left alone", base)
    ctx.trace()


def case_pictures(ctx, item):
    import matplotlib.pyplot as plt
    li, norm, given = item
    ctx.state(("picture",) + item)
    veh, sta = (LOADS + [([], [S1, S1, S2]), ([], [S2, S1, S2]), ([V1], [S1])])[li]
    E, A, L, rho = 3.5e3, .7, 12., 1.9
    T = L * np.sqrt(rho / E)
    kf, k1, mu = .3, 2., .8
    case = lambda: dict(loads=li, norm=norm, ax=given)
    kw = dict(E=E, A=A, L=L, rho=rho, I=A * (kf * L) ** 2, k1=k1 * E * A / L ** 2, mu=mu * A * np.sqrt(rho * E) / L, k3=0., k3_norm=None, tvals=TS * T, xvals=XS * L,
              implementation="vectorized", k3bar=ONE.poly())
    kw.update({n: ONE.poly() for n in NAMES})
    s = beam(**dict(kw, **raw_kwargs(veh, sta, E, A, L, rho)))
    u, x, t, fz = (s.defl_norm, XS, TS, 1.) if norm else (s.defl_norm * L, XS * L, TS * T, E * A)
    u = np.array(u)
    keep = s.defl_norm.copy()
    try:
        ax = plt.figure().add_subplot(111) if given else None
        a = call(s.plot_w_vs_x_overtime, ax=ax, norm=norm)
        ctx.step()
        if ctx.check(not isinstance(a, Raised) and (ax is None or a is ax), "picture of deflections", case, lambda: repr(a)):
            ctx.check(len(a.lines) == len(t) and all(np.allclose(l.get_xdata(), x, rtol=1e-12) and np.allclose(l.get_ydata(), u[:, j], rtol=1e-10, atol=1e-14) and
                                                    l.get_label() == "t={:5.2g}".format(t[j]) for j, l in enumerate(a.lines)), "picture of deflections", case)
            ctx.check(a.get_xlabel() == ("x_norm" if norm else "x") and a.get_ylabel() == ("w_norm" if norm else "w"), "picture of deflections", case)
        plt.close("all")
        an = call(s.animateme, norm=norm)
        ctx.step()
        if not ctx.check(not isinstance(an, Raised), "animated beam", case, lambda: repr(an)):
            return
        a, a2 = plt.gcf().axes
        an._init_draw()
        top, bot = np.array([np.max(u[:, :j + 1], axis=1) for j in range(len(t))]), np.array([np.min(u[:, :j + 1], axis=1) for j in range(len(t))])
        for j in [0, len(t) - 1, 2, 1] + list(range(len(t))):
            an._draw_frame(j)
            ctx.step()
            d, lo, hi = [np.asarray(l.get_ydata(), float) for l in a.lines]
            ctx.check(np.allclose(d, u[:, j], rtol=1e-10, atol=1e-14) and np.allclose(lo, bot[j], rtol=1e-10, atol=1e-14) and np.allclose(hi, top[j], rtol=1e-10, atol=1e-14) and
                      all(np.allclose(l.get_xdata(), x, rtol=1e-12) for l in a.lines), "animated deflection", lambda: dict(case(), frame=j), lambda: "%s %s %s" % (d, lo, hi))
            got = arrows(a2)
            want = []
            for v in veh:
                pos, _ = axles(v[0], v[2], v[3], v[4], v[5], v[6], TS[j])
                want += [((pp * (1 if norm else L), 0.), (pp * (1 if norm else L), q * fz)) for pp, q in zip(pos, v[1])]
            sums = {}
            for z in sta:
                k = np.interp(TS[j], z[1], z[2]) * (1. if z[3] is None else np.cos(z[3][0] * TS[j] + z[3][1]))
                sums[z[0]] = sums.get(z[0], 0.) + k
            want += [((zz * (1 if norm else L), 0.), (zz * (1 if norm else L), k * fz)) for zz, k in sums.items()]
            key = lambda v: (round(v[0][0], 6), round(v[1][1], 6))
            real = lambda q: sorted([v for v in q if abs(v[1][1]) > 1e-12 * fz], key=key)
            ctx.check(same_arrows(real(got), real(want)), "animated loads", lambda: dict(case(), frame=j), lambda: "%s want %s" % (real(got), real(want)))
        ctx.check(np.array_equal(s.defl_norm, keep), "pictures leave the results alone", case)
        for _ in range(2):
            was = s.pause
            s.onClick(None)
            ctx.check(s.pause == (not was), "a click pauses and resumes", case)
    finally:
        plt.close("all")
    ctx.trace()


def run(ctx):
    import geotecha.speccon.speccon1d      # noqa: F401  (extension loaded once, before the workers)
    import geotecha.beam_on_foundation.specbeam
    T = ctx.thorough
    on = lambda g: not ctx.only or ctx.only in g
    if on("vehicles"):
        items = [(x, p, off, v, t0, x0, L)
                 for x, p in (((0,), (5.,)), ((0, -2.), (3., -1.)), ((0, -1., -4.5), (1., 2., 4.)))
                 for off in ((0, -1.5, .7) if T else (0, -1.5)) for v in (2., -2., .3, -7.) for t0 in (0, 1.25, -.8)
                 for x0 in (0., 2., -1.5) for L in ((10., 3., .5) if T else (10., 3.))]
        with ctx.group("vehicles"):
            ctx.parallel(case_vehicle, items)
    if on("infinite"):
        al = (0, .05, .2, .5, .8, .95, 1.05, 1.3, 2., 3.) if not T else tuple(np.round(np.arange(0, 3.01, .1), 3))
        be = (.01, .05, .3, .7, 1.1, 2.) if not T else (.005, .01, .05, .1, .2, .3, .5, .7, .9, .99, 1.1, 1.5, 2., 3.)
        # a very lightly damped load at the critical speed is left out: the deflection is unbounded
        with ctx.group("infinite"):
            ctx.parallel(case_infinite, [(a, b, k) for a in al for b in be for k in (1., 2., .25, 9.)] + [(a, 0, k) for a in (0, .2, .5, .8) for k in (1., 4.)])
            ctx.parallel(case_static, [(L, xc, fr) for L in (1., .4, 3.) for xc, fr in (((0,), (1.,)), ((0, 2.), (1., .5)), ((-3., 1., 1.), (1., -2., .3)))])
    if on("transitions"):
        it = [("tanh", a, b) for a in (0., .5, -2., 3.) for b in (.1, 1., 4.)]
        it += [("rev", x1, y1, x2, y2, f) for x1, x2 in ((0, 1), (0, 4), (2., -3.), (-1.5, 2.5)) for y1, y2 in ((0, .5), (1., .2), (2, 2), (-1., -.5))
               for f in ("array", "list", "int")]
        with ctx.group("transitions"):
            ctx.parallel(case_transition, it)
    pars = [(.3, 2., .8), (.08, 5., .3)]
    pv0 = (0,) * 6
    var = [pv0] + [tuple(k if i == j else 0 for i in range(6)) for j in range(6) for k in ((1, 2, 3) if T else (1, 2))] + [(1, 2, 3, 1, 2, 3), (2, 2, 2, 2, 2, 2), (3, 1, 2, 2, 1, 1)]
    if on("linear"):
        items = [(p, v, l) for p in pars + ([(.3, 0., 2.5), (.15, 40., 20.)] if T else []) for v in var for l in range(len(LOADS))]
        if not T:
            items = [(p, v, l) for i, v in enumerate(var) for l in range(len(LOADS)) for k, p in enumerate(pars) if v in (pv0, (1, 2, 3, 1, 2, 3)) or (i + l) % 2 == k]
        with ctx.group("linear"):
            ctx.parallel(case_linear, items)
    if on("superposition"):
        nm = ["V1", "V2", "V3", "V4", "S1", "S2"]
        pr = [c for k in (2, 3) for c in itertools.combinations(nm, k)] + [tuple(nm), ("V1", "V1"), ("S2", "S2")] + [(n,) for n in nm]
        facs = lambda n: [tuple([1.] * n), tuple([1e6, -2., .3, 1e-3, 5., 1.][:n])]
        items = [(p, v, c, f) for p in pars for v in ((pv0, (1, 2, 3, 1, 2, 3)) if T else ((pv0,) if p is pars[0] else ((1, 2, 3, 1, 2, 3),))) for c in pr for f in facs(len(c))]
        with ctx.group("superposition"):
            ctx.parallel(case_super, items)
            ctx.parallel(case_delay, [(p, v, ve, dt) for p in pars for v in (pv0, (1, 2, 3, 1, 2, 3)) for ve in (V1, V2, V3, V4) for dt in (.7, 3.)])
    if on("numeric"):
        tl = (tuple(np.linspace(0, 6, 31)), (.5, 2., 4.5))
        items = [(p, v, l, k3, k3i, nq, t) for p in pars[:1] + (pars[1:] if T else []) for v in (pv0, (1, 2, 3, 1, 2, 3)) for l in range(len(NLOADS))
                 for k3, k3i in ((0., 0), (200., 0), (200., 3)) for nq in ((14, 16) if T else (14,)) for t in tl]
        items += [(pars[0], pv0, 0, 200., k3i, None, tl[1]) for k3i in (0, 1)]
        with ctx.group("numeric"):
            ctx.parallel(case_numeric, items)
    if on("ding"):
        items = [(bc, kf, k1, mu, k3, v, nq, raw) for bc in ("SS", "CC") for kf, k1, mu in ((.3, 2., .8), (.08, 5., .3)) for k3 in (0., 100.)
                 for v in (.4, .11) for nq in ((14, 20) if T else (14,)) for raw in (False, True)]
        items += [(bc, .3, 2., .8, 100., .4, None, False) for bc in ("SS", "CC")]
        items += [("FF", .3, 2., .8, 0., .4, 14, False)]
        with ctx.group("ding"):
            ctx.parallel(case_ding, items)
    if on("files"):
        with ctx.group("files"):
            ctx.parallel(case_files, [(l, f, w) for l in range(len(LOADS)) for f in ("grid", "onex", "onet") for w in (False, True)])
    if on("pictures"):
        with ctx.group("pictures"):
            ctx.parallel(case_vehicle_pictures, [(x, p, off, v, t0, x0, 10.) for x, p in (((0,), (5.,)), ((0, -2.), (3., -1.)), ((0, -1., -4.5), (1., 2., 4.)))
                                                 for off in (0, -1.5) for v in (2., -.3) for t0 in (0, 1.25) for x0 in (0., 2.)])
            ctx.parallel(case_pictures, [(l, n, g) for l in range(len(LOADS) + 3) for n in (True, False) for g in (False, True)])
