"""Independent weak-form reference solver for the one-dimensional consolidation programs.

The governing equations are written once in weak form (block mass and stiffness matrices,
load vectors); the trial space is pluggable:

  SineBasis   the trial space the programs document: their results must agree to rounding
  FemBasis    hierarchical p-elements fitted to the layers: converged to ~1e-8, so the programs
              must agree to the truncation error of their series

Integrals in depth are Gauss quadrature, integrals in time are the closed form of a linear
segment times a complex exponential, and modes come from a dense eigenproblem.
"""
import numpy as np
import scipy.linalg as sl

GX, GW = np.polynomial.legendre.leggauss(16)


def gauss(breaks, maxlen=0.06):
    """points and weights of a composite Gauss rule over consecutive breaks"""
    xs, ws = [], []
    for a, b in zip(breaks[:-1], breaks[1:]):
        n = max(1, int(np.ceil((b - a) / maxlen)))
        e = np.linspace(a, b, n + 1)
        for x0, x1 in zip(e[:-1], e[1:]):
            xs.append((x0 + x1) / 2 + (x1 - x0) / 2 * GX)
            ws.append(GW * (x1 - x0) / 2)
    return np.concatenate(xs), np.concatenate(ws)


class PW(object):
    """piecewise linear in depth: (x, y) with repeated x for jumps; evaluated inside segments"""
    def __init__(self, x, y):
        self.x, self.y = np.asarray(x, float), np.asarray(y, float)

    def __call__(self, z):
        z = np.asarray(z, float)
        i = np.clip(np.searchsorted(self.x, z, side="right") - 1, 0, len(self.x) - 2)
        # repeated x: side=right lands on the last of them, so the segment has length > 0
        x0, x1 = self.x[i], self.x[i + 1]
        d = np.where(x1 > x0, x1 - x0, 1.)
        return np.where(x1 > x0, self.y[i] + (self.y[i + 1] - self.y[i]) * (z - x0) / d, self.y[i])


class SineBasis(object):
    def __init__(self, neig, drn):
        self.m = np.pi * (np.arange(neig) + 1 - drn / 2.)
        self.n = neig
        self.breaks = []

    def phi(self, z):
        return np.sin(self.m[:, None] * np.asarray(z, float))

    def dphi(self, z):
        return self.m[:, None] * np.cos(self.m[:, None] * np.asarray(z, float))


class FemBasis(object):
    """C0 elements on `nodes` (0 and 1 included), integrated Legendre bubbles up to degree p;
    essential zero at z=0, and at z=1 when drn == 0"""
    def __init__(self, nodes, p, drn, free_top=False):
        self.e = np.asarray(nodes, float)
        self.breaks = list(nodes)
        self.p = p
        ne = len(nodes) - 1
        self.hat = [i for i in range(0 if free_top else 1, ne + (1 if drn == 1 else 0))]
        self.n = len(self.hat) + ne * (p - 1)

    def _eval(self, z, der):
        z = np.asarray(z, float)
        ne = len(self.e) - 1
        k = np.clip(np.searchsorted(self.e, z, side="right") - 1, 0, ne - 1)
        h = self.e[k + 1] - self.e[k]
        s = 2 * (z - self.e[k]) / h - 1
        out = np.zeros((self.n, len(z)))
        for r, i in enumerate(self.hat):
            L, R = k == i - 1, k == i
            if der:
                out[r][L] = 1 / h[L]
                out[r][R] = -1 / h[R]
            else:
                out[r][L] = (1 + s[L]) / 2
                out[r][R] = (1 - s[R]) / 2
        P = np.polynomial.legendre.legvander(s, self.p + 1)
        r = len(self.hat)
        for j in range(2, self.p + 1):
            f = P[:, j - 1] * 2 / h if der else (P[:, j] - P[:, j - 2]) / (2 * j - 1)
            for i in range(ne):
                out[r][k == i] = f[k == i]
                r += 1
        return out

    def phi(self, z):
        return self._eval(z, False)

    def dphi(self, z):
        return self._eval(z, True)


class Space(object):
    def __init__(self, basis, breaks):
        self.b = basis
        br = sorted(set([0., 1.] + list(breaks) + list(basis.breaks)))
        self.z, self.w = gauss(br)
        self.P, self.D = basis.phi(self.z), basis.dphi(self.z)
        self.br = br

    def mass(self, c):
        return (self.P * (self.w * c(self.z))) @ self.P.T

    def stiff(self, k):
        return (self.D * (self.w * k(self.z))) @ self.D.T

    def load(self, f):
        return self.P @ (self.w * f(self.z))

    def at(self, z):
        return self.b.phi(np.atleast_1d(z))

    def lift_flux(self, k, slope, drn):
        """weak form of (k * lift')' with lift' = slope: -int(k slope phi') + natural end term"""
        g = -(self.D @ (self.w * k(self.z))) * slope
        if drn == 1:
            # prescribed gradient `slope` at the bottom
            g = g + self.at(1.)[:, 0] * k(np.array([1. - 1e-13]))[0] * slope
        return g

    def project(self, z1, z2, c):
        """int_{z1}^{z2} c phi_i dz"""
        zz, ww = gauss(sorted(set([z1, z2] + [b for b in self.br if z1 < b < z2])))
        return self.b.phi(zz) @ (ww * c(zz))

    def integral(self, z1, z2, c, extra=()):
        zz, ww = gauss(sorted(set([z1, z2] + [b for b in list(self.br) + list(extra) if z1 < b < z2])))
        return float(np.sum(ww * c(zz)))


class Hist(object):
    """load history (x, y) times cos(omega t + phase); steps at repeated x act at that time"""
    def __init__(self, x, y, op=None):
        self.x, self.y, self.op = list(map(float, x)), list(map(float, y)), op

    def value(self, t):
        """value just after any step at t; zero slope beyond the ends"""
        x, y = self.x, self.y
        v = y[0] if t < x[0] else y[-1]
        for a, b, u, w in zip(x[:-1], x[1:], y[:-1], y[1:]):
            if a < b and a <= t < b:
                v = u + (w - u) * (t - a) / (b - a)
        if self.op:
            v *= np.cos(self.op[0] * t + self.op[1])
        return v

    def _seg(self, lam, t, a, e, u, s, w, ph):
        """int_a^e (u + s (tau - a)) exp(-lam (t - tau) + i (w tau + ph)) dtau"""
        q = lam + 1j * w
        out = np.zeros(lam.shape, complex)
        small = np.abs(q) * max(e - a, 1e-300) < 1e-3
        for tau, sg in ((e, 1), (a, -1)):
            with np.errstate(all="ignore"):
                val = ((u + s * (tau - a)) / q - s / q ** 2) * np.exp(-lam * (t - tau) + 1j * (w * tau + ph))
            out += sg * np.where(small, 0, val)
        if np.any(small):
            tt = (a + e) / 2 + (e - a) / 2 * GX
            f = (u + s * (tt - a)) * np.exp(-lam[small][:, None] * (t - tt) + 1j * (w * tt + ph))
            out[small] = f @ GW * (e - a) / 2
        return out

    def E(self, lam, t, deriv):
        """int load(tau) exp(-lam (t-tau)) or, with deriv, int load'(tau) exp(..) with step impulses"""
        lam = np.asarray(lam, complex)
        w, ph = self.op or (0., 0.)
        out = np.zeros(lam.shape, complex)
        for a, b, u, v in zip(self.x[:-1], self.x[1:], self.y[:-1], self.y[1:]):
            if a == b:
                if deriv and a <= t:
                    out += (v - u) * np.cos(w * a + ph) * np.exp(-lam * (t - a))
                continue
            e = min(b, t)
            if e <= a:
                continue
            s = (v - u) / (b - a)
            for sign in (1, -1):          # cos = (exp(i.) + exp(-i.)) / 2
                if not deriv:
                    out += .5 * self._seg(lam, t, a, e, u, s, sign * w, sign * ph)
                else:
                    # d/dtau [L cos] : s cos + L (i sign w) exp / 2
                    out += .5 * self._seg(lam, t, a, e, s, 0., sign * w, sign * ph)
                    if w:
                        out += .5 * 1j * sign * w * self._seg(lam, t, a, e, u, s, sign * w, sign * ph)
        return out


def march(M, K, terms, tvals):
    """M x' + K x = sum g * (load or load');  x at every time.  terms: (g, Hist, deriv)"""
    A = np.linalg.solve(M, K)
    if np.allclose(M, M.T, atol=1e-13 * np.abs(M).max()) and np.allclose(K, K.T, atol=1e-12 * max(1e-300, np.abs(K).max())) and np.all(np.linalg.eigvalsh((M + M.T) / 2) > 0):
        lam, V = sl.eigh((K + K.T) / 2, (M + M.T) / 2)
        Vi = V.T
        G = [Vi @ g for g, h, d in terms]
    else:
        lam, V = np.linalg.eig(A)
        Vi = np.linalg.inv(M @ V)
        G = [Vi @ g for g, h, d in terms]
    out = np.zeros((len(M), len(tvals)))
    for j, t in enumerate(tvals):
        c = np.zeros(len(M), complex)
        for (g, h, d), gg in zip(terms, G):
            c += gg * h.E(lam, t, d)
        out[:, j] = (V @ c).real
    return out


def graded(breaks, n=3, ratio=.3):
    """nodes refined geometrically towards every break"""
    out = set(breaks)
    for a, b in zip(breaks[:-1], breaks[1:]):
        h = (b - a) / 2
        for k in range(n + 1):
            for v in (a + h * ratio ** k, b - h * ratio ** k):
                if all(abs(v - o) > 1e-9 for o in out):
                    out.add(v)
    return sorted(out)


class Column(object):
    """mv u_t = (k u')' - s u + mv sigma'(t) on [0, H], ends drained, closed or leaking (k u' = c u)"""
    def __init__(self, H, k, mv, top, bot, hist, breaks=(), sink=None, p=9, grade=3):
        self.H = float(H)
        br = sorted(set([0., 1.] + [b / self.H for b in breaks]))
        self.b = FemBasis(graded(br, grade), p, 0 if bot == 0 else 1, free_top=top != 0)
        S = self.S = Space(self.b, br)
        self.mv = lambda Z: mv(np.asarray(Z) * self.H)
        kk = lambda Z: k(np.asarray(Z) * self.H)
        self.M = S.mass(self.mv)
        self.K = S.stiff(kk) / self.H ** 2
        for end, c in ((0., top), (1., bot)):
            if c not in (0, "closed"):
                q = S.at(end)[:, 0]
                self.K += c[1] / self.H * np.outer(q, q)
        if sink is not None:
            self.K += S.mass(lambda Z: sink(np.asarray(Z) * self.H))
        self.hist = hist
        self.T = [(S.load(self.mv), hist, True)]

    def solve(self, t):
        self.t = np.atleast_1d(t)
        self.x = march(self.M, self.K, self.T, self.t)
        self.h = np.array([self.hist.value(v) for v in self.t])
        return self

    def por(self, z):
        return self.S.at(np.atleast_1d(z) / self.H).T @ self.x

    def grad(self, z):
        return self.b.dphi(np.atleast_1d(z) / self.H).T @ self.x / self.H

    def avp(self, z1=0, z2=None):
        z2 = self.H if z2 is None else z2
        return self.S.project(z1 / self.H, z2 / self.H, np.ones_like) @ self.x / (z2 - z1) * self.H

    def settle(self):
        m = self.S.integral(0, 1, self.mv) * self.H
        return m * self.h - self.S.load(self.mv) @ self.x * self.H
