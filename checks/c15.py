"""C15 closed forms for drains, creep, composite foundations, unsaturated and large strain soil.

Every solution is evaluated on every combination of a lattice of parameters and compared with an
independent model of its governing equations: p-elements in depth and exact modes in time, an
ordinary differential equation per depth, a spectral integral, or a moving-mesh-free Lagrangian
finite difference column; relations between the outputs are checked exactly."""
import itertools
import numpy as np
import scipy.integrate as si
import scipy.linalg as sl
from mc.core import call, Raised
from mc.weak import FemBasis, Space, graded

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of parameter, boundary, load and output lattices; every configuration executed on the real closed-form code and on an "
             "independent model of the governing equations (p-elements, per-depth ODE, spectral integral, Lagrangian finite differences), plus limits and "
             "exact relations between outputs")
BOUNDS = ("Deng 2013: 4 depth variations x 4 time variations x smear x 2 well sizes; Deng 2014: 3 x 2 x 3; Lu: 5 permeability pairs x 3 stiffness ratios x smear x "
          "2 initial profiles; Cosenza: 8 (theta, v) sets x 2 scalings; Shan: 6 couplings x 2 drainages x (4 initial profiles + 5 actions x 2 histories + sums); "
          "Xie & Leo: 2 drainages x 3 loads x 3 stiffnesses x 2 unit weights; 8 output arrangements of each")
RULE = "2e-6 relative for closed relations, 1e-5 to 1e-3 against discretised models (their own truncation)"


def close(ctx, kind, case, got, want, tol, scale=0.):
    if isinstance(got, Raised):
        ctx.fail(kind, case(), str(got))
        return False
    got, want = np.asarray(got), np.asarray(want)
    ok = got.shape == want.shape and np.all(np.isfinite(got)) and np.max(np.abs(got - want), initial=0) <= tol * max(scale, np.max(np.abs(want), initial=0), 1e-300)
    ctx.check(ok, kind, case, lambda: "got\n %s\nwant\n %s" % (got, want))
    return ok


def forms(z, t):
    """the same request asked in other shapes: (zs, ts, rows, cols)"""
    n, m = len(z), len(t)
    yield list(z), list(t), range(n), range(m)
    yield tuple(z), tuple(t), range(n), range(m)
    yield float(z[1]), float(t[-1]), [1], [m - 1]
    yield [float(z[1])], float(t[0]), [1], [0]
    yield float(z[-1]), np.array(t), [n - 1], range(m)
    yield np.array(z)[::-1], np.array(t)[::-1], range(n)[::-1], range(m)[::-1]
    yield np.array(z)[[1, 1, 0]], np.array(t)[[0, 0]], [1, 1, 0], [0, 0]
    yield np.array(z)[:0], np.array(t), [], range(m)


def ask(ctx, kind, case, f, z, t, full):
    """every arrangement of the request selects from the same answer; inputs are not altered"""
    for zs, ts, r, c in forms(z, t):
        keep = np.copy(zs), np.copy(ts)
        got = call(f, zs, ts)
        ctx.step()
        full_ = full if isinstance(full, tuple) else (full,)
        if isinstance(got, Raised):
            ctx.fail(kind, dict(case(), z=str(zs), t=str(ts)), str(got))
            continue
        got = got if isinstance(got, tuple) else (got,)
        for g, w in zip(got, full_):
            want = w[np.ix_(list(r), list(c))] if w.ndim == 2 else w[list(c)]
            close(ctx, kind, lambda: dict(case(), z=str(zs), t=str(ts)), g, want, 1e-9, np.max(np.abs(w)))
        ctx.check(np.array_equal(keep[0], zs) and np.array_equal(keep[1], ts), kind + " alters its input", lambda: dict(case(), z=str(zs)), "")


# ------------------------------------------------------------------ Deng et al
def mu0_of(n, s, kap):
    """equal strain smear zone with constant reduced permeability, integrated numerically: the mean over the
    annulus of u with k u' r = (n^2 - r^2), made dimensionless with n^2"""
    g, w = np.polynomial.legendre.leggauss(40)
    def integ(fun, a, b):
        x = (a + b) / 2 + (b - a) / 2 * g
        return np.sum(w * np.array([fun(v) for v in x])) * (b - a) / 2
    pieces = [(1., s), (s, n)] if s > 1 else [(1., n)]
    tot = 0.
    for a, b in pieces:
        kk = kap if b <= s and s > 1 else 1.
        tot += integ(lambda r: (n ** 2 - r ** 2) ** 2 / r * kk, a, b)
    return tot / (n ** 2 * (n ** 2 - 1))


def case_deng13(ctx, item):
    from geotecha.consolidation import dengetal2013and2014 as D
    A1, A2, a3, smear, well, (rw, re, H, kh, mv, gamw, ui) = item
    ctx.state(item)
    ctx.trace()
    s, kap = smear
    kw0 = well * kh * (H / rw) ** 2 / A1
    n = re / rw
    ch = kh / mv / gamw
    A3 = a3 * ch / (4 * re ** 2)
    kw = dict(rw=rw, re=re, A1=A1, A2=A2, A3=A3, H=H, kw0=kw0, kh=kh, mv=mv, gamw=gamw, ui=ui)
    if s > 1:
        kw.update(rs=s * rw, ks=kh / kap)
    case = lambda: dict(kw)
    z = np.array([0., .05, .3, .7, 1.]) * H
    Th = np.array([0., .1, .5, 1.5])
    t = Th * 4 * re ** 2 / ch
    mu0 = mu0_of(n, s, kap)
    # well part: 2 pi kh int_0^z (H-x) / qw0(x) dx
    g, w = np.polynomial.legendre.leggauss(60)
    want = np.empty((len(z), len(t)))
    qw0 = kw0 * np.pi * rw ** 2
    for i, zz in enumerate(z):
        # substitution clusters points towards z=H where the drain may have no capacity at all
        x = (1 - (1 - g) ** 2 / 4) * zz
        dx = (1 - g) / 2 * zz * w
        W = 2 * np.pi * kh * np.sum(dx * (H - x) / (qw0 * (A1 - A2 * x / H)))
        for j, tt in enumerate(Th):
            # du/dTh = -8 u / (mu0 + W exp(a3 Th))
            xs = tt / 2 + tt / 2 * g
            want[i, j] = ui * np.exp(-8 * np.sum(w * tt / 2 / (mu0 + W * np.exp(a3 * xs))))
    got = call(D.dengetal2013, z, t, **kw)
    ctx.step()
    if close(ctx, "drain with varying discharge capacity", case, got, want, 2e-6, abs(ui)):
        ask(ctx, "drain with varying discharge capacity: request form", case, lambda z, t: D.dengetal2013(z, t, **kw), z, t, np.asarray(got))
    ctx.outcome(("deng13", A2 > 0, A2 == A1, a3 > 0))


def case_deng13_refuse(ctx, item):
    from geotecha.consolidation import dengetal2013and2014 as D
    ctx.state(item)
    ctx.trace()
    r = call(D.dengetal2013, [.5], [.1], rw=.1, re=1., **dict(item))
    ctx.check(isinstance(r, Raised) and r.type == "ValueError", "impossible discharge capacity accepted", lambda: dict(item), lambda: str(r))
    if "A1" not in dict(item) and "A2" not in dict(item):
        r = call(D.dengetal2014, [.5], [.1], rw=.1, re=1., **dict(item))
        ctx.check(isinstance(r, Raised) and r.type == "ValueError", "impossible discharge capacity accepted", lambda: dict(item), lambda: str(r))


def case_deng14(ctx, item):
    from geotecha.consolidation import dengetal2013and2014 as D
    a3, smear, well, (rw, re, H, kh, mv, gamw, ui) = item
    ctx.state(item)
    ctx.trace()
    s, kap = smear
    kw0 = well * kh * (H / rw) ** 2
    n = re / rw
    ch = kh / mv / gamw
    A3 = a3 * ch / (4 * re ** 2)
    kw = dict(rw=rw, re=re, A3=A3, H=H, kw0=kw0, kh=kh, mv=mv, gamw=gamw, ui=ui, nterms=800)
    if s > 1:
        kw.update(rs=s * rw, ks=kh / kap)
    case = lambda: dict(kw)
    z = np.array([0., .1, .3, .7, 1.]) * H
    Th = np.array([0.05, .2, .5, 1.5])
    t = Th * 4 * re ** 2 / ch
    mu0 = mu0_of(n, s, kap)
    # column of pore pressure u(z) drained radially to a well uw(z):
    #   u_Th = -8/mu0 (u - uw),   -qw(t)/(..) uw'' = X0 (u - uw),  uw(0)=0, uw'(H)=0
    b = FemBasis(graded([0., 1.], 4), 8, 1)
    S = Space(b, [])
    one = lambda Z: np.ones_like(Z)
    M, K = S.mass(one), S.stiff(one)
    lam, V = sl.eigh(K, M)
    c = 2 * np.pi * kh * (n ** 2 - 1) / n ** 2 / mu0 * H ** 2 / (kw0 * np.pi * rw ** 2)
    f0 = V.T @ S.load(one)
    g, w = np.polynomial.legendre.leggauss(60)
    X = np.empty((len(lam), len(Th)))
    for j, tt in enumerate(Th):
        xs = tt / 2 + tt / 2 * g
        # (lam e^{-a3 T} + c) uw = c u
        r = lam[:, None] * np.exp(-a3 * xs) / (lam[:, None] * np.exp(-a3 * xs) + c)
        X[:, j] = f0 * np.exp(-8 / mu0 * (r @ (w * tt / 2)))
    # u is not zero at z=0 (only uw is): the series is a sine series of a function that jumps there
    want = ui * (S.at(z / H).T @ (V @ X))
    got = call(D.dengetal2014, z, t, **kw)
    ctx.step()
    # nterms=800 sine terms of a profile that jumps at the top: Gibbs error away from the jump ~ 1/(nterms pi z/H)
    if isinstance(got, Raised):
        ctx.fail("drain with well resistance falling with time", case(), str(got))
        return
    ctx.check(np.shape(got) == want.shape and np.all(np.isfinite(got)), "drain with well resistance falling with time", case, lambda: str(got))
    if not np.all(np.isfinite(got)) or np.shape(got) != want.shape:
        return
    ctx.check(np.max(np.abs(got[0])) < 1e-9 * abs(ui), "drain with well resistance falling with time: top", case, lambda: str(got[0]))
    # the jump at the top is smooth elsewhere: compare modal projections instead of values
    zz, ww = np.polynomial.legendre.leggauss(400)
    zz = (zz + 1) / 2
    for k in range(6):
        Mk = (k + .5) * np.pi
        P = D.dengetal2014(zz * H, t, **dict(kw, nterms=60))
        num = np.array([np.sum(ww / 2 * np.sin(Mk * zz) * P[:, j]) for j in range(len(t))])
        ref = ui * np.array([np.sum(S.w * np.sin(Mk * S.z) * (S.P.T @ (V @ X[:, j]))) for j in range(len(t))])
        close(ctx, "drain with well resistance falling with time: mode", lambda: dict(case(), mode=k), num, ref, 1e-5, abs(ui))
        ctx.step()
    close(ctx, "drain with well resistance falling with time: value", case, got[2:], want[2:], 4e-3, abs(ui))
    ask(ctx, "drain with well resistance falling with time: request form", case, lambda z, t: D.dengetal2014(z, t, **kw), z, t, np.asarray(got))
    ctx.outcome(("deng14", a3 > 0))


# ------------------------------------------------------------------ Lu et al
def case_lu(ctx, item):
    from geotecha.consolidation import luetal2010 as L
    (kv, kvc), Y, smear, (utop, ubot), (rc, re, H, kh, khc, mvs, gamw) = item
    ctx.state(item)
    ctx.trace()
    s, kap = smear
    n = re / rc
    mvc = mvs / Y
    kw = dict(rc=rc, re=re, H=H, kv=kv, kvc=kvc, kh=kh, khc=khc, mvs=mvs, mvc=mvc, gamw=gamw, utop=utop, ubot=ubot, nterms=200)
    if s > 1:
        kw.update(rs=s * rc, ks=kh / kap)
    case = lambda: dict(kw)
    mu0 = mu0_of(n, s, kap)
    # n^2 gamw e_t = -((n^2-1) kv us'' + kvc uc''),  us - uc = A (gamw e_t + kv us''),  e_t = -n^2 mvs/(n^2-1+Y) u_t
    A = re ** 2 * mu0 / 2 / kh + rc ** 2 * (n ** 2 - 1) / 8 / khc
    G = gamw * n ** 2 * mvs / (n ** 2 - 1 + Y)
    b = FemBasis(graded([0., 1.], 5), 8, 1)
    S = Space(b, [])
    one = lambda Z: np.ones_like(Z)
    M, K = S.mass(one), S.stiff(one) / H ** 2
    nd = len(M)
    # unknown (us, uc): n^2 u = (n^2-1) us + uc.  mass: -[G n^2 ...]; write B d/dt[us;uc] = C [us;uc]
    I = M
    Bm = np.block([[G * (n ** 2 - 1) * I, G * I], [A * G * (n ** 2 - 1) / n ** 2 * I, A * G / n ** 2 * I]])
    Cm = np.block([[-(n ** 2 - 1) * kv * K, -kvc * K], [-I - A * kv * K, I]])
    # differential-algebraic: eliminate by working with u and d = us - uc, us = u + d/n^2, uc = u - (n^2-1)/n^2 d
    us_u, us_d, uc_u, uc_d = 1., 1 / n ** 2, 1., -(n ** 2 - 1) / n ** 2
    Ku = (n ** 2 - 1) * kv * us_u * K + kvc * uc_u * K
    Kd = (n ** 2 - 1) * kv * us_d * K + kvc * uc_d * K
    # G n^2 M u_t = -(Ku u + Kd d) ;  M d = -A (G M u_t + kv K (u + d/n^2))
    # insert first in second: (M + A kv K/n^2 - A Kd/n^2) d = (A Ku/n^2 - A kv K) u
    R = np.linalg.solve(M + A * kv * K / n ** 2 - A * Kd / n ** 2, A * Ku / n ** 2 - A * kv * K)
    lam, V = sl.eig(np.linalg.solve(M, Ku + Kd @ R) / (G * n ** 2))
    lam = lam.real
    V = V.real
    u0 = np.linalg.solve(M, S.load(lambda Z: utop + (ubot - utop) * Z))
    c0 = np.linalg.solve(V, u0)
    slow = np.min(lam)
    z = np.array([0., .12, .35, .7, 1.]) * H
    t = np.array([.05, .2, .7, 2.]) / slow
    X = V @ (c0[:, None] * np.exp(-np.outer(lam, t)))
    P = S.at(z / H).T
    por = P @ X
    d = P @ (R @ X)
    avp = S.load(one) @ X
    settle = ((utop + ubot) / 2 - avp) * H * mvs * n ** 2 / (n ** 2 - 1 + Y)
    got = call(L.luetal2010, z, t, **kw)
    ctx.step()
    if isinstance(got, Raised):
        ctx.fail("composite foundation", case(), str(got))
        return
    sc = max(abs(utop), abs(ubot))
    ok = True
    for name, g, w in zip(("overall", "soil", "column", "average", "settlement"), got,
                          (por, por + d / n ** 2, por - (n ** 2 - 1) / n ** 2 * d, avp, settle)):
        # early modes of radial drainage decay together: the jump at the top survives, compare where the series has converged
        ok &= close(ctx, "composite foundation: " + name, case, g, w, 2e-5 if name in ("average", "settlement") else 4e-3,
                    sc if name != "settlement" else np.max(np.abs(w)))
    if ok:
        ask(ctx, "composite foundation: request form", case, lambda z, t: L.luetal2010(z, t, **kw), z, t, tuple(map(np.asarray, got)))
    # relation between the three pore pressures holds exactly
    close(ctx, "composite foundation: weighted mean", case, got[0], ((n ** 2 - 1) * np.asarray(got[1]) + got[2]) / n ** 2, 1e-9, sc)
    ctx.outcome(("lu", kv == kvc, Y == 1))


# ------------------------------------------------------------------ Cosenza and Korosak
def creep_mode(lam, theta, v, t):
    """inverse transform of (1 + sum th s^(v-1)) / (s + lam + sum th s^v): spectral integral over the cut"""
    theta, v = np.atleast_1d(theta).astype(float), np.atleast_1d(v).astype(float)
    if np.all(theta == 0):
        return np.exp(-lam * t)
    if np.all(v == 1):
        return np.exp(-lam * t / (1 + theta.sum()))

    def dens(x):
        r = np.exp(x)
        s = r * np.exp(1j * np.pi)
        F = (1 + sum(h * r ** (w - 1) * np.exp(1j * np.pi * (w - 1)) for h, w in zip(theta, v))) / \
            (s + lam + sum(h * r ** w * np.exp(1j * np.pi * w) for h, w in zip(theta, v)))
        return -F.imag / np.pi * r
    # no pole of F on the cut for 0 < v < 1; trapezoid in log r converges exponentially, refined near r=lam
    out = np.empty(len(t))
    x = np.concatenate([np.linspace(-700, -30, 40001)[:-1], np.linspace(-30, 40, 140001)])
    dx = np.gradient(x)
    d = dens(x) * dx
    for j, tt in enumerate(t):
        out[j] = np.sum(d * np.exp(-np.exp(np.minimum(x + np.log(tt), 6.6))))
    return out


def case_creep(ctx, item):
    from geotecha.consolidation import cosenzaandkorosak2014 as C
    theta, v, (L, kv, mv, gamw, ui), nterms = item
    ctx.state(str(item))
    ctx.trace()
    T = L * L * mv * gamw / kv
    kw = dict(L=L, kv=kv, mv=mv, gamw=gamw, ui=ui, nterms=nterms)
    case = lambda: dict(kw, theta=theta, v=v)
    z = np.array([0., .2, .6, 1.]) * L
    t = np.array([.1, .4, 1.2, 5.]) * T
    M = (np.arange(nterms) + .5) * np.pi
    B = np.array([creep_mode(m ** 2 / T, theta, v, t) for m in M])
    por = ui * np.sum(2 / M * np.sin(np.outer(z / L, M)), axis=1, keepdims=True) * 0 + ui * (2 / M * np.sin(np.outer(z / L, M))) @ B
    doc = 1 - (2 / M ** 2) @ B
    f = lambda z, t, **k: C.cosenzaandkorosak2014(z, t, theta, v, **dict(kw, **k))
    got = call(f, z, t)
    ctx.step()
    if isinstance(got, Raised):
        ctx.fail("creep", case(), str(got))
        return
    a = close(ctx, "creep: pore pressure", case, got[0], por, 2e-6, abs(ui))
    b = close(ctx, "creep: degree of consolidation", case, got[1], doc, 2e-6, 1.)
    if a and b:
        ask(ctx, "creep: request form", case, f, z, t, tuple(map(np.asarray, got)))
        # separate times for the profiles
        for tp in ([t[1]], t[:2], list(t[::-1]), float(t[2]), np.append(t, t[-1] * 2)):
            r = call(f, z, t, tpor=tp)
            want = f(z, np.atleast_1d(tp))[0]
            ctx.step()
            if isinstance(r, Raised):
                ctx.fail("creep: separate times for pore pressure", dict(case(), tpor=str(tp)), str(r))
                continue
            close(ctx, "creep: separate times for pore pressure", lambda: dict(case(), tpor=str(tp)), r[0], want, 1e-9, abs(ui))
            close(ctx, "creep: separate times for pore pressure", lambda: dict(case(), tpor=str(tp), what="doc"), r[1], got[1], 1e-9, 1.)
    # the average of the profile gives the degree of consolidation
    g, w = np.polynomial.legendre.leggauss(120)
    av = (w / 2) @ f((g + 1) / 2 * L, t)[0] / ui
    close(ctx, "creep: average of the profile", case, 1 - av, got[1], 2e-6, 1.)
    ctx.outcome(("creep", np.size(theta)))


# ------------------------------------------------------------------ Shan et al
def shan_model(H, Cw, Cvw, Ca, Cva, drn, Csw, Csa, uwi, uai, acts, z, t):
    """uw_t + Cw ua_t + Cvw uw_zz = Csw q',  Ca uw_t + ua_t + Cva ua_zz = Csa q'"""
    b = FemBasis(graded([0., 1.], 6), 9, 1, free_top=True)
    S = Space(b, [])
    one = lambda Z: np.ones_like(Z)
    M, K = S.mass(one), S.stiff(one) / H ** 2
    nd = len(M)
    P0, P1 = S.at(0.)[:, 0], S.at(1.)[:, 0]
    top, bot = int(np.argmax(P0)), int(np.argmax(P1))
    assert abs(P0[top] - 1) < 1e-12 and abs(P1[bot] - 1) < 1e-12
    fixed = [top] + ([bot] if drn == 0 else [])
    free = [i for i in range(nd) if i not in fixed]
    C = np.array([[1., Cw], [Ca, 1.]])
    D = np.diag([-Cvw, -Cva])           # C u_t + D K u = loads
    f, f1, f2, f3, f4 = acts
    ends = {0: (f1, f3), 1: (f2, f4)}   # phase: (top, bottom)

    def expo(a):
        """value as a list of (coef, rate): sum coef exp(rate t)"""
        if a is None:
            return []
        if a["type"] == "exp":
            return [(a["q0"], 0.), (-a["q0"], -a["b"])]
        return [(a["q0"] / 2j, 1j * a["omega"]), (-a["q0"] / 2j, -1j * a["omega"])]
    A = np.kron(C, M[np.ix_(free, free)])
    B = np.kron(D, K[np.ix_(free, free)])
    terms = []
    load = S.load(one)
    for c, r in expo(f):
        terms.append((np.concatenate([Csw * load[free], Csa * load[free]]) * c * r, r))
    for ph in (0, 1):
        for end, dof in ((0, top), (1, bot)):
            for c, r in expo(ends[ph][end]):
                if end == 1 and drn == 1:
                    g = np.zeros(2 * len(free), complex)
                    # -Cv u_zz weak: D K u - D u_z phi(H)/H
                    g[ph * len(free):(ph + 1) * len(free)] = D[ph, ph] * P1[free] * c / H
                    terms.append((g, r))
                else:
                    v = np.zeros(2)
                    v[ph] = 1.
                    g = -np.kron(C @ v, M[free, dof]) * c * r - np.kron(D @ v, K[free, dof]) * c
                    terms.append((g, r))
    lam, V = sl.eig(B, A)
    lam = lam.real
    V = V.real
    Vi = np.linalg.inv(A @ V)
    ini = np.concatenate([S.load(lambda Z, u=u: u[0] + (u[1] - u[0]) * Z)[free] for u in (uwi, uai)])
    # initial projection onto the free functions (the constrained ends start from zero)
    x0 = np.kron(np.eye(2), np.linalg.inv(M[np.ix_(free, free)])) @ ini
    y0 = Vi @ (A @ x0)
    out = np.zeros((2, len(z), len(t)))
    Pz = S.at(np.asarray(z) / H)
    for j, tt in enumerate(t):
        y = y0 * np.exp(-lam * tt) + 0j
        for g, r in terms:
            q = lam + r
            near = np.abs(q) * tt < 1e-9
            with np.errstate(all="ignore"):
                e = np.where(near, tt * np.exp(-lam * tt), (np.exp(r * tt) - np.exp(-lam * tt)) / np.where(near, 1, q))
            y = y + (Vi @ g) * e
        x = (V @ y).real
        for ph in (0, 1):
            full = np.zeros(nd)
            full[free] = x[ph * len(free):(ph + 1) * len(free)]
            for end, dof in ((0, top), (1, bot)):
                if not (end == 1 and drn == 1):
                    full[dof] = sum((c * np.exp(r * tt)).real if isinstance(c * np.exp(r * tt), complex) or np.iscomplexobj(c * np.exp(r * tt)) else c * np.exp(r * tt)
                                    for c, r in expo(ends[ph][end])) if expo(ends[ph][end]) else 0.
            out[ph, :, j] = Pz.T @ full
    return out[0], out[1]


def case_shan(ctx, item):
    from geotecha.consolidation.shanetal2012 import shanetal2012
    (Cw, Cvw, Ca, Cva), drn, (H, scale_t), (uwi, uai), acts = item
    ctx.state(str(item))
    ctx.trace()
    Cvw, Cva = Cvw * H ** 2 / scale_t, Cva * H ** 2 / scale_t
    def act(a):
        if a is None:
            return None
        if a[0] == "exp":
            return {"type": "exp", "q0": a[1], "b": a[2] / scale_t}
        return {"type": "sin", "q0": a[1], "omega": a[2] / scale_t}
    A = [act(a) for a in acts]
    if drn == 1:
        for i in (3, 4):
            if A[i]:
                A[i] = dict(A[i], q0=A[i]["q0"] / H)
    kw = dict(H=H, Cw=Cw, Cvw=Cvw, Ca=Ca, Cva=Cva, drn=drn, Csw=.25, Csa=.15, uwi=uwi, uai=uai, nterms=300)
    kw.update({k: a for k, a in zip(("f", "f1", "f2", "f3", "f4"), A) if a is not None})
    case = lambda: {k: str(v) for k, v in kw.items()}
    z = np.array([0., .15, .5, .85, 1.]) * H
    t = np.array([.02, .1, .4, 1.5]) * scale_t
    want = shan_model(H, Cw, Cvw, Ca, Cva, drn, .25, .15, uwi, uai, A, z, t)
    got = call(shanetal2012, z, t, **kw)
    ctx.step()
    if isinstance(got, Raised):
        ctx.fail("unsaturated column", case(), str(got))
        return
    sc = max(1., np.max(np.abs(want[0])), np.max(np.abs(want[1])))
    a = close(ctx, "unsaturated column: water", case, got[0], want[0], 2e-5, sc)
    b = close(ctx, "unsaturated column: air", case, got[1], want[1], 2e-5, sc)
    if a and b:
        ask(ctx, "unsaturated column: request form", case, lambda z, t: shanetal2012(z, t, **kw), z, t, tuple(map(np.asarray, got)))
    ctx.outcome(("shan", drn, tuple(x is not None for x in acts)))


def case_shan_refuse(ctx, item):
    from geotecha.consolidation.shanetal2012 import shanetal2012
    ctx.state(str(item))
    ctx.trace()
    name, val = item
    r = call(shanetal2012, np.array([.5]), np.array([.1]), H=1., Cw=-.5, Cvw=-1., Ca=-.1, Cva=-2., **{name: val})
    ctx.check(isinstance(r, Raised) and r.type == "ValueError", "unknown loading accepted", lambda: {name: str(val)}, lambda: str(r)[:200])


# ------------------------------------------------------------------ Xie and Leo
def large_strain(H, cv0, mvl, qu, drn, Tv, N=240):
    """Lagrangian finite differences of e_t/(1+e0) = ((k/gamw)(1+e0)/(1+e) u_a)_a: y = (1+e)/(1+e0)"""
    x = (1 - np.cos(np.pi * np.arange(N + 1) / N)) / 2 if drn == 0 else 1 - np.cos(np.pi / 2 * np.arange(N + 1) / N)
    h = np.diff(x)
    hc = np.empty(N + 1)
    hc[1:-1] = (h[1:] + h[:-1]) / 2
    hc[0], hc[-1] = h[0] / 2, h[-1] / 2
    yb = np.exp(-mvl * qu)

    # pore pressure from y: u = qu + ln(y)/mvl ; flux (k/k0)(1/y) u_x with k/k0 = y^2
    def rhs(T, y):
        y = y.copy()
        y[0] = yb
        if drn == 0:
            y[-1] = yb
        u = np.log(y) / mvl
        q = .5 * (y[1:] + y[:-1]) * np.diff(u) / h * mvl
        r = np.empty(N + 1)
        r[1:-1] = (q[1:] - q[:-1]) / hc[1:-1]
        r[0] = 0
        r[-1] = 0 if drn == 0 else -q[-1] / hc[-1]
        return r
    y0 = np.ones(N + 1)
    y0[0] = yb
    if drn == 0:
        y0[-1] = yb
    band = lambda: None
    sol = si.solve_ivp(rhs, (0, Tv[-1]), y0, method="LSODA", lband=1, uband=1, t_eval=Tv, rtol=1e-8, atol=1e-10)
    assert sol.success
    return x, sol.y


def case_xie(ctx, item):
    from geotecha.consolidation.xieandleo2004 import XieAndLeo2004
    drn, qm, (H, mvl, kv0, e00, Gs, gamw), (qp, Hw), nterms = item
    ctx.state(item)
    ctx.trace()
    qu = qm / mvl
    kw = dict(qu=qu, qp=qp, H=H, Hw=Hw, kv0=kv0, mvl=mvl, e00=e00, Gs=Gs, gamw=gamw, drn=drn, nterms=nterms)
    case = lambda: dict(kw)
    o = XieAndLeo2004(**kw)
    ctx.step()
    sfx = "_PTIB" if drn == 1 else "_PTPB"
    cv0 = kv0 / (mvl * gamw)
    Tv = np.array([.005, .02, .1, .4, 1.2]) * (1 if drn else .25)
    t = Tv * H ** 2 / cv0
    gl, gw = np.polynomial.legendre.leggauss(40)
    a = np.array([0., .1, .25, .5, .8, 1.]) * H
    R = {}
    for q in ("u", "settlement", "effective_stress", "total_stress", "total_pore_pressure", "e", "vs", "vw", "xi"):
        R[q] = call(getattr(o, q + sfx), a, t)
        ctx.step()
        if isinstance(R[q], Raised) or np.shape(R[q]) != (len(a), len(t)) or not np.all(np.isfinite(R[q])):
            ctx.fail("large strain: " + q, case(), str(R[q])[:300])
            return
    for q in ("Us", "Up"):
        R[q] = call(getattr(o, q + sfx), t)
        ctx.step()
        if isinstance(R[q], Raised) or np.shape(R[q]) != (len(t),):
            ctx.fail("large strain: " + q, case(), str(R[q])[:300])
            return
    rel = lambda what, g, w, tol=2e-6, sc=0.: close(ctx, "large strain: " + what, case, g, w, tol, sc)
    # initial state: effective stress increases by the buoyant weight over the initial void ratio
    e0 = e00 - mvl * gamw * (Gs - 1) * a
    s0 = np.array([qp + si.quad(lambda x: gamw * (Gs - 1) / (1 + e00 - mvl * gamw * (Gs - 1) * x), 0, v, epsabs=1e-12, epsrel=1e-12)[0] for v in a])
    rel("initial effective stress", o.initial_effective_stress(a), s0)
    rel("initial void ratio", o.e0(a), e0)
    rel("final void ratio", o.efinal(a), (1 + e0) * np.exp(-mvl * qu) - 1)
    rel("final settlement", o.settlement_final(), H * (1 - np.exp(-mvl * qu)))
    # effective stress principle, weight above a point
    eff = s0[:, None] + qu - R["u"]
    rel("effective stress", R["effective_stress"], eff)
    rel("convective coordinate", R["xi"], a[:, None] + R["settlement"])
    tpp = R["u"] + gamw * (Hw + R["xi"])
    rel("total pore pressure", R["total_pore_pressure"], tpp)
    rel("total stress", R["total_stress"], eff + tpp)
    # compressibility
    y = np.exp(-mvl * (qu - R["u"]))
    rel("void ratio", R["e"], (1 + e0)[:, None] * y - 1)
    # settlement of a = strain below a
    S = np.empty_like(R["u"])
    for i, v in enumerate(a):
        acc = np.zeros(len(t))
        k = 6
        br = v + (H - v) * np.linspace(0, 1, k + 1)
        for p, q in zip(br[:-1], br[1:]):
            if q > p:
                xx = (p + q) / 2 + (q - p) / 2 * gl
                uu = getattr(o, "u" + sfx)(xx, t)
                acc += (gw * (q - p) / 2) @ (1 - np.exp(-mvl * (qu - uu)))
        S[i] = acc
    sc = H * (1 - np.exp(-mvl * qu))
    rel("settlement", R["settlement"], S, 2e-6, sc)
    rel("degree of consolidation from settlement", R["Us"], S[0] / sc, 2e-6, 1.)
    uu = [getattr(o, "u" + sfx)((np.arange(6)[:, None] + (gl + 1) / 2).ravel() / 6 * H, t)]
    up = 1 - (np.tile(gw, 6) / 12) @ uu[0] / qu
    rel("degree of consolidation from pore pressure", R["Up"], up, 1e-6, 1.)
    # soil velocity: rate of settlement (5-point differences in time)
    hs = 1e-3
    f = lambda k: getattr(o, "settlement" + sfx)(a, t * (1 + k * hs))
    vs = (f(-2) - 8 * f(-1) + 8 * f(1) - f(2)) / (12 * hs * t[None, :])
    vsc = np.max(np.abs(vs), axis=0)
    rel("soil velocity", R["vs"] / vsc, vs / vsc, 1e-5, 1.)
    # Darcy: n (vw - vs) = -(k/gamw) du/dxi, k = kv0 ((1+e)/(1+e0))^2, dxi/da = (1+e)/(1+e0)
    ha = 1e-3 * H
    inner = [i for i, v in enumerate(a) if 0 < v < H]
    g = lambda k: getattr(o, "u" + sfx)(a[inner] + k * ha, t)
    ua = (g(-2) - 8 * g(-1) + 8 * g(1) - g(2)) / (12 * ha)
    e = R["e"][inner]
    flux = -kv0 / gamw * y[inner] * ua
    por = e / (1 + e)
    rel("Darcy flow", por * (R["vw"][inner] - R["vs"][inner]) / vsc, flux / vsc, 1e-4, 1.)
    # continuity: n vw + (1-n) vs is the same at all depths; zero over an impermeable base
    q = (R["e"] * R["vw"] + R["vs"]) / (1 + R["e"])
    rel("continuity", q / vsc, (np.zeros_like(q) if drn == 1 else np.tile(q[:1], (len(a), 1))) / vsc, 1e-6, 1.)
    if drn == 0:
        # material symmetry: soil at the base does not move, water leaves equally at both faces
        rel("flow at the two faces", (q - R["vs"])[0] / vsc, -(q - R["vs"])[-1] / vsc, 1e-6, 1.)
        rel("pore pressure symmetry", R["u"], getattr(o, "u" + sfx)(H - a, t), 1e-9, qu)
    ctx.check(np.max(np.abs(R["u"][0])) < 1e-9 * qu and (drn == 1 or np.max(np.abs(R["u"][-1])) < 1e-9 * qu), "large strain: drained face", case, lambda: str(R["u"]))
    # back analysis
    U = np.array([.1, .35, .6, .9])
    tb = call(getattr(o, "t_from_Us" + sfx), U)
    rel("time for a degree of consolidation", getattr(o, "Us" + sfx)(tb) if not isinstance(tb, Raised) else tb, U, 1e-3)
    # independent solution of the nonlinear equation
    x, Y = large_strain(H, cv0, mvl, qu, drn, Tv)
    ref = np.array([np.interp(a / H, x, qu + np.log(Y[:, j]) / mvl) for j in range(len(t))]).T
    rel("pore pressure", R["u"], ref, 2e-3, qu)
    # small strain limit: Terzaghi
    M = (np.arange(200) + .5) * np.pi * (1 if drn else 2)
    p = XieAndLeo2004(**dict(kw, qu=1e-6 / mvl))
    lin = (2 / (M if drn else M / 2) * np.sin(np.outer(a / H, M))) @ np.exp(-np.outer(M ** 2, Tv)) * 1e-6 / mvl
    rel("small strain limit", getattr(p, "u" + sfx)(a, t), lin if drn else lin, 1e-5, 1e-6 / mvl)
    # any selection of depths and times picks from the same answer
    for ai, ti in (([2], [1]), ([5, 0, 3], [4, 0]), ([1, 1], [2, 2, 2])):
        for q in ("u", "settlement", "effective_stress", "total_stress", "total_pore_pressure", "e", "vs", "vw", "xi"):
            keep = a[ai].copy(), t[ti].copy()
            aa, tt = a[ai], t[ti]
            r = call(getattr(o, q + sfx), aa, tt)
            ctx.step()
            close(ctx, "large strain: selection " + q, lambda: dict(case(), a=ai, t=ti), r, R[q][np.ix_(ai, ti)], 1e-9, np.max(np.abs(R[q])))
            ctx.check(np.array_equal(keep[0], aa) and np.array_equal(keep[1], tt), "large strain: input altered", case, q)
    ctx.outcome(("xie", drn))


def run(ctx):
    import geotecha.consolidation.smear_zones          # noqa
    import geotecha.mathematics.laplace                # noqa
    import geotecha.consolidation.cosenzaandkorosak2014, geotecha.consolidation.shanetal2012, geotecha.consolidation.luetal2010  # noqa
    import geotecha.consolidation.xieandleo2004, geotecha.consolidation.dengetal2013and2014  # noqa
    on = lambda g: not ctx.only or ctx.only in g
    th = ctx.thorough
    smear = [(1, 1), (1.8, 3.)] + ([(2.4, 1.5), (2.2, .6)] if th else [])
    phys = [(.07, .8, 6., 2e-3, 3e-4, 10., 1.), (.035, .525, 20., 2e-8, 2e-4, 9.81, -40.)]
    if on("deng13"):
        with ctx.group("deng13"):
            A = [(1., 0), (1., .4), (2., 2.), (1.5, -.7)] + ([(1., .999), (.3, .1)] if th else [])
            ctx.parallel(case_deng13, [(a1, a2, a3, s, w, p) for a1, a2 in A for a3 in ([0, 1e-3, .5, 4.] + ([20.] if th else [])) for s in smear for w in (.5, 40.) for p in phys])
        with ctx.group("deng13 refuse"):
            ctx.parallel(case_deng13_refuse, [(("A1", 0),), (("A1", -1.),), (("A2", 1.2),), (("A1", .5), ("A2", .6)), (("A3", -.1),), (("A3", -1e-9),)])
    if on("deng14"):
        with ctx.group("deng14"):
            ctx.parallel(case_deng14, [(a3, s, w, p) for a3 in [0, 1e-3, .5, 4.] for s in smear for w in (.5, 5., 40.) for p in phys])
    if on("lu"):
        with ctx.group("lu"):
            kk = [(1., 1.), (1., 50.), (2., .3), (1., 2000.), (1e-3, 1.)]
            ph = [(.1, .9, 10., 1., 2., .1, 10.), (.3, .8, 2.5, .04, .01, 2e-3, 9.81)]
            ctx.parallel(case_lu, [(k, Y, s, u, p) for k in kk for Y in (1., 20., .5) for s in smear for u in ((1., 1.), (.9, .2), (0., -3.)) for p in ph])
    if on("creep"):
        with ctx.group("creep"):
            sets = [(.2, .5), ([.2, .2], [.1, .3]), (0., .4), (1.5, .7), ([.5, 1., .3], [.2, .5, .8]), (2., 1.), (.05, .95), ([.4], [.25])]
            if th:
                sets += [(8., .3), ([3., .01], [.6, .4]), (.3, .05)]
            sc = [(1., 1., .1, 10., 1.), (4., 2e-3, 5e-4, 9.81, -30.)]
            ctx.parallel(case_creep, [(a, b, s, n) for a, b in sets for s in sc for n in ([30] + ([60] if th else []))])
    if on("shan"):
        with ctx.group("shan"):
            cc = [(-.75, -1., -.08, -3.), (.4, -.2, .5, -2.), (0., -1., 0., -.3), (-.75, -.5, -.0775, -40.), (.3, -1., 0., -2.), (-.5, -2., -.6, -.4)]
            ini = [((1., 1.), (.5, .5)), ((1., .2), (-.3, .8)), ((0., 0.), (0., 2.))]
            H = [(1., 1.), (10., 3e7)]
            acts = []
            N = (None,) * 5
            for i in range(5):
                for a in (("exp", 2., 1.7), ("sin", -1.5, 4.)):
                    acts.append(N[:i] + (a,) + N[i + 1:])
            acts += [(("exp", 1., 3.), None, ("sin", .7, 2.), ("exp", -.5, 1.), None), (("sin", 1., 9.), ("exp", .5, .4), ("exp", 1., 2.), ("sin", .3, 1.), ("sin", -.8, 3.))]
            items = [(c, d, h, i, N) for c in cc for d in (0, 1) for h in H for i in ini]
            items += [(c, d, h, ((0, 0), (0, 0)), a) for c in (cc if th else cc[:2] + cc[3:5]) for d in (0, 1) for h in (H if th else H[1:]) for a in acts]
            items += [(c, d, H[1], ini[1], acts[-1]) for c in cc for d in (0, 1)]
            ctx.parallel(case_shan, items)
        with ctx.group("shan refuse"):
            bad = [{"type": "ramp", "q0": 1}, {"type": "exp", "q0": 1}, {"type": "exp", "b": 1}, {"type": "sin", "q0": 1}, {"type": "sin", "omega": 1.}]
            ctx.parallel(case_shan_refuse, [(n, b) for n in ("f", "f1", "f2", "f3", "f4") for b in bad])
    if on("xie"):
        with ctx.group("xie"):
            ms = [(10., 4e-3, 1e-9, 3., 2.75, 10.), (2., .05, 2e-4, 1.8, 2.6, 9.81), (5., 1e-3, 1., 4., 3., 1.)]
            ctx.parallel(case_xie, [(d, q, m, g, n) for d in (0, 1) for q in ([.4, .05, 1.2] + ([2.] if th else [])) for m in ms for g in ((10., 1.), (0., 0.)) for n in ([120] + ([60] if th else []))])
