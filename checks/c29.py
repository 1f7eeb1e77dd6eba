"""C29 generated integration code computes the integrals it is derived from: every routine (loops, vectorised, Fortran)
written by speccon/integrals_generate_code.py is generated, loaded or compiled, and run over a finite space of inputs
against quadrature of the stated integrand."""
import ctypes
import itertools
import math
import os
import re
import shutil
import subprocess
import tempfile
import numpy as np
from mc.core import call, Raised
from checks import c11

LEVEL = "model_checking"
TECHNIQUE = ("every code generator run, its Python executed and its Fortran compiled, and each routine replayed on an enumerated space of layerings, "
             "end values, modes, load histories, frequencies and output times against piecewise Gauss quadrature of the stated integrand")
BOUNDS = ("13 generators x {loops, vectorised, Fortran}; 1-3 layers x 4 end-value patterns x 3 sets of modes; histories of 2-4 points with steps, ramps and constants "
          "x 4 omega/phase x 2 sets of decay rates x 9 output times; between-routines: all pairs of 5 (thorough 9) ends; each generated twice")
DEPTH = {"dim1sin_%s_linear" % n: n for n in ("af", "abf", "D_aDf", "ab", "abc", "D_aDb", "DD_abDDf")}
TIME = {v: k for k, v in c11.FN.items()}


def generate(name):
    import geotecha.speccon.integrals_generate_code as g
    return getattr(g, name)()


def load(text, name):
    """the routine, with the names of the module it is written for"""
    import geotecha.speccon.integrals as I
    import geotecha.piecewise.piecewise_linear_1d as P
    ns = dict(vars(I))
    ns.update({k: v for k, v in vars(P).items() if callable(v) and k not in ns}, np=np, math=math)
    ns.pop(name, None)
    exec(compile(text, name, "exec"), ns)
    return ns[name]


TYPES = """      MODULE types
        IMPLICIT NONE
        INTEGER, PARAMETER :: DP = KIND(0.0D0)
      END MODULE

"""


class Fortran(object):
    """the generated subroutine compiled on its own and called directly"""
    def __init__(self, text):
        self.d = tempfile.mkdtemp(prefix="c29_")
        with open(os.path.join(self.d, "g.f95"), "w") as f:
            f.write(TYPES + text + "\n")
        r = subprocess.run(["gfortran", "-O0", "-w", "-shared", "-fPIC", "-o", "g.so", "g.f95"], cwd=self.d, capture_output=True, text=True)
        if r.returncode:
            raise ValueError("does not compile: " + r.stderr[-1500:])
        self.lib = ctypes.CDLL(os.path.join(self.d, "g.so"))
        name, args = re.search(r"SUBROUTINE\s+(\w+)\s*\(([^)]*)\)", text, re.I).groups()
        self.fn = getattr(self.lib, name.lower() + "_")
        self.args = [v.strip().lower() for v in args.replace("&", " ").split(",")]
        cx = " ".join(re.findall(r"COMPLEX[^\n]*::([^\n]*)", text, re.I)).lower()
        self.cx = {v for v in self.args if re.search(r"\b%s\b" % v, cx)}

    def __call__(self, shape, **kw):
        keep, refs = [], []
        kw["a"] = np.zeros(shape, dtype=complex if "a" in self.cx else float, order="F")
        for n in self.args:
            v = kw[n]
            if isinstance(v, (int, np.integer)) and n.startswith("n"):
                v = ctypes.c_int(v)
                refs.append(ctypes.byref(v))
            elif np.ndim(v) == 0:
                v = ctypes.c_double(v)
                refs.append(ctypes.byref(v))
            else:
                if n != "a":
                    v = np.array(v, dtype=complex if n in self.cx else float)
                refs.append(v.ctypes.data_as(ctypes.c_void_p))
            keep.append(v)
        self.fn(*refs)
        return kw["a"]

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def routines(ctx, gen, name):
    text = call(generate, gen)
    ctx.step()
    if not ctx.check(not isinstance(text, Raised), "generator fails", gen, lambda: repr(text)):
        return None, None, None
    py, fo = (text, None) if isinstance(text, str) else text
    again = call(generate, gen)
    ctx.check(again == text, "generated again is different", gen, lambda: repr(again)[:300])
    f = call(load, py, name)
    ctx.check(not isinstance(f, Raised), "generated code cannot be loaded", gen, lambda: "%r\n%s" % (f, py[:300]))
    F = None
    if fo is not None:
        F = call(Fortran, fo)
        ctx.check(not isinstance(F, Raised), "generated Fortran", gen, lambda: repr(F))
    return text, None if isinstance(f, Raised) else f, None if isinstance(F, Raised) else F


def judge(ctx, kind, case, got, want, tol):
    ctx.step()
    ctx.trace()
    ctx.check(not isinstance(got, Raised) and np.shape(got) == np.shape(want) and bool(np.all(np.isfinite(got))) and np.max(np.abs(np.asarray(got) - want)) <= tol,
              kind, case, lambda: "got %r want %s" % (got, want))


def case_depth(ctx, name):
    key = DEPTH[name]
    text, f, F = routines(ctx, name + "_implementations", name)
    try:
        for x in c11.layerings(ctx):
            zt, zb = x[:-1], x[1:]
            n = len(zt)
            for bnd, ms in c11.MODES.items():
                for P in c11.values(n, c11.NP[key], ctx.thorough):
                    if key == "D_aDb" and any(P[1][1][i] != P[1][0][i + 1] for i in range(n - 1)):
                        y = tuple([1., 3., 0., 2., -1., 4., 1.][:n + 1]) if P[1][0][0] != 1. else tuple([1., 1., 2.5, 0., 1., 1., 0.][:n + 1])
                        P = [P[0], (y[:-1], y[1:])]
                    ctx.state((name, x, bnd, repr(P)))
                    want = c11.ref_depth(key, ms, P, zt, zb)
                    case = dict(routine=name, layers=x, modes=ms, values=P)
                    tol = 1e-9 * max(1., np.max(np.abs(want))) * (max(ms) ** 2 if n > 3 else 1)
                    flat = [np.array(v) for p in P for v in p]
                    if f:
                        for impl in ("scalar", "vectorized"):
                            judge(ctx, "generated %s %s" % (impl, name), case, call(f, np.array(ms), *flat, np.array(zt), np.array(zb), implementation=impl), want, tol)
                    if F:
                        kw = dict(zip([q + e for q in "abc"[:len(P)] for e in "tb"], flat))
                        judge(ctx, "generated Fortran %s" % name, case, call(F, np.shape(want), m=ms, zt=zt, zb=zb, neig=len(ms), nlayers=n, **kw), want, tol)
    finally:
        if F:
            F.close()
    ctx.outcome(name)


def case_time(ctx, name):
    kind = TIME[name]
    text, f, F = routines(ctx, name + "_implementations", name)
    hs = c11.histories(ctx)
    hs = [h for i, h in enumerate(hs) if len(h[0]) < 4 or ctx.thorough or i % 3 == 0]
    tv = c11.TV
    try:
        for j, (tt, mm) in enumerate(hs):
            for om in ([(0., 0.)] if kind in "ED" else c11.OM if ctx.thorough else [c11.OM[j % 4], c11.OM[(j + 1) % 4]]):
                ctx.state((name, tt, mm, om))
                for dT, eigs in c11.RATES[::2]:
                    want = c11.ref_time(kind, tt, mm, eigs, tv, dT, om)
                    case = dict(routine=name, times=tt, magnitudes=mm, omega_phase=om, eigs=eigs, tvals=tv, dT=dT)
                    tol = 2e-9 * max(1, np.max(np.abs(want)))
                    mid = [] if kind in "ED" else list(om)
                    if f:
                        for impl in ("scalar", "vectorized"):
                            judge(ctx, "generated %s %s" % (impl, name), case,
                                  call(f, np.array(tt), np.array(mm), *mid, np.array(eigs), np.array(tv), dT, implementation=impl), want, tol)
                    if F:
                        judge(ctx, "generated Fortran %s" % name, case,
                              call(F, np.shape(want), loadtim=tt, loadmag=mm, omega=om[0], phase=om[1], eigs=eigs, tvals=tv, dt=dT, neig=len(eigs), nload=len(tt), nt=len(tv)), want, tol)
    finally:
        if F:
            F.close()
    ctx.outcome(name)


def case_between(ctx, name):
    long = "integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between" if name.startswith("dim1_") else name
    text, f, F = routines(ctx, name, long)
    if not f:
        return
    ends = [0., .3, .4, .7, 1.] if not ctx.thorough else [0., .1, .25, .3, .4, .55, .7, .9, 1.]
    zz = [(a, b) for a in ends for b in ends if a < b]
    for x in c11.layerings(ctx):
        if x[0] != 0. or x[-1] != 1.:
            continue
        zt, zb = x[:-1], x[1:]
        n = len(zt)
        for P in c11.values(n, 1 if name == long else 2, ctx.thorough):
            ctx.state((name, x, repr(P)))
            case = dict(routine=long, layers=x, values=P, between=zz)

            def g(y, k):
                v = 1.
                for t, b in P:
                    v = v * c11.lin(y, t[k], b[k], zt[k], zb[k])
                return v
            sets = c11.MODES.values() if name == long else [None]
            for ms in sets:
                m = None if ms is None else np.array(ms)
                want = []
                for a, b in zz:
                    s = 0.
                    for k in range(n):
                        lo, hi = max(a, zt[k]), min(b, zb[k])
                        if hi > lo:
                            s = s + c11.quad(lambda y: (g(y, k) if m is None else np.sin(m[:, None] * y) * g(y, k)), lo, hi)
                    want.append(s)
                want = np.array(want)
                v = [np.array(q) for q in (zt, zb)]
                if m is None:
                    got = call(f, v[0], v[1], np.array(P[0][0]), np.array(P[0][1]), v[0], v[1], np.array(P[1][0]), np.array(P[1][1]), [a for a, b in zz], [b for a, b in zz])
                else:
                    got = call(f, m, np.array(P[0][0]), np.array(P[0][1]), v[0], v[1], zz)
                judge(ctx, "generated %s" % long, case, got, want, 1e-10 * max(1., np.max(np.abs(want))))
    ctx.outcome(name)


def case_vars(ctx, item):
    """the symbols the generators are built from: linear between end values, in either form and any variable"""
    import sympy
    from geotecha.speccon.integrals_generate_code import SympyVarsFor1DSpectralDerivation as V
    var, slope = item
    v = call(V, var, slope)
    ctx.step()
    case = dict(linear_var=var, slope=slope)
    if not ctx.check(not isinstance(v, Raised), "symbols", case, repr(v)):
        return
    s = lambda n: getattr(v, n)
    for q in "abc":
        for p0, p1, y0, y1, x in itertools.product((0, 2), (3, 5), (-1, 0, 4), (-1, 2), (0, 1, 3, 7)):
            sub = [(s(var), x), (s(var + "top"), p0), (s(var + "bot"), p1), (s(q + "top"), y0), (s(q + "bot"), y1)]
            if slope:
                sub.append((s(q + "_slope"), sympy.Rational(y1 - y0, p1 - p0)))
            got = s(q).subs(sub)
            ctx.check(got == y0 + sympy.Rational(y1 - y0, p1 - p0) * (x - p0), "linear between its ends", dict(case, name=q, at=sub), lambda: str(got))
        for tb in ("top", "bot"):
            ctx.check(s(q + tb).subs(v.map_to_add_index) == s(q + tb[0])[v.layer], "index map", dict(case, name=q + tb), lambda: str(s(q + tb).subs(v.map_to_add_index)))
            ctx.check(str(s(q + tb).subs(v.map_top_to_t_bot_to_b)) == q + tb[0], "vector map", dict(case, name=q + tb))
    for tb in ("top", "bot"):
        ctx.check(s(var + tb).subs(v.map_to_add_index) == s(var + tb[0])[v.layer], "index map", dict(case, name=var + tb))
        ctx.check(str(s(var + tb).subs(v.map_top_to_t_bot_to_b)) == var + tb[0], "vector map", dict(case, name=var + tb))
    ctx.check(v.mi.subs(v.map_to_add_index) == v.m[v.i] and v.mj.subs(v.map_to_add_index) == v.m[v.j], "mode map", case)
    ctx.state(item)
    ctx.trace()


def run(ctx):
    import geotecha.speccon.integrals  # noqa
    import geotecha.speccon.integrals_generate_code  # noqa
    on = lambda g: not ctx.only or ctx.only in g
    if not shutil.which("gfortran"):
        ctx.notes["Fortran"] = "no compiler: generated Fortran not run"
        global Fortran
        Fortran = lambda text: None
    if on("time"):
        with ctx.group("time"):
            ctx.parallel(case_time, sorted(TIME, key=lambda n: "linear" in n and "cos" not in n))
    if on("depth"):
        with ctx.group("depth"):
            ctx.parallel(case_depth, ["dim1sin_DD_abDDf_linear", "dim1sin_abf_linear"] + [n for n in DEPTH if n not in ("dim1sin_DD_abDDf_linear", "dim1sin_abf_linear")])
    if on("between"):
        with ctx.group("between"):
            ctx.parallel(case_between, ["dim1sin_a_linear_between", "dim1_ab_linear_between"])
    if on("symbols"):
        with ctx.group("symbols"):
            ctx.parallel(case_vars, list(itertools.product("xyz", (True, False))))
