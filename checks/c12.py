"""C12 the consolidation programs solve the equation they state.

Every program is run on every configuration of a finite space and compared with mc/weak.py,
an independent weak-form solver of the governing equations: in the program's own trial space
(agreement to rounding) and with converged p-elements (agreement to the truncation error)."""
import itertools
import numpy as np
from mc.core import call, Raised
from mc import weak
from mc.weak import PW, Hist, Space, SineBasis, FemBasis

LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of programs x profiles x drainage x load sets; every configuration replayed on the real "
             "program and on an independent weak-form model (same trial space: equal to rounding; p-elements: equal to truncation error)")
BOUNDS = ("4 programs (plus their compiled and scalar integrals); 5 profile sets of 1-3 layers (and one of 7), both drainage conditions, vertical/radial/both, "
          "every single load kind and every pair of load kinds, 3 histories each with and without cyclic factor; 2 scalings of H, mvref, dT; 9 times, 7 depths")

# profile sets: name -> {property: (x, y)}
PROFILES = {
    "uniform": dict(mv=([0, 1], [1, 1]), kv=([0, 1], [1, 1]), kh=([0, 1], [1, 1]), et=([0, 1], [1, 1]), k2=([0, 1], [2, 2])),
    "two layers": dict(mv=([0, .3, .3, 1], [1, 1, .4, .4]), kv=([0, .6, .6, 1], [1, 1, 3, 3]), kh=([0, .3, .3, 1], [1, 1, .2, .2]),
                       et=([0, .5, .5, 1], [1, 1, 2, 2]), k2=([0, .3, .3, 1], [2, 2, .7, .7])),
    "linear": dict(mv=([0, 1], [1.2, .5]), kv=([0, 1], [.5, 2]), kh=([0, 1], [2, .6]), et=([0, 1], [.5, 1.]), k2=([0, 1], [.4, 1.6])),
    "ramps and jumps": dict(mv=([0, .25, .25, .7, 1], [.5, 1, .6, .9, .3]), kv=([0, .4, .4, 1], [1, .3, 2, 1]), kh=([0, .4, 1], [.5, 1.5, 1.]),
                            et=([0, .5, .5, 1], [1, 1, 0, 0]), k2=([0, .5, 1], [1, 3, .5])),
    "three layers": dict(mv=([0, .2, .2, .55, .55, 1], [1, 1, .5, .5, 2, 2]), kv=([0, .2, .2, .55, .55, 1], [1, 1, .1, .1, 4, 4]),
                         kh=([0, 1], [1, 1]), et=([0, .35, .35, 1], [1, 1, .5, .5]), k2=([0, .2, .2, 1], [1, 1, 2, 2])),
}
SEVEN = dict((n, ([0] + [v for z in (.1, .25, .4, .5, .7, .9) for v in (z, z)] + [1], [v for q in y for v in (q, q)])) for n, y in
             dict(mv=(1, .6, 1.2, .5, .8, 1.5, .7), kv=(1, 2, .4, 1, 3, .8, 1.5), kh=(1, .5, 2, 1, .3, 1, 2), et=(1, 1, .5, 2, 1, .4, 1), k2=(2, 1, .5, 1, 3, 1, 2)).items())
# histories; every one ends at 4
HIST = [([0, 0, 4], [0, 1, 1]), ([0.1, 0.3, 4], [0, 1, 1]), ([0.05, 0.05, .2, .3, .3, 1.5, 4], [0, .5, .5, 1., .4, .4, -.2])]
OPS = [None, (3., 0.4)]
OPN = (2.5, -1.2)               # a second frequency with a negative phase
DEPTHS = [([0, 1], [1, 1]), ([0, .45, .45, 1], [1, .5, .8, .8]), ([0, 1], [.3, 1.2])]
TV = [0., 0.03, .05, .1, .2, .25, .3, 1., 2.5]
Z = [0., .05, .2, .4, .6, .85, 1.]
PAIRS = [(0, 1), (0., .3), (.2, .85), (.55, 1.)]


def polyline(xy):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    return PolyLine(list(map(float, xy[0])), list(map(float, xy[1])))


def prod(*fs):
    def g(z):
        v = 1.
        for f in fs:
            v = v * f(z)
        return v
    return g


def scale_hist(h, mag):
    return (h[0], [v * mag for v in h[1]])


# ------------------------------------------------------------------ model
class Model(object):
    """the stated equations of one program in weak form"""
    def __init__(self, prog, c, basis):
        self.c, self.prog = c, prog
        pr = {k: PW(*v) for k, v in c["profile"].items()}
        self.pr = pr
        breaks = set()
        for v in c["profile"].values():
            breaks |= set(v[0])
        for l in c["loads"]:
            if l["kind"] in ("fixed", "pump"):
                breaks.add(l["z"])
            if "depth" in l:
                breaks |= set(l["depth"][0])
        self.S = Space(basis, breaks)
        self.drn = c["drn"]
        getattr(self, prog)()

    def hist(self, l):
        return Hist(l["hist"][0], l["hist"][1], l["op"])

    def lifts(self, which="top bot"):
        """(shape function, slope, history) of the boundary pressures"""
        out = []
        top, bot = which.split()
        for l in self.c["loads"]:
            if l["kind"] not in (top, bot):
                continue
            h = self.hist(l)
            if l["kind"] == top:
                out.append(((lambda z: 1 - z), -1., h) if self.drn == 0 else ((lambda z: np.ones_like(z)), 0., h))
            if l["kind"] == bot:
                if self.drn == 1:
                    h = Hist(h.x, [v * self.c["H"] for v in h.y], h.op)
                out.append(((lambda z: z), 1., h))
        return out

    def loads(self, kind):
        return [l for l in self.c["loads"] if l["kind"] == kind]

    def VR(self):
        c, S, pr = self.c, self.S, self.pr
        self.M = S.mass(pr["mv"])
        K = np.zeros_like(self.M)
        hv, hh = c["dTv"], c["dTh"]
        q = prod(pr["kh"], pr["et"])
        if hv:
            K += hv * S.stiff(pr["kv"])
        if hh:
            K += hh * S.mass(q)
        T = []
        for l in self.loads("surcharge"):
            T.append((S.load(prod(pr["mv"], PW(*l["depth"]))), self.hist(l), True))
        if hh:
            for l in self.loads("vacuum"):
                T.append((hh * S.load(prod(q, PW(*l["depth"]))), self.hist(l), False))
        for sh, slope, h in self.lifts():
            T.append((-S.load(prod(pr["mv"], sh)), h, True))
            if hv:
                T.append((hv * S.lift_flux(pr["kv"], slope, self.drn), h, False))
            if hh:
                T.append((-hh * S.load(prod(q, sh)), h, False))
        K, T = self.points(K, T)
        self.K, self.T = K, T
        self.fields = dict(por=(np.eye(S.b.n), [], "u"))

    def points(self, K, T):
        c, S = self.c, self.S
        for l in self.loads("fixed"):
            p = S.at(l["z"])[:, 0]
            K = K + l["k"] * np.outer(p, p)
            if l["hist"] is not None:
                T.append((l["k"] * p, self.hist(l), False))
            for sh, slope, h in self.lifts():
                T.append((-l["k"] * p * float(sh(np.array(l["z"]))), h, False))
        for l in self.loads("pump"):
            p = S.at(l["z"])[:, 0]
            T.append((p / (c["mvref"] * c["H"]), self.hist(l), False))
        return K, T

    def VRW(self):
        c, S, pr = self.c, self.S, self.pr
        self.M = S.mass(pr["mv"])
        q = prod(pr["kh"], pr["et"])
        Sx = c["dTh"] * S.mass(q)
        Kw = c["dTw"] * S.stiff(pr["k2"]) + Sx
        hv = c["dTv"]
        K = Sx.copy()
        if hv:
            K += hv * S.stiff(pr["kv"])
        R = np.linalg.solve(Kw, Sx).T          # S Kw^-1 (both symmetric)
        T, W = [], []
        for l in self.loads("surcharge"):
            T.append((S.load(prod(pr["mv"], PW(*l["depth"]))), self.hist(l), True))
        for sh, slope, h in self.lifts():
            T.append((-S.load(prod(pr["mv"], sh)), h, True))
            if hv:
                T.append((hv * S.lift_flux(pr["kv"], slope, self.drn), h, False))
            gw = c["dTw"] * S.lift_flux(pr["k2"], slope, self.drn)
            T.append((R @ gw, h, False))
            W.append((np.linalg.solve(Kw, gw), h))
        K = K - R @ Sx
        K, T = self.points(K, T)
        self.K, self.T = K, T
        self.fields = dict(por=(np.eye(S.b.n), [], "u"), porwell=(R.T, W, "u"))

    def VRC(self):
        c, S, pr = self.c, self.S, self.pr
        al = 1. / c["n"] ** 2
        self.M = S.mass(pr["mv"])
        Bs, Bc = c["dTv"] * S.stiff(pr["kv"]), c["dTvc"] * S.stiff(pr["k2"])
        Ss, Sc = c["dTh"] * S.mass(prod(pr["kh"], pr["et"])), c["dThc"] * S.mass(pr["k3"])
        n = S.b.n
        I, O = np.eye(n), np.zeros((n, n))
        # unknowns soil s, column c, interface w
        # (1-al) s + al c = u ; equal strain rate of soil and column ; what enters across the interface leaves
        A = np.block([[(1 - al) * I, al * I, O],
                      [Ss + Bs, -(Sc + Bc), Sc - Ss],
                      [Ss + al * Bs, -al * Bc, -Ss]])
        X = np.linalg.inv(A)
        us, uc = X[:n], X[n:2 * n]
        K = (1 - al) * Bs @ us[:, :n] + al * Bc @ uc[:, :n]
        T, Ws, Wc = [], [], []
        for l in self.loads("surcharge"):
            T.append((S.load(prod(pr["mv"], PW(*l["depth"]))), self.hist(l), True))
        for sh, slope, h in self.lifts():
            gs, gc = c["dTv"] * S.lift_flux(pr["kv"], slope, self.drn), c["dTvc"] * S.lift_flux(pr["k2"], slope, self.drn)
            # the boundary profile satisfies the first equation; it leaves gs - gc in the other two
            r = np.concatenate([0 * gs, gs - gc, al * (gs - gc)])
            s0, c0 = us @ r, uc @ r
            T.append((-S.load(prod(pr["mv"], sh)), h, True))
            T.append(((1 - al) * (gs - Bs @ s0) + al * (gc - Bc @ c0), h, False))
            Ws.append((s0, h))
            Wc.append((c0, h))
        self.K, self.T = K, T
        self.fields = dict(por=(np.eye(n), [], "u"), pors=(us[:, :n], Ws, "u"), porc=(uc[:, :n], Wc, "u"))

    def Unsat(self):
        c, S, pr = self.c, self.S, self.pr
        n = S.b.n
        f = 1. / (c["ua_"] * c["mvref"])
        air = lambda z: pr["m1ka"](z) - pr["m2a"](z) - f * pr["n"](z) * (1 - pr["S"](z))
        wat = lambda z: pr["m1kw"](z) - pr["m2w"](z)
        self.M = np.block([[S.mass(pr["m2w"]), S.mass(wat)], [S.mass(pr["m2a"]), S.mass(air)]])
        O = np.zeros((n, n))
        self.K = np.block([[-c["dTw"] * S.stiff(pr["kw"]), O], [O, -c["dTa"] * S.stiff(pr["Da"])]])
        T = []
        for l in self.loads("surcharge"):
            d = PW(*l["depth"])
            T.append((np.concatenate([S.load(prod(pr["m1kw"], d)), S.load(prod(pr["m1ka"], d))]), self.hist(l), True))
        for sh, slope, h in self.lifts("wtop wbot"):
            T.append((-np.concatenate([S.load(prod(pr["m2w"], sh)), S.load(prod(pr["m2a"], sh))]), h, True))
            T.append((-np.concatenate([c["dTw"] * S.lift_flux(pr["kw"], slope, self.drn), np.zeros(n)]), h, False))
        for sh, slope, h in self.lifts("atop abot"):
            T.append((-np.concatenate([S.load(prod(wat, sh)), S.load(prod(air, sh))]), h, True))
            T.append((-np.concatenate([np.zeros(n), c["dTa"] * S.lift_flux(pr["Da"], slope, self.drn)]), h, False))
        self.T = T
        I = np.eye(n)
        self.fields = dict(porw=(np.hstack([I, 0 * I]), [], "w"), pora=(np.hstack([0 * I, I]), [], "a"))

    def slowest(self):
        return np.min(np.abs(np.linalg.eigvals(np.linalg.solve(self.M, self.K))))

    def solve(self, tvals):
        c, S = self.c, self.S
        x = weak.march(self.M, self.K, self.T, tvals)
        out = {}
        coef = {}
        for name, (B, extra, which) in self.fields.items():
            v = B @ x
            for g, h in extra:
                v = v + np.outer(g, [h.value(t) for t in tvals])
            L = self.lifts(dict(u="top bot", w="wtop wbot", a="atop abot")[which])
            coef[name] = (v, L)
            u = S.at(Z).T @ v
            a = np.array([S.project(z1, z2, np.ones_like) @ v / (z2 - z1) for z1, z2 in PAIRS])
            for sh, slope, h in L:
                hv = np.array([h.value(t) for t in tvals])
                u = u + np.outer(sh(np.array(Z)), hv)
                a = a + np.outer([S.integral(z1, z2, sh) / (z2 - z1) for z1, z2 in PAIRS], hv)
            out[name] = u
            out[name.replace("por", "avp")] = a

        def comp(field, cf):
            """int cf * field over the settlement pairs"""
            v, L = coef[field]
            r = np.array([S.project(z1, z2, cf) @ v for z1, z2 in PAIRS])
            for sh, slope, h in L:
                r = r + np.outer([S.integral(z1, z2, prod(cf, sh)) for z1, z2 in PAIRS], [h.value(t) for t in tvals])
            return r

        def sig(cf):
            r = 0
            for l in self.loads("surcharge"):
                h = self.hist(l)
                r = r + np.outer([S.integral(z1, z2, prod(cf, PW(*l["depth"]))) for z1, z2 in PAIRS], [h.value(t) for t in tvals])
            return r
        hm = c["H"] * c["mvref"]
        p = self.pr
        if self.prog == "Unsat":
            out["setw"] = hm * (sig(p["m1kw"]) + comp("pora", lambda z: p["m2w"](z) - p["m1kw"](z)) - comp("porw", p["m2w"]))
            out["seta"] = hm * (sig(p["m1ka"]) + comp("pora", lambda z: p["m2a"](z) - p["m1ka"](z)) - comp("porw", p["m2a"]))
            out["set"] = out["setw"] + out["seta"]
        else:
            out["set"] = hm * (sig(p["mv"]) - comp("por", p["mv"]))
        return out


# ------------------------------------------------------------------ implementation
def build(prog, c, neig, impl):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    if prog == "VR":
        from geotecha.speccon.speccon1d_vr import Speccon1dVR as C
    elif prog == "VRW":
        from geotecha.speccon.speccon1d_vrw import Speccon1dVRW as C
    elif prog == "VRC":
        from geotecha.speccon.speccon1d_vrc import Speccon1dVRC as C
    else:
        from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat as C
    a = C()
    a.implementation = impl
    a.neig, a.drn, a.H, a.mvref, a.dT = neig, c["drn"], c["H"], c["mvref"], c["dT"]
    p = {k: polyline(v) for k, v in c["profile"].items()}
    if prog in ("VR", "VRW", "VRC"):
        a.mv = p["mv"]
        if c["dTv"]:
            a.dTv, a.kv = c["dTv"], p["kv"]
        if c["dTh"]:
            a.dTh, a.kh, a.et = c["dTh"], p["kh"], p["et"]
    if prog == "VRW":
        a.dTw, a.kw = c["dTw"], p["k2"]
    if prog == "VRC":
        a.dTvc, a.kvc, a.dThc, a.khc, a.n = c["dTvc"], p["k2"], c["dThc"], p["k3"], c["n"]
        a.alp = 1. / c["n"] ** 2
    if prog == "Unsat":
        for k in "m1kw m1ka m2w m2a kw Da n S".split():
            setattr(a, k, p[k])
        a.dTw, a.dTa, a.ua_ = c["dTw"], c["dTa"], c["ua_"]

    def put(name, v):
        if getattr(a, name) is None:
            setattr(a, name, [])
        getattr(a, name).append(v)
    for l in c["loads"]:
        h = None if l["hist"] is None else polyline(l["hist"])
        k = l["kind"]
        if k in ("surcharge", "vacuum"):
            put(k + "_vs_time", h)
            put(k + "_vs_depth", polyline(l["depth"]))
            put(k + "_omega_phase", l["op"])
        elif k == "fixed":
            put("fixed_ppress", (l["z"], l["k"], h))
            put("fixed_ppress_omega_phase", l["op"])
        elif k == "pump":
            put("pumping", (l["z"], h))
            put("pumping_omega_phase", l["op"])
        else:
            put(k + "_vs_time", h)
            put(k + "_omega_phase", l["op"])
    if all(l["op"] is None for l in c["loads"]):
        for n in "surcharge vacuum fixed_ppress pumping top bot wtop wbot atop abot".split():
            if hasattr(a, n + "_omega_phase"):
                setattr(a, n + "_omega_phase", None)
    a.tvals = np.array(c.get("tvals", TV))
    a.ppress_z = list(Z)
    a.avg_ppress_z_pairs = [list(p) for p in PAIRS]
    a.settlement_z_pairs = [list(p) for p in PAIRS]
    return a


OUT = dict(VR=["por", "avp", "set"], VRW=["por", "porwell", "avp", "set"],
           VRC=["por", "pors", "porc", "avp", "avps", "avpc", "set"], Unsat=["porw", "pora", "avpw", "avpa", "set", "setw", "seta"])


def load(kind, hi, op, di=0, mag=1., z=.35, k=5.):
    l = dict(kind=kind, hist=scale_hist(HIST[hi], mag), op=op)
    if kind in ("surcharge", "vacuum"):
        l["depth"] = DEPTHS[di]
    if kind in ("fixed", "pump"):
        l["z"] = z
    if kind == "fixed":
        l["k"] = k
    return l


def loadsets(kinds, full):
    """every single load kind with every history / cyclic option, then every pair of kinds"""
    out = []
    n = 0
    for k in kinds:
        for hi in range(3):
            for op in OPS:
                out.append([load(k, hi, op, hi, -1. if k == "vacuum" else 1.)])
        out.append([load(k, 0, None, 1), load(k, 1, OPN, 2, -.7, .6, 2.)])
        if k == "fixed":
            l = load(k, 0, None)
            l["hist"] = None
            out.append([l])
    for k1, k2 in itertools.combinations(kinds, 2):
        n += 1
        opts = itertools.product(range(3), OPS, range(3), OPS) if full else [(n % 3, OPS[n % 2], (n + 1) % 3, OPS[(n // 2) % 2])]
        for h1, o1, h2, o2 in opts:
            o2 = o2 and OPN
            out.append([load(k1, h1, o1, h1), load(k2, h2, o2, h2, -.6, .6)])
    out.append([load(k, i % 3, OPS[i % 2], i % 3, [1., -.5, .7][i % 3], [.35, .6][i % 2]) for i, k in enumerate(kinds)])
    return out


KINDS = dict(VR=["surcharge", "vacuum", "top", "bot", "fixed", "pump"], VRW=["surcharge", "top", "bot", "fixed", "pump"],
             VRC=["surcharge", "top", "bot"], Unsat=["surcharge", "wtop", "wbot", "atop", "abot"])
UNSAT = {
    "uniform": dict(m1kw=([0, 1], [-.5, -.5]), m1ka=([0, 1], [-2., -2.]), m2w=([0, 1], [-2., -2.]), m2a=([0, 1], [1., 1.]),
                    kw=([0, 1], [1, 1]), Da=([0, 1], [1, 1]), n=([0, 1], [.5, .5]), S=([0, 1], [.8, .8])),
    "layered": dict(m1kw=([0, .3, .3, 1], [-.5, -.5, -.8, -.8]), m1ka=([0, 1], [-2., -1.5]), m2w=([0, .5, .5, 1], [-2., -2., -3., -3.]),
                    m2a=([0, 1], [1., .6]), kw=([0, .3, .3, 1], [1, 1, .3, .3]), Da=([0, 1], [1., 3.]), n=([0, .4, .4, 1], [.5, .5, .4, .4]), S=([0, 1], [.8, .6])),
}


def configs(prog, thorough):
    """the finite space of configurations of one program"""
    out = []
    if prog == "Unsat":
        sets = list(UNSAT.items())
        mech = [dict(dTw=1., dTa=10., ua_=100.), dict(dTw=.5, dTa=2., ua_=50.)]
        kinds = KINDS[prog]
    else:
        sets = list(PROFILES.items())
        if prog == "VR":
            mech = [dict(dTv=1., dTh=None), dict(dTv=None, dTh=3.), dict(dTv=.5, dTh=2.), dict(dTv=2., dTh=0.)]
        elif prog == "VRW":
            mech = [dict(dTv=None, dTh=3., dTw=5.), dict(dTv=.5, dTh=2., dTw=1.)]
        else:
            mech = [dict(dTv=.5, dTh=2., dTvc=3., dThc=8., n=3.), dict(dTv=1., dTh=1., dTvc=1., dThc=2., n=5.)]
    scal = [dict(H=1., mvref=1., dT=1.), dict(H=4., mvref=.5, dT=10.)]
    i = 0
    for (pn, p) in sets:
        p = dict(p)
        if prog == "VRC":
            p["k3"] = p["kh"] if pn != "uniform" else ([0, 1], [3, 3])
        for me in mech:
            for drn in (0, 1):
                kinds = [k for k in KINDS[prog] if not (k == "vacuum" and not me.get("dTh"))]
                # a drain needs something for the well or the layer to give off to
                for ls in loadsets(kinds, thorough):
                    for s in (scal if thorough else [scal[i % 2]]):
                        out.append(dict(me, profile=p, pname=pn, drn=drn, loads=ls, **s))
                    i += 1
    if prog != "Unsat":
        p = dict(SEVEN)
        if prog == "VRC":
            p["k3"] = p["kh"]
        for drn in (0, 1):
            me = mech[-2] if prog == "VR" else mech[0]
            for ls in loadsets(KINDS[prog], thorough)[drn:: 3 if thorough else 14]:
                i += 1
                out.append(dict(me, profile=p, pname="seven layers", drn=drn, loads=ls, **scal[i % 2]))
    return out


def scale_of(c):
    return max([max(abs(v) for v in l["hist"][1]) * (c["H"] if l["kind"].endswith("bot") and c["drn"] == 1 else 1)
                * (20 if l["kind"] == "pump" else 1) for l in c["loads"] if l["hist"]] + [1e-3])


def brief(c):
    return {k: v for k, v in c.items() if k != "profile"}


def compare(ctx, prog, c, got, want, tol, tag, names=("por", "avp", "set")):
    sc = scale_of(c)
    for name in OUT[prog]:
        if not name.startswith(names):
            continue
        g, w = np.asarray(getattr(got, name)), want[name]
        s = sc * (c["H"] * c["mvref"] * (3 if prog == "Unsat" else 1) if name.startswith("set") else 1)
        if tag == "truncation":
            s = max(s, np.max(np.abs(w)))      # a prescribed gradient makes pressures beyond the scale of the loads
        ok = g.shape == w.shape and np.all(np.isfinite(g)) and np.max(np.abs(g - w)) <= tol * s
        ctx.check(ok, "%s %s %s" % (tag, prog, name), lambda: dict(program=prog, **brief(c)),
                  lambda: "worst %s of %s at (point, time) %s\n got %s\nwant %s" % (
                      np.max(np.abs(g - w)) if g.shape == w.shape else "shape", s,
                      np.unravel_index(np.argmax(np.abs(g - w)), w.shape) if g.shape == w.shape else "", g, w))


def case_exact(ctx, item):
    prog, cs, impl = item
    for c in cs:
        neig = 7 if prog != "Unsat" else 5
        m = Model(prog, c, SineBasis(neig, c["drn"]))
        if m.slowest() < 1e-4:
            continue      # a part of the profile cannot drain: see case_undrained
        ctx.state((prog, impl, repr(c)))
        a = build(prog, c, neig, impl)
        r = call(a.make_all)
        ctx.step()
        if not ctx.check(not isinstance(r, Raised), "raises " + prog, lambda: dict(program=prog, **brief(c)), lambda: repr(r)):
            continue
        want = m.solve(c.get("tvals", TV))
        compare(ctx, prog, c, a, want, 1e-7, "equation")
        ctx.trace()
    ctx.outcome("%s %s" % (prog, impl))
    ctx.sample(dict(program=prog, implementation=impl, **brief(cs[0])))


def case_undrained(ctx, item):
    """radial drainage in the upper half only: half of the modes hardly move"""
    prog = item
    c = dict(dTv=None, dTh=3., profile=PROFILES["ramps and jumps"], pname="ramps and jumps", drn=1, H=1., mvref=1., dT=1.,
             loads=[load("vacuum", 1, None, 1, -1.), load("pump", 2, OPS[1], 2, -.6, .6)])
    ctx.state((prog, repr(c)))
    a = build(prog, c, 7, "vectorized")
    r = call(a.make_all)
    ctx.step()
    if ctx.check(not isinstance(r, Raised), "raises undrained", lambda: brief(c), lambda: repr(r)):
        want = Model(prog, c, SineBasis(7, 1)).solve(TV)
        ctx.check(np.max(np.abs(a.por - want["por"])) < 1e-5, "undrained lower half VR", lambda: brief(c),
                  lambda: "got\n %s\nwant\n %s" % (a.por, want["por"]))
    ctx.trace()


def chunks(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def case_conv(ctx, item):
    """program with a long series against converged elements"""
    prog, c = item
    ctx.state((prog, repr(c)))
    nodes = {0., 1.}
    for v in c["profile"].values():
        nodes |= set(map(float, v[0]))
    for l in c["loads"]:
        if "z" in l:
            nodes.add(l["z"])
        if "depth" in l:
            nodes |= set(map(float, l["depth"][0]))
    # graded towards the boundaries, where the loads start a boundary layer
    nodes |= {.02, .08, .92, .98}
    tv = [.1, .25, 1., 2.5]
    c = dict(c, tvals=tv)
    want = Model(prog, c, FemBasis(sorted(nodes), 7, c["drn"])).solve(tv)
    for neig, tol in [(40, .04)]:
        a = build(prog, c, neig, "vectorized")
        r = call(a.make_all)
        ctx.step()
        if ctx.check(not isinstance(r, Raised), "raises long " + prog, lambda: dict(program=prog, **brief(c)), lambda: repr(r)):
            compare(ctx, prog, c, a, want, tol, "truncation", ("avp", "set"))
    ctx.trace()


def run(ctx):
    import geotecha.speccon.ext_integrals
    on = lambda g: not ctx.only or ctx.only in g + " "
    if on("undrained"):
        with ctx.group("undrained"):
            ctx.parallel(case_undrained, ["VR"])
    for prog in OUT:
        cs = configs(prog, ctx.thorough)
        if on("equation " + prog):
            with ctx.group("equation " + prog):
                n = 12
                items = [(prog, ch, "vectorized") for ch in chunks(cs, n)]
                # the other implementations on every 7th / 5th configuration
                items += [(prog, ch, "fortran") for ch in chunks(cs[::5], n)]
                items += [(prog, ch, "scalar") for ch in chunks(cs[::29], n)]
                ctx.parallel(case_exact, items)
        if on("truncation " + prog):
            with ctx.group("truncation " + prog):
                # without vertical flow the boundary pressures are no boundary condition of the equation
                sel = [c for c in cs if prog == "Unsat" or c["dTv"]][::(3 if ctx.thorough else 7)]
                ctx.parallel(case_conv, [(prog, c) for c in sel])
