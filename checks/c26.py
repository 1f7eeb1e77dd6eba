"""C26: pictures show the data they were given, and making one leaves everything else alone."""
import copy
import itertools
import math
import os
import pickle
import random
import shutil
import tempfile
import textwrap

import numpy as np

from mc.core import call, Raised

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of plot requests (series, load types, properties, subplots, options) and of sequences of plot calls that share their options; "
             "what is on the axes is compared with the data, and inputs, options and the random state with a copy taken before")
BOUNDS = ("1-3 series of 2-4 points, up to 40 series or 150 points, 1-4 load types of 1-2 loads in every form, 1-3 subplots with every sharing vector, index maps of every shape up to 3x3x3, "
          "sequences of 1-3 plot calls; every ordering of the plot methods of the six programs up to length 3 (4 in thorough)")
RULE = "distinct plot request or call sequence"


def snap(x):
    """a comparable copy of inputs"""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if hasattr(x, 'xy'):
        return ('PolyLine', np.array(x.xy).tolist())
    if isinstance(x, np.ndarray):
        return ('array', x.tolist())
    return x if isinstance(x, (int, float, str, type(None), bool)) else repr(x)


def seen(ctx):
    ctx.state()
    ctx.trace()


def close():
    import matplotlib.pyplot as plt
    plt.close('all')


def eq(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


# ---------------------------------------------------------------- helpers
def helpers(ctx):
    import geotecha.plotting.one_d as od
    for scaled, top in ((True, 1.0), (False, 255)):
        for rgb in itertools.product((0, .25, 1.0), repeat=3):
            rgb = tuple(v * top for v in rgb)
            for alpha in ((), (0.3,)):
                for f in (0, 0.25, 0.5, 1):
                    for form in (tuple, list):
                        c = form(rgb + alpha)
                        s = call(od.rgb_shade, c, f, scaled)
                        t = call(od.rgb_tint, c, f, scaled)
                        ctx.step(2); seen(ctx)
                        ctx.check(not isinstance(s, Raised) and tuple(s) == tuple(f * v for v in rgb) + alpha, "shade of a colour wrong", (c, f, scaled), "got %r" % (s,))
                        ctx.check(not isinstance(t, Raised) and np.allclose(t, tuple(v + f * (top - v) for v in rgb) + alpha), "tint of a colour wrong", (c, f, scaled),
                                  "got %r" % (t,))
                        ctx.check(list(c) == list(rgb + alpha), "colour given was changed", (c, f), "changed")
    for f in (-0.1, 1.1):
        for fn in (od.rgb_shade, od.rgb_tint):
            r = call(fn, (0.1, 0.2, 0.3), f)
            ctx.step(); seen(ctx)
            ctx.check(isinstance(r, Raised) and r.type == 'ValueError', "factor outside 0 to 1 accepted", (fn.__name__, f), "got %r" % (r,))

    for src in ({}, {'a': 1}, {'a': 1, 'b': [2]}):
        for diff in ({}, {'a': 3}, {'c': 3}, {'a': 5, 'c': 3}):
            s0, d0 = copy.deepcopy(src), copy.deepcopy(diff)
            r = call(od.copy_dict, src, diff)
            ctx.step(); seen(ctx)
            want = dict(src)
            want.update(diff)
            ctx.check(r == want and src == s0 and diff == d0 and r is not src and r is not diff, "copy_dict wrong", (src, diff), "got %r" % (r,))

    pieces = [1, [2, 3], {'a': 1}, {'a': 2, 'b': 3}, 'x', {}]
    for n in range(0, 4):
        for seq in itertools.product(pieces, repeat=n):
            seq = copy.deepcopy(seq)
            before = snap(seq)
            r = call(od.split_sequence_into_dict_and_nondicts, *seq)
            ctx.step(); seen(ctx)
            d = {}
            for v in seq:
                if isinstance(v, dict):
                    d.update(v)
            ctx.check(not isinstance(r, Raised) and list(r[0]) == [v for v in seq if not isinstance(v, dict)] and r[1] == d, "splitting wrong", seq, "got %r" % (r,))
            ctx.check(snap(seq) == before and not any(r[1] is v for v in seq), "splitting changed or returned an input", seq, "changed")

    for nd in (1, 2, 3):
        for shape in itertools.product((1, 2, 3), repeat=nd):
            for steps in [None] + list(itertools.product((1, -1), repeat=nd)):
                for tr in (False, True):
                    r = call(od.row_major_order_reverse_map, shape, steps, tr)
                    ctx.step(); seen(ctx)
                    st = steps or (1,) * nd
                    strides = [int(np.prod(shape[i + 1:])) for i in range(nd)]
                    val = lambda ix: sum((i if s == 1 else n - 1 - i) * w for i, s, n, w in zip(ix, st, shape, strides))
                    order = list(itertools.product(*[range(n) for n in (shape[::-1] if tr else shape)]))
                    want = [val(ix[::-1] if tr else ix) for ix in order]
                    ctx.check(not isinstance(r, Raised) and list(r) == want, "position map wrong", (shape, steps, tr), "want %s got %r" % (want, r))

    class Rec(object):
        def __init__(self):
            self.log = []

        def m(self, *a):
            self.log.append(a)
    for n in (1, 2, 3):
        for unpack in (False, True):
            for args in [()] + [a for k in (1, n) for a in itertools.product((None, (1,), (2, 3)), repeat=k)]:
                objs = [Rec() for i in range(n)]
                r = call(od.iterable_method_call, objs, 'm', unpack, *args)
                ctx.step(); seen(ctx)
                want = []
                for i in range(n):
                    if not args:
                        want.append([()])
                        continue
                    a = args[0] if len(args) == 1 else args[i]
                    want.append([] if a is None else [tuple(a)] if unpack else [(a,)])
                ctx.check(not isinstance(r, Raised) and [o.log for o in objs] == want, "method called on the wrong elements", (n, unpack, args), "got %r" % [o.log for o in objs])
    import matplotlib.pyplot as plt
    for n in (1, 2, 3):
        for labs in itertools.product((None, 'a', 'b'), repeat=n):
            for which in ('y', 'x', 'both'):
                fig = plt.figure()
                for i in range(n):
                    fig.add_subplot(1, n, i + 1)
                kw = {}
                if which != 'x':
                    kw['y_axis_labels'] = list(labs)
                if which != 'y':
                    kw['x_axis_labels'] = list(labs)
                r = call(od.xylabel_subplots, fig, **kw)
                ctx.step(); seen(ctx)
                want = [v or '' for v in labs]
                ctx.check(not isinstance(r, Raised) and [a.get_ylabel() for a in fig.axes] == (want if which != 'x' else [''] * n)
                          and [a.get_xlabel() for a in fig.axes] == (want if which != 'y' else [''] * n), "labels on the wrong axes", (labs, which), "got %r" % (r,))
                close()


# ---------------------------------------------------------------- styles
def distinct(ctx):
    """every series keeps a look of its own"""
    import geotecha.plotting.one_d as od
    x = np.linspace(0, 1, 5)
    for name in ("plot_vs_time", "plot_vs_depth"):
        for n in (1, 2, 7, 20, 32):
            Y = np.column_stack([x + i for i in range(n)])
            fig = call(lambda: od.plot_vs_time(x, Y) if name == "plot_vs_time" else od.plot_vs_depth(Y, x))
            ctx.step(); seen(ctx)
            if ctx.check(not isinstance(fig, Raised), "series not drawn", (name, n), repr(fig)):
                looks = [(str(l.get_marker()), l.get_fillstyle(), str(l.get_markerfacecolor()), l.get_linestyle()) for l in fig.gca().get_lines()]
                ctx.check(len(looks) == n and len(set(looks)) == n, "two series look the same", (name, n), lambda: repr([k for i, k in enumerate(looks) if k in looks[:i]]))
            close()


def styles(ctx):
    import geotecha.plotting.one_d as od
    distinct(ctx)
    opts = [None] + [list(p) for n in (1, 2, 3) for p in itertools.product((0, 2, 12), repeat=n) if n < 3 or p in ((0, 2, 12), (12, 0, 0))]
    dopts = [None, [0], [1, 3], [2, 0, 1]]
    copts = [None, [0], [1, 4], [3, 2, 0]]
    for kw in ({}, {'color': (1.0, 0, 0)}, {'markersize': 9, 'alpha': 0.5}):
        mcd = od.MarkersDashesColors(**kw)
        col = kw.get('color', '#262626')
        base = snap([mcd.markers, mcd.dashes, mcd.colors, mcd.default_marker])
        for ms, ds, mc, lc in itertools.product(opts, dopts, copts, copts):
            if ms is ds is mc is lc is None:
                continue
            given = snap([ms, ds, mc, lc])
            r = call(mcd, ms, ds, mc, lc)
            ctx.step(); seen(ctx)
            case = (kw, ms, ds, mc, lc)
            if isinstance(r, Raised):
                ctx.check(False, "styles not made", case, repr(r))
                continue
            n = max(len(v) for v in (ms, ds, mc, lc) if v is not None)
            ok = len(r) == n
            for i in range(n if ok else 0):
                cyc = lambda v: None if v is None else v[i % len(v)]
                m, d, k, l = cyc(ms), cyc(ds), cyc(mc), cyc(lc)
                want = {}
                if m is None:
                    want['marker'] = 'none'
                else:
                    want.update(mcd.markers[m])
                    for e in ('markeredgecolor', 'markerfacecolor'):
                        if mcd.markers[m][e] != 'none':
                            want[e] = col if k is None else mcd.colors[k]
                if d is None:
                    want['linestyle'] = 'None'
                else:
                    want['dashes'] = mcd.dashes[d]
                want['color'] = col if l is None else mcd.colors[l]
                ok = ok and r[i] == want
            ctx.check(ok, "style is not the one asked for", case, "got %r" % (r,))
            for s in r:
                s['marker'] = 'changed'
                s['color'] = 'changed'
            ctx.check(snap([mcd.markers, mcd.dashes, mcd.colors, mcd.default_marker]) == base and snap([ms, ds, mc, lc]) == given,
                      "styles share state with the palette", case, "changing a returned style changed the palette")
        r = call(mcd)
        ctx.step(); seen(ctx)
        if ctx.check(not isinstance(r, Raised), "styles not made", kw, repr(r)):
            ctx.check(all(any(s.get('marker') == m['marker'] and s.get('fillstyle') == m.get('fillstyle') for s in r) for m in mcd.markers)
                      and all(any(s.get('dashes') == d for s in r) for d in mcd.dashes)
                      and all(any(s['color'] == c for s in r) for c in mcd.colors), "a default marker, dash or colour is missing from the full cycle", kw, "missing")
        mcd.construct_styles([0, 1], [0], None, [2])
        ctx.check(mcd.styles == mcd([0, 1], [0], None, [2]), "construct_styles differs from the call", kw, "differs")
        for f in (0, 0.5, 1):
            for nm, fn in (('tint_colors', od.rgb_tint), ('shade_colors', od.rgb_shade)):
                m2 = od.MarkersDashesColors(**kw)
                before = [tuple(c) for c in m2.colors]
                r = call(getattr(m2, nm), f)
                ctx.step(); seen(ctx)
                ctx.check(not isinstance(r, Raised) and np.allclose(m2.colors, [fn(c, f) for c in before]), "palette %s wrong" % nm, (kw, f), "got %r" % (m2.colors,))


# ---------------------------------------------------------------- grids of subplots
def share_vectors(n):
    out = [None]
    out += [[0]]
    for v in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
        if n > 1 and any(x is not None for x in v):
            out.append(list(v))
    return out


def grid(ctx, item):
    n, first = item
    import matplotlib.pyplot as plt
    import matplotlib as mpl
    import geotecha.plotting.one_d as od
    x = np.array([1., 2.])
    sets = [[(x, x + 1)], [(x, x * 2, {'marker': 's'}), (x + 1, x)], [(x * 3, np.column_stack([x, x - 4])), (x, x, {'plot_type': 'scatter'}, {'label': 'q'})]]
    for pick in itertools.product(range(3), repeat=n):
        if pick[0] != first:
            continue
        for shx in share_vectors(n):
            for shy in (share_vectors(n) if n < 3 or ctx.thorough else [None, [0], [None] * (n - 1) + [0]]):
                for gi in (None, 'rev', 'slice'):
                    if gi and (shx or shy):
                        continue
                    data = [copy.deepcopy(sets[k]) for k in pick]
                    gs = mpl.gridspec.GridSpec(3, 3)
                    gs_index = None if gi is None else list(range(8, 8 - n, -1)) if gi == 'rev' else [slice(3 * i, 3 * i + 3) for i in range(n)]
                    before = snap([data, shx, shy])
                    fig = plt.figure()
                    case = (pick, shx, shy, gi)
                    r = call(od.plot_data_in_grid, fig, data, gs, gs_index, sharex=shx, sharey=shy)
                    ctx.step()
                    if isinstance(r, Raised):
                        ctx.check(False, "subplots not made", case, repr(r))
                        close()
                        continue
                    ctx.check(snap([data, shx, shy]) == before, "making subplots changed the data or the sharing lists", case, "changed")
                    axs = fig.axes
                    ok = len(axs) == n and list(r) == list(axs)
                    for i in range(n if ok else 0):
                        want = []
                        sc = 0
                        for item in data[i]:
                            kw = {}
                            for p in item[2:]:
                                kw.update(p)
                            if kw.get('plot_type') == 'scatter':
                                sc += 1
                                continue
                            y = np.asarray(item[1]).reshape(len(item[0]), -1)
                            for c in range(y.shape[1]):
                                want.append((np.asarray(item[0]), y[:, c], kw.get('marker')))
                        got = axs[i].get_lines()
                        ok = ok and len(got) == len(want) and len(axs[i].collections) == sc
                        for g, w in zip(got, want):
                            ok = ok and eq(g.get_xdata(), w[0]) and eq(g.get_ydata(), w[1]) and (w[2] is None or g.get_marker() == w[2])
                        ss = axs[i].get_subplotspec()
                        pos = (i, i) if gi is None else (8 - i, 8 - i) if gi == 'rev' else (3 * i, 3 * i + 2)
                        ok = ok and (ss.num1, ss.num2) == pos
                    ctx.check(ok, "subplots do not show the data in the places asked for", case, "wrong data or place")
                    for nm, sh in (('x', shx), ('y', shy)):
                        if len(axs) != n:
                            continue
                        vec = [None] * n if sh is None else [None if i == sh[0] else sh[0] for i in range(n)] if len(sh) == 1 else sh
                        grp = list(range(n))
                        for i in range(n):
                            if vec[i] is not None:
                                grp[i] = grp[vec[i]]
                        g = getattr(axs[0], 'get_shared_%s_axes' % nm)()
                        bad = [(i, j) for i in range(n) for j in range(i) if g.joined(axs[i], axs[j]) != (grp[i] == grp[j])]
                        ctx.check(not bad, "subplots do not share the axes asked for", case, "%s axes, wrong pairs %s" % (nm, bad))
                    ctx.state()
                    ctx.trace()
                    close()


# ---------------------------------------------------------------- time and depth plots
def lines_of(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines()]


LINE = [('marker', 'get_marker'), ('color', 'get_color'), ('linewidth', 'get_linewidth'), ('markersize', 'get_markersize')]
STYLES = [None, [{'marker': 's', 'color': 'red'}], [{'marker': 'o', 'linewidth': 3}, {'marker': '^', 'color': 'blue', 'markersize': 4}]]


def picture(fig):
    """what a figure shows"""
    out = []
    for ax in fig.axes:
        leg = ax.get_legend()
        out.append((ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.yaxis_inverted(), np.round(ax.get_xlim(), 9).tolist(), np.round(ax.get_ylim(), 9).tolist(),
                    [(l.get_xdata().tolist(), l.get_ydata().tolist(), l.get_marker(), str(l.get_color()), l.get_linewidth(), l.get_markersize(), str(l.get_label()),
                      l.get_linestyle(), repr(l.get_markevery())) for l in ax.get_lines()],
                    None if leg is None else (leg.get_title().get_text(), [t.get_text() for t in leg.get_texts()])))
    return pickle.dumps((fig.get_size_inches().tolist(), out))


def series(ctx, item):
    import geotecha.plotting.one_d as od
    rs = random.getstate()
    base = np.array([0., 0.5, 1., 3.])
    kind, npt, nser = item
    if True:
        u = base[:npt].copy() if npt <= 4 else np.arange(npt) ** 1.25 / 8
        v = np.column_stack([(j + 1.5) * u ** 2 - j for j in range(nser)])
        for labels in (None, ['s%d' % j for j in range(nser)]):
            for styl in STYLES:
                for leg in (None, False, True):
                    for extra in ({}, {'xlabel': 'X', 'ylabel': 'Y'}, {'fig_prop': {'figsize': (3, 2)}, 'legend_prop': {'title': 'T', 'fontsize': 6}}):
                        for H, RL in (((1.0, None), (4.0, None), (4.0, 10.0)) if kind == 'depth' else ((1.0, None),)):
                            prop = copy.deepcopy(extra)
                            if styl is not None:
                                prop['styles'] = copy.deepcopy(styl)
                            if leg is not None:
                                prop['has_legend'] = leg
                            case = (kind, npt, nser, labels, prop, H, RL)
                            before = snap([u, v, labels, prop])
                            go = (lambda: od.plot_vs_time(u, v, labels, prop)) if kind == 'time' else (lambda: od.plot_vs_depth(v, u, labels, H=H, RLzero=RL, prop_dict=prop))
                            fig = call(go)
                            ctx.step()
                            if isinstance(fig, Raised):
                                ctx.check(False, "plot not made", case, repr(fig))
                                continue
                            ax = fig.axes[0]
                            z = u * H if RL is None else RL - u * H
                            want = [(u, v[:, j]) if kind == 'time' else (v[:, j], z) for j in range(nser)]
                            got = lines_of(ax)
                            ctx.check(len(got) == nser and all(eq(a, c) and eq(b, d) for (a, b), (c, d) in zip(got, want)), "plotted values differ from the data", case,
                                      "want %s got %s" % (want, got))
                            if styl is not None and len(got) == nser:
                                bad = [(j, k) for j, l in enumerate(ax.get_lines()) for k, g in LINE if k in styl[j % len(styl)] and getattr(l, g)() != styl[j % len(styl)][k]]
                                ctx.check(not bad, "lines do not have the styles asked for", case, "line, option %s" % (bad,))
                            if labels is not None:
                                ctx.check([l.get_label() for l in ax.get_lines()] == labels, "lines do not have the labels asked for", case, "got %s" % [l.get_label() for l in ax.get_lines()])
                            lg = ax.get_legend()
                            ctx.check((lg is not None) == (labels is not None and leg is not False), "legend shown or missing against the request", case, "legend %r" % lg)
                            if lg is not None and labels is not None:
                                ctx.check([t.get_text() for t in lg.get_texts()] == labels, "legend names differ from the labels", case, "got %s" % [t.get_text() for t in lg.get_texts()])
                                if 'legend_prop' in prop:
                                    ctx.check(lg.get_title().get_text() == 'T', "legend title ignored", case, lg.get_title().get_text())
                            dx, dy = ('Time, t', 'y') if kind == 'time' else ('x', 'Depth, z' if RL is None else 'RL')
                            ctx.check((ax.get_xlabel(), ax.get_ylabel()) == (prop.get('xlabel', dx), prop.get('ylabel', dy)), "axis names wrong", case, "got %s" % ((ax.get_xlabel(), ax.get_ylabel()),))
                            ctx.check(ax.yaxis_inverted() == (kind == 'depth' and RL is None), "depth axis points the wrong way", case, "inverted %s" % ax.yaxis_inverted())
                            if 'fig_prop' in prop:
                                ctx.check(eq(fig.get_size_inches(), (3, 2)), "figure size ignored", case, "got %s" % fig.get_size_inches())
                            p1 = picture(fig)
                            fig2 = call(go)
                            ctx.step()
                            ctx.check(not isinstance(fig2, Raised) and fig2 is not fig and picture(fig2) == p1 and picture(fig) == p1, "the same request again gives another picture", case,
                                      repr(fig2))
                            ctx.check(snap([u, v, labels, prop]) == before, "plotting changed its data or options", case, "changed")
                            ctx.check(random.getstate() == rs, "plotting disturbed the random number generator", case, "changed")
                            ctx.state()
                            ctx.trace()
                            close()


# ---------------------------------------------------------------- loads
def span(t, xs, ys, scale):
    """range of the piecewise linear function at t (more than one value only on a step)"""
    q = [b * scale for a, b in zip(xs, ys) if abs(a - t) < 1e-9] or [float(np.interp(t, xs, ys)) * scale]
    return min(q), max(q)


def loads(ctx, item):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    import geotecha.plotting.one_d as od
    counts, part, thorough = item
    tkinds = [('poly', [0., 1., 3.], [0., 2., 2.]), ('tuple', [0.5, 4.], [1., 3.]), ('none', None, None), ('poly', [0., 0., 2.], [0., 1., -1.])]
    dkinds = [('poly', [0., 1.], [1., 0.5]), ('point', [0.4], [1.]), ('tuple', [0., 0.3, 1.], [1., 1., 0.2])]
    ophs = [None, (2., 0.3), (-2., -1.3), (0, 0.5)]
    every = list(itertools.product(tkinds, dkinds, ophs))
    tot = sum(counts)
    if tot == 1:
        combos = [(c,) for c in every]
    elif tot == 2:
        combos = [(a, b) for i, a in enumerate(every) for j, b in enumerate(every) if thorough or (i + j) % 7 == 0]
    else:
        n = len(every)
        combos = [tuple(every[(s + k * (7 + s)) % n] for k in range(tot)) for s in range(n)]
    rs = random.getstate()
    for ci, combo in enumerate(combos):
        if ci % 8 != part:
            continue
        for trange, H, RL in (((None, 1.0, None), ((0., 5.), 4.0, None), (None, 4.0, 10.0), ((-1., 2.), 1.0, 0.)) if tot < 2 else
                              (((None, 4.0, None), ((0., 5.), 4.0, 10.0), (None, 1.0, 3.))[ci % 3],)):
            it = iter(combo)
            triples, flat = [], []
            for c in counts:
                row = []
                for k in range(c):
                    (tk, tx, ty), (dk, zx, zy), op = next(it)
                    vt = None if tk == 'none' else PolyLine(list(tx), list(ty)) if tk == 'poly' else (list(tx), list(ty))
                    vd = PolyLine(list(zx), list(zy)) if dk == 'poly' else (list(zx), list(zy))
                    row.append((vt, vd, op))
                    flat.append((tx, ty, zx, zy, op, dk))
                triples.append(row)
            n = len(counts)
            names = ['N%d' % i for i in range(n)]
            yl = None if ci % 2 else ['Y%d' % i for i in range(n)]
            prop = {} if ci % 3 else {'styles': [{'marker': 's', 'color': 'red'}, {'marker': 'o', 'color': 'blue'}], 'has_legend': bool(ci % 2)}
            before = snap([triples, names, yl, prop])
            case = (counts, combo, trange, H, RL, sorted(prop), yl)
            go = lambda: od.plot_generic_loads(triples, names, ylabels=yl, trange=trange, H=H, RLzero=RL, prop_dict=prop)
            fig = call(go)
            ctx.step()
            if isinstance(fig, Raised):
                ctx.check(False, "loads not plotted", case, repr(fig))
                close()
                continue
            axs = fig.axes
            ctx.check(len(axs) == 2 * n, "loads not plotted in pairs of axes", case, "%d axes" % len(axs))
            if len(axs) != 2 * n:
                close()
                continue
            known = [t for f in flat if f[0] is not None for t in f[0]]
            tmin, tmax = trange or ((min(known), max(known)) if known else (0., 1.))
            k = 0
            for i, c in enumerate(counts):
                a1, a2 = axs[2 * i], axs[2 * i + 1]
                g1, g2 = lines_of(a1), lines_of(a2)
                ok = len(g1) == c and len(g2) == c
                why = "%d and %d lines" % (len(g1), len(g2))
                for j in range(c if ok else 0):
                    tx, ty, zx, zy, op, dk = flat[k + j]
                    xs, ys = g1[j]
                    free = tx is None
                    if free:
                        tx, ty = [tmin, tmax], [0., 0.]
                    mod = lambda t: 1.0 if op is None else math.cos(op[0] * t + op[1])
                    miss = [t for t in tx if not np.any(np.abs(xs - t) < 1e-9)] if not (free and not known and trange is None) else []
                    if miss:
                        ok, why = False, "load %d: times %s not drawn" % (j, miss)
                    for t, v in zip(xs, ys):
                        lo, hi = span(t, tx, ty, mod(t))
                        if not lo - 1e-6 <= v <= hi + 1e-6:
                            ok, why = False, "load %d at time %g drawn as %g not %g to %g" % (j, t, v, lo, hi)
                    for a, b in zip(tx, ty):
                        if not free and not any(abs(t - a) < 1e-9 and abs(v - b * mod(a)) < 1e-6 for t, v in zip(xs, ys)):
                            ok, why = False, "load %d: value %g at time %g not drawn" % (j, b * mod(a), a)
                    if op is not None and op[0] and not free:
                        gap = np.max(np.diff(xs))
                        if gap > 2 * math.pi / abs(op[0]) / 20:
                            ok, why = False, "load %d: cycles drawn with a time step of %g" % (j, gap)
                    fx, fz = g2[j]
                    dep = (fz / H) if RL is None else (RL - fz) / H
                    if abs(min(dep) - min(zx)) > 1e-9 or abs(max(dep) - max(zx)) > 1e-9 or not np.allclose(fx, np.interp(dep, zx, zy), atol=1e-6):
                        ok, why = False, "load %d: depth factors drawn as %s at %s" % (j, fx, dep)
                    lab = a1.get_lines()[j].get_label()
                    if lab != names[i] + str(j):
                        ok, why = False, "load %d named %r" % (j, lab)
                    if 'styles' in prop:
                        w = prop['styles'][(k + j) % 2]
                        for l in (a1.get_lines()[j], a2.get_lines()[j]):
                            if (l.get_marker(), l.get_color()) != (w['marker'], w['color']):
                                ok, why = False, "load %d drawn with another style" % j
                ctx.check(ok, "plotted loads differ from the data", case, "type %d: %s" % (i, why))
                ctx.check(a1.get_ylabel() == (yl[i] if yl else 'y%d' % i), "load axis name wrong", case, a1.get_ylabel())
                ctx.check(a2.get_ylabel() == ('Depth, z' if RL is None else 'RL'), "depth axis name wrong", case, a2.get_ylabel())
                ctx.check(a2.yaxis_inverted() == (RL is None), "depth axis points the wrong way", case, "type %d of %d: inverted %s" % (i, n, a2.yaxis_inverted()))
                ctx.check((a1.get_legend() is not None) == prop.get('has_legend', True), "legend shown or missing against the request", case, "type %d" % i)
                if trange is not None:
                    ctx.check(eq(a1.get_xlim(), trange), "time range ignored", case, "got %s" % (a1.get_xlim(),))
                k += c
            p1 = picture(fig)
            fig2 = call(go)
            ctx.step()
            ctx.check(not isinstance(fig2, Raised) and picture(fig2) == p1, "the same request again gives another picture", case, repr(fig2))
            ctx.check(snap([triples, names, yl, prop]) == before, "plotting changed its data or options", case, "changed")
            ctx.check(random.getstate() == rs, "plotting disturbed the random number generator", case, "changed")
            ctx.state()
            ctx.trace()
            close()


def materials(ctx, item):
    n, part = item
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    import geotecha.plotting.one_d as od
    props = [([0., 1.], [1., 2.]), ([0., 0.4, 0.4, 1.], [1., 1., 3., 2.]), ([0., 1.], [2., 2.])]
    for pick in itertools.product(range(3), (0, 1), repeat=n):
        pk = list(zip(pick[::2], pick[1::2]))
        if n > 1 and pick[0] * 2 + pick[1] != part:
            continue
        for H, RL in ((1., None), (4., None), (4., 10.)):
            for styl in STYLES[:2]:
                zx = [(PolyLine(list(props[a][0]), list(props[a][1])) if f == 0 else (list(props[a][0]), list(props[a][1]))) for a, f in pk]
                labs = ['L%d' % i for i in range(n)]
                prop = {} if styl is None else {'styles': copy.deepcopy(styl)}
                before = snap([zx, labs, prop])
                case = (pk, H, RL, sorted(prop))
                go = lambda: od.plot_single_material_vs_depth(zx, labs, H=H, RLzero=RL, prop_dict=prop)
                fig = call(go)
                ctx.step()
                if isinstance(fig, Raised):
                    ctx.check(False, "properties not plotted", case, repr(fig))
                    continue
                ok = len(fig.axes) == n
                why = "axes"
                for i in range(n if ok else 0):
                    ax = fig.axes[i]
                    x, z = lines_of(ax)[0]
                    d = z / H if RL is None else (RL - z) / H
                    zz, vv = props[pk[i][0]]
                    for a, b in zip(d, x):
                        lo, hi = span(a, zz, vv, 1.0)
                        if not lo - 1e-9 <= b <= hi + 1e-9:
                            ok, why = False, "property %d at depth %g drawn as %g" % (i, a, b)
                    for p, q in zip(zz, vv):
                        if not np.any((np.abs(d - p) < 1e-9) & (np.abs(x - q) < 1e-9)):
                            ok, why = False, "property %d: value %g at depth %g not drawn" % (i, q, p)
                    if ax.get_xlabel() != labs[i] or ax.yaxis_inverted() != (RL is None):
                        ok, why = False, "axis %d name or direction" % i
                    if styl and ax.get_lines()[0].get_color() != 'red':
                        ok, why = False, "style"
                    lo, hi = sorted(ax.get_xlim())
                    if lo > 0 or hi < max(vv):
                        ok, why = False, "property %d cut off by its axis %s" % (i, (lo, hi))
                ctx.check(ok, "plotted properties differ from the data", case, why)
                if len(fig.axes):
                    ctx.check(fig.axes[0].get_ylabel() == ('Depth, z' if RL is None else 'RL'), "depth axis name wrong", case, fig.axes[0].get_ylabel())
                p1 = picture(fig)
                fig2 = call(go)
                ctx.step()
                ctx.check(not isinstance(fig2, Raised) and picture(fig2) == p1, "the same request again gives another picture", case, repr(fig2))
                ctx.check(snap([zx, labs, prop]) == before, "plotting changed its data or options", case, "changed")
                ctx.state()
                ctx.trace()
                close()


def markers(ctx):
    import matplotlib.pyplot as plt
    import geotecha.plotting.one_d as od
    for n in (0, 1, 3):
        for me in (None, 1, 2, 5, 0.1, 0.5, (1, 3), [0, 2]):
            for rnd in (True, False):
                for seed in (None, 0, 1, 7):
                    got = []
                    for rep in (0, 1):
                        fig = plt.figure()
                        ax = fig.add_subplot(111)
                        for i in range(n):
                            ax.plot([0, 1, 2], [i, 2, 3])
                        rs = random.getstate()
                        r = call(od.apply_markevery_to_sequence_of_lines, ax.get_lines(), me, rnd, seed)
                        ctx.step()
                        case = (n, me, rnd, seed)
                        if isinstance(r, Raised):
                            ctx.check(False, "marker spacing not applied", case, repr(r))
                            close()
                            break
                        g = [l.get_markevery() for l in ax.get_lines()]
                        got.append(g)
                        if rnd and isinstance(me, (int, float)):
                            ok = all(isinstance(v, tuple) and v[1] == me and 0 <= v[0] <= me and type(v[0]) is type(me) for v in g)
                        else:
                            ok = all(v == me for v in g)
                        ctx.check(ok, "marker spacing wrong", case, "got %s" % (g,))
                        if seed is not None or not rnd:
                            ctx.check(random.getstate() == rs, "plotting disturbed the random number generator", case, "changed")
                        close()
                    if seed is not None and len(got) == 2:
                        ctx.check(got[0] == got[1], "the same seed gives other marker positions", case, "%s %s" % tuple(got))
                    ctx.state()
                    ctx.trace()

    class O(object):
        def __init__(self):
            self.log = []

        def set_a(self, v):
            self.log.append(('a', v))

        def set_b(self, v):
            self.log.append(('b', v))
    ds = [None, {}, {'a': 1}, {'b': 2, 'a': 3}, {'zzz': 1, 'a': 4}]
    for n in (1, 2, 3):
        for dic in itertools.product(ds, repeat=n):
            objs = [O() for i in range(n)]
            one = n == 1 and True
            r = call(od.apply_dict_to_object, objs[0] if one else objs, dic[0] if one else list(dic))
            ctx.step()
            want = [[(k, v) for k, v in (d or {}).items() if k in 'ab'] for d in dic]
            ctx.check(not isinstance(r, Raised) and [o.log for o in objs] == want, "options applied to the wrong objects", dic, "got %s" % [o.log for o in objs])
        r = call(od.apply_dict_to_object, [O() for i in range(n)], [{}] * (n + 1))
        ctx.check(isinstance(r, Raised) and r.type == 'ValueError', "objects and options of different number accepted", n, repr(r))
        ctx.step()


def saving(ctx):
    import matplotlib.pyplot as plt
    import geotecha.plotting.one_d as od
    d = tempfile.mkdtemp()
    try:
        fig = plt.figure(figsize=(2, 1))
        fig.add_subplot(111).plot([0, 1], [0, 1])
        for k in range(1, 4):
            for ext in itertools.permutations(['pdf', 'eps', 'png'], k):
                for dpi in (50, 100):
                    sub = os.path.join(d, 'x')
                    os.mkdir(sub)
                    e = list(ext)
                    r = call(od.save_figure, fig, os.path.join(sub, 'f.1'), e, dpi)
                    ctx.step()
                    ctx.check(not isinstance(r, Raised) and sorted(os.listdir(sub)) == sorted('f.1.' + v for v in ext) and e == list(ext), "saved files wrong", (ext, dpi),
                              "%r %s" % (r, os.listdir(sub)))
                    if 'png' in ext and os.path.exists(os.path.join(sub, 'f.1.png')):
                        im = plt.imread(os.path.join(sub, 'f.1.png'))
                        ctx.check(im.shape[:2] == (dpi, 2 * dpi), "saved picture has another resolution", (ext, dpi), "%s" % (im.shape,))
                    for v, magic in (('pdf', b'%PDF'), ('eps', b'%!PS'), ('png', b'\x89PNG')):
                        if v in ext and os.path.exists(os.path.join(sub, 'f.1.' + v)):
                            with open(os.path.join(sub, 'f.1.' + v), 'rb') as f:
                                ctx.check(f.read(4) == magic, "saved file has another format", (ext, v), "wrong first bytes")
                    shutil.rmtree(sub)
                    ctx.state()
                    ctx.trace()
    finally:
        shutil.rmtree(d)
        close()


# ---------------------------------------------------------------- programs
VR = """
H=4
drn=0
dT=1
dTh=5
dTv=0.1
neig=5
mvref=2.0
mv=PolyLine([0,1],[0.5,0.7])
kh=PolyLine([0,1],[1,1])
kv=PolyLine([0,1],[1,2])
et=PolyLine([0,1],[1,1])
surcharge_vs_depth=[PolyLine([0,1],[1,1]),PolyLine([0,1],[1,0.5])]
surcharge_vs_time=[PolyLine([0,0,10],[0,10,10]),PolyLine([0,1,5],[0,2,2])]
surcharge_omega_phase=[(1,0.2),None]
top_vs_time=PolyLine([0,1,6],[0,-3,-3])
bot_vs_time=PolyLine([0,2],[0,1])
pumping=(0.3,PolyLine([0,1],[0,1]))
ppress_z=[0.1,0.5,1]
avg_ppress_z_pairs=[[0,1],[0.2,0.5]]
settlement_z_pairs=[[0,1],[0.3,1]]
tvals=[0.01,0.1,0.5,2]
"""


def programs():
    import matplotlib
    vac = "vacuum_vs_depth=PolyLine([0,1],[1,0.2])\nvacuum_vs_time=PolyLine([0,1,5],[0,-20,-20])\n"
    fix = "fixed_ppress=[(0.2,1000,None),(0.6,500,PolyLine([0,1],[0,3]))]\n"
    tail = "ppress_z_tval_indexes=[0,2]\navg_ppress_z_pairs_tval_indexes=slice(1,None)\nsettlement_z_pairs_tval_indexes=[1,2,3]\n"
    P = {}

    def add(key, mod, cls, text, plots, opts):
        P[key] = (mod, cls, textwrap.dedent(text), plots, opts)
    depth = lambda *a: [(k, 'depth') for k in a]
    time = lambda *a: [(k, 'time') for k in a]
    add('vr', 'geotecha.speccon.speccon1d_vr', 'Speccon1dVR', VR + vac + fix, depth('por') + time('avp', 'set'), ['por', 'avp', 'set'])
    add('vr RL', 'geotecha.speccon.speccon1d_vr', 'Speccon1dVR', VR + "RLzero=10\n" + tail, depth('por') + time('avp', 'set'), ['por', 'avp', 'set'])
    add('vrw', 'geotecha.speccon.speccon1d_vrw', 'Speccon1dVRW', VR + fix + "kw=PolyLine([0,1],[1,1])\ndTw=100\n", depth('por', 'porwell') + time('avp', 'set'), ['por', 'porwell', 'avp', 'set'])
    vrc = '\n'.join(l for l in VR.splitlines() if not l.startswith(('pumping',)))
    add('vrc', 'geotecha.speccon.speccon1d_vrc', 'Speccon1dVRC', vrc + "\nn=3\ndThc=20\ndTvc=0.5\nkhc=PolyLine([0,1],[1,1])\nkvc=PolyLine([0,1],[1,1])\n" + tail,
        depth('por', 'pors', 'porc') + time('avp', 'avps', 'avpc', 'set'), ['por', 'pors', 'porc', 'avp', 'avps', 'avpc', 'set'])
    un = """
    H=2.0
    drn=0
    neig=5
    mvref=1e-4
    kwref=1e-10
    Daref=1e-8
    wa=29e-3
    R=8.31432
    ua_=101
    T=293.16
    dTw=1
    dTa=10
    m1kw=PolyLine([0,1],[-0.5,-0.5])
    m2w=PolyLine([0,1],[-2,-2])
    m1ka=PolyLine([0,1],[-2,-2])
    m2a=PolyLine([0,1],[1,1])
    n=PolyLine([0,1],[0.5,0.5])
    S=PolyLine([0,1],[0.8,0.8])
    kw=PolyLine([0,1],[1,1])
    Da=PolyLine([0,1],[1,1])
    surcharge_vs_depth=PolyLine([0,1],[1,1])
    surcharge_vs_time=PolyLine([0,0,1000],[0,100,100])
    wtop_vs_time=PolyLine([0,1,6],[0,-3,-3])
    atop_vs_time=PolyLine([0,1,6],[0,2,2])
    ppress_z=[0.2,0.5]
    avg_ppress_z_pairs=[[0,1],[0.1,0.4]]
    settlement_z_pairs=[[0,1],[0.1,0.4]]
    tvals=[1.,10,100]
    """
    add('unsat', 'geotecha.speccon.speccon1d_unsat', 'Speccon1dUnsat', un, depth('porw', 'pora') + time('avpw', 'avpa', 'set', 'setw', 'seta'),
        ['porw', 'pora', 'avpw', 'avpa', 'set', 'setw', 'seta'])
    ss = """
    z = np.linspace(0, 4.0, 5)
    t = np.array([0.1, 0.5, 1.0, 3.0])
    tpor = np.array([0.1, 1.0])
    h = np.array([1.0, 3.0])
    n = 4
    kv = np.array([1.0, 2.0])
    mv = np.array([1.0, 0.5])
    bctop = 0
    bcbot = 0
    surcharge_vs_time = PolyLine([0, 0, 4], [0, 10, 10])
    """
    add('schiffman', 'geotecha.consolidation.schiffmanandstein1970', 'SchiffmanAndStein1970', ss, [('por', 'por'), ('avp', 't'), ('set', 't')], ['por', 'avp', 'set'])
    nl = """
    z = np.linspace(0, 1.0, 4)
    t = np.array([0.01, 0.05, 0.1, 0.4])
    tpor = np.array([0.01, 0.1])
    h = np.array([1.0])
    kv = np.array([1.0])
    kh = np.array([1.0])
    mv = np.array([1.0])
    r0 = 0.05
    r1 = 0.6
    bctop = 0
    bcbot = 1
    nv = 4
    nh = 3
    max_iter_v = 2000
    max_iter_h = 2000
    surcharge_vs_time = PolyLine([0, 0, 4], [0, 10, 10])
    """
    add('nogami', 'geotecha.consolidation.nogamiandli2003', 'NogamiAndLi2003', nl, [('por', 'por'), ('avp', 't'), ('set', 't')], ['por', 'avp', 'set'])
    return P


def program(ctx, item):
    import importlib
    import geotecha.plotting.one_d as od
    key, part, thorough = item
    mod, cls, text, plots, optk = programs()[key]
    K = getattr(importlib.import_module(mod), cls)
    props = {k: {('xlabel' if m in ('depth', 'por') else 'ylabel'): 'my ' + k, 'styles': [{'marker': 's', 'color': 'red'}, {'marker': 'o', 'color': 'blue'}]} for k, m in plots}
    spec = cls.startswith('Speccon')
    if spec:
        props['load'] = {'has_legend': False}
        props['material'] = {'ylabel': 'my depth'}
    for with_opts in (part,):
        obj = call(lambda: K(text))
        if not ctx.check(not isinstance(obj, Raised), "program not built", key, repr(obj)):
            return
        obj.plot_properties = copy.deepcopy(props) if with_opts else {}
        r = call(obj.make_all)
        ctx.step()
        if not ctx.check(not isinstance(r, Raised), "program does not run", key, repr(r)):
            return
        popts = snap(obj.plot_properties)
        names = [k for k, m in plots] + (['loads', 'materials'] if spec else [])
        vals = {k: np.array(getattr(obj, k)) for k, m in plots}
        rs = random.getstate()
        first = {}

        def draw(k, case):
            fig = call(getattr(obj, '_plot_' + k))
            ctx.step()
            if isinstance(fig, Raised):
                ctx.check(False, "a program's plot is not made", (key, k), repr(fig))
                return
            ctx.check(snap(obj.plot_properties) == popts, "plotting used up or changed the plot options", case, "left: %s" % (snap(obj.plot_properties),))
            ctx.check(all(np.array_equal(vals[q], getattr(obj, q)) for q in vals), "plotting changed the results", case, "changed")
            ctx.check(random.getstate() == rs, "plotting disturbed the random number generator", case, "changed")
            p = picture(fig)
            if k not in first:
                first[k] = p
            ctx.check(p == first[k], "the same plot again gives another picture", case, "plot %s" % k)
            return fig

        for k, m in plots:
            close()
            fig = draw(k, (key, with_opts, k))
            if fig is None:
                return
            ax = fig.axes[0]
            got = lines_of(ax)
            v = vals[k]
            if m in ('depth', 'por'):
                z = np.asarray(obj.ppress_z if m == 'depth' else obj.z, float)
                if m == 'depth':
                    z = z * obj.H if obj.RLzero is None else obj.RLzero - z * obj.H
                want = [(v[:, j], z) for j in range(v.shape[1])]
            else:
                if spec:
                    idx = obj.settlement_z_pairs_tval_indexes if k.startswith('set') else obj.avg_ppress_z_pairs_tval_indexes
                    t = np.asarray(obj.tvals)[idx]
                else:
                    t = np.asarray(obj.t)
                v2 = np.atleast_2d(v)
                want = [(t, v2[j]) for j in range(v2.shape[0])]
            ctx.check(len(got) == len(want) and all(eq(a, c) and eq(b, d) for (a, b), (c, d) in zip(got, want)), "a program plots other values than its results", (key, k),
                      "want %s got %s" % (want, got))
            if spec:
                if m == 'depth':
                    lab = ['{:.3g}'.format(q) for q in np.asarray(obj.tvals)[obj.ppress_z_tval_indexes]]
                else:
                    zp = obj.settlement_z_pairs if k.startswith('set') else obj.avg_ppress_z_pairs
                    f = lambda z: z * obj.H if obj.RLzero is None else obj.RLzero - z * obj.H
                    lab = ['{:.3g} to {:.3g}'.format(f(a), f(b)) for a, b in np.asarray(zp, float)]
                ctx.check([l.get_label() for l in ax.get_lines()] == lab, "lines of a program's plot are misnamed", (key, k), "want %s got %s" % (lab, [l.get_label() for l in ax.get_lines()]))
            if with_opts:
                nm = ax.get_xlabel() if m in ('depth', 'por') else ax.get_ylabel()
                ctx.check(nm == 'my ' + k, "a plot option of the program is ignored", (key, k), nm)
            ctx.state()
            ctx.trace()
        if spec:
            close()
            fig = draw('loads', (key, with_opts, 'loads'))
            if fig is not None:
                want = sum(len(getattr(obj, n) or []) for n in ('surcharge_vs_time vacuum_vs_time top_vs_time bot_vs_time wtop_vs_time wbot_vs_time atop_vs_time abot_vs_time fixed_ppress '
                                                                 'pumping').split() if hasattr(obj, n))
                got = sum(len(a.get_lines()) for a in fig.axes[::2])
                ctx.check(got == want, "a program does not plot each of its loads once", key, "want %d got %d" % (want, got))
                dirs = [a.yaxis_inverted() for a in fig.axes[1::2]]
                ctx.check(all(d == (obj.RLzero is None) for d in dirs), "depth axis points the wrong way", (key, 'loads'), "inverted %s" % dirs)
                if with_opts:
                    ctx.check(all(a.get_legend() is None for a in fig.axes), "a plot option of the program is ignored", (key, 'load'), "legend drawn")
            fig = draw('materials', (key, with_opts, 'materials'))
        # orders of plots
        L = 4 if thorough else 3 if len(names) <= 5 else 2
        seqs = [s for s in itertools.product(names, repeat=2)]
        if L > 2 and len(names) <= 5:
            seqs += list(itertools.product(names, repeat=3)) if thorough else [s for s in itertools.permutations(names, 3)]
        for s in seqs:
            for k in s:
                draw(k, (key, with_opts, s))
            ctx.trace()
            close()
        # whole set, twice
        figs = []
        for rep in (0, 1):
            r = call(obj.produce_plots)
            ctx.step()
            if not ctx.check(not isinstance(r, Raised), "a program's plots are not made", key, repr(r)):
                return
            figs.append([(f.get_label(), picture(f)) for f in obj._figures])
            ctx.check(snap(obj.plot_properties) == popts, "plotting used up or changed the plot options", (key, 'produce_plots'), "left: %s" % (snap(obj.plot_properties),))
            close()
        ctx.check(sorted(f[0] for f in figs[0]) == sorted('fig_' + n for n in names), "figures missing", key,
                  "got %s" % [f[0] for f in figs[0]])
        ctx.check(figs[0] == figs[1], "producing the plots again gives other pictures", (key, with_opts), "differ")


def run(ctx):
    import matplotlib
    matplotlib.use('agg')
    import geotecha.plotting.one_d
    for m in ('vr', 'vrw', 'vrc', 'unsat'):
        __import__('geotecha.speccon.speccon1d_' + m)
    import geotecha.consolidation.schiffmanandstein1970
    import geotecha.consolidation.nogamiandli2003
    on = lambda g: not ctx.only or ctx.only in g
    one = lambda f: (lambda c, i: f(c))
    if on("helpers"):
        with ctx.group("helpers"):
            ctx.parallel(one(helpers), [0])
    if on("styles"):
        with ctx.group("styles"):
            ctx.parallel(one(styles), [0])
    if on("markers"):
        with ctx.group("markers"):
            ctx.parallel(one(markers), [0])
    if on("saving"):
        with ctx.group("saving"):
            ctx.parallel(one(saving), [0])
    if on("grid"):
        with ctx.group("grid"):
            ctx.parallel(grid, [(n, f) for n in (3, 2, 1) for f in range(3)])
    if on("series"):
        with ctx.group("series"):
            ctx.parallel(series, list(itertools.product(('time', 'depth'), (2, 4), (1, 2, 3))) + [(k, n, m) for k in ('time', 'depth') for n, m in ((60, 3), (7, 12), (150, 1), (3, 40))])
    if on("loads"):
        with ctx.group("loads"):
            ctx.parallel(loads, [(c, q, ctx.thorough) for c in ((1,), (2,), (1, 1), (1, 2), (2, 1), (1, 1, 1), (2, 1, 2), (1, 1, 1, 1), (1, 2, 1, 2)) for q in range(8)])
    if on("materials"):
        with ctx.group("materials"):
            ctx.parallel(materials, [(1, 0)] + [(n, q) for n in ([2, 3] if ctx.thorough else [2]) for q in range(6)])
    if on("programs"):
        with ctx.group("programs"):
            ctx.parallel(program, [(k, w, ctx.thorough) for k in ('vrc', 'unsat', 'vr', 'vrw', 'vr RL', 'schiffman', 'nogami') for w in (False, True)])
