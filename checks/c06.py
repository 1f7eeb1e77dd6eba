"""C06: saved input reproduces the object it was saved from."""
import copy
import itertools

import numpy as np

from mc.core import Raised, call

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive enumeration of attribute values (nestings of every atom to depth 3) x print "
             "settings x failure positions, plus all operation sequences on objects sharing a class; each "
             "trace replayed on the real writer and restricted reader and compared with the value model")
BOUNDS = "60 atoms, containers to depth 3, 7 print settings, failures at each attribute position, sequences to length 5"
NOTE = "object arrays and objects without a literal form are outside the property"


def api():
    from geotecha.inputoutput import inputoutput as io
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    return io, PolyLine


class Obj(object):
    pass


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(
            np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if type(a).__name__ == "PolyLine":
        return same(np.asarray(a.xy), np.asarray(b.xy))
    return a == b and repr(a) == repr(b)


def atoms(PolyLine):
    third = 1.0 / 3
    yield from (0, 1, -7, 10 ** 20, 0.0, -0.0, 1.5, third, -2 * third, 1e-300, 1.7976931348623157e308, 1e22,
                123456789.123456789, 5e-324, True, False, None, 1 + 2j, third * 1j)
    yield from ("", "happy", "it's", 'say "hi"', "both ' and \"", "a\nb", "\\", "C:\\Users\\new", "tab\t", "caf\u00e9",
                "'''", "\"\"\"", "a\r\nb", "{0} %s {}", "None", "np.array([1])", "# no comment", "\x00", "\u2028",
                b"bytes'\n", "end\\")
    yield from (np.array([1, 2, 3]), np.array([third, 2 * third]), np.array([]), np.array(5.5), np.array(3),
                np.zeros((0, 3)), np.zeros((3, 0)), np.arange(1200), np.linspace(0, 1, 1500),
                np.arange(12.).reshape(3, 4) / 7, np.arange(24).reshape(2, 3, 4), np.array([True, False]),
                np.array([1 + third * 1j]), np.array([1e-12, 1.0, 1e12]), np.array([[third]]),
                np.array(["a", "it's"]), np.arange(3, dtype="float32") / 3, np.arange(3, dtype="int16"),
                np.arange(2400.).reshape(1200, 2) / 3, np.array([1e22, -0.0]), np.array([np.nan, np.inf, -np.inf]))
    yield from (PolyLine([0, 1, 1, 3], [2, third, 5, 5]), PolyLine([0, third], [third, 2 * third], [3, 4], [5, 6e-13]),
                PolyLine([(0, 1), (2.5, 3)]), PolyLine(np.linspace(0, 1, 700), np.linspace(0, 1, 700) ** 2))


def containers(PolyLine, values, second):
    for v in values:
        yield [v]
        yield (v,)
        yield {"k": v}
        yield [1, v, "x"]
        yield (v, [v, None])
        yield {3: [v], "it's": (v,)}
        yield {"a": {"b": v}}
    for v, w in itertools.product(values[::second], repeat=2):
        yield [v, w]
        yield {"a": v, (1, "b"): [w, (v,)]}


def snapshot(o):
    return {k: copy.deepcopy(v) for k, v in vars(o).items()}


PROBES = None


def print_state():
    return (str(np.get_printoptions()), [str(p) for p in PROBES], [repr(p) for p in PROBES])


def settings(io):
    yield "default", lambda: None
    yield "precision", lambda: np.set_printoptions(precision=2)
    yield "threshold", lambda: np.set_printoptions(threshold=3, edgeitems=1)
    yield "suppress", lambda: np.set_printoptions(suppress=True, floatmode="fixed", precision=3)
    yield "formatter", lambda: np.set_printoptions(formatter={"float": lambda x: "F"}, linewidth=20)
    yield "signs", lambda: np.set_printoptions(sign="+", nanstr="NAN", infstr="INF")
    yield "prefixed", lambda: io.PrefixNumpyArrayString("zz.").turn_on()
    yield "repr function", lambda: np.set_string_function(lambda a: "ZZ", True)


DEFAULTS = None


def reset():
    np.set_string_function(None, True)
    np.set_string_function(None, False)
    np.set_printoptions(**DEFAULTS)


def roundtrip(ctx, io, o, names, where, none_at_bottom=True, prefix="np."):
    before = snapshot(o)
    ps = print_state()
    ctx.step(2)
    text = call(io.string_of_object_attributes, o, names, none_at_bottom, prefix)
    text2 = call(io.string_of_object_attributes, o, names, none_at_bottom, prefix)
    ok = ctx.check(not isinstance(text, Raised), "writing failed", where, text)
    if not ok:
        return None
    ctx.check(print_state() == ps, "printing of arrays altered by writing", where)
    ctx.check(text == text2, "second text differs", where, "%r / %r" % (text[:300], str(text2)[:300]))
    ctx.check(set(before) == set(vars(o)) and all(same(before[k], vars(o)[k]) for k in before),
              "writing altered the object", where)
    ch = io.SyntaxChecker(["ast", "builtin", "numpy", "PolyLine"])
    if not prefix:
        ch.allowed_functions["array"] = np.array
    n = Obj()
    r = call(io.copy_attributes_from_text_to_object, text, n, names, syntax_checker=ch)
    if ctx.check(not isinstance(r, Raised), "written text cannot be read", where, "%s\n%r" % (text[:600], r)):
        for k in names:
            a, b = getattr(o, k, None), getattr(n, k, "missing")
            ctx.check(same(a, b), "value changed", dict(where, attribute=k), "%r -> %r\n%s" % (a, b, text[:400]))
        # every attribute is in the text, so neither defaults nor what the object held before matter
        n = Obj()
        for k in names:
            setattr(n, k, "earlier")
        r = call(io.copy_attributes_from_text_to_object, text, n, names, {k: "default" for k in names}, "not found", syntax_checker=ch)
        for k in names:
            a, b = getattr(o, k, None), getattr(n, k, "missing")
            ctx.check(not isinstance(r, Raised) and same(a, b), "value changed when there are defaults", dict(where, attribute=k), "%r -> %r\n%s" % (a, b, text[:400]))
    ctx.trace()
    return text


def group_values(ctx):
    io, PolyLine = api()
    A = list(atoms(PolyLine))
    vals = list(A)
    rep = [A[i] for i in (0, 7, 14, 16, 22, 23, 26, 41, 43, 48, 49, 57, 62) if i < len(A)] + [A[-4], A[-3]]
    vals += list(containers(PolyLine, A, 3 if ctx.thorough else 5))
    small = [v for v in rep if not (isinstance(v, np.ndarray) and v.size > 100)]
    lvl1 = list(containers(PolyLine, small, 4))
    vals += list(containers(PolyLine, lvl1, 5 if ctx.thorough else 40))
    for i, v in enumerate(vals):
        o = Obj()
        o.a = v
        ctx.state(i)
        ctx.outcome(type(v).__name__)
        roundtrip(ctx, io, o, ["a"], dict(value=repr(v)[:300]))
    # several attributes, order, missing ones, None at the bottom or in place
    pick = [None, 3, "it's", np.array([1 / 3.]), PolyLine([0, 1], [1, 1 / 3.]), {"k": [None]}]
    for vs in itertools.product(range(len(pick) + 1), repeat=3):
        o = Obj()
        for n, k in zip("abc", vs):
            if k < len(pick):
                setattr(o, n, pick[k])
        for bottom in (True, False):
            for prefix in ("np.", None, "numpy."):
                ctx.state((vs, bottom, prefix))
                text = roundtrip(ctx, io, o, ["c", "a", "b"], dict(values=vs, none_at_bottom=bottom, prefix=prefix),
                                 bottom, prefix)
                if text and not bottom:
                    pos = [text.index("%s = " % n) for n in "cab"]
                    ctx.check(pos == sorted(pos), "attribute order", dict(values=vs))
                if text and bottom:
                    body = text.split("\n\n\n")
                    nones = [n for n in "cab" if getattr(o, n, None) is None]
                    ctx.check([l.split(" = ")[0] for l in body[-1].split("\n") if l] == nones, "None at the bottom",
                              dict(values=vs), text)
    # restoring under any print settings
    for name, setter in settings(io):
        for v in A:
            reset()
            setter()
            o = Obj()
            o.a, o.b = v, [v, 1]
            ctx.state((name, repr(v)[:80]))
            roundtrip(ctx, io, o, ["a", "b"], dict(settings=name, value=repr(v)[:200]))
            reset()


class Bad(object):
    def __repr__(self):
        raise RuntimeError("no repr")


class Raising(object):
    pass


def group_failures(ctx):
    io, PolyLine = api()

    class P(object):
        @property
        def bad(self):
            raise ValueError("property fails")
    for name, setter in settings(io):
        for n in (1, 2, 3, 4):
            for pos in range(n):
                for how in ("repr", "nested", "property"):
                    for bottom in (True, False):
                        for prefix in ("np.", None):
                            reset()
                            setter()
                            o = P()
                            names = ["a%d" % i for i in range(n)]
                            for k in names:
                                setattr(o, k, np.array([1 / 3.]))
                            if how == "property":
                                names[pos] = "bad"
                            else:
                                setattr(o, names[pos], Bad() if how == "repr" else [1, {"k": Bad()}])
                            case = dict(settings=name, n=n, position=pos, how=how, bottom=bottom)
                            ps = print_state()
                            keys = sorted(vars(o))
                            ctx.state(str(case) + str(prefix))
                            ctx.step()
                            r = call(io.string_of_object_attributes, o, names, bottom, prefix)
                            ctx.check(isinstance(r, Raised), "failure swallowed", case, repr(r))
                            ctx.check(print_state() == ps, "printing altered after a failed write", case)
                            ctx.check(sorted(vars(o)) == keys, "failed write altered the object", case)
                            ctx.trace()
                            reset()


# ------------------------------------------------------------------ private defaults
def make_class(io, style, kind):
    """A fresh class; the attribute list and defaults live on the class or are made per object."""
    deflt = {"dict": lambda: {"p": 1}, "list": lambda: [1, 2], "array": lambda: np.array([1., 2.]),
             "nested": lambda: {"p": [1]}}[kind]
    shared_defaults = {"x": deflt(), "y": 5}

    class C(io.InputFileLoaderCheckerSaver):
        if style in ("class", "mixed"):
            _attributes = ["x", "y", "z"]
        if style == "class":
            _attribute_defaults = shared_defaults

        def _setup(self):
            if style == "instance":
                self._attributes = ["x", "y", "z"]
                self._attribute_defaults = {"x": deflt(), "y": 5}
            if style == "mixed":
                self._attribute_defaults = shared_defaults
            if style == "tuple":
                self._attributes = ("x", "y", "z")
                self._attribute_defaults = shared_defaults
    return C, deflt


def mutate(v):
    if isinstance(v, dict):
        v["new"] = 1
        for w in v.values():
            if isinstance(w, list):
                w.append(9)
    elif isinstance(v, list):
        v.append(9)
    elif isinstance(v, np.ndarray):
        v[0] = 99


OPS = ["new", "read", "mutate_x", "mutate_plot", "save", "new_text"]


def group_defaults(ctx, item):
    """Model: every object owns its values. Sequences of operations on up to 3 objects of one class."""
    io, PolyLine = api()
    style, kind = item
    depth = 5 if ctx.thorough else 4
    for seq in itertools.product(OPS, repeat=depth):
        if seq[0] not in ("new", "new_text"):
            continue
        C, deflt = make_class(io, style, kind)
        objs, model = [], []
        case = dict(style=style, kind=kind, ops=seq)
        ctx.state((style, kind, seq))
        bad = False
        for op in seq:
            ctx.step()
            if op == "new":
                objs.append(C())
                model.append(dict(x=deflt(), y=5, z=None, plot_properties={}))
            elif op == "new_text":
                objs.append(C("y = 7\nz = [1]\n"))
                model.append(dict(x=deflt(), y=7, z=[1], plot_properties={}))
            elif op == "mutate_x":
                mutate(objs[0].x)
                mutate(model[0]["x"])
            elif op == "mutate_plot":
                mutate(objs[-1].plot_properties)
                mutate(model[-1]["plot_properties"])
            elif op == "save":
                io.string_of_object_attributes(objs[0], objs[0]._attributes)
            for o, m in zip(objs, model):
                for k, v in m.items():
                    if not same(getattr(o, k, "missing"), v):
                        ctx.fail("default value shared between objects", dict(case, attribute=k),
                                 "%r expected %r" % (getattr(o, k, "missing"), v))
                        bad = True
                if list(o._attributes).count("prefix") != 1 or list(o._attributes)[:3] != ["x", "y", "z"]:
                    ctx.fail("attribute list wrong", case, repr(o._attributes))
                    bad = True
            if bad:
                break
        if style in ("class", "mixed"):
            ctx.check(C._attributes == ["x", "y", "z"], "class attribute list changed", case, repr(C._attributes))
        ctx.trace()


def group_helpers(ctx):
    io, PolyLine = api()
    kinds = {"list": lambda: [1], "dict": lambda: {"a": [1]}, "array": lambda: np.array([1.]), "None": lambda: None,
             "int": lambda: 4, "str": lambda: "s"}
    for names in itertools.chain.from_iterable(itertools.permutations("abc", r) for r in range(4)):
        for have in itertools.product((0, 1, 2), repeat=3):     # missing / in the source / in the defaults
            for nf in kinds:
                src, deflt = Obj(), {}
                for n, h in zip("abc", have):
                    if h == 1:
                        setattr(src, n, ["src", n])
                    if h == 2:
                        deflt[n] = ["default", n]
                ctx.state((names, have, nf))
                for fn in ("copy", "init"):
                    objs = []
                    for _ in range(2):
                        o = Obj()
                        ctx.step()
                        nfv = kinds[nf]()
                        if fn == "copy":
                            io.copy_attributes_between_objects(src, o, list(names), deflt, nfv)
                        else:
                            io.initialize_objects_attributes(o, list(names), deflt, nfv)
                        objs.append(o)
                    o, p = objs
                    for i, n in enumerate("abc"):
                        if n not in names:
                            ctx.check(not hasattr(o, n), "attribute not asked for", dict(names=names, have=have))
                            continue
                        h = have[i]
                        want = ["src", n] if (h == 1 and fn == "copy") else (
                            ["default", n] if h == 2 else kinds[nf]())
                        ctx.check(same(getattr(o, n, "missing"), want), "copied attribute value",
                                  dict(names=names, have=have, nf=nf, fn=fn), repr(getattr(o, n, None)))
                        if h == 2:
                            o.__dict__[n].append(1)
                            ctx.check(same(p.__dict__[n], want) and same(deflt[n], want), "default shared",
                                      dict(names=names, have=have, fn=fn))
                            o.__dict__[n].pop()
                ctx.trace()


def group_init_code(ctx):
    """text that initialises attributes, run as Python, gives what initialising them directly gives"""
    io, PolyLine = api()
    plain = [v for v in atoms(PolyLine) if isinstance(v, (int, float, complex, str, bytes, type(None)))]
    vals = plain + [[v] for v in plain] + [(1, v) for v in plain] + [{"k": v} for v in plain] + [{}, [], (), [[1, "it's"], {2: ("a\nb",)}]]
    vals = [v for v in vals if v is not None]
    for k, v in enumerate(vals):
        for names in (["a"], ["a", "b"], ["b", "a"], ["b"], []):
            for nf in (None, 4, vals[(k * 7 + 3) % len(plain)]):
                for dn in (None, "_attribute_defaults", "other"):
                    for on in ("self", "obj.part"):
                        d = {"a": v}
                        want = Obj()
                        io.initialize_objects_attributes(want, names, d, nf)
                        got, root = Obj(), Obj()
                        got._attribute_defaults = got.other = d
                        root.part = got
                        text = call(io.code_for_explicit_attribute_initialization, names, d, dn, on, nf)
                        ctx.step()
                        case = dict(default=v, names=names, not_found=nf, defaults_name=dn, object_name=on)
                        r = text if isinstance(text, Raised) else call(exec, text, dict(self=got, obj=root))
                        if not ctx.check(not isinstance(r, Raised), "initialisation code cannot run", case, "%r %r" % (r, text)):
                            continue
                        have = {n: x for n, x in vars(got).items() if n not in ("_attribute_defaults", "other")}
                        ctx.check(list(have) == names and all(same(have[n], vars(want)[n]) for n in names), "initialisation code gives other values", case, "%r" % text)
        ctx.state(repr(v))
        ctx.trace()


VR_TEXT = '''
H = 1.5
drn = 0
dT = 0.1
dTh = 1.0
neig = 3
mvref = 2.0
kvref = 1 / 3.0
mv = PolyLine([0, 1/3., 1], [1, 0.5, 0.7])
kv = PolyLine([0, 1], [1, 1/7.])
kh = PolyLine([0, 1], [1, 1])
et = PolyLine([0, 1], [1, 1])
surcharge_vs_depth = [PolyLine([0, 1], [1, 1]), PolyLine([0, 1], [1/3., 1])]
surcharge_vs_time = [PolyLine([0, 0, 10], [0, 100, 100]), PolyLine([0, 2, 10], [0, -20, 1/3.])]
surcharge_omega_phase = [(2*np.pi*0.3, 0.1), None]
ppress_z = np.linspace(0, 1, 1100)
avg_ppress_z_pairs = [[0, 1], [0.2, 1/3.]]
settlement_z_pairs = [(0, 1)]
tvals = np.array([0.01, 1/3., 1])
author = "it's me"
title = """two
lines \\\\ 'quoted' """
plot_properties = dict(por={'has_legend': True, 'styles': [dict(marker='o')]}, avp=None)
'''


def group_programs(ctx):
    io, PolyLine = api()
    from geotecha.speccon.speccon1d_vr import Speccon1dVR
    from geotecha.speccon.speccon1d_vrw import Speccon1dVRW
    from geotecha.speccon.speccon1d_vrc import Speccon1dVRC
    from geotecha.speccon.speccon1d_unsat import Speccon1dUnsat
    from geotecha.consolidation.nogamiandli2003 import NogamiAndLi2003
    for cls in (Speccon1dVR, Speccon1dVRW, Speccon1dVRC, Speccon1dUnsat, NogamiAndLi2003):
        for text in ("", "author = 'a\\'b'\n", VR_TEXT):
            ctx.state((cls.__name__, text))
            o = call(cls, text)
            ctx.step()
            if not ctx.check(not isinstance(o, Raised), "program input refused", dict(cls=cls.__name__), repr(o)):
                continue
            t = io.string_of_object_attributes(o, o._attributes)
            p = call(cls, t)
            if ctx.check(not isinstance(p, Raised), "saved program input refused", dict(cls=cls.__name__),
                         "%r\n%s" % (p, t[:1500])):
                for k in o._attributes:
                    ctx.check(same(getattr(o, k), getattr(p, k)), "program attribute changed",
                              dict(cls=cls.__name__, attribute=k), "%r %r" % (getattr(o, k), getattr(p, k)))
                ctx.check(io.string_of_object_attributes(p, p._attributes) == t, "saved text not stable",
                          dict(cls=cls.__name__))
            ctx.trace()


def group_prefix(ctx):
    """the prefix for printing arrays: on shows exactly prefix + repr, off shows what was shown before; repr and the print options never change"""
    io, PolyLine = api()
    ops = [("on", 0), ("on", 1), ("off", 0), ("off", 1), ("text", 0)]
    for depth in range(1, (6 if ctx.thorough else 5)):
        for name, setter in [x for x in settings(io) if x[0] not in ("prefixed", "repr function")][:None if depth < 4 else 2]:
            for seq in itertools.product(ops, repeat=depth):
                reset()
                setter()
                plain = print_state()
                P = [call(io.PrefixNumpyArrayString), call(io.PrefixNumpyArrayString, "zz.")]
                active = None
                ctx.state(("prefix", name, seq))
                case = dict(settings=name, ops=["%s %s" % o for o in seq])
                good = True
                for op, k in seq:
                    ctx.step()
                    if op == "on":
                        r, active = call(P[k].turn_on), ("np.", "zz.")[k]
                    elif op == "off":
                        r, active = call(P[k].turn_off), None
                    else:
                        o = Bad()
                        o.a = np.array([1 / 3.])
                        r = call(io.string_of_object_attributes, o, ["a"])
                    now = print_state()
                    good = not isinstance(r, Raised) and now[0] == plain[0] and now[2] == plain[2] and now[1] == (plain[1] if active is None else [active + v for v in plain[2]])
                    if not ctx.check(good, "prefix of printed arrays", case, lambda: "after %s %s: %s" % (op, k, [v[:60] for v in now[1][:2]])):
                        break
                ctx.outcome("prefix %s" % active)
                ctx.trace()
    reset()


def run(ctx):
    global PROBES, DEFAULTS
    PROBES = [np.array([1 / 3., 1e-9]), np.arange(5), np.arange(1200.), np.array([[1, 2], [3, 4]]), np.array([])]
    DEFAULTS = dict(np.get_printoptions())
    for name, fn in (("values", group_values), ("failures", group_failures), ("helpers", group_helpers), ("initialisation code", group_init_code), ("prefix", group_prefix),
                     ("programs", group_programs)):
        if ctx.only and ctx.only not in name:
            continue
        with ctx.group(name):
            fn(ctx)
        reset()
    if not ctx.only or ctx.only in "private defaults":
        with ctx.group("private defaults"):
            ctx.parallel(group_defaults, [(s, k) for s in ("class", "instance", "mixed", "tuple")
                                          for k in ("dict", "list", "array", "nested")])
    ctx.sample(dict(value="{3: ['it\\'s'], ...}", text="a = {3: [\"it's\"]}"))
