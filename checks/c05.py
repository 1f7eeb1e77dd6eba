"""C05: restricted input files only run what is whitelisted.

Program texts are generated exhaustively from a small grammar (payload x nesting context x
preparation x statement position) and each is judged twice: by the restricted reader and by
ordinary execution of the same text in which forbidden builtins and attributes are replaced by
recording canaries.
"""
import ast
import builtins
import itertools
import os
import textwrap

import numpy as np

from mc import env
from mc.core import Raised, call

LEVEL = "model_checking"
TECHNIQUE = ("bounded-exhaustive generation of program texts (grammar x nesting contexts x preparing "
             "statements x text histories) executed by the real restricted reader and by an instrumented "
             "ordinary interpreter; canaries decide whether anything forbidden ran")
NOTE = "whitelisted functions that touch files by design (np.load, np.save, input) are not called"
BOUNDS = ("expressions to nesting depth 2 over 14 atoms, 35 forbidden payloads x 47 contexts x 26 preparing "
          "statements and every expression place of 34 whitelisted constructs, every builtin name, every numpy attribute name, every ast node type, all histories of "
          "up to 3 texts on one checker")
ASSUMPTIONS = ["only names reachable in a module namespace count as forbidden; values whitelisted functions "
               "return by themselves (e.g. str.format fields) are not tracked"]

# the documented whitelist at the pinned version
NODES_ALLOWED = set("""Add And Assert Assign Attribute AugAssign BinOp BitAnd BitOr BitXor BoolOp Break Call
Compare Continue Del Delete Dict DictComp Div Eq ExceptHandler Expr Expression FloorDiv For FunctionDef
GeneratorExp Global Gt GtE If IfExp In Interactive Invert Is IsNot LShift Lambda List ListComp Load Lt LtE Mod
Module Mult Name Not NotEq NotIn Or Pass Pow RShift Raise Return Set SetComp Slice Store Starred Sub Subscript Try
Tuple UAdd USub UnaryOp While With Yield YieldFrom arguments arg comprehension keyword withitem Constant""".split())
BUILTINS_ALLOWED = set("""abs all any bin chr compile divmod filter format hasattr hex id input isinstance issubclass iter
len locals map max min next oct ord pow print range repr round sorted sum zip ascii bool bytearray bytes complex
dict enumerate float frozenset int list reversed set slice str super tuple type""".split())


def api():
    from geotecha.inputoutput import inputoutput as io
    return io


ALLOW = ["ast", "builtin", "numpy", "PolyLine"]


class Hits(object):
    def __init__(self):
        self.n = []


HITS = Hits()


class Canary(object):
    """Stands for something a text must never reach; records any use."""
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        HITS.n.append(self.name)
        return self

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        HITS.n.append(self.name + "." + a)
        return self


CANARY_BUILTINS = ["eval", "exec", "open", "getattr", "vars", "globals", "setattr", "dir", "delattr"]


def ordinary(text, extra):
    """Execute as ordinary python with canaries for what is forbidden."""
    try:
        code = compile(text, "<ordinary>", "exec")
    except (SyntaxError, ValueError) as e:
        return Raised(e), []
    bi = dict(vars(builtins))
    for n in CANARY_BUILTINS:
        bi[n] = Canary(n)
    bi["__import__"] = Canary("__import__")
    ns = {"__builtins__": bi, "__name__": "m"}
    ns.update(extra)
    HITS.n = []
    try:
        exec(code, ns)
        out = {k: v for k, v in ns.items() if k not in extra and k not in ("__builtins__", "__name__", "__doc__")}
    except Exception as e:
        out = Raised(e)
    return out, list(HITS.n)


def restricted(io, text, checker, reader=None):
    HITS.n = []
    base = set(checker.allowed_functions) | {"__builtins__", "__name__", "__doc__", "__package__",
                                             "__loader__", "__spec__"}
    bd = vars(builtins)
    saved = {n: bd[n] for n in CANARY_BUILTINS if n not in ("getattr", "exec")}
    try:
        # (the reader itself needs compile, getattr and exec)
        for n in saved:
            bd[n] = Canary(n)
        try:
            m = io.make_module_from_text(text if reader is None else reader, checker)
            out = None
        except Exception as e:
            out = Raised(e)
    finally:
        for n, v in saved.items():
            bd[n] = v
    hits = list(HITS.n)
    if not isinstance(out, Raised):
        out = {k: v for k, v in m.__dict__.items() if k not in base
               # or a whitelisted name that the text rebinds
               or (k in checker.allowed_functions and checker.allowed_functions[k] is not v)}
    return out, hits


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) == type(b) and a.dtype == b.dtype and a.shape == b.shape and \
            bool(np.array_equal(a, b))
    if type(a) != type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k]) for k in a)
    if callable(a) or type(a).__name__ in ("generator", "map", "filter", "zip"):
        return True
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b) or repr(a) == repr(b)
    except Exception:
        return repr(a) == repr(b)


def same_outcome(a, b):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and a.type == b.type
    return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)


def checker_extra(io, allow=None):
    ch = io.SyntaxChecker(list(allow or ALLOW))
    extra = {k: v for k, v in ch.allowed_functions.items() if not hasattr(builtins, k)}
    return ch, extra


# ------------------------------------------------------------------ A. whitelisted forms
ATOMS = ["0", "3", "-2", "1.5", "2j", "'ab'", "b'x'", "None", "True", "False", "...", "''", "np.pi", "1e-3"]
BIN = ["+", "-", "*", "/", "//", "%", "**", "<<", ">>", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in"]


def forms():
    A = ATOMS
    for a in A:
        yield a
        for u in ("-", "+", "~", "not "):
            yield u + "(%s)" % a
    for a, b in itertools.product(A, A):
        for o in BIN:
            if o in ("**", "<<") and a in ("3",) and b in ("1e9",):
                continue
            yield "(%s) %s (%s)" % (a, o, b)
        for o in CMP:
            yield "(%s) %s (%s)" % (a, o, b)
        for o in ("and", "or"):
            yield "(%s) %s (%s)" % (a, o, b)
        for c in ("[%s, %s]", "(%s, %s)", "{%s: %s}", "{%s, %s}", "[%s, [%s]]", "((%s), [(%s, 1)])"):
            yield c % (a, b)
        yield "%s if %s else 7" % (a, b)
        yield "[x for x in [%s, %s]]" % (a, b)
        yield "[[x, y] for x in [%s] for y in [%s] if x != 1]" % (a, b)
        yield "{k: v for k, v in [(%s, %s)]}" % (a, b)
        yield "sorted({str(x) for x in (%s, %s)})" % (a, b)
        yield "tuple(x for x in (%s, %s))" % (a, b)
        yield "[lambda x, y=%s, *z, **k: [x, y, z, k]][0](%s, w=1)" % (a, b)
    for cont in ("[1, 2, 3]", "(1, 2, 3)", "'abc'", "{0: 1, 'k': 2}", "np.array([1, 2, 3])",
                 "np.array([[1, 2], [3, 4]])", "[[1, 2], [3, 4]]"):
        for i in ("0", "-1", "5", "'k'", "0:2", "::2", "::-1", "1:", ":1", "0:2:1", "None", "...", ":, 0", "..., 1",
                  "[0, 1]", "True"):
            yield "%s[%s]" % (cont, i)
            yield "[%s[%s]][0]" % (cont, i)
    for n in ("np.cos(0.5)", "np.array([1., 2]) * 2", "np.linspace(0, 1, 3)", "np.math.sqrt(4)", "numpy.exp(1)",
              "np.arange(5)[1:3].sum()", "np.ones((2, 2)).tolist()", "PolyLine([0, 1, 2], [1, 2, 3])",
              "PolyLine([0, 1], [1, 2], [3, 4], [5, 6]).y2", "PolyLine([0, 1], [2, 3]).xy",
              "PolyLine([(0, 1), (2, 3)])", "dict(a=1, b=[2])", "max(*[1, 2])", "dict(**{'a': 1})", "[*(1, 2), 3]",
              "{**{'a': 1}, 'b': 2}", "'{} {}'.format(1, 2)", "'a,b'.split(',')", "' '.join(['a', 'b'])",
              "(3).conjugate()", "[1, 2].count(1)", "{1: 2}.get(1)", "{'a': 1}.items()", "'x' 'y'", "'''a\nb'''",
              "r'\\n'", "u'x'", "'a\\'b'", "0x1f", "1_000", "1e400", "()", "[]", "{}", "(1,)", "1 < 2 < 3",
              "not None", "[x ** 2 for x in range(4) if x % 2 if x > 1]", "list(map(str, [1]))",
              "list(filter(None, [0, 1]))", "list(zip([1], [2]))", "list(enumerate('ab'))", "sum([1, 2])",
              "[abs][0](-1)", "(lambda: 3)()", "(lambda x: x + 1)(2)",
              "[y for x in [[1, 2], [3]] for y in x]", "[[z for z in x] for x in [[1], [2]]]",
              "{x: [y for y in range(x)] for x in range(3)}"):
        yield n


STMTS = ["a = %s", "a = b = %s", "a, b = %s, 1", "[a, (b, c)] = %s, [1, 2]", "a = [0]\na[0] = %s", "a = 1\na += %s",
         "if %s:\n  a = 1\nelse:\n  a = 2", "for a in [%s]:\n  b = a", "def f(x=%s):\n  return x\na = 1",
         "a = 1; b = %s", "assert [%s]\na = 1", "while [%s]:\n  a = 1\n  break", "a = 1\ndel a\nb = %s",
         "*a, b = [1, %s]", "# comment\na = %s  # more", "\n\na = (\n %s)", "'doc'\na = %s",
         "a = 0\nfor i in range(3):\n  if i == 1:\n    continue\n  a += i\nelse:\n  b = %s",
         "try:\n  a = %s\nfinally:\n  b = 1", "a = %s\nb = a\nc = [a, b]", "def f(x):\n  yield %s\na = 1",
         "global a\na = %s"]
STMT_ATOMS = ["3", "'ab'", "None", "[1, 2]", "np.array([1., 2.])", "{'k': (1, 'x')}", "[x for x in (1, 2)]", "-1.5",
              "True", "lambda q: q"]


def group_forms(ctx, io):
    texts = ["a = " + e for e in forms()]
    texts += [s % e for s in STMTS for e in STMT_ATOMS]
    texts += ["a = %s\nb = [a, {'k': a}]\nc = %s" % (x, y) for x in STMT_ATOMS for y in STMT_ATOMS]
    if ctx.thorough:
        base = [e for e in forms()][-120:]
        texts += [s % e for s in STMTS for e in base]
        texts += ["a = [%s, (%s, {0: %s})]" % (x, y, z) for x in base[::4] for y in base[::4] for z in base[::8]]
    ch, extra = checker_extra(io)
    n0 = (len(ch.allowed_functions), len(ch.allowed_node_types), len(ch.allowed_attributes))
    for t in texts:
        ctx.state(t)
        ctx.step()
        try:
            compile(t, "x", "exec")
        except SyntaxError:
            pass
        want, hits = ordinary(t, extra)
        got, ghits = restricted(io, t, ch)
        if isinstance(want, Raised) and isinstance(got, Raised) and got.type == "SyntaxError":
            pass     # rejected instead of failing later
        elif not same_outcome(got, want):
            ctx.fail("whitelisted form refused or different" if isinstance(got, Raised) else "value differs",
                     dict(text=t), "restricted %r\nordinary %r" % (got, want))
        ctx.check(not ghits, "forbidden reached by a plain text", dict(text=t, hits=ghits))
        ctx.trace()
        ctx.outcome("error" if isinstance(want, Raised) else "value")
    ctx.check((len(ch.allowed_functions), len(ch.allowed_node_types), len(ch.allowed_attributes)) == n0,
              "reading texts changed the whitelist", dict())


# ------------------------------------------------------------------ B. forbidden payloads
# (payload, name that could be prepared, static: text is forbidden whatever was prepared)
PAYLOADS = [
    ("eval('1')", "eval", True), ("exec('1')", "exec", True), ("open('zz')", "open", True),
    ("getattr(1, 'real')", "getattr", True), ("vars()", "vars", True), ("globals()", "globals", True),
    ("setattr(1, 'a', 2)", "setattr", True), ("dir()", "dir", True), ("__import__('os')", "__import__", True),
    ("object()", "object", True), ("exit()", "exit", True),
    ("[eval][0]('1')", "eval", False), ("(eval)", "eval", False), ("{1: eval}[1]('1')", "eval", False),
    ("[f('1') for f in [open]]", "open", True), ("(lambda f=globals: [f][0]())()", "globals", False),
    ("list(map(eval, ['1']))", "eval", False), ("(exec if 1 else 2)", "exec", False),
    ("().__class__", "__class__", True), ("abs.__self__", "__self__", True), ("[].__len__()", "__len__", True),
    ("(1).__class__.__bases__[0].__subclasses__()", "__class__", True), ("np.__dict__", "__dict__", True),
    ("np.random", "random", True), ("np.zz_canary", "zz_canary", True), ("np.zz_canary()", "zz_canary", True),
    ("np.zz_canary.save(1)", "zz_canary", True), ("np.linalg.inv", "linalg", True), ("np.lib", "lib", True),
    ("[np][0].zz_canary", "zz_canary", True), ("(np if 1 else 0).zz_canary", "zz_canary", True),
    ("f'{eval}'", "eval", True), ("f'{1}'", "x", True), ("(zz := 1)", "zz", True),
    ("(lambda: __builtins__)()", "__builtins__", False), ("__builtins__", "__builtins__", False),
    ("__name__", "__name__", False), ("__loader__", "__loader__", False),
]
PREPS = ["", "%s = 1", "%s = abs", "for %s in []:\n  pass", "for %s in [abs]:\n  pass", "q = [0 for %s in []]",
         "q = {0 for %s in [1]}", "q = {0: 0 for %s in [1]}", "q = list(0 for %s in [])", "q = lambda %s: 0",
         "q = lambda *%s: 0", "q = lambda **%s: 0", "def q(%s):\n  pass", "def %s():\n  pass", "if 0:\n  %s = 1",
         "while 0:\n  %s = 1", "(%s, q) = 1, 2", "[q, [%s]] = 1, [2]", "*%s, q = [1, 2]", "global %s",
         "%s = 1\ndel %s", "try:\n  q = 1\nexcept:\n  %s = 1", "%s = q = 1", "q = dict(%s=1)", "q = '%s'",
         "def q():\n  %s = 1"]
CONTEXTS = ["a = %s", "%s", "a = [1, %s]", "a = (%s,)", "a = {1: %s}", "a = {'k': [%s]}", "a = {%s}", "a = -%s",
            "a = 1 + (%s)", "a = [1, 2][%s]", "a = [1, 2][(%s):]", "a = abs(%s)", "a = dict(k=%s)", "a = max(*[%s])",
            "a = 1 if %s else 2", "a = %s if 0 else 2", "a = [x for x in [%s]]", "a = [%s for x in [1]]",
            "a = [x for x in [1] if %s]", "a = {x: %s for x in [1]}", "a = (lambda: %s)", "a = (lambda x=%s: x)",
            "def f(x=%s):\n  pass", "def f():\n  return %s", "if %s:\n  a = 1", "if 0:\n  a = %s", "while %s:\n  break",
            "for x in [%s]:\n  a = 1", "for x in [1]:\n  a = %s", "assert 1, %s", "a = 1\na += 0 if 1 else %s",
            "a = [0]\na[0] = %s", "@abs\ndef f(x=%s):\n  pass", "try:\n  a = %s\nfinally:\n  b = 1",
            "with %s:\n  pass", "del [1][%s]", "a = b = %s", "a, b = 1, %s", "raise %s", "a = 1 < (%s) < 2",
            "a = '{}'.format(%s)", "a = np.array([%s])", "a = [y for x in [1] for y in [%s]]",
            "def f():\n  yield %s", "def f():\n  yield from [%s]", "a = True or %s"]
STATEMENTS = ["import os", "import os as abs", "from os import path", "from os import *", "class A:\n  pass",
              "class A(object):\n  x = 1", "async def f():\n  pass", "a: int = 1", "nonlocal a",
              "def f():\n  nonlocal a", "with open('zz') as f:\n  pass", "match 1:\n  case 1:\n    pass",
              "import np", "from __future__ import division", "type X = int", "__builtins__ = np",
              "def __builtins__():\n  pass", "for __builtins__ in [np]:\n  pass", "q = [0 for __class__ in [1]]",
              "x = 1\nx.__class__ = 2", "np.zz_canary = 1", "del np.zz_canary", "np.zz_canary += 1",
              "for np.zz_canary in [1]:\n  pass", "@eval\ndef f():\n  pass", "a = [1]\na.__init__([2])",
              "try:\n  a = 1\nexcept eval:\n  b = 1", "def f(x: eval('1')):\n  pass", "def f() -> open('zz'):\n  pass",
              "async def f():\n  await 1", "async def f():\n  a = [x async for x in 1]",
              "try:\n  a = 1\nexcept* abs:\n  b = 1"]
# every place of these whitelisted constructs where an expression is read
TEMPLATES = ["a = {1: 2, 3: 4}", "a = {x: y for x, y in [(1, 2)] if x}", "a = {x for x in [1] if x}", "a = list(x for x in [1] if x for z in [2] if z)",
             "a = [x for x in [1] if x for z in [x] if z]", "a = (1).real", "a = [1, 2, 3][0:2:1]", "a = '{} {k}'.format(1, k=2)", "a = abs(1, *[2])",
             "a = dict(k=1, **{'m': 3})", "a = [1][0].real", "a = 1 if 2 else 3", "a = 1 and 2 or 3", "a = not 1", "a = 1 < 2 < 3", "a = -(1 + 2)",
             "a = (lambda x=1, *y, k=2, **z: 3)()", "a = [lambda: 1][0]()", "a = (1, *[2])", "a = [1, 2]\na[0] = 3", "a = [1]\na[0] += 2", "a = [1]\ndel a[0]",
             "for x in [1]:\n  2\nelse:\n  3", "while 0:\n  1\n  break\nelse:\n  2", "if 0:\n  2\nelif 0:\n  4\nelse:\n  5", "with 1 as b:\n  2",
             "try:\n  1\nexcept (2, 3) as e:\n  4\nelse:\n  5\nfinally:\n  6", "try:\n  raise 1 from 2\nexcept 3:\n  4", "a = b = [1]\n(a, b[0]) = 1, [2]",
             "b = [1]\nfor b[0] in [2]:\n  b[0]", "b = [1]\na = [b[0] for b[0] in [2]]", "@abs\n@(1)\ndef f(x: 1=2, *y: 3, k: 4=5, **z: 6) -> 7:\n  return 8",
             "def f():\n  yield 1\n  yield from [2]\na = list(f())", "def f():\n  'doc'\n  def g(x=1):\n    return [x, 2]\n  return g(3)\na = 4"]


def templates():
    """each expression of each template replaced in turn"""
    out = []
    for t in TEMPLATES:
        n = len(list(ast.walk(ast.parse(t))))
        for k in range(n):
            tree = ast.parse(t)
            node = list(ast.walk(tree))[k]
            if isinstance(node, ast.expr) and not isinstance(getattr(node, "ctx", None), (ast.Store, ast.Del)):
                class Put(ast.NodeTransformer):
                    def visit(self, x):
                        return ast.Name("PAYLOAD", ast.Load()) if x is node else self.generic_visit(x)
                c = ast.unparse(ast.fix_missing_locations(Put().visit(tree))).replace("PAYLOAD", "(%s)")
                if c not in out:
                    out.append(c)
    return out


STMT_CTX = ["%s", "if 1:\n%s", "if 0:\n%s", "for i in [1]:\n%s", "while 0:\n%s", "def f():\n%s", "try:\n%s\nfinally:\n  b = 1",
            "a = 1\n%s", "def f():\n  def g():\n    a = 1\n%s", "for i in []:\n  pass\nelse:\n%s"]


def judge(ctx, io, ch, extra, text, static, kind):
    """text must raise in restricted mode when static, and never reach a canary."""
    try:
        compile(text, "x", "exec")
    except (SyntaxError, ValueError):
        return
    ctx.state(text)
    ctx.step()
    ran = []
    ch.allowed_functions["abs"] = lambda x=0, *a: ran.append(1) or x
    got, hits = restricted(io, text, ch)
    ctx.check(not hits, kind + ": forbidden thing was reached", dict(text=text, hits=hits[:5]), repr(got))
    if static:
        ctx.check(isinstance(got, Raised), kind + ": forbidden text was executed", dict(text=text), repr(got))
        ctx.check(not ran, kind + ": part of a forbidden text was executed", dict(text=text), repr(got))
    else:
        want, whits = ordinary(text, dict(extra, abs=ch.allowed_functions["abs"]))
        if not isinstance(got, Raised):
            if whits and not isinstance(want, Raised):
                ctx.fail(kind + ": forbidden text was executed", dict(text=text, hits=whits[:4]), repr(got))
            elif isinstance(want, Raised) or not same_outcome(got, want):
                # values may differ only where ordinary python exposes a forbidden builtin
                vals = [] if isinstance(want, Raised) else list(want.values())
                ctx.fail(kind + ": value differs from ordinary execution", dict(text=text),
                         "restricted %r ordinary %r" % (got, want))
            for v in ([] if isinstance(got, Raised) else got.values()):
                flat = str(type(v)) + repr(v)
                ctx.check("Canary" not in flat and "mappingproxy" not in flat,
                          kind + ": forbidden value obtained", dict(text=text), flat[:300])
    ctx.outcome(got.type if isinstance(got, Raised) else "executed")
    ctx.trace()


def group_payloads(ctx, io, item):
    payload, name, static = item
    ch, extra = checker_extra(io)
    np.zz_canary = Canary("np.zz_canary")
    for prep in PREPS:
        p = prep.replace("%s", name) if prep else ""
        for c in CONTEXTS:
            t = c.replace("%s", payload)
            text = "probe = abs(1)\n" + (p + "\n" if p else "") + t
            judge(ctx, io, ch, extra, text, static, "payload")
            if ctx.thorough or c in CONTEXTS[:3]:
                for c2 in CONTEXTS[2:22:4]:
                    judge(ctx, io, ch, extra, "probe = abs(1)\n" + (p + "\n" if p else "")
                          + c.replace("%s", "(" + c2.split("= ", 1)[1].replace("%s", payload) + ")"),
                          static, "payload nested")
        if prep in PREPS[:2] + PREPS[9:10] + PREPS[14:15] or ctx.thorough:
            for c in templates():
                judge(ctx, io, ch, extra, "probe = abs(1)\n" + (p + "\n" if p else "") + c.replace("%s", payload), static, "payload anywhere")
        # payload first, preparation afterwards
        judge(ctx, io, ch, extra, "probe = abs(1)\na = %s\n%s" % (payload, p), static, "payload before")
    if hasattr(np, "zz_canary"):
        del np.zz_canary


def group_statements(ctx, io):
    ch, extra = checker_extra(io)
    np.zz_canary = Canary("np.zz_canary")
    for s in STATEMENTS:
        for c in STMT_CTX:
            ind = "  " if "\n%s" in c and "a = 1\n%s" != c else ""
            body = textwrap.indent(s, ind) if ind else s
            text = c.replace("%s", body)
            pre = "" if "__future__" in s else "probe = abs(1)\n"
            judge(ctx, io, ch, extra, pre + text, True, "statement")
    if hasattr(np, "zz_canary"):
        del np.zz_canary


# ------------------------------------------------------------------ C/D. the whitelist itself
def group_whitelist(ctx, io):
    ch, extra = checker_extra(io)
    for name in sorted(n for n in dir(builtins) if not n.startswith("__")):
        if not callable(getattr(builtins, name)) or name in ("True", "False", "None"):
            continue
        for text in ("%s", "a = [%s]", "f = lambda: %s", "f = lambda: %s()", "a = 0 if 1 else %s(1)"):
            t = text % name
            ctx.state(t)
            ctx.step()
            c = io.SyntaxChecker(list(ALLOW))
            r = call(c.visit, ast.parse(t))
            ctx.check(isinstance(r, Raised) == (name not in BUILTINS_ALLOWED), "builtin verdict", dict(text=t), repr(r))
            ctx.trace()
    # attributes of numpy and of the builtin types: nothing that is private or a dunder passes, and the
    # checker's own statement of allowed attributes decides the rest
    attrs = set(dir(np))
    for o in (1, 1.5, "", [], {}, set(), (), abs, np, np.array([1]), print, lambda: 0, b""):
        attrs |= set(dir(o))
    modules = {n for n in dir(np) if type(getattr(np, n, None)).__name__ == "module" and n not in ("math", "char")}
    for a in sorted(attrs):
        for t in ("q = np.%s", "q = (1).%s", "q = np.math.%s", "q = [].%s()"):
            t = t % a
            ctx.state(t)
            ctx.step()
            r = call(ch.visit, ast.parse(t))
            if a.startswith("_"):
                ctx.check(isinstance(r, Raised), "private attribute accepted", dict(text=t))
            elif a in modules:
                ctx.check(isinstance(r, Raised), "module attribute accepted", dict(text=t))
            ctx.check((not isinstance(r, Raised)) == (a in ch.allowed_attributes or a in ch.allowed_functions),
                      "attribute verdict", dict(text=t))
            ctx.trace()
    # node types
    snips = {"JoinedStr": "f'{1}'", "NamedExpr": "(a := 1)", "ClassDef": "class A: pass", "Import": "import os",
             "ImportFrom": "from os import path", "AsyncFunctionDef": "async def f(): pass", "AnnAssign": "a: int = 1",
             "Nonlocal": "def f():\n  a = 1\n  def g():\n    nonlocal a", "Match": "match 1:\n  case _: pass",
             "Await": "async def f(): await 1", "TypeAlias": "type X = int", "Global": "global a", "Constant": "1",
             "MatMult": "[1] @ [2]", "Lambda": "lambda: 0", "Yield": "def f(): yield 1", "Starred": "[*[1]]",
             "YieldFrom": "def f(): yield from [1]", "Delete": "a = 1\ndel a", "Raise": "raise 1", "With": "with 1: pass",
             "Try": "try: pass\nfinally: pass", "IfExp": "1 if 2 else 3", "Set": "{1}", "SetComp": "{x for x in [1]}",
             "DictComp": "{x: x for x in [1]}", "GeneratorExp": "(x for x in [1])", "ListComp": "[x for x in [1]]",
             "Slice": "[1][0:1]", "Subscript": "[1][0]", "AugAssign": "a = 1\na += 1", "Assert": "assert 1",
             "FunctionDef": "def f(): pass", "While": "while 0: pass", "For": "for i in [1]: pass", "Break": "while 1: break",
             "Continue": "for i in [1]: continue", "BoolOp": "1 and 2", "Compare": "1 < 2", "UnaryOp": "-1",
             "Interactive": None}
    for node, s in snips.items():
        if s is None:
            continue
        try:
            tree = ast.parse(s)
        except SyntaxError:
            continue
        used = {type(n).__name__ for n in ast.walk(tree)}
        want = used <= NODES_ALLOWED
        r = call(io.SyntaxChecker(list(ALLOW)).visit, tree)
        ctx.state(s)
        ctx.step()
        ctx.check((not isinstance(r, Raised)) == want, "node type verdict", dict(text=s, node=node), repr(r))
        ctx.trace()
    # fewer permissions: what is not allowed is refused, what is allowed still works
    probes = {"a = 1 + 2": {"ast"}, "a = abs(-1)": {"ast", "builtin"}, "a = [abs][0](-1)": {"ast", "builtin"},
              "a = np.cos(1)": {"ast", "numpy"}, "a = 'x'.upper()": {"ast", "builtin"}, "a = [1, 2][0]": {"ast"},
              "a = PolyLine([0, 1], [1, 2]).y": {"ast", "PolyLine"}, "a = numpy.pi": {"ast", "numpy"},
              "a = [x for x in [1]]": {"ast"}, "a = {'k': None}": {"ast"}}
    for r in range(len(ALLOW) + 1):
        for allow in itertools.permutations(ALLOW, r):
            for t, need in probes.items():
                ctx.state((allow, t))
                ctx.step()
                c = io.SyntaxChecker(list(allow))
                ex = {k: v for k, v in c.allowed_functions.items() if not hasattr(builtins, k)}
                got, hits = restricted(io, t, c)
                if need <= set(allow):
                    want, _ = ordinary(t, ex)
                    ctx.check(same_outcome(got, want), "permitted text refused", dict(text=t, allow=allow), repr(got))
                else:
                    ctx.check(isinstance(got, Raised), "unpermitted text executed", dict(text=t, allow=allow), repr(got))
                ctx.trace()
    for bad in ("nothing", "AST", ""):
        r = call(io.SyntaxChecker, [bad])
        ctx.check(isinstance(r, Raised), "unknown permission accepted", dict(allow=bad))
        ctx.trace()
    r = call(io.make_module_from_text, "a=1", "ast")
    ctx.check(isinstance(r, Raised), "a checker that is no checker was accepted", dict())
    ctx.trace()


# ------------------------------------------------------------------ E. histories
HIST = ["a = 1", "random = 1", "eval = 1", "a = np.random", "a = [eval][0]('1')", "x = [a for a in [1]]", "b = a",
        "a = [random]", "import os", "a = np.zz_canary", "zz_canary = 2", "q = [0 for eval in []]", "a = 'text'",
        "def f(open):\n  pass", "a = [open]"]


def group_histories(ctx, io):
    np.zz_canary = Canary("np.zz_canary")
    fresh = {}
    for t in HIST:
        ch, _ = checker_extra(io)
        fresh[t] = restricted(io, t, ch)[0]
    lens = (2, 3)
    for L in lens:
        for seq in itertools.product(HIST, repeat=L):
            ch, _ = checker_extra(io)
            ctx.state(seq)
            for t in seq:
                ctx.step()
                got, hits = restricted(io, t, ch)
                ctx.check(not hits, "history reached something forbidden", dict(history=seq, text=t))
                if not ctx.check(same_outcome(got, fresh[t]), "verdict depends on earlier texts",
                                 dict(history=seq, text=t), "%r after others, %r alone" % (got, fresh[t])):
                    break
            ctx.trace()
    del np.zz_canary


# ------------------------------------------------------------------ F. readers
def group_readers(ctx, io):
    import io as pyio
    d = env.scratch()
    names = "a b c".split()

    class Obj(object):
        pass
    texts = ["a = %s" % e for e in STMT_ATOMS] + ["a = 1\nb = [a, 'x']", "", "# nothing\n", "a = 1\r\nb = 2\r\n",
                                                  "a = 'caf\u00e9'", "b = import", "c = eval('1')", "a = (1,\n 2)"]
    for i, t in enumerate(texts):
        p = os.path.join(d, "r%d.py" % i)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(t)
        ch, extra = checker_extra(io)
        base = restricted(io, t, ch)[0]
        for how in ("StringIO", "file"):
            ctx.state((t, how))
            ctx.step()
            if how == "StringIO":
                got = restricted(io, t, checker_extra(io)[0], reader=pyio.StringIO(t))[0]
            else:
                with open(p, encoding="utf-8") as f:
                    got = restricted(io, t, checker_extra(io)[0], reader=f)[0]
            ctx.check(same_outcome(got, base), "reader kind matters", dict(text=t, how=how), "%r / %r" % (got, base))
            ctx.trace()
        # unrestricted reading and copying into an object
        for how in ("text", "StringIO", "file"):
            if "eval" in t or "np." in t:
                continue
            ctx.step()
            want, _ = ordinary(t, {})
            r = t if how == "text" else (pyio.StringIO(t) if how == "StringIO" else open(p, encoding="utf-8"))
            o = Obj()
            got = call(io.copy_attributes_from_text_to_object, r, o, names, {"b": 11})
            if how == "file":
                r.close()
            if isinstance(want, Raised):
                ctx.check(isinstance(got, Raised), "bad text accepted", dict(text=t))
            else:
                exp = {n: want.get(n, 11 if n == "b" else None) for n in names}
                ctx.check(not isinstance(got, Raised) and same_outcome(vars(o), exp), "copied attributes differ",
                          dict(text=t, how=how), "%r %r %r" % (got, vars(o), exp))
            ctx.trace()


def run(ctx):
    io = api()
    for name, fn in (("whitelisted forms", group_forms), ("forbidden statements", group_statements),
                     ("whitelist tables", group_whitelist), ("text histories", group_histories),
                     ("readers", group_readers)):
        if ctx.only and ctx.only not in name:
            continue
        with ctx.group(name):
            if name in ("whitelisted forms", "whitelist tables"):
                fn(ctx, io)
            else:
                fn(ctx, io)
    if not ctx.only or ctx.only in "forbidden payloads":
        with ctx.group("forbidden payloads"):
            ctx.parallel(lambda c, it: group_payloads(c, io, it), PAYLOADS)
    ctx.sample(dict(text="probe = abs(1)\n" + PREPS[5] % "eval" + "\n" + CONTEXTS[4] % "[eval][0]('1')"))
