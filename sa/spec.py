"""Obligations: the part of the analysis that the properties are written in.

A property is a set of cells.  A cell fixes the shape of an input (which parts
are present, which are atoms standing for every value of their kind) and states
what must hold at the end of every path of the code under analysis.  All paths
through the cell are followed by the interpreter; each ends as

  held       the statement holds,
  violated   the statement is false, with the facts of the path as the witness,
  undecided  the analysis could not follow the code, or a fact of the path is
             outside what it can represent.

Only "violated" is ever reported as a violation.
"""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from .core import Interp, lib_pred
from .values import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    def __init__(self, msg, site=None):
        super().__init__(msg)
        self.msg = msg
        self.site = site


class OutOfScope(Exception):
    pass


class Anchor(Exception):
    """A construct the property is about is not in the tree."""


class Out:
    """How a call of the analysed code ends."""

    def __init__(self, value=None, exc=None, site=None):
        self.value, self.exc, self.site = value, exc, site

    @property
    def raised(self):
        return self.exc is not None

    def is_a(self, name):
        return self.exc is not None and any(getattr(c, "name", None) == name for c in self.exc.cls.mro)

    def __repr__(self):
        if self.exc is not None:
            return f"raises {self.exc.cls.name}({', '.join(show(a) for a in self.exc.attrs.get('args', ()))}) at {fmt_site(self.site)}"
        return f"returns {show(self.value)}"


def fmt_site(s):
    return f"{s[0]}:{s[1]} in {s[2]}" if s else "?"


class Cell:
    def __init__(self, ck, label):
        self.ck = ck
        self.I = ck.I
        self.label = label
        self.syms = {}

    # ---------------------------------------------------------------- inputs
    def sym(self, name, kinds="str", **kw):
        if isinstance(kinds, str):
            kinds = (kinds,)
        k = (name, tuple(kinds) if kinds else None, tuple(sorted(kw.items())))
        s = self.syms.get(k)
        if s is None:
            s = self.syms[k] = Sym(name, kinds, **kw)
        return s

    def name(self, n):
        return self.sym(n, "str", clean=True)

    def tname(self, n):
        """A name that is not a keyword of any schema language."""
        return self.sym(n, "str", clean=True, apart=True)

    def pick(self, label, options):
        """Partition the input space: every option is analysed."""
        options = list(options)
        return options[self.I.choose(len(options), label)]

    # ---------------------------------------------------------------- program
    def get(self, path):
        mod, _, attr = path.partition(":")
        m = self.I.module(mod)
        if m is None:
            raise Anchor(f"module {mod} does not exist")
        v = m
        for a in filter(None, attr.split(".")):
            if isinstance(v, Mod):
                if a not in v.env:
                    raise Anchor(f"{mod} does not define {attr}")
                v = v.env[a]
            else:
                v = self.I.getattr(v, a)
        return v

    def run(self, f, *args, **kwargs):
        if isinstance(f, str):
            f = self.get(f)
        try:
            v = self.I.call(f, list(args), kwargs)
            if isinstance(v, Coro):
                v = self.aw(v)
            return Out(v)
        except PyExc as e:
            return Out(None, e.inst, e.site)

    def aw(self, v):
        return self.I.run(v.fn, list(v.args), v.kwargs)

    def meth(self, o, name, *args, **kwargs):
        try:
            f = self.I.getattr(o, name)
        except PyExc as e:
            return Out(None, e.inst, e.site)
        return self.run(f, *args, **kwargs)

    def new(self, path, *args, **kwargs):
        o = self.run(path, *args, **kwargs)
        if o.raised:
            raise Undecided(f"cannot build an input: {path} {o!r}")
        return o.value

    def attr(self, o, name):
        return self.I.canon(self.I.getattr(o, name))

    # ---------------------------------------------------------------- verdicts
    def fail(self, msg, site=None):
        raise Fail(msg, site)

    def require(self, cond, msg, site=None):
        if not cond:
            raise Fail(msg if isinstance(msg, str) else msg(), site)

    def skip(self):
        raise OutOfScope()

    def ok_value(self, out, what=""):
        if out.raised:
            raise Fail(f"{what or 'the call'} {out!r}", out.site)
        return out.value

    def same(self, a, b, what):
        d = diff(self.I, a, b)
        if d:
            raise Fail(f"{what}: {d}")


class Check:
    def __init__(self, pid, tier="quick", seed=1, root="/repo", stubs=HERE + "/stubs"):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.I = Interp(root, stubs)
        self.root = root
        self.cells = {}
        self.violations = []
        self.undecided = {}
        self.paths = 0
        self.scope_out = 0
        self.anchors = []
        self.t0 = time.time()
        self.rules = []
        self.notes = []
        self.sites = set()
        self.budget = 600 if tier == "quick" else 850

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def cell(self, label, fn, max_paths=3000, hooks=None):
        c = Cell(self, label)
        I = self.I
        st = self.cells[label] = {"held": 0, "violated": 0, "undecided": 0}
        stack = [[]]
        seen = set()
        n = 0
        while stack:
            if n >= max_paths or time.time() - self.t0 > self.budget:
                st["undecided"] += len(stack)
                self.und("path limit", label)
                break
            prefix = stack.pop()
            n += 1
            I.reset(prefix)
            I.hooks = dict(hooks or {})
            verdict = "held"
            try:
                fn(c)
                if I.taint:
                    verdict = "undecided"
                    self.und("tainted: " + I.taint, label)
            except Infeasible:
                verdict = None
            except OutOfScope:
                verdict = None
                self.scope_out += 1
            except Undecided as e:
                verdict = "undecided"
                self.und(str(e) + " at " + I.where(), label)
            except Anchor as e:
                verdict = "undecided"
                self.anchors.append(str(e))
            except PyExc as e:
                verdict = "undecided"
                self.und(f"outside a call: {e} at {fmt_site(e.site)}", label)
            except RecursionError:
                verdict = "undecided"
                self.und("recursion", label)
            except Fail as e:
                if I.taint:
                    verdict = "undecided"
                    self.und("tainted: " + I.taint, label)
                else:
                    verdict = "violated"
                    key = (label, e.msg)
                    if key not in seen and len(seen) < 3:
                        seen.add(key)
                        self.violations.append(
                            {
                                "cell": label,
                                "message": e.msg,
                                "site": fmt_site(e.site) if e.site else None,
                                "path": [f"{l} -> {i}" for i, k, l in I.taken],
                                "facts": facts(I),
                                "through": [fmt_site(v) for v in I.visited if not v[0].startswith("<")],
                            }
                        )
            except Exception as e:
                # a construct that the analysis itself stumbles over
                verdict = "undecided"
                self.und(f"internal: {type(e).__name__}: {e}", label)
                if os.environ.get("SA_VERBOSE"):
                    traceback.print_exc()
            finally:
                taken = I.taken
                I.restore()
            if verdict:
                st[verdict] += 1
                self.paths += 1
            for i in range(len(prefix), len(taken)):
                base = [t[0] for t in taken[:i]]
                for alt in range(1, taken[i][1]):
                    stack.append(base + [alt])
        return st

    def und(self, why, label):
        self.undecided.setdefault(why, []).append(label)

    def lint(self, label, ok, msg=None, site=None):
        """An obligation decided directly on the syntax trees."""
        st = self.cells.setdefault(label, {"held": 0, "violated": 0, "undecided": 0})
        self.paths += 1
        if ok is None:
            st["undecided"] += 1
            self.und(msg or "?", label)
        elif ok:
            st["held"] += 1
        else:
            st["violated"] += 1
            self.violations.append({"cell": label, "message": msg, "site": fmt_site(site) if site else None, "path": [], "facts": [], "through": []})


def facts(I):
    out = []
    for k, v in I.bind.items():
        out.append(f"{show(k)} = {show(v)}")
    for k, v in I.neq.items():
        out.append(f"{show(k)} not in {show(v)}")
    for k, v in I.rng.items():
        out.append(f"{show(k)} in {v}")
    for (o, k, a), v in I.pred.items():
        out.append(f"{o}({show(k)}{''.join(', ' + show(x) for x in a)}) = {v}")
    return out[:40]


# ------------------------------------------------------------- comparing values
class X:
    """An expected Recap type."""

    def __init__(self, type_, /, **attrs):
        self.type_ = type_
        self.attrs = attrs

    def but(self, **kw):
        x = X(self.type_, **{**self.attrs, **kw})
        return x

    def __repr__(self):
        return f"{self.type_}({', '.join(f'{k}={show(v) if not isinstance(v, X) else v}' for k, v in self.attrs.items())})"


CLASSES = {
    "null": "NullType",
    "bool": "BoolType",
    "int": "IntType",
    "float": "FloatType",
    "string": "StringType",
    "bytes": "BytesType",
    "list": "ListType",
    "map": "MapType",
    "struct": "StructType",
    "enum": "EnumType",
    "union": "UnionType",
    "proxy": "ProxyType",
}
REQ = object()
CORE = {
    "null": {},
    "bool": {},
    "int": {"bits": REQ, "signed": True},
    "float": {"bits": REQ},
    "string": {"bytes_": None, "variable": True},
    "bytes": {"bytes_": None, "variable": True},
    "list": {"values": REQ, "length": None, "variable": True},
    "map": {"keys": REQ, "values": REQ},
    "struct": {"fields": ()},
    "enum": {"symbols": REQ},
    "union": {"types": REQ},
    "proxy": {},
}
COMMON = {"logical": None, "alias": None, "doc": None}


class Oneof:
    """Any of several values satisfies the property."""

    def __init__(self, *options):
        self.options = options

    def __repr__(self):
        return " or ".join(show(o) if not isinstance(o, X) else repr(o) for o in self.options)


class Anything:
    def __repr__(self):
        return "anything"


ANYTHING = Anything()


def diff(I, a, x, path="", attrs_any=()):
    """None if the value `a` is what `x` says, else where they differ."""
    if isinstance(x, Oneof):
        ds = [diff(I, a, o, path) for o in x.options]
        return None if None in ds else ds[0]
    if isinstance(x, Anything):
        return None
    a = I.canon(a)
    if isinstance(x, X):
        if isinstance(a, (Top, Ext)):
            raise Undecided(f"{path or 'result'} is {a!r}")
        if not isinstance(a, Inst):
            return f"{path or 'result'} is {show(a)} instead of {x!r}"
        want = CLASSES[x.type_]
        if not any(getattr(c, "name", None) == want for c in a.cls.mro):
            return f"{path or 'result'} is {show(a)} instead of {x!r}"
        if a.attrs.get("type_") != x.type_:
            return f"{path or 'result'}.type_ is {show(a.attrs.get('type_'))} instead of {x.type_!r}"
        exp = dict(x.attrs)
        for k, dflt in {**CORE[x.type_], **COMMON}.items():
            v = exp.pop(k, dflt)
            if v is REQ:
                raise Undecided(f"expected type lacks {k}")
            if v is ANYTHING:
                continue
            if k not in a.attrs:
                return f"{path}.{k} is missing"
            d = diff(I, a.attrs[k], v, f"{path}.{k}" if path else k)
            if d:
                return d
        extra = a.attrs.get("extra_attrs")
        if not isinstance(extra, dict):
            return f"{path}.extra_attrs is {show(extra)}"
        extra = {(I.canon(k) if I.is_abs(k) else k): v for k, v in extra.items()}
        for k, v in exp.items():
            if v is ANYTHING:
                extra.pop(k, None)
                continue
            if isinstance(v, Maybe):
                if k in extra:
                    d = diff(I, extra.pop(k), v.value, f"{path}.{k}" if path else k)
                    if d:
                        return d
                continue
            if k not in extra:
                return f"{path or 'result'} has no attribute {k}: {show(a)} instead of {x!r}"
            d = diff(I, extra.pop(k), v, f"{path}.{k}" if path else k)
            if d:
                return d
        if extra:
            return f"{path or 'result'} has unexpected attributes {show(extra)}: {show(a)} instead of {x!r}"
        return None
    if isinstance(x, (list, tuple)) and any(isinstance(e, (X, Oneof, Anything)) for e in x) or (isinstance(x, (list, tuple)) and isinstance(a, (list, tuple))):
        if isinstance(a, (Top, Ext)) or I.is_abs(a):
            raise Undecided(f"{path or 'result'} is {show(a)}")
        if not isinstance(a, (list, tuple)):
            return f"{path or 'result'} is {show(a)} instead of {show(list(x))}"
        if len(a) != len(x):
            return f"{path or 'result'} has {len(a)} items instead of {len(x)}: {show(a)} instead of {show(list(x))}"
        for i, (p, q) in enumerate(zip(a, x)):
            d = diff(I, p, q, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(x, dict):
        if isinstance(a, (Top, Ext)) or I.is_abs(a):
            raise Undecided(f"{path or 'result'} is {show(a)}")
        if not isinstance(a, dict):
            return f"{path or 'result'} is {show(a)} instead of {show(x)}"
        rest = list(a.items())
        for k, v in x.items():
            if isinstance(v, Maybe):
                m = [i for i, (kk, _) in enumerate(rest) if leaf_eq(I, kk, k)]
                if m:
                    d = diff(I, rest.pop(m[0])[1], v.value, f"{path}.{show(k)}")
                    if d:
                        return d
                continue
            m = [i for i, (kk, _) in enumerate(rest) if leaf_eq(I, kk, k)]
            if not m:
                return f"{path or 'result'} has no {show(k)}: {show(a)} instead of {show(x)}"
            d = diff(I, rest.pop(m[0])[1], v, f"{path}.{show(k)}")
            if d:
                return d
        if rest:
            return f"{path or 'result'} has unexpected {show(dict(rest))}: {show(a)} instead of {show(x)}"
        return None
    if isinstance(x, Inst) and isinstance(a, Inst):
        return inst_diff(I, a, x, path)
    if leaf_eq(I, a, x):
        return None
    return f"{path or 'result'} is {show(a)} instead of {show(x)}"


class Maybe:
    """An entry that may be absent."""

    def __init__(self, value=ANYTHING):
        self.value = value

    def __repr__(self):
        return f"maybe {self.value!r}"


def inst_diff(I, a, b, path="", skip=("registry", "_resolved", "_type_registry")):
    """Independent structural comparison of two instances."""
    if a is b:
        return None
    if a.cls is not b.cls:
        return f"{path or 'result'} is {show(a)} instead of {show(b)}"
    if a.cls.enum:
        return f"{path or 'result'} is {show(a)} instead of {show(b)}"
    for k in {**a.attrs, **b.attrs}:
        if k in skip:
            continue
        if k not in a.attrs or k not in b.attrs:
            return f"{path}.{k} is in only one of {show(a)} and {show(b)}"
        d = diff(I, a.attrs[k], b.attrs[k], f"{path}.{k}" if path else k)
        if d:
            return d
    return None


def leaf_eq(I, a, b):
    """Equality of two values without insts; raises Undecided if unknown."""
    a, b = deep(I, a), deep(I, b)
    for v in (a, b):
        if isinstance(v, Top) or (isinstance(v, Ext) and v.res):
            if a is b:
                return True
            if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path and a.args is b.args:
                return True
            raise Undecided(f"comparison of {show(a)} with {show(b)}")
    if isinstance(a, Inst) or isinstance(b, Inst):
        if isinstance(a, Inst) and isinstance(b, Inst):
            return inst_diff(I, a, b) is None
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Inst) and p.cls.enum and any(isinstance(c, BType) for c in p.cls.mro):
                return leaf_eq(I, p.attrs.get("value"), q)
        return False
    aa, ab = I.is_abs(a), I.is_abs(b)
    if not aa and not ab:
        if isinstance(a, JsonText) and isinstance(b, JsonText):
            return diff(I, a.value, b.value) is None
        if isinstance(a, SStr) or isinstance(b, SStr):
            return sstr_eq(I, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return diff(I, a, b) is None
        if isinstance(a, dict) and isinstance(b, dict):
            return diff(I, a, b) is None
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            raise Undecided(f"comparison of {show(a)} with {show(b)}")
    if type(a) is type(b) and (a is b or (isinstance(a, App) and a == b)):
        return True
    ka, kb = I.kinds(a), I.kinds(b)
    num = {"int", "float"}
    if not (ka & kb) and not (ka <= num and kb <= num):
        return False
    if isinstance(a, Sym) and isinstance(b, Sym):
        return False
    if isinstance(a, Sym) and not ab or isinstance(b, Sym) and not aa:
        # an atom that is not bound to a constant takes other values too
        s, c = (a, b) if aa else (b, a)
        if isinstance(c, (str, int, float, bool)) or c is None:
            return not differs_somewhere(I, s, c)
        if isinstance(c, SStr):
            return False
        if isinstance(c, (list, dict)) and not c and I.truthf.get(s) is False:
            return True
        return False
    return not differs_somewhere(I, a, b)


def sstr_eq(I, a, b):
    if a is None or b is None or isinstance(a, (int, float)) or isinstance(b, (int, float)):
        return False  # the other one is a text
    pa = a.parts if isinstance(a, SStr) else (a,)
    pb = b.parts if isinstance(b, SStr) else (b,)
    if isinstance(a, JsonText) or isinstance(b, JsonText):
        raise Undecided("comparison of JSON text")
    if not all(isinstance(x, (str, Sym, App, SStr, int)) for x in pa + pb):
        raise Undecided(f"comparison of {show(a)} with {show(b)}")
    if a == b:
        return True
    for end in (0, -1):
        x, y = pa[end], pb[end]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[:n] != y[:n]) if end == 0 else n and (x[-n:] != y[-n:]):
                return False
    ra, rb = residue(list(pa), list(pb))
    if (not ra and any(isinstance(x, str) for x in rb)) or (not rb and any(isinstance(x, str) for x in ra)):
        return False  # a text is never equal to itself with more text added
    for end in (0, -1):
        if ra and rb and isinstance(ra[end], str) and isinstance(rb[end], str):
            return False
    return not differs_somewhere(I, a, b)


def residue(a, b):
    """What is left of two texts without the parts that begin and end both."""
    for rev in (False, True):
        a, b = a[::-1] if rev else a, b[::-1] if rev else b
        while a and b:
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                n = 0
                m = min(len(x), len(y))
                if rev:
                    while n < m and x[-1 - n] == y[-1 - n]:
                        n += 1
                    x, y = x[: len(x) - n], y[: len(y) - n]
                else:
                    while n < m and x[n] == y[n]:
                        n += 1
                    x, y = x[n:], y[n:]
                a, b = ([x] if x else []) + a[1:], ([y] if y else []) + b[1:]
                if not n:
                    break
            elif isinstance(x, str) or isinstance(y, str) or not (x is y or x == y):
                break
            else:
                a, b = a[1:], b[1:]
        if rev:
            a, b = a[::-1], b[::-1]
    return a, b


def deep(I, v, d=0):
    """Replace bound atoms inside terms."""
    v = I.canon(v)
    if d > 20:
        return v
    if isinstance(v, SStr):
        return I.norm(SStr([deep(I, p, d + 1) for p in v.parts]))
    if isinstance(v, App):
        args = tuple(deep(I, x, d + 1) if isinstance(x, (Sym, App, SStr)) else x for x in v.args)
        if args != v.args:
            r = App(v.op, args, v.kinds, v.clean, v.lo, v.hi)
            e = evaluate(I, r, {})
            return r if e is NO else e
        return v
    return v


NO = object()


def evaluate(I, v, val):
    """The value of a term under a valuation of its atoms; NO if unknown."""
    v = I.canon(v)
    if isinstance(v, Sym):
        return val.get(v, NO)
    if isinstance(v, SStr):
        out = []
        for p in v.parts:
            e = evaluate(I, p, val)
            if e is NO:
                return NO
            out.append(e if isinstance(e, str) else str(e))
        return "".join(out)
    if isinstance(v, App):
        args = [evaluate(I, a, val) if isinstance(a, (Sym, App, SStr)) else a for a in v.args]
        if any(a is NO for a in args):
            return NO
        return apply_op(v.op, args)
    return v


def apply_op(op, args):
    import math
    import re
    import urllib.parse as up

    try:
        a = args[0]
        if op in ("+", "-", "*", "//", "%", "**", "/") and len(args) == 2:
            b = args[1]
            return {
                "+": lambda: a + b,
                "-": lambda: a - b,
                "*": lambda: a * b,
                "//": lambda: a // b,
                "%": lambda: a % b,
                "**": lambda: a**b if abs(b) < 4000 else NO,
                "/": lambda: a / b,
            }[op]()
        if op == "neg":
            return -a
        if op in ("lower", "upper", "title", "capitalize", "casefold", "swapcase"):
            return getattr(a, op)()
        if op in ("strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace"):
            return getattr(a, op)(*args[1:])
        if op == "int":
            return int(a)
        if op == "float":
            return float(a)
        if op == "str":
            return str(a) if isinstance(a, (str, int, float)) else NO
        if op == "len":
            return len(a)
        if op == "round":
            return round(*args)
        if op.startswith("math."):
            return getattr(math, op[5:])(*args)
        if op in ("quote", "quote_plus", "unquote", "unquote_plus"):
            return getattr(up, op)(*args)
        if op == "slice":
            return a[args[1] : args[2] : args[3]]
        if op == "[]" and isinstance(a, str):
            return a[args[1]]
        if op == "re.sub":
            return re.sub(*args[:3])
    except Exception:
        return NO
    return NO


def atoms(v, out):
    if isinstance(v, Sym):
        out.add(v)
    elif isinstance(v, SStr):
        for p in v.parts:
            atoms(p, out)
    elif isinstance(v, App):
        for p in v.args:
            atoms(p, out)


INTS = [1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 18, 19, 28, 31, 32, 33, 38, 39, 63, 64, 65, 76, 100, 127, 128, 200, 255, 256, 1000, 65535, 2147483647, 2147483648, 0, -1, -5]
STRS = ["alpha", "beta", "gamma7", "deltax", "Mixed_Case", "with space", "a/b", "x.y", "", "ünï", "%41", "a+b", "/lead", "k=v", "UPPER"]


def candidates(I, s, k):
    ks = I.kinds(s)
    out = []
    if "str" in ks:
        vals = STRS[:4] if s.clean else STRS
        if s.nonempty:
            vals = [x for x in vals if x]
        out += vals
    if "int" in ks:
        out += INTS
        lo, hi = I.range(s)
        out += [x for x in (lo, hi, None if lo is None else lo + 1, None if hi is None else hi - 1) if x is not None]
    if "float" in ks and "int" not in ks:
        out += [0.5, 2.0]
    if "bool" in ks:
        out += [True, False]
    if "NoneType" in ks:
        out += [None]
    lo, hi = I.range(s)
    good = []
    for c in out:
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            if (lo is not None and c < lo) or (hi is not None and c > hi):
                continue
        if any(type(n) is type(c) and n == c for n in I.neq.get(s, ())):
            continue
        if s in I.truthf and bool(c) != I.truthf[s]:
            continue
        if c not in good:
            good.append(c)
    return good


def differs_somewhere(I, a, b):
    """Is there a valuation that satisfies the facts under which a != b?

    True only with such a valuation; False when the two agree on every valuation
    tried; Undecided when the terms cannot be evaluated.
    """
    at = set()
    atoms(a, at)
    atoms(b, at)
    for (op, k, args), r in I.pred.items():
        ks = set()
        atoms(k, ks)
        for x in args:
            atoms(x, ks)
        if ks & at:
            at |= ks
    at = sorted(at, key=lambda s: s.name)
    import random

    rnd = random.Random(7)
    cands = [candidates(I, s, 0) for s in at]
    if any(not c for c in cands):
        raise Undecided(f"comparison of {show(a)} with {show(b)}")
    tried = known = 0
    for i in range(400):
        if len(at) == 1:
            if i >= len(cands[0]):
                break
            val = {at[0]: cands[0][i]}
        else:
            val = {s: rnd.choice(c) for s, c in zip(at, cands)}
            vals = [v for v in val.values() if isinstance(v, str)]
            if len(set(vals)) != len(vals):
                continue
        ok = True
        for (op, k, args), r in I.pred.items():
            ks = set()
            atoms(k, ks)
            for x in args:
                atoms(x, ks)
            if not ks & set(at):
                continue
            kv = evaluate(I, k, val)
            av = [evaluate(I, x, val) if isinstance(x, (Sym, App, SStr)) else x for x in args]
            if kv is NO or any(x is NO for x in av):
                ok = None
                break
            p = pred_value(op, kv, av)
            if p is None:
                ok = None
                break
            if p != r:
                ok = False
                break
        if ok is False:
            continue
        # ranges and bounds of compound terms
        for t, (lo, hi) in list(I.rng.items()):
            if isinstance(t, App) and ok:
                e = evaluate(I, t, val)
                if e is NO:
                    continue
                if (lo is not None and e < lo) or (hi is not None and e > hi):
                    ok = False
        if ok is False:
            continue
        for t, c in list(I.bind.items()):
            if isinstance(t, App) and ok:
                e = apply_term(I, t, val)
                if e is not NO and e != c:
                    ok = False
        for t, cs in list(I.neq.items()):
            if isinstance(t, App) and ok:
                e = apply_term(I, t, val)
                if e is not NO and e in cs:
                    ok = False
        if ok is False:
            continue
        tried += 1
        x, y = evaluate(I, a, val), evaluate(I, b, val)
        if x is NO or y is NO:
            continue
        known += 1
        if x != y or isinstance(x, bool) != isinstance(y, bool):
            if ok:
                return True
            raise Undecided(f"comparison of {show(a)} with {show(b)}")
    if not known:
        raise Undecided(f"comparison of {show(a)} with {show(b)}")
    return False


def apply_term(I, t, val):
    args = [evaluate(I, a, val) if isinstance(a, (Sym, App, SStr)) else a for a in t.args]
    if any(a is NO for a in args):
        return NO
    return apply_op(t.op, args)


def pred_value(op, v, args):
    if op == "<":
        try:
            return v < args[0]
        except TypeError:
            return None
    if op == "==":
        return v == args[0]
    return lib_pred(op, v, args)


def snapshot(I, v, _memo=None):
    """A deep, immutable picture of a value, to detect modification."""
    memo = _memo if _memo is not None else {}
    if isinstance(v, (Inst, list, dict, set)) and id(v) in memo:
        return ("seen", memo[id(v)])
    if isinstance(v, (Inst, list, dict, set)):
        memo[id(v)] = len(memo)
    if isinstance(v, Inst):
        if v.cls.enum:
            return ("e", id(v))
        return ("i", v.cls.name, tuple((k, snapshot(I, x, memo)) for k, x in sorted(v.attrs.items(), key=lambda e: e[0]) if k not in ("registry", "_resolved")))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(snapshot(I, x, memo) for x in v))
    if isinstance(v, dict):
        return ("d", tuple((k if isinstance(k, (str, int)) else id(k), snapshot(I, x, memo)) for k, x in v.items()))
    if isinstance(v, (str, int, float, bool, bytes)) or v is None:
        return (type(v).__name__, v)
    if isinstance(v, (set, frozenset)):
        return ("s", frozenset(snapshot(I, x, memo) for x in v))
    if isinstance(v, (SStr, App)):
        return v
    return ("o", id(v))


def insts(v, out=None):
    """Every instance reachable from a value."""
    out = {} if out is None else out
    if isinstance(v, Inst):
        if id(v) in out or v.cls.enum:
            return out
        out[id(v)] = v
        for k, x in v.attrs.items():
            if k not in ("registry",):
                insts(x, out)
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            insts(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            insts(x, out)
    return out


# -------------------------------------------------------------- types and facts
def build(C, x):
    """Build the Recap type that `x` describes, with the code's own classes."""
    if isinstance(x, X):
        a = {k: build(C, v) for k, v in x.attrs.items()}
        if x.type_ == "proxy":
            return C.new("recap.types:ProxyType", a.pop("alias"), a.pop("registry"), **a)
        return C.new("recap.types:" + CLASSES[x.type_], **a)
    if isinstance(x, list):
        return [build(C, v) for v in x]
    if isinstance(x, tuple):
        return tuple(build(C, v) for v in x)
    if isinstance(x, dict):
        return {k: build(C, v) for k, v in x.items()}
    return x
