"""A trace-partitioned abstract interpreter for Python source.

The program under analysis is never imported or executed.  Its syntax trees are
interpreted over the abstract values of `values`: a value is either known, or an
atom / term that stands for every value of its kind, refined by facts
(equalities, disequalities, kinds, intervals, truth).  Where a condition is not
determined by the facts, both outcomes are followed and the fact is recorded.
Whatever cannot be followed ends in `Undecided`, never in a verdict.
"""
from __future__ import annotations

import ast
import builtins as hb
import functools
import os
import re
import sys
import threading

from .values import *
from .values import ANY  # noqa

UNIVERSE = frozenset({"str", "int", "float", "bool", "NoneType", "list", "dict"})
STEP_LIMIT = 600_000
DEPTH_LIMIT = 180


class Env:
    __slots__ = ("vars", "parent", "kind", "declared", "globals", "nonlocals", "frame")

    def __init__(self, parent, kind, vars=None):
        self.vars = {} if vars is None else vars
        self.parent = parent
        self.kind = kind
        self.declared = None
        self.globals = ()
        self.nonlocals = ()
        self.frame = parent.frame if parent is not None else None


class Frame:
    __slots__ = ("func", "module", "on_yield", "line", "file", "qual", "self_", "cls", "exc")

    def __init__(self, func, module, file, qual):
        self.func = func
        self.module = module
        self.file = file
        self.qual = qual
        self.line = 0
        self.on_yield = None
        self.self_ = None
        self.cls = None
        self.exc = None


def _scope_info(node):
    """Names bound in a function body, and its global / nonlocal names."""
    bound, glob, nonl = set(), set(), set()
    isgen = False

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bound.add(n.id)

    def visit(n, top=False):
        nonlocal isgen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            bound.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    bound.add(s.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                bound.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            bound.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            bound.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    return frozenset(bound - glob - nonl), frozenset(glob), frozenset(nonl), isgen


TOKEN = re.compile(r"(zq\d{4}qz)|(ZQ\d{4}QZ)|(?<!\d)(61\d{3})(?!\d)")


class Abandoned(Exception):
    """The path ended while a generator was suspended."""


class Suspended:
    """A context manager generator that stays at its yield until it is told to
    go on: it is followed on a thread of its own, only one of the two runs."""

    def __init__(self, I, gen):
        self.I, self.gen = I, gen
        self.here, self.there = threading.Semaphore(0), threading.Semaphore(0)
        self.msg = None
        self.done = False
        self.thread = threading.Thread(target=self.body, daemon=True)

    def body(self):
        self.there.acquire()
        I = self.I
        try:
            if isinstance(self.order, Abandoned):
                raise self.order
            I.frames, I.depth = self.frames, self.depth
            n = [0]

            def on_yield(v):
                n[0] += 1
                if n[0] > 1:
                    I.throw("RuntimeError", "generator didn't stop")
                self.frames, self.depth = I.frames, I.depth
                self.msg = ("yield", v)
                self.here.release()
                self.there.acquire()
                I.frames, I.depth = self.frames, self.depth
                if self.order is not None:
                    raise self.order
                return None

            I.run(self.gen.fn, self.gen.args, self.gen.kwargs, on_yield)
            self.msg = ("return", None)
        except BaseException as e:
            self.msg = ("raise", e)
        self.done = True
        self.here.release()

    def go(self, order):
        I = self.I
        frames, depth = I.frames, I.depth
        self.order = order
        self.there.release()
        self.here.acquire()
        I.frames, I.depth = frames, depth
        return self.msg

    def enter(self):
        I = self.I
        self.frames, self.depth = list(I.frames), I.depth
        old = threading.stack_size(64 * 1024 * 1024)
        self.thread.start()
        threading.stack_size(old)
        I.suspended.append(self)
        how, v = self.go(None)
        if how == "raise":
            raise v
        if how == "return":
            I.throw("RuntimeError", "generator didn't yield")
        return v

    def exit(self, exc):
        if self.done:
            raise Undecided("a context manager left twice")
        how, v = self.go(exc)
        if how == "raise":
            if v is exc:
                return False
            raise v
        return exc is not None

    def kill(self):
        if not self.done:
            self.go(Abandoned())


class Interp:
    def __init__(self, root, stubs):
        self.trees = {}
        self.copies = []  # further copies of the program modules, each a process of its own
        self.root = root
        self.stubs = stubs
        self.modules = {}
        self.loading = 0
        self.scope_cache = {}
        self.cov_funcs = set()
        self.visited = {}
        self.cov_lines = set()
        self.cov_calls = set()
        self.btypes = {}
        self.exc_cache = {}
        self.stdlib = {}
        self.toks = {}
        self.ntoks = {}
        self.tokn = 0
        self.ntokn = 0
        self.hooks = {}
        self.reset([])
        from . import lib

        lib.install(self)

    # ------------------------------------------------------------------ paths
    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.suspended = []
        self.bind = {}
        self.neq = {}
        self.rng = {}
        self.kindf = {}
        self.truthf = {}
        self.pred = {}
        self.trace = []
        self.notes = []
        self.taint = None
        self.journal = {}
        self.steps = 0
        self.frames = []
        self.caches = {}
        self.copies_used = 0
        self.depth = 0
        self.visited = {}

    def restore(self):
        for g in self.suspended:
            g.kill()
        self.suspended = []
        for c, old in self.journal.values():
            if isinstance(c, list):
                c[:] = old
            else:
                c.clear()
                c.update(old)
        self.journal = {}

    def mut(self, c):
        if self.loading:
            return
        k = id(c)
        if k not in self.journal:
            self.journal[k] = (c, c.copy())

    def choose(self, n, label=""):
        if n <= 1:
            return 0
        pos = len(self.taken)
        i = self.prefix[pos] if pos < len(self.prefix) else 0
        self.taken.append((i, n, label))
        return i

    def fork(self, label):
        """Follow both outcomes; the first is True."""
        return self.choose(2, label) == 0

    def tainted(self, why):
        if self.taint is None:
            self.taint = f"{why} at {self.where()}"

    def where(self):
        if not self.frames:
            return "?"
        f = self.frames[-1]
        return f"{f.file}:{f.line} ({f.qual})"

    def site(self):
        if not self.frames:
            return None
        # innermost frame that is repository code
        for f in reversed(self.frames):
            if f.file and not f.file.startswith("<"):
                return (f.file, f.line, f.qual)
        f = self.frames[-1]
        return (f.file, f.line, f.qual)

    def event(self, kind, *payload):
        self.trace.append((kind,) + payload + (self.site(),))

    # ------------------------------------------------------------- exceptions
    def exc_class(self, name):
        c = self.exc_cache.get(name)
        if c is None:
            h = getattr(hb, name)
            bases = [self.exc_class(b.__name__) for b in h.__bases__ if b is not object]
            c = Cls(name, bases, {}, "builtins")
            c.exc = True
            c.mro = [c]
            for b in bases:
                c.mro += [x for x in b.mro if x not in c.mro]
            self.exc_cache[name] = c
        return c

    def throw(self, name, *args):
        c = self.exc_class(name) if isinstance(name, str) else name
        e = Inst(c, self.site())
        e.attrs["args"] = tuple(args)
        raise PyExc(e, self.site())

    # ------------------------------------------------------------------ facts
    def canon(self, v):
        t = type(v)
        if t is Sym or t is App:
            n = 0
            while (type(v) is Sym or type(v) is App) and v in self.bind and n < 20:
                v = self.bind[v]
                n += 1
            if type(v) is App and self.bind:
                return self.refold(v)
            return v
        return v

    def refold(self, v):
        """A term whose atoms are all known by now is a constant."""
        args, new = [], False
        for a in v.args:
            if type(a) is Sym or type(a) is App:
                c = self.canon(a)
                if c is not a:
                    new = True
                    if type(c) is Sym or type(c) is App:
                        return v
                a = c
            args.append(a)
        if not new or any(type(a) in (Sym, App, SStr) for a in args):
            return v
        from .spec import NO, apply_op

        e = apply_op(v.op, args)
        return v if e is NO else e

    def kinds(self, v):
        v = self.canon(v)
        t = type(v)
        if t is Sym or t is App:
            k = self.kindf.get(v)
            if k is None:
                k = v.kinds
            return k if k is not None else UNIVERSE
        if t is SStr or t is JsonText:
            return frozenset({"str"})
        if v is None:
            return frozenset({"NoneType"})
        if isinstance(v, list):
            return frozenset({"list"})
        if isinstance(v, dict):
            return frozenset({"dict"})
        return frozenset({t.__name__})

    def is_abs(self, v):
        t = type(v)
        return t is Sym or t is App

    def restrict(self, v, kinds):
        k = self.kinds(v) & kinds
        if not k:
            raise Infeasible()
        self.kindf[v] = k
        if k == {"NoneType"}:
            self.assume_eq(v, None)

    def assume_eq(self, v, c):
        """Record that the atom or term `v` is the constant `c`."""
        for x in self.neq.get(v, ()):
            if type(x) is type(c) and x == c:
                raise Infeasible()
        tv = self.truthf.get(v)
        if tv is not None and bool(c) != tv:
            raise Infeasible()
        lo, hi = self.range(v)
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            if (lo is not None and c < lo) or (hi is not None and c > hi):
                raise Infeasible()
        self.bind[v] = c
        # predicates that were decided earlier must agree with the constant
        for (op, t, a), r in list(self.pred.items()):
            if t is v or t == v:
                f = lib_pred(op, c, a)
                if f is not None and f != r:
                    raise Infeasible()

    def range(self, v):
        return self.rng.get(v, (getattr(v, "lo", None), getattr(v, "hi", None)))

    def ask_kind(self, v, name, label=None):
        """Is the abstract value `v` of kind `name`?  Follows both answers."""
        k = self.kinds(v)
        inside = k & ({name, "bool"} if name == "int" else {name})
        if not inside:
            return False
        if inside == k:
            return True
        if self.fork(label or f"{v!r} is {name}"):
            self.restrict(v, inside)
            return True
        self.restrict(v, k - inside)
        return False

    def is_none(self, v):
        v = self.canon(v)
        if v is None:
            return True
        if self.is_abs(v):
            return self.ask_kind(v, "NoneType", f"{v!r} is None")
        if isinstance(v, Ext):
            if v.res:
                self.tainted(f"{v!r} compared with None")
                return not self.pred_fork("isnotnone", v, ())
            return False
        if isinstance(v, Top):
            self.tainted("unknown value compared with None")
            return self.fork("unknown is None")
        return False

    def pred_fork(self, op, v, args):
        k = (op, v, args)
        try:
            if k in self.pred:
                return self.pred[k]
        except TypeError:
            k = (op, freeze(v), freeze(args))
            if k in self.pred:
                return self.pred[k]
        r = self.implied(op, v, args)
        if r is None:
            r = self.fork(f"{op}({show(v)}{''.join(', ' + show(a) for a in args)})")
        self.pred[k] = r
        return r

    def implied(self, op, v, args):
        """Prefix facts decide other prefix questions about the same string."""
        if op == "startswith" and isinstance(args[0], str):
            for (o, t, a), r in self.pred.items():
                if o == "startswith" and t == v and isinstance(a[0], str):
                    if r and a[0].startswith(args[0]):
                        return True
                    if r and not args[0].startswith(a[0]):
                        return False
                    if not r and args[0].startswith(a[0]):
                        return False
        return None

    def truth(self, v):
        v = self.canon(v)
        t = type(v)
        if v is None or isinstance(v, (bool, int, str, list, dict, tuple, float, set, bytes, frozenset, range)):
            return bool(v)
        if t is Sym or t is App:
            k = self.kinds(v)
            if k == {"NoneType"}:
                return False
            if v in self.truthf:
                return self.truthf[v]
            if "NoneType" in k and self.ask_kind(v, "NoneType", f"{v!r} is None"):
                return False
            v = self.canon(v)
            if not self.is_abs(v):
                return bool(v)
            k = self.kinds(v)
            if v.nonempty and k <= {"str", "list", "dict", "bytes"}:
                return True
            lo, hi = self.range(v)
            if k <= {"int", "float"} and ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
                return True
            if k & {"Inst"}:
                return True
            if self.fork(f"bool({v!r})"):
                self.truthf[v] = True
                return True
            self.truthf[v] = False
            zero = {"str": "", "int": 0, "bool": False, "float": 0.0}
            if len(k) == 1 and next(iter(k)) in zero:
                self.assume_eq(v, zero[next(iter(k))])
            return False
        if t is SStr:
            for p in v.parts:
                if isinstance(p, str) and p:
                    return True
                if not isinstance(p, str) and (p.nonempty or self.kinds(p) <= {"int", "float"}):
                    return True
            for p in v.parts:
                if self.truth(p):
                    return True
            return False
        if t is Inst:
            if v.cls.enum and not any(isinstance(b, BType) for b in v.cls.mro):
                return True
            for n in ("__bool__", "__len__"):
                f = v.cls.find(n)
                if f:
                    return self.truth(self.call(self.getattr(v, n), [], {}))
            return True
        if t is Ext:
            if not v.res:
                return True
            self.tainted(f"{v!r} used as a condition")
            return self.pred_fork("bool", v, ())
        if t is Top:
            self.tainted("unknown value used as a condition")
            return self.fork("unknown")
        if isinstance(v, Model):
            f = getattr(v, "truth", None)
            return f(self) if f else True
        if t is Iter:
            return True
        return True

    # --------------------------------------------------------------- equality
    def eq(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is Top or tb is Top:
            self.tainted("unknown value compared")
            return self.fork("unknown ==")
        if ta is Inst or tb is Inst:
            return self.inst_eq(a, b)
        aa, ab = self.is_abs(a), self.is_abs(b)
        if aa or ab:
            if ta is tb and a == b:
                return True
            if not aa:
                a, b, aa, ab, ta, tb = b, a, ab, aa, tb, ta
            # a is abstract
            if ta is App and isinstance(b, str) and a.op in ("slice", "[]"):
                r = self.affix_eq(a, b)
                if r is not None:
                    return r
            if ta is App and isinstance(b, str) and a.op == "quote_plus" and len(a.args) == 1:
                import urllib.parse as up

                x = up.unquote_plus(b)
                return up.quote_plus(x) == b and self.eq(a.args[0], x)
            if ab:
                if not (self.kinds(a) & self.kinds(b)):
                    return False
                if ta is Sym and tb is Sym:
                    return False  # distinct atoms are in general position
                if a.apart or b.apart:
                    return False
                return self.pred_fork("==", a, (b,))
            if tb is SStr:
                if "str" not in self.kinds(a):
                    return False
                return self.pred_fork("==", a, (b,)) if ta is App else False
            if isinstance(b, (Ext, Model, Cls, Func, Native, BType, JsonText, Mod)):
                return False
            kb = "NoneType" if b is None else tb.__name__
            if b is None:
                return self.ask_kind(a, "NoneType")
            ka = self.kinds(a)
            numeric = {"int", "float", "bool"}
            if kb in numeric:
                if not ka & numeric:
                    return False
            elif kb not in ka:
                return False
            if isinstance(b, (list, dict, tuple, set)):
                if a.apart:
                    return False
                if not b:
                    if self.ask_kind(a, kb):
                        return not self.truth(a)
                    return False
                return self.pred_fork("==", a, (b,))
            if a.apart:
                return False
            for x in self.neq.get(a, ()):
                if type(x) is tb and x == b:
                    return False
            lo, hi = self.range(a)
            if kb in numeric and not isinstance(b, bool):
                if (lo is not None and b < lo) or (hi is not None and b > hi):
                    return False
            if isinstance(b, str) and b == "" and a.nonempty:
                return False
            if a in self.truthf and self.truthf[a] != bool(b):
                return False
            # earlier predicates
            for (op, t, ar), r in self.pred.items():
                if t is a or t == a:
                    f = lib_pred(op, b, ar)
                    if f is not None and f != r:
                        return False
            if self.fork(f"{a!r} == {b!r}"):
                if kb in ka:
                    self.restrict(a, frozenset({kb}))
                self.assume_eq(a, b)
                return True
            self.neq.setdefault(a, []).append(b)
            self.neq[a] = list(self.neq[a])
            if kb == "bool" and ka == {"bool"}:
                self.assume_eq(a, not b)
            if kb == "int" and lo is not None and b == lo:
                self.rng[a] = (lo + 1, hi)
            if kb == "int" and hi is not None and b == hi:
                self.rng[a] = (self.range(a)[0], hi - 1)
            return False
        if ta is SStr or tb is SStr:
            if ta is SStr and tb is SStr:
                pa, pb = self.norm(a), self.norm(b)
                return type(pa) is type(pb) and pa == pb
            s = a if ta is SStr else b
            o = b if ta is SStr else a
            s = self.norm(s)
            if isinstance(s, str):
                return s == o
            if isinstance(o, str) and isinstance(s, SStr):
                p0, p1 = s.parts[0], s.parts[-1]
                if isinstance(p0, str) and not o.startswith(p0):
                    return False
                if isinstance(p1, str) and not o.endswith(p1):
                    return False
                return False  # general position
            return False
        if isinstance(a, (list, tuple)) and ta is tb:
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(list(a), list(b)))
        if ta is dict and tb is dict:
            if len(a) != len(b):
                return False
            for k, x in list(a.items()):
                h = self.dget(b, k)
                if h is None or not self.eq(x, h[0]):
                    return False
            return True
        if isinstance(a, (Cls, Func, Ext, Model, Native, BType, JsonText, Bound, Mod, Iter)) or isinstance(
            b, (Cls, Func, Ext, Model, Native, BType, JsonText, Bound, Mod, Iter)
        ):
            if isinstance(a, Model) and hasattr(a, "equals"):
                return a.equals(self, b)
            if isinstance(b, Model) and hasattr(b, "equals"):
                return b.equals(self, a)
            if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path and not a.res:
                return True
            if (isinstance(a, Ext) and a.res) or (isinstance(b, Ext) and b.res):
                self.tainted("external value compared")
                return self.fork("external ==")
            if isinstance(a, JsonText) and isinstance(b, JsonText):
                return self.eq(a.value, b.value)
            return False
        try:
            return bool(a == b)
        except RecursionError:
            raise Undecided("comparison too deep")

    def affix_eq(self, a, b):
        """s[:k] == literal, s[-k:] == literal, s[0] == literal: questions about prefix or suffix."""
        if a.op == "slice":
            o, lo, hi, st = a.args
            lo, hi = self.canon(lo), self.canon(hi)
            if st is not None or isinstance(lo, bool) or isinstance(hi, bool):
                return None
            if (lo is None or lo == 0) and isinstance(hi, int) and hi > 0:
                k, op = hi, "startswith"
            elif hi is None and isinstance(lo, int) and lo < 0:
                k, op = -lo, "endswith"
            else:
                return None
        else:
            o, k = a.args
            k = self.canon(k)
            if k == 0 and not isinstance(k, bool):
                k, op = 1, "startswith"
            elif k == -1:
                k, op = 1, "endswith"
            else:
                return None
            if len(b) != 1:
                return False
        if not self.kinds(o) <= {"str"}:
            return None
        if len(b) > k:
            return False
        if len(b) < k:
            return self.eq(o, b)
        return self.truth(self.call(self.getattr(o, op), [b], {}))

    def inst_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if type(x) is Inst:
                f = x.cls.find("__eq__")
                if f:
                    r = self.call(self.getattr(x, "__eq__"), [y], {})
                    if isinstance(r, Ext) and r.path == "NotImplemented":
                        continue
                    return self.truth(r)
                if x.cls.dc is not None and x.cls.dc.get("eq", True):
                    if type(y) is Inst and y.cls is x.cls:
                        return all(self.eq(x.attrs.get(n), y.attrs.get(n)) for n in x.cls.dc["order"])
                    return False
                if x.cls.enum:
                    if any(isinstance(c, BType) for c in x.cls.mro):
                        if type(y) is Inst and y.cls.enum:
                            return x is y
                        return self.eq(x.attrs.get("value"), y)
                    return x is y
        return a is b

    def compare(self, op, a, b):
        a, b = self.canon(a), self.canon(b)
        num = (int, float, bool)
        if isinstance(a, num) and isinstance(b, num) or (isinstance(a, str) and isinstance(b, str)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        for x in (a, b):
            if isinstance(x, Top) or isinstance(x, Ext):
                self.tainted("unknown value compared")
                return self.fork("unknown " + op)
        for x in (a, b):
            if x is None or (self.is_abs(x) and self.ask_kind(x, "NoneType")):
                self.throw("TypeError", f"'{op}' not supported")
        a, b = self.canon(a), self.canon(b)
        if isinstance(a, num) and isinstance(b, num):
            return self.compare(op, a, b)
        ka, kb = self.kinds(a), self.kinds(b)
        n3 = {"int", "float", "bool"}
        if (ka <= n3) != (kb <= n3) and not (ka & kb) and not ((ka & n3) and (kb & n3)):
            self.throw("TypeError", f"'{op}' not supported between instances")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.compare(op, x, y)
            return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
        if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
            A, B = [list(x) for x in (a, b)]
            if op == "<=":
                return all(any(self.eq(x, y) for y in B) for x in A)
            if op == ">=":
                return all(any(self.eq(x, y) for y in A) for x in B)
            if op == "<":
                return self.compare("<=", a, b) and not self.compare(">=", a, b)
            return self.compare(">=", a, b) and not self.compare("<=", a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            m = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            if isinstance(a, Inst) and a.cls.find(m):
                return self.truth(self.call(self.getattr(a, m), [b], {}))
            if isinstance(a, Inst) and isinstance(b, Inst) and a.cls.enum and b.cls.enum:
                return self.compare(op, a.attrs.get("value"), b.attrs.get("value"))
            self.throw("TypeError", f"'{op}' not supported")
        if self.is_abs(a) and isinstance(b, (int, float)):
            return self.cmp_const(op, a, b)
        if self.is_abs(b) and isinstance(a, (int, float)):
            return self.cmp_const({"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op], b, a)
        if self.same(a, b):
            return op in ("<=", ">=")
        # two unknowns: one fact for both directions
        if op in (">", "<="):
            r = self.lt(b, a)
            return r if op == ">" else not r
        r = self.lt(a, b)
        return r if op == "<" else not r

    def same(self, a, b):
        return type(a) is type(b) and (a is b or (isinstance(a, (App, SStr)) and a == b))

    def lt(self, a, b):
        la, ha = self.range(a) if self.is_abs(a) else (a, a) if isinstance(a, (int, float)) else (None, None)
        lb, hb_ = self.range(b) if self.is_abs(b) else (b, b) if isinstance(b, (int, float)) else (None, None)
        if ha is not None and lb is not None and ha < lb:
            return True
        if la is not None and hb_ is not None and la >= hb_:
            return False
        k = ("<", a, (b,))
        if k in self.pred:
            return self.pred[k]
        k2 = ("<", b, (a,))
        if self.pred.get(k2):
            return False
        # transitivity over the facts known so far
        if self._reach(a, b):
            return True
        if self._reach(b, a):
            return False
        r = self.fork(f"{show(a)} < {show(b)}")
        self.pred[k] = r
        if not r and (type(a) is Sym and type(b) is Sym):
            self.pred[k2] = True  # distinct atoms
        return r

    def _reach(self, a, b, seen=()):
        for (o, x, y), r in self.pred.items():
            if o == "<" and r and self.same(x, a) and len(y) == 1:
                if self.same(y[0], b):
                    return True
                if not any(self.same(y[0], s) for s in seen) and self._reach(y[0], b, seen + (a,)):
                    return True
        return False

    def cmp_const(self, op, a, c):
        lo, hi = self.range(a)
        integral = self.kinds(a) <= {"int", "bool"}
        if op in (">", "<="):
            # a > c  vs  a <= c
            if hi is not None and hi <= c:
                gt = False
            elif lo is not None and lo > c:
                gt = True
            elif not integral:
                gt = self.pred_fork(">", a, (c,))
            else:
                k = c if isinstance(c, int) else int(c // 1)
                gt = not self.fork(f"{a!r} <= {c}")
                if gt:
                    self.rng[a] = (k + 1, hi)
                else:
                    self.rng[a] = (lo, k)
                self.pin(a)
            return gt if op == ">" else not gt
        if lo is not None and lo >= c:
            lt = False
        elif hi is not None and hi < c:
            lt = True
        elif not integral:
            lt = self.pred_fork("<c", a, (c,))
        else:
            import math

            k = math.ceil(c)
            lt = self.fork(f"{a!r} < {c}")
            if lt:
                self.rng[a] = (lo, k - 1)
            else:
                self.rng[a] = (k, hi)
            self.pin(a)
        return lt if op == "<" else not lt

    def pin(self, a):
        lo, hi = self.range(a)
        if lo is not None and lo == hi:
            self.assume_eq(a, lo)
        if isinstance(a, App) and a.op in ("+", "-") and len(a.args) == 2 and isinstance(a.args[1], int) and self.is_abs(a.args[0]):
            # refine the operand as well
            d = a.args[1] if a.op == "+" else -a.args[1]
            x = a.args[0]
            xl, xh = self.range(x)
            nl = None if lo is None else lo - d
            nh = None if hi is None else hi - d
            nl = xl if nl is None else nl if xl is None else max(nl, xl)
            nh = xh if nh is None else nh if xh is None else min(nh, xh)
            if nl is not None and nh is not None and nl > nh:
                raise Infeasible()
            self.rng[x] = (nl, nh)

    # ------------------------------------------------------------ dictionaries
    def hkey(self, k):
        k = self.canon(k)
        if isinstance(k, SStr):
            k = self.norm(k)
        if isinstance(k, (list, dict, set)):
            self.throw("TypeError", "unhashable type")
        if isinstance(k, Inst) and k.cls.enum and any(isinstance(c, BType) for c in k.cls.mro):
            return k
        if isinstance(k, Top):
            raise Undecided("unknown dictionary key")
        return k

    def dget(self, d, k):
        """Look up `k`: None if absent, else a one-tuple of the value."""
        k = self.hkey(k)
        if isinstance(k, tuple):
            if k in d:
                return (d[k],)
            for kk in d:
                if isinstance(kk, tuple) and self.eq(kk, k):
                    return (d[kk],)
            return None
        if k in d:
            if not (isinstance(k, (int, float)) and not isinstance(k, bool)) or True:
                return (d[k],)
        if isinstance(k, Inst):
            if k.cls.enum and any(isinstance(c, BType) for c in k.cls.mro):
                v = k.attrs.get("value")
                return (d[v],) if isinstance(v, (str, int)) and v in d else None
            if k.cls.find("__eq__") and k.cls.find("__hash__"):
                for kk in d:
                    if isinstance(kk, Inst) and self.eq(kk, k):
                        return (d[kk],)
            return None
        if self.is_abs(k):
            for kk in d:
                if type(kk) in (str, int, bool, float, bytes) or kk is None:
                    if self.eq(k, kk):
                        return (d[kk],)
                elif self.is_abs(kk) or isinstance(kk, SStr):
                    if self.eq(k, kk):
                        return (d[kk],)
                elif isinstance(kk, Inst) and kk.cls.enum and any(isinstance(c, BType) for c in kk.cls.mro):
                    if self.eq(k, kk.attrs.get("value")):
                        return (d[kk],)
            return None
        if isinstance(k, str):
            for kk in d:
                if isinstance(kk, Inst) and kk.cls.enum and kk.attrs.get("value") == k and any(isinstance(c, BType) for c in kk.cls.mro):
                    return (d[kk],)
        for kk in d:
            # a key that is known to be this constant by now
            if self.is_abs(kk) and kk in self.bind and self.bind[kk] == k and type(self.bind[kk]) is type(k):
                return (d[kk],)
        return None

    def dkey(self, d, k):
        """The key of `d` that equals `k`, or `k` itself."""
        k = self.hkey(k)
        if isinstance(k, tuple) or self.is_abs(k):
            if k in d:
                return k
            for kk in d:
                if (isinstance(kk, tuple) and isinstance(k, tuple)) or (self.is_abs(k) and kk in self.bind and self.bind[kk] == k):
                    if self.eq(kk, k):
                        return kk
            return k
        if k not in d:
            for kk in d:
                if self.is_abs(kk) and kk in self.bind and self.bind[kk] == k:
                    return kk
        return k

    def dset(self, d, k, v):
        self.mut(d)
        d[self.dkey(d, k)] = v

    # ----------------------------------------------------------------- strings
    def mkstr(self, parts):
        out = []
        for p in parts:
            p = self.canon(p)
            if isinstance(p, SStr):
                for q in p.parts:
                    q = self.canon(q)
                    if isinstance(q, (int,)) and not isinstance(q, bool):
                        q = str(q)
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    elif q != "" or not isinstance(q, str):
                        out.append(q)
                continue
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            p = out[0]
            if isinstance(p, str):
                return p
            if self.is_abs(p) and self.kinds(p) <= {"str"}:
                return p
        return SStr(out)

    def norm(self, s):
        return self.mkstr(s.parts) if isinstance(s, SStr) else s

    def token(self, v):
        if v.tok is None or (v.tok in self.toks and self.toks[v.tok] is not v and self.toks[v.tok] != v) or v.tok not in self.toks:
            if self.kinds(v) <= {"int"}:
                self.ntokn = (self.ntokn % 899) + 1
                v.tok = str(61000 + self.ntokn)
            else:
                self.tokn = (self.tokn % 9998) + 1
                v.tok = f"zq{self.tokn:04d}qz"
            self.toks[v.tok] = v
        return v.tok

    class NotClean(Exception):
        pass

    def encode(self, v):
        """A host value in which clean atoms are replaced by unique tokens."""
        v = self.canon(v)
        if isinstance(v, (str, int, float, bool, bytes)) or v is None:
            return v
        if isinstance(v, SStr):
            return "".join(p if isinstance(p, str) else str(self.encode(p)) for p in map(self.canon, v.parts))
        if self.is_abs(v):
            k = self.kinds(v)
            if v.clean or (k <= {"int"}):
                t = self.token(v)
                return int(t) if k <= {"int"} else t
            raise Interp.NotClean(repr(v))
        if isinstance(v, (list, tuple)):
            return type(v)(self.encode(x) for x in v)
        if isinstance(v, dict):
            return {self.encode(k): self.encode(x) for k, x in v.items()}
        if isinstance(v, (set, frozenset)):
            return type(v)(self.encode(x) for x in v)
        if isinstance(v, Inst) and v.cls.enum and isinstance(v.attrs.get("value"), str):
            return v.attrs["value"]
        raise Interp.NotClean(repr(v))

    def decode(self, v):
        if isinstance(v, str):
            if "zq" not in v and "ZQ" not in v and "61" not in v:
                return v
            parts, pos = [], 0
            for m in TOKEN.finditer(v):
                t = m.group(0)
                a = self.toks.get(t.lower())
                if a is None:
                    continue
                parts.append(v[pos : m.start()])
                if m.group(2):
                    a = App("upper", (a,), ("str",), clean=True)
                parts.append(a)
                pos = m.end()
            parts.append(v[pos:])
            rest = "".join(p for p in parts if isinstance(p, str))
            if "zq" in rest.lower() or "qz" in rest.lower():
                raise Undecided("part of an unknown string")
            return self.mkstr(parts)
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int) and 61000 < v < 62000:
            return self.toks.get(str(v), v)
        if isinstance(v, (list, tuple)):
            return type(v)([self.decode(x) for x in v]) if type(v) in (list, tuple) else tuple(self.decode(x) for x in v)
        if isinstance(v, dict):
            return {self.decode(k): self.decode(x) for k, x in v.items()}
        if isinstance(v, (set, frozenset)):
            return type(v)(self.decode(x) for x in v)
        return v

    def hashable(self, v):
        v = self.canon(v)
        if isinstance(v, SStr):
            return self.norm(v)
        return v

    # ----------------------------------------------------------------- modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = name.replace(".", "/")
        for base, tag in ((self.root, ""), (self.stubs, "<stub>/")):
            for cand in (f"{base}/{path}.py", f"{base}/{path}/__init__.py"):
                if os.path.isfile(cand):
                    return self.load(name, cand, tag + os.path.relpath(cand, base))
        if name in self.stdlib:
            m = Mod(name, self.stdlib[name], "<lib>")
            self.modules[name] = m
            return m
        for base in (self.root, self.stubs):
            if os.path.isdir(f"{base}/{path}"):
                m = Mod(name, {}, f"<ns>")
                self.modules[name] = m
                return m
        return None

    def load(self, name, file, rel):
        with open(file) as f:
            src = f.read()
        tree = self.trees.get(file)
        if tree is None:
            tree = self.trees[file] = ast.parse(src, rel)
        m = Mod(name, {}, rel)
        m.env["__name__"] = name
        m.env["__file__"] = "/" + rel
        m.tree = tree
        m.is_pkg = file.endswith("__init__.py")
        self.modules[name] = m
        if "." in name:
            parent, _, last = name.rpartition(".")
            p = self.module(parent)
            if p is not None:
                p.env.setdefault(last, m)
        env = Env(None, "module", m.env)
        fr = Frame(None, m, rel, "<module>")
        env.frame = fr
        saved = (self.frames, self.taken, self.prefix, self.trace, self.steps, self.depth)
        self.frames, self.taken, self.prefix, self.trace = [fr], [], [], []
        self.loading += 1
        try:
            for st in tree.body:
                try:
                    self.stmt(st, env)
                except Undecided as u:
                    self.poison(st, m, u)
            if self.taken:
                self.notes.append(f"module {name} depends on unknown values")
        except BaseException:
            self.modules.pop(name, None)
            self.frames, self.taken, self.prefix, self.trace, self.steps, self.depth = saved
            raise
        finally:
            self.loading -= 1
        self.frames, self.taken, self.prefix, self.trace, self.steps, self.depth = saved
        return m

    def poison(self, st, m, u):
        """A module-level statement that cannot be followed: the names it
        binds or could change are unknown from here on."""
        why = f"{m.file}:{st.lineno}: {u}"
        self.notes.append(why)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names = {st.name} | {x.id for d in st.decorator_list for x in ast.walk(d) if isinstance(x, ast.Name)}
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            names = {(a.asname or a.name).split(".")[0] for a in st.names}
        else:
            names = {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
        for n in names:
            if n in m.env or not (isinstance(st, ast.Expr) or n in vars(hb)):
                m.env[n] = Poison(why)

    def import_(self, name):
        m = self.module(name)
        if m is None:
            return Ext(name)
        return m

    available = None  # third-party packages that are installed; None: all

    def import_chain(self, name):
        """`import a.b.c`: bind a, load every package on the way."""
        parts = name.split(".")
        if self.available is not None and parts[0] not in self.available and parts[0] not in sys.stdlib_module_names and parts[0] not in ("recap", "recap_analysis"):
            fr = self.frames[-1] if self.frames else None
            if fr is not None and not str(fr.file).startswith("<stub>"):
                self.throw("ModuleNotFoundError", f"No module named {parts[0]!r}")
        top = self.import_(parts[0])
        cur = top
        for i in range(1, len(parts)):
            full = ".".join(parts[: i + 1])
            nxt = self.module(full)
            if nxt is None:
                if isinstance(cur, Mod) and parts[i] not in cur.env:
                    if cur.file and not cur.file.startswith("<"):
                        self.throw("ModuleNotFoundError", f"No module named {full!r}")
                    cur.env[parts[i]] = Ext(full)
            elif isinstance(cur, Mod):
                cur.env.setdefault(parts[i], nxt)
            cur = nxt if nxt is not None else Ext(full)
        return top, cur

    # -------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Undecided("step limit")
        fr = env.frame
        fr.line = s.lineno
        self.cov_lines.add((fr.file, s.lineno))
        getattr(self, "s_" + type(s).__name__)(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        pass

    def s_Nonlocal(self, s, env):
        pass

    def s_Break(self, s, env):
        raise BreakSig()

    def s_Continue(self, s, env):
        raise ContinueSig()

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value else None
        raise ReturnSig(v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.owner(env, t.id)
                self.mut(e.vars)
                if t.id not in e.vars:
                    self.throw("NameError", t.id)
                del e.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.canon(self.ev(t.value, env))
                k = self.ev(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst):
                    self.mut(o.attrs)
                    if t.attr not in o.attrs:
                        self.throw("AttributeError", t.attr)
                    del o.attrs[t.attr]
                else:
                    raise Undecided("del attribute")

    def delitem(self, o, k):
        if isinstance(o, dict):
            if self.dget(o, k) is None:
                self.throw("KeyError", k)
            self.mut(o)
            del o[self.dkey(o, k)]
        elif isinstance(o, list):
            self.mut(o)
            try:
                if isinstance(k, Slice):
                    del o[slice(k.a, k.b, k.c)]
                else:
                    del o[k]
            except IndexError:
                self.throw("IndexError", "list assignment index out of range")
        elif isinstance(o, Inst) and o.cls.find("__delitem__"):
            self.call(self.getattr(o, "__delitem__"), [k], {})
        else:
            raise Undecided("del item")

    def owner(self, env, name):
        """The scope that assignments to `name` go to."""
        e = env
        while e.kind == "comp":
            e = e.parent
        if name in e.globals:
            while e.parent is not None:
                e = e.parent
            return e
        if name in e.nonlocals:
            p = e.parent
            while p is not None:
                if p.kind == "func" and name in p.vars or (p.declared and name in p.declared):
                    return p
                p = p.parent
        return e

    def bind_name(self, env, name, v):
        e = env
        if e.kind == "comp" and name in (e.declared or ()):
            e.vars[name] = v
            return
        e = self.owner(env, name)
        if e.kind in ("module", "class"):
            self.mut(e.vars)
        elif e.kind == "func" and e is not env and env.kind == "func":
            self.mut(e.vars)
        e.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, list(items[i : len(items) - after]), env)
                for x, y in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(x, y, env)
            else:
                if len(items) != len(t.elts):
                    self.throw("ValueError", f"wrong number of values to unpack (expected {len(t.elts)}, got {len(items)})")
                for x, y in zip(t.elts, items):
                    self.assign(x, y, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Undecided(f"assignment to {type(t).__name__}")

    def unpack(self, v):
        return self.iterate(v)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if env.kind == "class" and isinstance(s.target, ast.Name):
            env.vars.setdefault("__annotations__", {})[s.target.id] = ast.unparse(s.annotation)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            put = lambda v: self.bind_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            put = lambda v: self.setattr(o, t.attr, v)
        else:
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        r = self.ev(s.value, env)
        cur, r = self.canon(cur), self.canon(r)
        op = type(s.op).__name__
        if isinstance(cur, list) and op == "Add":
            self.mut(cur)
            cur.extend(self.iterate(r))
            put(cur)
            return
        if isinstance(cur, dict) and op == "BitOr":
            self.dict_update(cur, r)
            put(cur)
            return
        if isinstance(cur, set) and op in ("BitOr", "Sub", "BitAnd"):
            n = self.binop(op, cur, r)
            self.mut(cur)
            cur.clear()
            cur.update(n)
            put(cur)
            return
        if isinstance(cur, Inst):
            m = {"Add": "__iadd__", "BitOr": "__ior__", "Sub": "__isub__"}.get(op)
            if m and cur.cls.find(m):
                put(self.call(self.getattr(cur, m), [r], {}))
                return
        put(self.binop(op, cur, r))

    def dict_update(self, d, r):
        r = self.canon(r)
        if isinstance(r, dict):
            items = list(r.items())
        elif isinstance(r, (list, Iter, tuple)):
            items = [tuple(self.iterate(x)) for x in self.iterate(r)]
        elif isinstance(r, Inst) and r.cls.find("keys"):
            items = [(k, self.getitem(r, k)) for k in self.iterate(self.call(self.getattr(r, "keys"), [], {}))]
        elif r is None or isinstance(r, (int, bool)):
            self.throw("TypeError", "not a mapping")
        else:
            raise Undecided(f"update with {show(r)}")
        for k, v in items:
            self.dset(d, k, v)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 400:
                raise Undecided("loop limit")
            try:
                self.block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
            env.frame.line = s.lineno
        self.block(s.orelse, env)

    def s_For(self, s, env):
        src = self.canon(self.ev(s.iter, env))
        for x in self.live_iter(src):
            env.frame.line = s.lineno
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.block(s.orelse, env)

    def s_AsyncFor(self, s, env):
        self.event("await", "async for")
        self.s_For(s, env)

    def live_iter(self, src):
        """Iterate lists by index, like Python does, so mutation is seen."""
        if isinstance(src, list):
            i = 0
            while i < len(src):
                yield src[i]
                i += 1
                if i > 3000:
                    raise Undecided("loop limit")
            return
        if isinstance(src, dict):
            n = len(src)
            for k in list(src):
                if len(src) != n:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
                yield k
            return
        if isinstance(src, Iter):
            first = src.pos
            while src.pos < len(src.items):
                src.pos += 1
                if src.pos - first > 3000:
                    raise Undecided("loop limit")
                yield src.items[src.pos - 1]
            return
        for x in self.iterate(src):
            yield x

    def s_Raise(self, s, env):
        if s.exc is None:
            fr = env.frame
            if fr.exc is not None:
                raise PyExc(fr.exc.inst, fr.exc.site)
            self.throw("RuntimeError", "No active exception to reraise")
        e = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        e = self.as_exc(e)
        raise PyExc(e, self.site())

    def as_exc(self, e):
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Inst):
            return e
        if isinstance(e, Ext):
            i = Inst(self.ext_exc(e.path.split("(")[0]), self.site())
            i.attrs["args"] = ()
            i.attrs["ext"] = e
            return i
        if isinstance(e, Top):
            raise Undecided("unknown exception raised")
        self.throw("TypeError", "exceptions must derive from BaseException")

    def ext_exc(self, path):
        c = self.exc_cache.get("ext:" + path)
        if c is None:
            c = Cls(path, [self.exc_class("Exception")], {}, "external")
            c.exc = True
            c.mro = [c] + self.exc_class("Exception").mro
            self.exc_cache["ext:" + path] = c
        return c

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            msg = self.ev(s.msg, env) if s.msg is not None else None
            self.throw("AssertionError", msg)

    def exc_matches(self, exc, typ):
        typ = self.canon(typ)
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        if isinstance(typ, Cls):
            return typ in exc.cls.mro
        if isinstance(typ, Ext):
            return exc.cls.name == typ.path or any(getattr(c, "name", None) == typ.path for c in exc.cls.mro)
        return False

    def s_Try(self, s, env):
        fr = env.frame
        try:
            try:
                nframes = len(self.frames)
                self.block(s.body, env)
            except PyExc as e:
                del self.frames[nframes:]
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.inst, self.ev(h.type, env)):
                        fr.line = h.lineno
                        saved = fr.exc
                        fr.exc = e
                        if h.name:
                            self.bind_name(env, h.name, e.inst)
                        try:
                            self.block(h.body, env)
                        finally:
                            fr.exc = saved
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (Undecided, Infeasible, PathLimit):
            raise
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            n = len(self.frames)
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    s_TryStar = s_Try

    def s_With(self, s, env, items=None):
        items = s.items if items is None else items
        if not items:
            self.block(s.body, env)
            return
        it = items[0]
        mgr = self.canon(self.ev(it.context_expr, env))
        self.with_(mgr, lambda v: (self.assign(it.optional_vars, v, env) if it.optional_vars is not None else None, self.s_With(s, env, items[1:])))

    def s_AsyncWith(self, s, env):
        self.event("await", "async with")
        self.s_With(s, env)

    def with_(self, mgr, body):
        """Run `body(value)` inside the context manager `mgr`."""
        if isinstance(mgr, GenObj):
            pending = []
            count = [0]

            def on_yield(v):
                count[0] += 1
                if count[0] > 1:
                    self.throw("RuntimeError", "generator didn't stop")
                nf = len(self.frames)
                saved = self.frames
                # the body runs in its own frame, below the generator's
                self.frames = saved + []
                try:
                    body(v)
                except (ReturnSig, BreakSig, ContinueSig) as sig:
                    pending.append(sig)
                finally:
                    self.frames = saved
                    del self.frames[nf:]
                return None

            self.run(mgr.fn, mgr.args, mgr.kwargs, on_yield)
            if not count[0]:
                self.throw("RuntimeError", "generator didn't yield")
            if pending:
                raise pending[0]
            return
        if isinstance(mgr, Inst) and mgr.cls.find("__enter__"):
            v = self.call(self.getattr(mgr, "__enter__"), [], {})
            enter_exit = lambda exc: self.truth(
                self.call(self.getattr(mgr, "__exit__"), [exc.inst.cls, exc.inst, None] if exc else [None, None, None], {})
            )
        elif isinstance(mgr, Model):
            if not hasattr(mgr, "enter"):
                raise Undecided(f"{type(mgr).__name__} used as context manager")
            v = mgr.enter(self)
            enter_exit = lambda exc: mgr.exit(self, exc)
        elif isinstance(mgr, Ext):
            self.event("enter", mgr)
            v = Ext(mgr.path + ".__enter__()", mgr.args, True)

            def enter_exit(exc):
                self.event("exit", mgr)
                return False

        else:
            if isinstance(mgr, Inst) and not mgr.cls.unknown_base:
                self.throw("TypeError", "object does not support the context manager protocol")
            raise Undecided(f"with {show(mgr)}")
        n = len(self.frames)
        try:
            body(v)
        except PyExc as e:
            del self.frames[n:]
            if not enter_exit(e):
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            enter_exit(None)
            raise
        else:
            enter_exit(None)

    def enter_of(self, mgr):
        """Enter the context manager `mgr` now: (what it gives, exit(exc) ->
        whether it swallows exc), for managers that outlive a with block."""
        mgr = self.canon(mgr)
        if isinstance(mgr, GenObj):
            g = Suspended(self, mgr)
            return g.enter(), g.exit
        if isinstance(mgr, Model) and hasattr(mgr, "enter"):
            return mgr.enter(self), lambda e: mgr.exit(self, e)
        if isinstance(mgr, Inst) and mgr.cls.find("__enter__"):
            v = self.call(self.getattr(mgr, "__enter__"), [], {})
            return v, lambda e: self.truth(self.call(self.getattr(mgr, "__exit__"), [None, None, None] if e is None else [e.inst.cls, e.inst, None], {}))
        raise Undecided(f"{show(mgr)} entered as a context manager")

    def s_Import(self, s, env):
        for a in s.names:
            top, last = self.import_chain(a.name)
            self.event("import", a.name)
            if a.asname:
                self.bind_name(env, a.asname, last)
            else:
                self.bind_name(env, a.name.split(".")[0], top)

    def s_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            pkg = env.frame.module.name
            if not getattr(env.frame.module, "is_pkg", False):
                pkg = pkg.rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        if name == "__future__":
            return
        _, m = self.import_chain(name)
        self.event("import", name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            self.bind_name(env, k, v)
                    continue
                raise Undecided("import *")
            if isinstance(m, Mod):
                if a.name in m.env:
                    v = m.env[a.name]
                else:
                    v = self.module(f"{name}.{a.name}")
                    if v is None:
                        if m.file and not m.file.startswith("<"):
                            self.throw("ImportError", f"cannot import name {a.name!r} from {name!r}")
                        v = Ext(f"{name}.{a.name}")
            else:
                v = Ext(f"{name}.{a.name}")
            self.bind_name(env, a.asname or a.name, v)

    def make_func(self, node, env, name, qual):
        f = Func()
        f.node = node
        f.env = env
        f.module = env.frame.module.name
        f.name = name
        f.qualname = qual
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.owner = None
        f.is_async = isinstance(node, ast.AsyncFunctionDef)
        f.is_gen = self.scope(node)[3]
        f.attrs = {}
        f.cm = False
        return f

    def scope(self, node):
        r = self.scope_cache.get(id(node))
        if r is None:
            r = (_scope_info(node), node)
            self.scope_cache[id(node)] = r
        return r[0]

    def qual(self, env, name):
        q = env.frame.qual
        if env.kind == "class":
            return env.vars["__qualname__"] + "." + name
        return name if q == "<module>" else f"{q}.{name}"

    def s_FunctionDef(self, s, env):
        decos = [self.ev(d, env) for d in s.decorator_list]
        f = self.make_func(s, env if env.kind != "class" else env, s.name, self.qual(env, s.name))
        if env.kind == "class":
            # methods do not see the class scope
            p = env.parent
            f.env = p
        v = f
        for d in reversed(decos):
            v = self.decorate(d, v)
        self.bind_name(env, s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, f):
        if isinstance(d, Ext) or isinstance(d, Top):
            self.event("decorate", d, f)
            return f
        return self.call(d, [f], {})

    def s_ClassDef(self, s, env):
        decos = [self.ev(d, env) for d in s.decorator_list]
        bases = [self.canon(self.ev(b, env)) for b in s.bases]
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        cenv = Env(env, "class")
        cenv.vars["__qualname__"] = self.qual(env, s.name)
        cenv.vars["__module__"] = env.frame.module.name
        cenv.frame = env.frame
        self.block(s.body, cenv)
        attrs = cenv.vars
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) and isinstance(s.body[0].value.value, str):
            attrs.setdefault("__doc__", s.body[0].value.value)
        c = self.make_class(s.name, bases, attrs, env.frame.module.name)
        v = c
        for d in reversed(decos):
            v = self.decorate(d, v)
        self.bind_name(env, s.name, v)

    def make_class(self, name, bases, attrs, module):
        c = Cls(name, bases, attrs, module, self.site())
        mros = []
        for b in bases:
            if isinstance(b, Cls):
                mros.append(list(b.mro))
                c.unknown_base |= b.unknown_base
                c.enum |= b.enum
                c.exc |= b.exc
            elif isinstance(b, BType):
                if b.name != "object":
                    mros.append([b])
            elif isinstance(b, Ext):
                p = b.path
                if not p.split(".")[0] in ("typing", "typing_extensions", "abc", "collections"):
                    c.unknown_base = True
            elif isinstance(b, Native) and b.name == "NamedTuple":
                c.dc = {"order": [], "named": True}
        mros.append([b for b in bases if isinstance(b, (Cls, BType)) and not (isinstance(b, BType) and b.name == "object")])
        out = [c]
        mros = [m for m in mros if m]
        while mros:
            for m in mros:
                h = m[0]
                if not any(h in x[1:] for x in mros):
                    break
            else:
                self.throw("TypeError", "Cannot create a consistent method resolution")
            out.append(h)
            mros = [[x for x in m if x is not h] for m in mros]
            mros = [m for m in mros if m]
        c.mro = out
        for k, v in list(attrs.items()):
            f = v.fn if isinstance(v, Wrapped) else v
            while isinstance(f, Wrapped):
                f = f.fn
            if isinstance(f, Func) and f.owner is None:
                f.owner = c
            if isinstance(v, Wrapped) and isinstance(v.setter, Func):
                v.setter.owner = c
            if isinstance(f, Native) and "inner" in f.attrs and isinstance(f.attrs["inner"], Func) and f.attrs["inner"].owner is None:
                f.attrs["inner"].owner = c
        if c.enum:
            n = 0
            for k, v in list(attrs.items()):
                if k.startswith("_") or isinstance(v, (Func, Wrapped, Cls)):
                    continue
                n += 1
                if isinstance(v, Ext) and v.path == "enum.auto()":
                    v = k.lower() if any(getattr(b, "name", "") == "StrEnum" for b in c.mro) else n
                for m in c.members:
                    if type(m.attrs["value"]) is type(v) and m.attrs["value"] == v:
                        attrs[k] = m
                        break
                else:
                    i = Inst(c)
                    i.attrs.update(name=k, value=v, _name_=k, _value_=v)
                    attrs[k] = i
                    c.members.append(i)
        if c.dc and c.dc.get("named"):
            c.dc["order"] = list(attrs.get("__annotations__", {}))
        f = c.find("__init_subclass__")
        return c

    # --------------------------------------------------------------- matching
    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            caps = {}
            env.frame.line = c.pattern.lineno
            if self.pmatch(c.pattern, v, env, caps):
                for k, x in caps.items():
                    self.bind_name(env, k, x)
                if c.guard is not None and not self.truth(self.ev(c.guard, env)):
                    continue
                self.cov_lines.add((env.frame.file, c.pattern.lineno))
                self.block(c.body, env)
                return

    def pmatch(self, p, v, env, caps):
        v = self.canon(v)
        t = type(p).__name__
        if t == "MatchValue":
            return self.eq(v, self.ev(p.value, env))
        if t == "MatchSingleton":
            return self.is_(v, p.value)
        if t == "MatchAs":
            if p.pattern is not None and not self.pmatch(p.pattern, v, env, caps):
                return False
            if p.name:
                caps[p.name] = v
            return True
        if t == "MatchOr":
            for q in p.patterns:
                c2 = {}
                if self.pmatch(q, v, env, c2):
                    caps.update(c2)
                    return True
            return False
        if t == "MatchSequence":
            if isinstance(v, Top):
                raise Undecided("match on unknown value")
            if self.is_abs(v):
                if not (self.kinds(v) & {"list", "tuple"}):
                    return False
                raise Undecided("sequence pattern on unknown value")
            if isinstance(v, Model) and hasattr(v, "items"):
                v = v.items
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(v) < len(p.patterns) - 1:
                    return False
                for q, x in zip(p.patterns[:i], v[:i]):
                    if not self.pmatch(q, x, env, caps):
                        return False
                if p.patterns[i].name:
                    caps[p.patterns[i].name] = list(v[i : len(v) - after])
                return all(self.pmatch(q, x, env, caps) for q, x in zip(p.patterns[i + 1 :], v[len(v) - after :] if after else []))
            if len(v) != len(p.patterns):
                return False
            return all(self.pmatch(q, x, env, caps) for q, x in zip(p.patterns, v))
        if t == "MatchMapping":
            if isinstance(v, Top):
                raise Undecided("match on unknown value")
            if self.is_abs(v) and "dict" in self.kinds(v):
                raise Undecided("mapping pattern on unknown value")
            if not isinstance(v, dict):
                return False
            used = []
            for k, q in zip(p.keys, p.patterns):
                kv = self.ev(k, env)
                h = self.dget(v, kv)
                if h is None or not self.pmatch(q, h[0], env, caps):
                    return False
                used.append(kv)
            if p.rest:
                caps[p.rest] = {k: x for k, x in v.items() if not any(k == u for u in used)}
            return True
        if t == "MatchClass":
            c = self.canon(self.ev(p.cls, env))
            if not self.isinstance(v, c):
                return False
            v = self.canon(v)
            if isinstance(c, BType) and c.name in ("bool", "bytearray", "bytes", "dict", "float", "frozenset", "int", "list", "set", "str", "tuple"):
                if p.patterns:
                    if len(p.patterns) > 1:
                        self.throw("TypeError", "too many positional sub-patterns")
                    if not self.pmatch(p.patterns[0], v, env, caps):
                        return False
            elif p.patterns:
                ma = None
                f = c.find("__match_args__") if isinstance(c, Cls) else None
                if f:
                    ma = list(f[0])
                elif isinstance(c, Cls) and c.dc:
                    ma = c.dc["order"]
                if ma is None:
                    if isinstance(v, (Model, Ext)):
                        raise Undecided("positional class pattern")
                    self.throw("TypeError", f"{c!r}() accepts 0 positional sub-patterns")
                for n, q in zip(ma, p.patterns):
                    h = self.hasattr(v, n)
                    if h is None or not self.pmatch(q, h[0], env, caps):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                h = self.hasattr(v, n)
                if h is None or not self.pmatch(q, h[0], env, caps):
                    return False
            return True
        raise Undecided(f"pattern {t}")

    def hasattr(self, v, n):
        nf = len(self.frames)
        try:
            return (self.getattr(v, n),)
        except PyExc as e:
            del self.frames[nf:]
            if self.exc_class("AttributeError") in e.inst.cls.mro:
                return None
            raise

    def is_(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if b is None:
            return self.is_none(a)
        if a is None:
            return self.is_none(b)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a is b
            x, c = (a, b) if isinstance(b, bool) else (b, a)
            if self.is_abs(x):
                if "bool" not in self.kinds(x):
                    return False
                if not self.ask_kind(x, "bool"):
                    return False
                return self.eq(x, c)
            return False
        if isinstance(a, Top) or isinstance(b, Top):
            self.tainted("identity of unknown value")
            return self.fork("unknown is")
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path and not a.res
        if isinstance(a, (str, int)) and type(a) is type(b):
            return a == b
        return a is b

    # --------------------------------------------------------------- isinstance
    def isinstance(self, v, c):
        v = self.canon(v)
        c = self.canon(c)
        if isinstance(c, tuple):
            return any(self.isinstance(v, x) for x in c)
        if isinstance(c, Top) or isinstance(v, Top):
            self.tainted("isinstance of unknown value")
            return self.fork("isinstance unknown")
        if c is None:
            return v is None
        if isinstance(c, BType):
            n = c.name
            if n == "object":
                return True
            if self.is_abs(v):
                if n in ("Mapping", "MutableMapping"):
                    n = "dict"
                if n in ("Sequence", "Iterable", "Collection"):
                    return any(self.ask_kind(v, k) for k in ("list", "str", "tuple"))
                if n in ("Number", "Real", "Integral"):
                    return self.ask_kind(v, "int") or (n != "Integral" and self.ask_kind(v, "float"))
                return self.ask_kind(v, n)
            if isinstance(v, (SStr, JsonText)):
                return n in ("str", "Sequence", "Iterable", "Collection", "Hashable")
            if isinstance(v, Inst):
                if v.cls.dc and v.cls.dc.get("named") and n == "tuple":
                    return True
                return any(isinstance(x, BType) and x.name == n for x in v.cls.mro) or (n == "BaseException" and v.cls.exc)
            if isinstance(v, Model):
                return n in v.classes
            if isinstance(v, Ext):
                if v.res:
                    self.tainted(f"isinstance of {v!r}")
                    return self.pred_fork("isinstance", v, (n,))
                return False
            if isinstance(v, (Cls, BType)):
                return n == "type"
            if isinstance(v, (Func, Native, Bound)):
                return n in ("Callable", "function")
            if isinstance(v, Iter):
                return n in ("Iterator", "Iterable", "Generator")
            h = {
                "str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict, "tuple": tuple, "set": set,
                "frozenset": frozenset, "bytes": bytes, "NoneType": type(None),
                "Mapping": dict, "MutableMapping": dict, "Sequence": (list, tuple, str), "MutableSequence": list,
                "Iterable": (list, tuple, str, dict, set, frozenset), "Collection": (list, tuple, str, dict, set, frozenset),
                "Set": (set, frozenset), "Hashable": (str, int, float, tuple, bytes, type(None)), "Number": (int, float), "Real": (int, float), "Integral": int,
            }.get(n)
            return isinstance(v, h) if h else False
        if isinstance(c, Cls):
            if isinstance(v, Inst):
                return c in v.cls.mro
            if isinstance(v, Model):
                return f"{c.module}.{c.name}" in v.classes or c.name in v.classes
            if isinstance(v, Ext) and v.res:
                self.tainted(f"isinstance of {v!r}")
                return self.pred_fork("isinstance", v, (c,))
            if self.is_abs(v) and (self.kindf.get(v) or v.kinds) is None:
                return False
            return False
        if isinstance(c, Ext):
            if isinstance(v, Model):
                return c.path in v.classes or c.path.rpartition(".")[2] in v.classes
            if isinstance(v, Ext):
                if v.path.startswith(c.path + "("):
                    return True
                self.tainted(f"isinstance of {v!r}")
                return self.pred_fork("isinstance", v, (c.path,))
            if isinstance(v, Inst):
                if v.cls.unknown_base:
                    return any(isinstance(b, Ext) and b.path == c.path for k in v.cls.mro if isinstance(k, Cls) for b in k.bases)
                return any(getattr(k, "name", None) == c.path for k in v.cls.mro)
            return False
        if isinstance(c, Native) and c.name == "NamedTuple":
            return False
        self.throw("TypeError", "isinstance() arg 2 must be a type")

    # -------------------------------------------------------------- attributes
    def getattr(self, v, name):
        v = self.canon(v)
        t = type(v)
        if t is Inst:
            return self.inst_attr(v, name)
        if t is Mod:
            if name in v.env:
                x = v.env[name]
                if x.__class__ is Poison:
                    raise Undecided(x.why)
                return x
            m = self.module(f"{v.name}.{name}")
            if m is not None:
                return m
            if v.file and not v.file.startswith("<"):
                self.throw("AttributeError", f"module {v.name!r} has no attribute {name!r}")
            return Ext(f"{v.name}.{name}")
        if t is Cls:
            return self.cls_attr(v, name)
        if isinstance(v, Model):
            return v.attr(self, name)
        if t is Ext:
            if name == "__name__":
                return v.path.rpartition(".")[2]
            return Ext(f"{v.path}.{name}", None, v.res)
        if t is Top:
            return Top(v.why)
        if name == "__class__":
            return self.type_of(v)
        from . import lib

        return lib.value_attr(self, v, name)

    def inst_attr(self, v, name):
        c = v.cls
        f = c.find(name)
        if f is not None and isinstance(f[0], Wrapped) and f[0].kind == "property":
            return self.call(f[0].fn, [v], {})
        if name in v.attrs:
            return v.attrs[name]
        if f is not None:
            a = f[0]
            if isinstance(a, Wrapped):
                if a.kind == "cached_property":
                    r = self.call(a.fn, [v], {})
                    self.mut(v.attrs)
                    v.attrs[name] = r
                    return r
                if a.kind == "static":
                    return a.fn
                if a.kind == "class":
                    return Bound(c, a.fn)
            if isinstance(a, (Func,)) or (isinstance(a, Native) and a.attrs.get("method")):
                return Bound(v, a)
            return a
        if name == "__class__":
            return c
        if name == "__dict__":
            return v.attrs
        if name == "__init__":
            return Native("object.__init__", lambda I, a, k: None)
        if c.exc:
            if name in ("args",):
                return v.attrs.get("args", ())
            if name in ("__cause__", "__context__", "__traceback__"):
                return None
            if name == "with_traceback":
                return Native("with_traceback", lambda I, a, k: v)
            if name == "add_note":
                return Native("add_note", lambda I, a, k: None)
        g = c.find("__getattr__")
        if g is not None:
            return self.call(Bound(v, g[0]), [name], {})
        for b in c.mro:
            if isinstance(b, BType):
                inner = v.attrs.get("value") if c.enum else v.attrs.get("__value__")
                if inner is not None:
                    return self.getattr(inner, name)
        if c.dc is not None:
            if name == "__dataclass_fields__":
                return {n: n for n in c.dc["order"]}
            if name == "_replace" and c.dc.get("named"):
                def repl(I, a, k):
                    i = Inst(c, I.site())
                    i.attrs.update(v.attrs)
                    i.attrs.update(k)
                    return i
                return Native("_replace", repl)
            if name == "_asdict" and c.dc.get("named"):
                return Native("_asdict", lambda I, a, k: {n: v.attrs[n] for n in c.dc["order"]})
        if c.unknown_base:
            return Ext(f"{c.module}.{c.name}().{name}", None, True)
        if name in ("__eq__", "__ne__"):
            return Native(name, lambda I, a, k: I.eq(v, a[0]) if name == "__eq__" else not I.eq(v, a[0]))
        if name in ("__repr__", "__str__"):
            return Native(name, lambda I, a, k: App("str", (v,), ("str",)))
        self.throw("AttributeError", f"{c.name!r} object has no attribute {name!r}")

    def cls_attr(self, c, name):
        f = c.find(name)
        if f is not None:
            a = f[0]
            if isinstance(a, Wrapped):
                if a.kind == "static":
                    return a.fn
                if a.kind == "class":
                    return Bound(c, a.fn)
                return a
            return a
        if name == "__name__":
            return c.name
        if name == "__qualname__":
            return c.name
        if name == "__module__":
            return c.module
        if name == "__mro__":
            return tuple(c.mro) + (self.btypes["object"],)
        if name == "__bases__":
            return tuple(c.bases)
        if name == "__dict__":
            return dict(c.attrs)
        if name == "mro":
            return Native("mro", lambda I, a, k: list(c.mro) + [I.btypes["object"]])
        if name == "__members__" and c.enum:
            return {m.attrs["name"]: m for m in c.members}
        if name == "__subclasses__":
            raise Undecided("__subclasses__")
        if name == "__init__":
            if c.dc is not None:
                n = Native("__init__", lambda I, a, k: I.dc_init(c, a[0], list(a[1:]), k))
                return n
            return Native("object.__init__", lambda I, a, k: None)
        if name == "__new__":
            return Native("__new__", lambda I, a, k: Inst(a[0] if a else c, I.site()))
        if name == "__annotations__":
            return c.attrs.get("__annotations__", {})
        if name == "__doc__":
            return c.attrs.get("__doc__")
        if name == "__class__":
            return self.btypes["type"]
        if c.enum and name in ("_value2member_map_",):
            return {m.attrs["value"]: m for m in c.members}
        for b in c.mro:
            if isinstance(b, BType):
                return self.getattr(b, name)
        if c.unknown_base:
            return Ext(f"{c.module}.{c.name}.{name}")
        if name in ("__eq__", "__repr__", "__str__", "__hash__"):
            return Native(name, lambda I, a, k: I.eq(a[0], a[1]) if name == "__eq__" else App(name, tuple(a)))
        self.throw("AttributeError", f"type object {c.name!r} has no attribute {name!r}")

    def setattr(self, o, name, v):
        o = self.canon(o)
        if isinstance(o, Inst):
            f = o.cls.find(name)
            if f is not None and isinstance(f[0], Wrapped) and f[0].kind == "property":
                if f[0].setter is None:
                    self.throw("AttributeError", f"property {name!r} has no setter")
                self.call(f[0].setter, [o, v], {})
                return
            s = o.cls.find("__setattr__")
            if s is not None and isinstance(s[0], Func):
                self.call(Bound(o, s[0]), [name, v], {})
                return
            if o.cls.dc is not None and (o.cls.dc.get("frozen") or o.cls.dc.get("named")):
                self.throw("AttributeError", f"cannot assign to field {name!r}")
            self.mut(o.attrs)
            o.attrs[name] = v
        elif isinstance(o, Cls):
            self.mut(o.attrs)
            o.attrs[name] = v
        elif isinstance(o, Mod):
            self.mut(o.env)
            o.env[name] = v
        elif isinstance(o, Func):
            self.mut(o.attrs)
            o.attrs[name] = v
        elif isinstance(o, Model):
            o.setattr(self, name, v)
        elif isinstance(o, Ext):
            self.event("setattr", o, name, v)
        elif isinstance(o, Top):
            raise Undecided("assignment to an attribute of an unknown value")
        elif isinstance(o, Bound):
            raise Undecided("attribute of method")
        else:
            self.throw("AttributeError", f"{type(o).__name__!r} object has no attribute {name!r}")

    # ------------------------------------------------------------------- items
    def getitem(self, o, k):
        o, k = self.canon(o), self.canon(k)
        if isinstance(o, dict):
            h = self.dget(o, k)
            if h is None:
                f = getattr(o, "default_factory", None)
                if f is not None:
                    v = self.call(f, [], {})
                    self.dset(o, k, v)
                    return v
                self.throw("KeyError", k)
            return h[0]
        if isinstance(o, (list, tuple)):
            if isinstance(k, Slice):
                return o[slice(*self.sl(k))]
            if self.is_abs(k):
                if len(o) == 0:
                    self.throw("IndexError", "index out of range")
                for i in range(len(o)):
                    if self.eq(k, i):
                        return o[i]
                raise Undecided("unknown index")
            if isinstance(k, bool):
                k = int(k)
            if not isinstance(k, int):
                self.throw("TypeError", "list indices must be integers or slices")
            try:
                return o[k]
            except IndexError:
                self.throw("IndexError", "index out of range")
        if isinstance(o, (str, bytes)):
            try:
                return o[slice(*self.sl(k)) if isinstance(k, Slice) else k]
            except IndexError:
                self.throw("IndexError", "string index out of range")
            except TypeError:
                self.throw("TypeError", "string indices must be integers")
        if isinstance(o, SStr) or (self.is_abs(o) and self.kinds(o) == {"str"}):
            return self.str_item(o, k)
        if isinstance(o, Inst):
            f = o.cls.find("__getitem__")
            if f:
                return self.call(self.getattr(o, "__getitem__"), [k], {})
            if o.cls.dc and o.cls.dc.get("named"):
                return self.getitem(tuple(o.attrs[n] for n in o.cls.dc["order"]), k)
            if o.cls.unknown_base:
                return Ext(f"{o.cls.name}()[...]", (k,), True)
            self.throw("TypeError", f"{o.cls.name!r} object is not subscriptable")
        if isinstance(o, Cls):
            if o.enum:
                h = [m for m in o.members if m.attrs["name"] == k]
                if not h:
                    self.throw("KeyError", k)
                return h[0]
            return o
        if isinstance(o, BType):
            return o
        if isinstance(o, Model):
            f = getattr(o, "getitem", None)
            if f:
                return f(self, k)
            raise Undecided(f"{type(o).__name__}[...]")
        if isinstance(o, Ext):
            if o.res:
                return Ext(f"{o.path}[...]", (k,), True)
            return o
        if isinstance(o, Native):
            return o
        if isinstance(o, Top):
            return Top(o.why)
        if o is None or isinstance(o, (int, float)):
            self.throw("TypeError", f"{type(o).__name__!r} object is not subscriptable")
        if self.is_abs(o):
            if self.ask_kind(o, "NoneType"):
                self.throw("TypeError", "'NoneType' object is not subscriptable")
            return App("[]", (o, self.key_of(k)), ANY)
        if isinstance(o, JsonText):
            return Top("part of a document")
        raise Undecided(f"subscript of {show(o)}")

    def key_of(self, k):
        return ("slice", k.a, k.b, k.c) if isinstance(k, Slice) else k

    def sl(self, k):
        out = []
        for x in (k.a, k.b, k.c):
            x = self.canon(x)
            if x is not None and not isinstance(x, int):
                raise Undecided("unknown slice")
            out.append(x)
        return out

    def str_item(self, o, k):
        o = self.norm(o)
        if isinstance(k, Slice) and isinstance(o, SStr):
            a, b = self.canon(k.a), self.canon(k.b)
            # drop a known prefix, s[len(prefix):], also where the length is that of an unknown prefix
            if b is None and k.c is None and a is not None:
                r = self.drop(o, a)
                if r is not None:
                    return r
            if a is None and isinstance(b, int) and b < 0 and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -b:
                return self.mkstr(o.parts[:-1] + (o.parts[-1][:b],))
            if b is None and k.c is None and isinstance(a, int) and a < 0 and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -a:
                return o.parts[-1][a:]
            if (a is None or a == 0) and isinstance(b, int) and b >= 0 and isinstance(o.parts[0], str) and len(o.parts[0]) >= b:
                return o.parts[0][:b]
        if isinstance(k, int) and isinstance(o, SStr):
            if k >= 0 and isinstance(o.parts[0], str) and len(o.parts[0]) > k:
                return o.parts[0][k]
            if k < 0 and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -k:
                return o.parts[-1][k]
        if isinstance(k, Slice):
            return App("slice", (o, k.a, k.b, k.c), ("str",))
        if k == 0 and not isinstance(k, bool) and isinstance(o, SStr) and self.is_abs(o.parts[0]) and o.parts[0].clean:
            return App("[]", (o.parts[0], k), ("str",))
        return App("[]", (o, k), ("str",))

    def drop(self, o, n):
        """o[n:] for a structured string and a length given as terms."""
        need = self.linear(n)
        if need is None:
            return None
        terms, const = need
        parts = list(o.parts)
        i = 0
        while parts and (terms or const > 0):
            p = parts[0]
            if isinstance(p, str):
                if terms:
                    const -= len(p)
                    parts.pop(0)
                    continue
                if len(p) >= const:
                    parts[0] = p[const:]
                    const = 0
                    break
                const -= len(p)
                parts.pop(0)
            else:
                for t in terms:
                    if t == p:
                        terms.remove(t)
                        break
                else:
                    return None
                parts.pop(0)
        if terms or const != 0:
            if const < 0 and not terms:
                return None
            return None
        return self.mkstr(parts)

    def linear(self, n):
        n = self.canon(n)
        if isinstance(n, bool):
            return None
        if isinstance(n, int):
            return ([], n) if n >= 0 else None
        if isinstance(n, App) and n.op == "len":
            s = n.args[0]
            if isinstance(s, SStr):
                ts, c = [], 0
                for p in s.parts:
                    if isinstance(p, str):
                        c += len(p)
                    else:
                        ts.append(p)
                return ts, c
            return [s], 0
        if isinstance(n, App) and n.op == "+":
            a, b = self.linear(n.args[0]), self.linear(n.args[1])
            if a and b:
                return a[0] + b[0], a[1] + b[1]
        return None

    def setitem(self, o, k, v):
        o, k = self.canon(o), self.canon(k)
        if isinstance(o, dict):
            self.dset(o, k, v)
        elif isinstance(o, list):
            self.mut(o)
            if isinstance(k, Slice):
                o[slice(*self.sl(k))] = self.iterate(v)
                return
            if not isinstance(k, int):
                raise Undecided("unknown index")
            try:
                o[k] = v
            except IndexError:
                self.throw("IndexError", "list assignment index out of range")
        elif isinstance(o, Inst) and o.cls.find("__setitem__"):
            self.call(self.getattr(o, "__setitem__"), [k, v], {})
        elif isinstance(o, Model):
            f = getattr(o, "setitem", None)
            if not f:
                raise Undecided(f"{type(o).__name__}[...] = ")
            f(self, k, v)
        elif isinstance(o, Ext):
            self.event("setitem", o, k, v)
        elif isinstance(o, (str, tuple, int)) or o is None:
            self.throw("TypeError", "object does not support item assignment")
        else:
            raise Undecided(f"item assignment to {show(o)}")

    def contains(self, c, x):
        c, x = self.canon(c), self.canon(x)
        if isinstance(c, dict):
            return self.dget(c, x) is not None
        if isinstance(c, (list, tuple)):
            return any(self.eq(y, x) for y in list(c))
        if isinstance(c, (set, frozenset)):
            if not self.is_abs(x):
                x = self.hkey(x)
                try:
                    if x in c:
                        return True
                except TypeError:
                    self.throw("TypeError", "unhashable type")
                return any(self.is_abs(y) and y in self.bind and self.bind[y] == x for y in c) or any(
                    isinstance(y, (tuple, Inst)) and self.eq(y, x) for y in c
                )
            if x in c:
                return True
            return any(self.eq(x, y) for y in sorted(c, key=repr))
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        if isinstance(c, range):
            if c.step == 1 and len(c):
                return self.compare(">=", x, c.start) and self.compare("<", x, c.stop)
        if isinstance(c, Inst):
            if c.cls.find("__contains__"):
                return self.truth(self.call(self.getattr(c, "__contains__"), [x], {}))
            return any(self.eq(y, x) for y in self.iterate(c))
        if isinstance(c, Cls) and c.enum:
            return any(self.eq(x, m.attrs["value"]) if not isinstance(x, Inst) else x is m for m in c.members)
        if isinstance(c, (str, SStr)) or (self.is_abs(c) and "str" in self.kinds(c)):
            from . import lib

            return lib.str_contains(self, c, x)
        if isinstance(c, Model):
            f = getattr(c, "contains", None)
            if f:
                return f(self, x)
            if hasattr(c, "items"):
                return any(self.eq(y, x) for y in c.items)
            raise Undecided(f"in {type(c).__name__}")
        if isinstance(c, (Ext, Top)):
            self.tainted(f"membership in {c!r}")
            return self.fork("in unknown")
        if isinstance(c, Iter):
            return any(self.eq(y, x) for y in c.items[c.pos :])
        if c is None or isinstance(c, (int, float)):
            self.throw("TypeError", f"argument of type {type(c).__name__!r} is not iterable")
        if self.is_abs(c):
            if self.ask_kind(c, "NoneType"):
                self.throw("TypeError", "argument of type 'NoneType' is not iterable")
            return self.pred_fork("in", c, (x,))
        raise Undecided(f"in {show(c)}")

    def iterate(self, v):
        v = self.canon(v)
        if isinstance(v, (list, tuple, set, frozenset, range)):
            if isinstance(v, (set, frozenset)):
                return sorted(v, key=repr)
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Iter):
            r = v.items[v.pos :]
            v.pos = len(v.items)
            return r
        if isinstance(v, Inst):
            if v.cls.find("__iter__"):
                return self.iterate(self.call(self.getattr(v, "__iter__"), [], {}))
            if v.cls.dc and v.cls.dc.get("named"):
                return [v.attrs[n] for n in v.cls.dc["order"]]
            if v.cls.unknown_base:
                raise Undecided(f"iteration over {v.cls.name}")
            self.throw("TypeError", f"{v.cls.name!r} object is not iterable")
        if isinstance(v, Cls) and v.enum:
            return list(v.members)
        if isinstance(v, Model):
            f = getattr(v, "iter", None)
            if f:
                return list(f(self))
            if hasattr(v, "items") and isinstance(v.items, list):
                return list(v.items)
            raise Undecided(f"iteration over {type(v).__name__}")
        if v is None or isinstance(v, (int, float, bool)):
            self.throw("TypeError", f"{type(v).__name__!r} object is not iterable")
        if isinstance(v, GenObj):
            self.throw("TypeError", "context manager is not iterable")
        if self.is_abs(v) and self.ask_kind(v, "NoneType"):
            self.throw("TypeError", "'NoneType' object is not iterable")
        if self.is_abs(v) and self.kinds(v) <= {"int", "float", "bool"}:
            self.throw("TypeError", "object is not iterable")
        raise Undecided(f"iteration over {show(v)}")

    # -------------------------------------------------------------------- calls
    def call(self, f, args, kwargs, node=None):
        f = self.canon(f)
        t = type(f)
        if t is Bound:
            return self.call(f.fn, [f.self_] + list(args), kwargs, node)
        if t is Native:
            return f.fn(self, list(args), dict(kwargs))
        if t is Func:
            if f.cm:
                return GenObj(f, args, kwargs)
            if f.is_async:
                return Coro(f, args, kwargs)
            if f.is_gen:
                out = []

                def on_yield(v):
                    out.append(v)
                    if len(out) > 2000:
                        raise Undecided("generator limit")
                    return None

                self.run(f, args, kwargs, on_yield)
                return Iter(out)
            return self.run(f, args, kwargs)
        if t is Cls:
            return self.instantiate(f, args, kwargs)
        if t is BType:
            if f.fn is None:
                raise Undecided(f"call of {f!r}")
            return f.fn(self, list(args), dict(kwargs))
        if t is Inst:
            if f.cls.find("__call__"):
                return self.call(self.getattr(f, "__call__"), args, kwargs, node)
            if f.cls.unknown_base:
                return Ext(f"{f.cls.name}()()", None, True)
            self.throw("TypeError", f"{f.cls.name!r} object is not callable")
        if isinstance(f, Model):
            c = getattr(f, "call", None)
            if c:
                return c(self, list(args), dict(kwargs))
            raise Undecided(f"call of {type(f).__name__}")
        if t is Ext:
            h = self.ext_handler(f.path)
            if h is not None:
                return h(self, list(args), dict(kwargs))
            self.event("extcall", f.path, list(args), dict(kwargs))
            return Ext(f.path + "()", (tuple(args), tuple(kwargs.items())), True)
        if t is Top:
            self.tainted("call of an unknown function")
            return Top(f.why)
        if t is Wrapped and f.kind in ("static", "class"):
            return self.call(f.fn, args, kwargs)
        if f is None or isinstance(f, (str, int, float, list, dict, tuple, bool, set)):
            self.throw("TypeError", f"{type(f).__name__!r} object is not callable")
        raise Undecided(f"call of {show(f)}")

    ext_models = {}

    def ext_handler(self, path):
        return self.ext_models.get(path)

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        nm = f.name
        if len(args) > len(names):
            if a.vararg is None:
                self.throw("TypeError", f"{nm}() takes {len(names)} positional arguments but {len(args)} were given")
            vals[a.vararg.arg] = tuple(args[len(names) :])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if isinstance(k, str) and (k in names or k in kwonly) and k not in posonly:
                if k in vals:
                    self.throw("TypeError", f"{nm}() got multiple values for argument {k!r}")
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw("TypeError", f"{nm}() got an unexpected keyword argument {k!r}")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        d0 = len(names) - len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                if i >= d0:
                    vals[n] = f.defaults[i - d0]
                else:
                    self.throw("TypeError", f"{nm}() missing 1 required positional argument: {n!r}")
        for n in kwonly:
            if n not in vals:
                if n in f.kwdefaults:
                    vals[n] = f.kwdefaults[n]
                else:
                    self.throw("TypeError", f"{nm}() missing 1 required keyword-only argument: {n!r}")
        return vals

    def run(self, f, args, kwargs, on_yield=None):
        m = self.modules.get(f.module)
        file = m.file if m is not None else "?"
        vals = self.bind_args(f, list(args), kwargs)
        self.depth += 1
        if self.depth > DEPTH_LIMIT:
            self.depth -= 1
            self.throw("RecursionError", "maximum recursion depth exceeded")
        env = Env(f.env, "func", vals)
        declared, glob, nonl, _ = self.scope(f.node)
        env.declared = declared
        env.globals = glob
        env.nonlocals = nonl
        fr = Frame(f, m, file, f.qualname)
        fr.on_yield = on_yield
        fr.cls = f.owner
        a = f.node.args
        first = (a.posonlyargs + a.args)[:1]
        fr.self_ = vals.get(first[0].arg) if first else None
        fr.line = f.node.lineno
        env.frame = fr
        self.cov_funcs.add((file, f.qualname))
        self.visited[(file, f.node.lineno, f.qualname)] = None
        self.frames.append(fr)
        n = len(self.frames)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            self.block(f.node.body, env)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            self.depth -= 1
            del self.frames[n - 1 :]

    def instantiate(self, c, args, kwargs):
        if c.enum:
            if len(args) == 1 and not kwargs:
                x = self.canon(args[0])
                if isinstance(x, Inst) and x.cls is c:
                    return x
                for m in c.members:
                    if self.eq(x, m.attrs["value"]):
                        return m
                f = c.find("_missing_")
                if f:
                    r = self.call(self.cls_attr(c, "_missing_"), [x], {})
                    if r is not None:
                        return r
                self.throw("ValueError", f"{show(x)} is not a valid {c.name}")
            raise Undecided("enum creation")
        if any(isinstance(b, Ext) and b.path.startswith("abc.") for b in c.bases) or True:
            missing = [n for n in self.abstract_names(c)]
            if missing:
                self.throw("TypeError", f"Can't instantiate abstract class {c.name} with abstract methods {missing}")
        new = c.find("__new__")
        if new is not None and isinstance(new[0], (Func, Wrapped)):
            fn = new[0].fn if isinstance(new[0], Wrapped) else new[0]
            o = self.call(fn, [c] + list(args), kwargs)
            if not (isinstance(o, Inst) and c in o.cls.mro):
                return o
        else:
            o = Inst(c, self.site())
        init = c.find("__init__")
        if init is not None and (c.dc is None or init[1] is c or not self.dc_between(c, init[1])):
            self.call(init[0], [o] + list(args), kwargs)
        elif c.dc is not None or any(isinstance(b, Cls) and b.dc for b in c.mro):
            d = next(b for b in c.mro if isinstance(b, Cls) and b.dc)
            self.dc_init(d, o, list(args), kwargs)
        elif c.exc:
            o.attrs["args"] = tuple(args)
        elif c.unknown_base:
            for k, v in kwargs.items():
                o.attrs[k] = v
        elif any(isinstance(b, BType) for b in c.mro):
            b = next(b for b in c.mro if isinstance(b, BType))
            if b.name in ("str", "int", "float"):
                o.attrs["__value__"] = args[0] if args else ""
            else:
                raise Undecided(f"subclass of {b.name}")
        elif args or kwargs:
            self.throw("TypeError", f"{c.name}() takes no arguments")
        return o

    def dc_between(self, c, owner):
        """Is there a dataclass closer in the MRO than `owner`?"""
        for b in c.mro:
            if b is owner:
                return bool(isinstance(b, Cls) and b.dc and "__init__" not in b.attrs)
            if isinstance(b, Cls) and b.dc:
                return True
        return False

    def abstract_names(self, c):
        out = []
        seen = set()
        for b in c.mro:
            if not isinstance(b, Cls):
                continue
            for k, v in b.attrs.items():
                if k in seen:
                    continue
                seen.add(k)
                f = v.fn if isinstance(v, Wrapped) else v
                if isinstance(f, Func) and f.attrs.get("__isabstractmethod__"):
                    out.append(k)
        return out

    def dc_init(self, c, o, args, kwargs):
        order = c.dc["order"]
        fields = c.dc.get("fields", {})
        self.mut(o.attrs)
        if c.dc.get("named"):
            fields = {}
            for n in order:
                f = c.find(n)
                if f:
                    fields[n] = ("default", f[0])
        initable = [n for n in order if not (fields.get(n) and len(fields[n]) > 2 and fields[n][2] is False)]
        pos = [n for n in initable if n not in c.dc.get("kwonly", ())]
        if len(args) > len(pos):
            self.throw("TypeError", f"{c.name}.__init__() takes {len(pos) + 1} positional arguments but {len(args) + 1} were given")
        vals = dict(zip(pos, args))
        for k, v in kwargs.items():
            if k not in initable:
                self.throw("TypeError", f"{c.name}.__init__() got an unexpected keyword argument {k!r}")
            if k in vals:
                self.throw("TypeError", f"{c.name}.__init__() got multiple values for argument {k!r}")
            vals[k] = v
        for n in order:
            if n not in vals:
                d = fields.get(n)
                if d is None or d[0] == "none":
                    if n in initable:
                        self.throw("TypeError", f"{c.name}.__init__() missing 1 required positional argument: {n!r}")
                    continue
                vals[n] = d[1] if d[0] == "default" else self.call(d[1], [], {})
        for n in order:
            if n in vals:
                o.attrs[n] = vals[n]
        if not c.dc.get("named"):
            f = c.find("__post_init__")
            if f:
                self.call(self.getattr(o, "__post_init__"), [], {})
        return None

    def type_of(self, v):
        v = self.canon(v)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, (Cls, BType)):
            return self.btypes["type"]
        if isinstance(v, (SStr, JsonText)):
            return self.btypes["str"]
        if self.is_abs(v):
            k = self.kinds(v)
            for n in sorted(k):
                if len(k) == 1 or self.ask_kind(v, n):
                    return self.btypes.get(n) or Top("type")
                k = self.kinds(v)
        if isinstance(v, Model):
            return Ext(v.classes[0] if v.classes else type(v).__name__)
        if isinstance(v, (Ext, Top)):
            return Ext(f"type({v!r})")
        n = "NoneType" if v is None else type(v).__name__
        if isinstance(v, (Func, Native, Bound)):
            n = "function"
        b = self.btypes.get(n)
        if b is None:
            b = self.btypes.setdefault(n, BType(n))
        return b

    # -------------------------------------------------------------- expressions
    def ev(self, n, env):
        self.steps += 1
        return getattr(self, "e_" + type(n).__name__)(n, env)

    def e_Constant(self, n, env):
        if n.value is Ellipsis:
            return Ext("Ellipsis")
        return n.value

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if v.__class__ is Poison:
                    raise Undecided(v.why)
                return v
            if e.kind == "func" and e.declared and name in e.declared:
                self.throw("UnboundLocalError", f"cannot access local variable {name!r}")
            if e.kind in ("func",) and name in e.globals:
                while e.parent is not None:
                    e = e.parent
                if name in e.vars:
                    return e.vars[name]
                break
            e = e.parent
            # nested functions do not see class scopes
            while e is not None and e.kind == "class" and not first:
                e = e.parent
            first = False
        from . import lib

        b = self.builtins.get(name)
        if b is not None:
            return b
        if name in lib.EXC_NAMES:
            return self.exc_class(name)
        if name in lib.CONSTS:
            return lib.CONSTS[name]
        self.throw("NameError", f"name {name!r} is not defined")

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        v = self.ev(n.value, env)
        env.frame.line = n.lineno
        return self.getattr(v, n.attr)

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        k = self.ev(n.slice, env)
        return self.getitem(v, k)

    def e_Slice(self, n, env):
        return Slice(*[self.canon(self.ev(x, env)) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return self.elts(n.elts, env)

    def e_Set(self, n, env):
        return self.mkset(self.elts(n.elts, env))

    def mkset(self, items):
        out = []
        for x in items:
            x = self.hkey(x)
            if not any(self.eq(x, y) for y in out):
                out.append(x)
        return set(out)

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.canon(self.ev(v, env))
                if isinstance(m, dict):
                    for kk, x in m.items():
                        d[self.dkey(d, kk)] = x
                elif isinstance(m, Inst) and m.cls.find("keys"):
                    self.dict_update(d, m)
                elif m is None or isinstance(m, (str, int, list)):
                    self.throw("TypeError", "not a mapping")
                else:
                    raise Undecided(f"** of {show(m)}")
            else:
                kk = self.ev(k, env)
                x = self.ev(v, env)
                d[self.dkey(d, kk)] = x
        return d

    def e_JoinedStr(self, n, env):
        return self.mkstr([self.fmt(p, env) for p in n.values])

    def fmt(self, p, env):
        if isinstance(p, ast.Constant):
            return p.value
        v = self.ev(p.value, env)
        spec = self.ev(p.format_spec, env) if p.format_spec is not None else ""
        from . import lib

        if p.conversion == 114:
            return lib.to_repr(self, v)
        if spec:
            return lib.format_(self, v, spec)
        return lib.to_str(self, v, fstring=True)

    def e_FormattedValue(self, n, env):
        return self.fmt(n, env)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        v = self.canon(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
        if self.is_abs(v):
            lo, hi = self.range(v)
            if isinstance(n.op, ast.USub):
                return App("neg", (v,), self.kinds(v), lo=None if hi is None else -hi, hi=None if lo is None else -lo)
            return App(type(n.op).__name__, (v,), self.kinds(v))
        if isinstance(v, (Top, Ext)):
            return Top("arithmetic")
        self.throw("TypeError", "bad operand type for unary operator")

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            if i == len(n.values) - 1:
                return v
            if self.truth(v) != isand:
                return self.canon(v)
        return v

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, env)
            r = self.cmp(type(op).__name__, a, b)
            if isinstance(r, bool) and not r:
                return False
            a = b
        return r

    def cmp(self, op, a, b):
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return not self.eq(a, b)
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return not self.contains(b, a)
        return self.compare({"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op], a, b)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.canon(a), self.canon(b)
        from . import lib

        return lib.binop(self, op, a, b)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_Lambda(self, n, env):
        f = self.make_func(n, env, "<lambda>", env.frame.qual + ".<lambda>")
        return f

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.kind == "comp":
            e = e.parent
        self.bind_name(e, n.target.id, v)
        return v

    def e_Starred(self, n, env):
        raise Undecided("starred")

    def comp(self, gens, env, emit, first=None):
        def go(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            src = first if i == 0 and first is not None else self.ev(g.iter, e)
            for x in self.live_iter(self.canon(src)):
                ne = Env(e, "comp")
                ne.declared = {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                self.assign(g.target, x, ne)
                if all(self.truth(self.ev(c, ne)) for c in g.ifs):
                    go(i + 1, ne)

        go(0, env)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def e_SetComp(self, n, env):
        return self.mkset(self.e_ListComp(n, env))

    def e_GeneratorExp(self, n, env):
        src = self.canon(self.ev(n.generators[0].iter, env))
        if isinstance(src, Iter) and not isinstance(src.items, (list, tuple)):
            # without an end, or taken one at a time

            def go(i, e, src=None):
                if i == len(n.generators):
                    yield self.ev(n.elt, e)
                    return
                g = n.generators[i]
                for x in self.live_iter(src if i == 0 else self.canon(self.ev(g.iter, e))):
                    ne = Env(e, "comp")
                    ne.declared = {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                    self.assign(g.target, x, ne)
                    if all(self.truth(self.ev(c, ne)) for c in g.ifs):
                        yield from go(i + 1, ne)

            from . import lib

            seq = lib.LazySeq(go(0, env, src))
            it = Iter(seq)
            seq.owner = it
            return it
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)), src)
        return Iter(out)

    def e_DictComp(self, n, env):
        d = {}

        def emit(e):
            k = self.ev(n.key, e)
            v = self.ev(n.value, e)
            d[self.dkey(d, k)] = v

        self.comp(n.generators, env, emit)
        return d

    def e_Await(self, n, env):
        v = self.canon(self.ev(n.value, env))
        if isinstance(v, Coro):
            return self.run(v.fn, v.args, v.kwargs)
        self.event("await", show(v) if not isinstance(v, Model) else type(v).__name__)
        if isinstance(v, Model) and hasattr(v, "awaited"):
            return v.awaited(self)
        return v

    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        fr = env.frame
        if fr.on_yield is None:
            raise Undecided("yield outside of a generator call")
        return fr.on_yield(v)

    def e_YieldFrom(self, n, env):
        for x in self.iterate(self.ev(n.value, env)):
            env.frame.on_yield(x)
        return None

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = env.frame
            e = env
            while e is not None and e.kind != "func":
                e = e.parent
            return self.super_(fr.cls, fr.self_)
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.canon(self.ev(k.value, env))
                if isinstance(m, dict):
                    for kk, v in m.items():
                        kk = self.canon(kk)
                        if kk in kwargs:
                            self.throw("TypeError", f"got multiple values for keyword argument {kk!r}")
                        if not isinstance(kk, str) and not self.is_abs(kk) and not isinstance(kk, SStr):
                            self.throw("TypeError", "keywords must be strings")
                        kwargs[kk] = v
                elif isinstance(m, (Ext, Top, Model)) or self.is_abs(m):
                    raise Undecided(f"** of {show(m)}")
                elif isinstance(m, Inst) and m.cls.find("keys"):
                    self.dict_update(kwargs, m)
                else:
                    self.throw("TypeError", "argument after ** must be a mapping")
            else:
                if k.arg in kwargs:
                    self.throw("TypeError", f"got multiple values for keyword argument {k.arg!r}")
                kwargs[k.arg] = self.ev(k.value, env)
        env.frame.line = n.lineno
        self.cov_calls.add((env.frame.file, n.lineno, n.col_offset))
        name = n.func.id if isinstance(n.func, ast.Name) else None
        if name in ("locals", "globals", "vars", "dir") and isinstance(f, Native) and not args:
            if name == "globals":
                return env.frame.module.env
            e = env
            while e.kind == "comp":
                e = e.parent
            return dict(e.vars)
        return self.call(f, args, kwargs, n)

    def super_(self, cls, self_):
        if cls is None:
            raise Undecided("super() outside of a class")
        I = self

        class Super(Model):
            def attr(s, I_, name):
                c = self_.cls if isinstance(self_, Inst) else self_
                mro = c.mro if isinstance(c, Cls) else []
                i = mro.index(cls) if cls in mro else -1
                for b in mro[i + 1 :]:
                    if isinstance(b, Cls) and name in b.attrs:
                        a = b.attrs[name]
                        if isinstance(a, Wrapped):
                            if a.kind == "static":
                                return a.fn
                            if a.kind == "class":
                                return Bound(c, a.fn)
                            if a.kind in ("property", "cached_property"):
                                return I.call(a.fn, [self_], {})
                        if isinstance(a, Func):
                            return Bound(self_, a)
                        return a
                    if isinstance(b, Cls) and name == "__init__" and b.dc is not None:
                        return Native("__init__", lambda J, a, k, b=b: J.dc_init(b, self_, a, k))
                    if isinstance(b, Cls) and name == "__init__" and b.exc and b.module == "builtins":
                        def exc_init(J, a, k):
                            J.mut(self_.attrs)
                            self_.attrs["args"] = tuple(a)
                        return Native("__init__", exc_init)
                    if isinstance(b, BType):
                        inner = self_.attrs.get("value") if isinstance(self_, Inst) else None
                        if inner is not None:
                            return I.getattr(inner, name)
                if name == "__init__":
                    def obj_init(J, a, k):
                        if (a or k) and isinstance(self_, Inst) and not self_.cls.unknown_base:
                            J.throw("TypeError", "object.__init__() takes exactly one argument")
                        if isinstance(self_, Inst) and self_.cls.unknown_base:
                            J.mut(self_.attrs)
                            self_.attrs.update(k)
                    return Native("__init__", obj_init)
                if name == "__eq__":
                    return Native("__eq__", lambda J, a, k: self_ is J.canon(a[0]))
                if name == "__new__":
                    return Native("__new__", lambda J, a, k: Inst(a[0], J.site()))
                if name == "__setattr__":
                    def sa(J, a, k):
                        J.mut(self_.attrs)
                        self_.attrs[a[0]] = a[1]
                    return Native("__setattr__", sa)
                if name in ("__hash__", "__repr__", "__str__"):
                    return Native(name, lambda J, a, k: App(name, (self_,)))
                if name in ("__enter__",):
                    return Native(name, lambda J, a, k: self_)
                if isinstance(self_, Inst) and self_.cls.unknown_base:
                    return Ext(f"super().{name}")
                I_.throw("AttributeError", f"'super' object has no attribute {name!r}")

        return Super()


def lib_pred(op, c, args):
    """Evaluate a recorded predicate on a constant (None: cannot tell)."""
    try:
        if op == "startswith" and isinstance(c, str):
            return c.startswith(args[0])
        if op == "endswith" and isinstance(c, str):
            return c.endswith(args[0])
        if op == "contains" and isinstance(c, str) and isinstance(args[0], str):
            return args[0] in c
        if op == ">" and isinstance(c, (int, float)):
            return c > args[0]
        if op == "<c" and isinstance(c, (int, float)):
            return c < args[0]
        if op in ("isdigit", "isalpha", "isidentifier", "isalnum", "isupper", "islower", "isnumeric", "isdecimal", "isspace") and isinstance(c, str):
            return getattr(c, op)()
        if op.startswith("re.") and isinstance(c, str) and isinstance(args[0], str):
            return getattr(re, op[3:])(args[0], c) is not None
    except Exception:
        return None
    return None
