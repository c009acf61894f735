"""Models of Python's built-ins and of the standard library."""
from __future__ import annotations

import builtins as hb
import copy as hcopy
import fractions
import inspect as hinspect
import json as hjson
import math as hmath
import operator as hoperator
import pathlib as hpathlib
import posixpath as hposix
import re as hre
import string as hstring
import urllib.parse as hurl

from .values import *
from .values import ANY

EXC_NAMES = {n for n in dir(hb) if isinstance(getattr(hb, n), type) and issubclass(getattr(hb, n), BaseException)}
CONSTS = {"NotImplemented": Ext("NotImplemented"), "__debug__": True, "Ellipsis": Ext("Ellipsis")}


class View(list):
    """The result of dict.keys(), values() and items()."""


class DefaultDict(dict):
    default_factory = None


class Deque(list):
    pass


class CountSeq:
    def __init__(self, start, step):
        self.start, self.step = start, step

    def __len__(self):
        return 1 << 40

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Undecided("infinite iteration")
        return self.start + i * self.step if isinstance(self.start, int) else Top("count")


class LazySeq:
    """The items of a generator expression that are taken one at a time."""

    def __init__(self, gen):
        self.gen, self.buf, self.done, self.owner = gen, [], False, None

    def pull(self):
        if not self.done:
            if len(self.buf) > 3000:
                raise Undecided("infinite iteration")
            try:
                self.buf.append(next(self.gen))
            except StopIteration:
                self.done = True

    def __len__(self):
        while not self.done and len(self.buf) <= self.owner.pos:
            self.pull()
        return len(self.buf)

    def __getitem__(self, i):
        if isinstance(i, slice):
            while not self.done:
                self.pull()
        return self.buf[i]


class RepeatSeq(CountSeq):
    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Undecided("infinite iteration")
        return self.start


# ------------------------------------------------------------------ host values
class HostModel(Model):
    """A value of a pure standard-library type, over clean atoms."""

    def __init__(self, host, classes=()):
        self.host = host
        self.classes = tuple(c.__name__ for c in type(host).__mro__) + tuple(classes)

    def attr(self, I, name):
        if isinstance(self.host, hpathlib.PurePath) and name in PATH_EFFECTS:
            def eff(J, a, k):
                J.event("extcall", "pathlib.Path." + name, [self] + a, k)
                if name in ("mkdir", "touch", "unlink", "rmdir", "chmod"):
                    return J.hooks["made"](J, name, self.tostr(J), a, k) if "made" in J.hooks else None
                if name == "expanduser" and str(self.host).startswith("~/"):
                    return wrap(J, type(self.host)("/home/user") / str(self.host)[2:])
                if name in ("expanduser", "resolve", "absolute"):
                    return self
                if name in ("exists", "is_dir") and "made" in J.hooks:
                    return J.hooks["made"](J, name, self.tostr(J), a, k)
                if "fs" in J.hooks:
                    return J.hooks["fs"](J, name, self.tostr(J), a, k)
                return Ext(f"pathlib.Path.{name}()", (self,), True)
            return Native("Path." + name, eff)
        if isinstance(self.host, hpathlib.PurePath) and name == "as_uri":
            import urllib.parse as up

            def uri(J, a, k):
                if not self.host.is_absolute():
                    J.throw("ValueError", "relative path can't be expressed as a file URI")
                t = self.tostr(J)
                ps = [up.quote(p) if isinstance(p, str) else p if p.clean else App("quote", (p,), ("str",)) for p in (t.parts if isinstance(t, SStr) else [t])]
                return J.mkstr(["file://"] + ps)
            return Native("Path.as_uri", uri)
        if isinstance(self.host, hpathlib.PurePath) and name in ("stem", "suffix", "suffixes"):
            base = self.host.name
            d = I.decode(base)
            atoms = d.parts if isinstance(d, SStr) else (d,)
            if any(isinstance(x, (Sym, App)) and not x.clean and not (I.kinds(x) <= {"int"}) for x in atoms):
                return App(name, (d,), ("str",))
        try:
            v = getattr(self.host, name)
        except AttributeError:
            I.throw("AttributeError", f"{type(self.host).__name__!r} object has no attribute {name!r}")
        except ValueError as e:
            I.throw("ValueError", str(e))
        if callable(v):
            return Native(f"{type(self.host).__name__}.{name}", lambda J, a, k: fold(J, v, a, k, seg=True))
        return wrap(I, v)

    def tostr(self, I):
        return I.decode(str(self.host))

    def equals(self, I, o):
        if isinstance(o, HostModel):
            return self.host == o.host
        if isinstance(o, tuple) and isinstance(self.host, tuple):
            return I.eq(wrap(I, tuple(self.host)), o)
        return False

    def truth(self, I):
        return bool(self.host)

    def iter(self, I):
        return [wrap(I, x) for x in self.host]

    def getitem(self, I, k):
        if isinstance(k, Slice):
            k = slice(k.a, k.b, k.c)
        try:
            return wrap(I, self.host[k])
        except (IndexError, KeyError, TypeError) as e:
            I.throw(type(e).__name__, str(e))

    def contains(self, I, x):
        return any(I.eq(x, y) for y in self.iter(I))

    def __hash__(self):
        try:
            return hash(self.host)
        except TypeError:
            return id(self)

    def __eq__(self, o):
        return isinstance(o, HostModel) and self.host == o.host

    def __repr__(self):
        return f"{type(self.host).__name__}({self.host!s})"


PATH_EFFECTS = {
    "mkdir", "exists", "is_file", "is_dir", "iterdir", "glob", "rglob", "open", "read_text", "write_text", "read_bytes",
    "write_bytes", "unlink", "touch", "rename", "replace", "stat", "resolve", "absolute", "expanduser", "rmdir", "chmod",
}


class Match(Model):
    classes = ("Match",)

    def __init__(self, m, I):
        self.m = m

    def attr(self, I, name):
        if name in ("string", "re", "lastindex", "pos"):
            return wrap(I, getattr(self.m, name)) if name != "re" else Top("re")
        f = getattr(self.m, name)
        return Native("Match." + name, lambda J, a, k: wrap(J, f(*[J.encode(x) for x in a], **k)))

    def getitem(self, I, k):
        return wrap(I, self.m[k])

    def truth(self, I):
        return True


class AbsMatch(Model):
    """The match of a pattern against a string that is not known."""

    classes = ("Match",)

    def __init__(self, pat, s, op):
        self.pat, self.s, self.op = pat, s, op

    def truth(self, I):
        return True

    def group(self, n):
        return App("re.group", (self.pat, self.s, n), ("str",))

    def m_group(self, I, a, k):
        if not a:
            return self.group(0) if self.op != "fullmatch" else self.s
        if len(a) == 1:
            return self.group(a[0])
        return tuple(self.group(x) for x in a)

    def m_groups(self, I, a, k):
        n = hre.compile(self.pat).groups
        return tuple(self.group(i + 1) for i in range(n))

    def m_groupdict(self, I, a, k):
        return {n: self.group(n) for n in hre.compile(self.pat).groupindex}

    def getitem(self, I, k):
        return self.group(k)

    def missing(self, I, name):
        raise Undecided("match of an unknown string")


class Pattern(Model):
    classes = ("Pattern",)

    def __init__(self, pat, flags=0):
        self.pat, self.flags = pat, flags

    def a_pattern(self, I):
        return self.pat

    def attr(self, I, name):
        if name in ("match", "fullmatch", "search", "split", "findall", "finditer", "sub"):
            return Native("re." + name, lambda J, a, k: re_call(J, name, self.pat, a, k, self.flags))
        return super().attr(I, name)

    def equals(self, I, o):
        return isinstance(o, Pattern) and o.pat == self.pat


def re_call(I, name, pat, a, k, flags=0):
    pat = I.canon(pat)
    if not isinstance(pat, str):
        raise Undecided("unknown pattern")
    a = [I.canon(x) for x in a]
    if "flags" in k:
        flags = k.pop("flags")
    if not isinstance(flags, (int, hre.RegexFlag)):
        raise Undecided("flags")
    if name == "sub":
        rep, s = a[0], a[1]
        if isinstance(rep, (Func, Native, Bound)):
            raise Undecided("re.sub with a function")
        try:
            return I.decode(hre.sub(pat, I.encode(rep), I.encode(s), flags=flags, **k))
        except I.NotClean:
            return App("re.sub", (pat, rep, s), ("str",))
    s = a[0] if a else k.get("string")
    if s is None:
        I.throw("TypeError", "expected string or bytes-like object")
    if I.is_abs(s) and "NoneType" in I.kinds(s) and I.ask_kind(s, "NoneType"):
        I.throw("TypeError", "expected string or bytes-like object")
    s = I.canon(s)
    if I.is_abs(s) and not (I.kinds(s) & {"str"}) or isinstance(s, (int, float, list, dict)):
        I.throw("TypeError", "expected string or bytes-like object")
    try:
        e = I.encode(s)
    except I.NotClean:
        if name in ("match", "fullmatch", "search") and (I.is_abs(s) or isinstance(s, SStr)):
            if isinstance(s, SStr) and any(isinstance(p, str) for p in s.parts):
                # the parts that are known may settle it, whatever the others are
                seen = {bool(getattr(hre, name)(pat, "".join(p if isinstance(p, str) else w for p in s.parts), flags=flags)) for w in ("", "x", "9", "a/b.c d", "Ab-é_(1)")}
                if len(seen) == 1:
                    raise Undecided("pattern on a partly unknown string")
            if not flags and I.is_abs(s) and not s.apart or isinstance(s, SStr):
                if I.pred_fork("re." + name, s, (pat,)):
                    return AbsMatch(pat, s, name)
                return None
            return None
        raise Undecided("pattern on an unknown string")
    if I.is_abs(s) and not s.apart and name in ("match", "fullmatch", "search"):
        # a clean atom stands for every alphanumeric word
        if hre.search(r"[a-z0-9]", pat.replace("\\d", "").replace("\\w", "").replace("\\s", "")) and not s.apart:
            if I.pred_fork("re." + name, s, (pat,)):
                return AbsMatch(pat, s, name)
            return None
    r = getattr(hre, name)(pat, e, flags=flags)
    if name in ("match", "fullmatch", "search"):
        return Match(r, I) if r is not None else None
    if name == "finditer":
        return Iter([Match(m, I) for m in r])
    return wrap(I, r)


def wrap(I, v):
    if v is None or isinstance(v, (bool, float, bytes)):
        return v
    if isinstance(v, (str, int)):
        return I.decode(v)
    if type(v) in (list, tuple):
        return type(v)([wrap(I, x) for x in v])
    if type(v) in (set, frozenset):
        return type(v)([wrap(I, x) for x in v])
    if type(v) is dict:
        return {wrap(I, k): wrap(I, x) for k, x in v.items()}
    if isinstance(v, (hpathlib.PurePath, tuple)):
        return HostModel(v, ("Path", "PosixPath", "PurePath", "PurePosixPath") if isinstance(v, hpathlib.PurePath) else ())
    if hasattr(v, "__next__"):
        return Iter([wrap(I, x) for x in v])
    if isinstance(v, hpathlib.PurePath) or type(v).__name__ == "_PathParents":
        return [wrap(I, x) for x in v]
    raise Undecided(f"host value {type(v).__name__}")


def enc(I, v, seg=False):
    v = I.canon(v)
    if isinstance(v, HostModel):
        return v.host
    if seg and isinstance(v, App) and v.op in ("quote_plus", "quote") and I.kinds(v) == {"str"}:
        if v.op == "quote" and v.args[1:] and v.args[1] != "":
            raise I.NotClean(repr(v))
        return I.token(v)
    if seg and isinstance(v, SStr):
        return "".join(p if isinstance(p, str) else str(enc(I, p, True)) for p in map(I.canon, v.parts))
    if isinstance(v, (list, tuple)):
        return type(v)([enc(I, x, seg) for x in v])
    if isinstance(v, Iter):
        return [enc(I, x, seg) for x in I.iterate(v)]
    if isinstance(v, dict):
        return {enc(I, k, seg): enc(I, x, seg) for k, x in v.items()}
    if isinstance(v, Model) and hasattr(v, "tostr"):
        return enc(I, v.tostr(I), seg)
    return I.encode(v)


def fold(I, f, a, k, seg=False, name=None):
    """Apply a pure function to values that are known up to clean atoms."""
    try:
        ha = [enc(I, x, seg) for x in a]
        hk = {n: enc(I, x, seg) for n, x in k.items()}
    except I.NotClean as e:
        if any(isinstance(I.canon(x), (Top, Ext)) for x in a):
            return Top(f"{name or f}")
        raise Undecided(f"{name or getattr(f, '__name__', f)} of {e}")
    try:
        r = f(*ha, **hk)
    except (ValueError, TypeError, KeyError, AttributeError, IndexError, OverflowError) as e:
        I.throw(type(e).__name__, str(e))
    return wrap(I, r)


# ----------------------------------------------------------------------- strings
def strlike(I, v):
    return isinstance(v, (str, SStr, JsonText)) or (I.is_abs(v) and I.kinds(v) <= {"str"})


def to_str(I, v, fstring=False):
    v = I.canon(v)
    if isinstance(v, (str, SStr, JsonText)):
        return v
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return str(v)
    if I.is_abs(v):
        k = I.kinds(v)
        if k <= {"str"}:
            return v
        if k <= {"int"}:
            return SStr((v,))
        if "NoneType" in k and I.ask_kind(v, "NoneType"):
            return "None"
        if "str" in I.kinds(v) and len(I.kinds(v)) > 1 and I.ask_kind(v, "str"):
            return v
        if I.kinds(v) <= {"int"}:
            return SStr((v,))
        return App("str", (v,), ("str",))
    if isinstance(v, Inst):
        for n in ("__str__", "__repr__"):
            f = v.cls.find(n)
            if f and isinstance(f[0], Func):
                return I.call(Bound(v, f[0]), [], {})
        if v.cls.exc:
            a = v.attrs.get("args", ())
            if len(a) == 1:
                return to_str(I, a[0])
            if not a:
                return ""
            return App("str", (v,), ("str",))
        if v.cls.enum:
            if any(getattr(b, "name", "") == "StrEnum" for b in v.cls.mro):
                return v.attrs["value"]
            if fstring and any(isinstance(b, BType) and b.name == "str" for b in v.cls.mro):
                return f"{v.cls.name}.{v.attrs['name']}"
            return f"{v.cls.name}.{v.attrs['name']}"
        if "__value__" in v.attrs:
            return to_str(I, v.attrs["__value__"])
        return App("str", (v,), ("str",))
    if isinstance(v, Model):
        f = getattr(v, "tostr", None)
        if f:
            return f(I)
        return App("str", (v,), ("str",))
    if isinstance(v, (list, dict, tuple, set, frozenset)):
        try:
            return I.decode(str(I.encode(v)))
        except (I.NotClean, Undecided):
            return App("str", (_hold(v),), ("str",))
    if isinstance(v, Top):
        return App("str", (v,), ("str",))
    return App("str", (v,), ("str",))


class Hold:
    """Identity wrapper so that terms over containers stay hashable."""

    __slots__ = ("v", "f")

    def __init__(self, v):
        self.v = v
        self.f = freeze(v)

    def __hash__(self):
        try:
            return hash(self.f)
        except TypeError:
            return id(self)

    def __eq__(self, o):
        return isinstance(o, Hold) and self.f == o.f

    def __repr__(self):
        return show(self.v)


def _hold(v):
    return Hold(hcopy.copy(v))


def to_repr(I, v):
    v = I.canon(v)
    if v is None or isinstance(v, (bool, int, float, bytes, str)):
        return repr(v)
    if isinstance(v, Inst):
        f = v.cls.find("__repr__")
        if f and isinstance(f[0], Func):
            return I.call(Bound(v, f[0]), [], {})
        if v.cls.enum:
            return f"<{v.cls.name}.{v.attrs['name']}: {v.attrs['value']!r}>"
    if strlike(I, v) and not isinstance(v, JsonText):
        return I.mkstr(["'", v, "'"])
    if I.is_abs(v) and I.kinds(v) <= {"int"}:
        return SStr((v,))
    return App("repr", (_hold(v) if isinstance(v, (list, dict, set, tuple)) else v,), ("str",))


def format_(I, v, spec):
    v, spec = I.canon(v), I.canon(spec)
    if not isinstance(spec, str):
        return App("format", (v, spec), ("str",))
    if v is None or isinstance(v, (bool, int, float, str)):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    if spec == "" or (spec == "d" and I.is_abs(v) and I.kinds(v) <= {"int"}) or (spec == "s" and strlike(I, v)):
        return to_str(I, v, True)
    return App("format", (v, spec), ("str",))


def str_format(I, s, a, k):
    parts, auto = [], 0
    for lit, field, spec, conv in hstring.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        m = hre.match(r"^([^.\[]*)(.*)$", field)
        first, rest = m.groups()
        if first == "":
            if auto >= len(a):
                I.throw("IndexError", "Replacement index out of range")
            v = a[auto]
            auto += 1
        elif first.isdigit():
            if int(first) >= len(a):
                I.throw("IndexError", "Replacement index out of range")
            v = a[int(first)]
        else:
            if first not in k:
                I.throw("KeyError", first)
            v = k[first]
        for at in hre.findall(r"\.(\w+)|\[([^\]]+)\]", rest):
            v = I.getattr(v, at[0]) if at[0] else I.getitem(v, int(at[1]) if at[1].isdigit() else at[1])
        parts.append(to_repr(I, v) if conv == "r" else format_(I, v, spec) if spec else to_str(I, v, True))
    return I.mkstr(parts)


def str_percent(I, s, arg):
    arg = I.canon(arg)
    out, pos, i = [], 0, 0
    args = list(arg) if isinstance(arg, tuple) else [arg]
    for m in hre.finditer(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([sdrifx%])", s):
        out.append(s[pos : m.start()])
        pos = m.end()
        if m.group(3) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = I.getitem(arg, m.group(1))
        else:
            if i >= len(args):
                I.throw("TypeError", "not enough arguments for format string")
            v = args[i]
            i += 1
        if m.group(2):
            v = I.canon(v)
            out.append(("%" + m.group(2) + m.group(3)) % v if isinstance(v, (int, str, float)) else App("%", (m.group(0), v), ("str",)))
        else:
            out.append(to_repr(I, v) if m.group(3) == "r" else to_str(I, v))
    out.append(s[pos:])
    if i < len(args) and not isinstance(arg, (dict,)):
        I.throw("TypeError", "not all arguments converted during string formatting")
    return I.mkstr(out)


def str_contains(I, s, x):
    s, x = I.canon(s), I.canon(x)
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if not strlike(I, x):
        if I.is_abs(x) and "str" in I.kinds(x):
            if not I.ask_kind(x, "str"):
                I.throw("TypeError", "'in <string>' requires string as left operand")
            x = I.canon(x)
        else:
            I.throw("TypeError", "'in <string>' requires string as left operand")
    if I.is_abs(s):
        if "NoneType" in I.kinds(s) and I.ask_kind(s, "NoneType"):
            I.throw("TypeError", "argument of type 'NoneType' is not iterable")
        s = I.canon(s)
        if isinstance(s, str):
            return str_contains(I, s, x)
        if I.is_abs(s) and not (I.kinds(s) <= {"str"}) and not I.ask_kind(s, "str"):
            return I.pred_fork("in", s, (x,))
    s = I.norm(s)
    if isinstance(s, SStr):
        parts = s.parts
        if isinstance(x, str):
            if any(isinstance(p, str) and x in p for p in parts):
                return True
            for p in parts:
                if not isinstance(p, str) and I.is_abs(p):
                    if _may_contain(I, p, x) and I.pred_fork("contains", p, (x,)):
                        return True
            return False
        if any(I.same(p, x) for p in parts):
            return True
        return I.pred_fork("contains", s, (x,))
    if isinstance(s, JsonText):
        raise Undecided("search in a document")
    if I.same(s, x):
        return True
    if isinstance(x, str):
        if x == "":
            return True
        if not _may_contain(I, s, x):
            return False
    if isinstance(s, str):
        # is the unknown x one of the substrings of a literal?
        return I.pred_fork("within", x, (s,))
    return I.pred_fork("contains", s, (x,))


def _may_contain(I, p, x):
    """Can the atom's text contain `x`?  Clean atoms are alphanumeric words."""
    if I.kinds(p) <= {"int"}:
        return all(c in "-0123456789" for c in x)
    if p.clean:
        return x.isalnum() and x == x.lower() and not p.apart
    if isinstance(p, App) and p.op == "quote_plus":
        return all(c.isalnum() or c in "_.-~+%" for c in x)
    return not p.apart


def affix(I, s, x, op):
    """startswith / endswith"""
    x = I.canon(x)
    if isinstance(x, tuple):
        return any(affix(I, s, y, op) for y in x)
    s = I.norm(I.canon(s))
    x = I.norm(x)
    start = op == "startswith"
    if isinstance(s, str) and isinstance(x, str):
        return getattr(s, op)(x)
    if not strlike(I, x):
        I.throw("TypeError", f"{op} first arg must be str or a tuple of str")
    if x == "" or I.same(s, x):
        return True
    sp = list(s.parts) if isinstance(s, SStr) else [s]
    xp = list(x.parts) if isinstance(x, SStr) else [x]
    if not start:
        sp, xp = sp[::-1], xp[::-1]
    while xp and sp:
        a, b = sp[0], xp[0]
        if isinstance(a, str) and isinstance(b, str):
            if start:
                if a.startswith(b):
                    sp[0] = a[len(b):]
                    xp.pop(0)
                elif b.startswith(a):
                    xp[0] = b[len(a):]
                    sp.pop(0)
                else:
                    return False
            else:
                if a.endswith(b):
                    sp[0] = a[: len(a) - len(b)]
                    xp.pop(0)
                elif b.endswith(a):
                    xp[0] = b[: len(b) - len(a)]
                    sp.pop(0)
                else:
                    return False
            if sp and sp[0] == "":
                sp.pop(0)
            if xp and xp[0] == "":
                xp.pop(0)
            continue
        if not isinstance(a, str) and not isinstance(b, str):
            if I.same(a, b):
                sp.pop(0)
                xp.pop(0)
                continue
            if a.clean and b.clean:
                return False
            return I.pred_fork(op, _rejoin(I, sp, start), (_rejoin(I, xp, start),))
        if isinstance(b, str):
            # unknown text against a literal
            if I.is_abs(a) and (a.clean or I.kinds(a) <= {"int"}):
                c = b[0] if start else b[-1]
                ok = c.isdigit() if I.kinds(a) <= {"int"} else (c.isalnum() and c == c.lower())
                if not ok or a.apart:
                    return False
                if len(sp) == 1 and not (b.isalnum()):
                    return False
            elif I.is_abs(a) and a.apart:
                return False
            if len(sp) == 1 and I.is_abs(a):
                return I.pred_fork(op, a, (b,))
            if I.is_abs(a) and a.clean and not b.isalnum():
                # the literal leaves the word: general position
                return False
            return I.pred_fork(op, _rejoin(I, sp, start), (b,))
        return False if (I.is_abs(b) and b.clean) else I.pred_fork(op, _rejoin(I, sp, start), (_rejoin(I, xp, start),))
    if not xp:
        return True
    # the text ended first: the rest of x must be empty
    return all(not isinstance(p, str) and I.is_abs(p) and not p.nonempty and not I.truth(p) for p in xp)


def _rejoin(I, parts, start):
    return I.mkstr(parts if start else parts[::-1])


WORD_OPS = {"lower", "casefold", "strip", "lstrip", "rstrip", "split", "splitlines"}


def str_method(I, s, name, a, k):
    s = I.norm(I.canon(s))
    a = [I.norm(I.canon(x)) if not isinstance(x, (list, tuple)) else x for x in a]
    if name in ("startswith", "endswith"):
        return affix(I, s, a[0], name)
    if name == "join":
        items = I.iterate(a[0])
        parts = []
        for i, x in enumerate(items):
            x = I.canon(x)
            if isinstance(x, Inst) and x.cls.enum and isinstance(x.attrs["value"], str):
                x = x.attrs["value"]
            if not strlike(I, x):
                if I.is_abs(x) and "str" in I.kinds(x):
                    if not I.ask_kind(x, "str"):
                        I.throw("TypeError", "sequence item: expected str instance")
                elif isinstance(x, (Top, Ext)):
                    return Top("joined string")
                else:
                    I.throw("TypeError", "sequence item: expected str instance")
            if i:
                parts.append(s)
            parts.append(x)
        return I.mkstr(parts)
    if name == "format":
        if isinstance(s, str):
            return str_format(I, s, a, k)
        return App("format", (s,) + tuple(a), ("str",))
    if isinstance(s, JsonText):
        if name in ("encode", "decode", "strip"):
            return s
        raise Undecided(f"{name} of a document")
    if name in ("__str__",):
        return s
    if name in ("__len__",):
        return len_(I, s)
    if name in ("__contains__",):
        return str_contains(I, s, a[0])
    if name == "removeprefix":
        if affix(I, s, a[0], "startswith"):
            p = a[0]
            if isinstance(s, str) and isinstance(p, str):
                return s[len(p):]
            if isinstance(s, SStr):
                r = I.drop(s, len_(I, p))
                if r is not None:
                    return r
            return App("removeprefix", (s, p), ("str",))
        return s
    if name == "removesuffix":
        if affix(I, s, a[0], "endswith"):
            p = a[0]
            if isinstance(s, str) and isinstance(p, str):
                return s[: len(s) - len(p)] if p else s
            if isinstance(s, SStr) and isinstance(p, str) and isinstance(s.parts[-1], str) and s.parts[-1].endswith(p):
                return I.mkstr(list(s.parts[:-1]) + [s.parts[-1][: len(s.parts[-1]) - len(p)]])
            if isinstance(s, SStr) and I.same(s.parts[-1], p):
                return I.mkstr(list(s.parts[:-1]))
            return App("removesuffix", (s, p), ("str",))
        return s
    if name in ("isdigit", "isalpha", "isidentifier", "isalnum", "isupper", "islower", "isnumeric", "isdecimal", "isspace", "isascii", "istitle", "isprintable"):
        if isinstance(s, str):
            return getattr(s, name)()
        if I.is_abs(s):
            if s.clean and name in ("isalnum", "isascii", "isprintable"):
                return True
            if s.clean and name in ("isspace", "isupper", "istitle"):
                return False
            w = s.args[0] if isinstance(s, App) and s.op == "[]" and s.args[1] == 0 else s
            if isinstance(w, Sym) and w.clean and w.apart:
                # a name: a word that starts with a letter
                if name in ("isdigit", "isnumeric", "isdecimal", "isspace", "isupper", "istitle"):
                    return False
                if name in ("isidentifier", "isalnum", "isascii", "isprintable") or (name == "isalpha" and w is not s):
                    return True
            return I.pred_fork(name, s, ())
        return I.pred_fork(name, s, ())
    if name in ("lower", "casefold") and I.is_abs(s):
        if s.clean:
            return s if not (isinstance(s, App) and s.op == "upper") else s.args[0]
        if isinstance(s, App) and s.op in ("lower", "casefold"):
            return s
        return App("lower", (s,), ("str",), clean=False)
    if name == "upper" and I.is_abs(s):
        if isinstance(s, App) and s.op == "upper":
            return s
        return App("upper", (s,), ("str",), clean=s.clean)
    if name in ("lower", "upper", "casefold") and isinstance(s, SStr):
        return I.mkstr([getattr(p, name)() if isinstance(p, str) else (p if I.kinds(p) <= {"int"} else str_method(I, p, name, [], {})) for p in s.parts])
    if name in ("strip", "lstrip", "rstrip") and a and isinstance(a[0], str) and (I.is_abs(s) or isinstance(s, SStr)) and any(c.isalnum() for c in a[0]):
        ps = s.parts if isinstance(s, SStr) else (s,)
        if (name != "rstrip" and not isinstance(ps[0], str)) or (name != "lstrip" and not isinstance(ps[-1], str)):
            return App(name, (s,) + tuple(a), ("str",))
    if name in ("strip", "lstrip", "rstrip") and isinstance(s, SStr):
        try:
            return fold(I, getattr(str, name), [s] + a, {})
        except Undecided:
            # known text at the ends can still be stripped
            ps = list(s.parts)
            ch = a[0] if a else None
            if (ch is None or isinstance(ch, str)):
                if name != "rstrip" and isinstance(ps[0], str):
                    ps[0] = ps[0].lstrip(ch)
                if name != "lstrip" and isinstance(ps[-1], str):
                    ps[-1] = ps[-1].rstrip(ch)
            first = ps[0] if name != "rstrip" else "x"
            last = ps[-1] if name != "lstrip" else "x"
            ok = all(isinstance(p, str) and p for p in (first, last))
            r = I.mkstr(ps)
            return r if ok else App(name, (r,) + tuple(a), ("str",))
    seg = name in ("split", "rsplit", "partition", "rpartition", "count", "find", "rfind") and a and a[0] == "/"
    f = getattr(str, name, None)
    if f is None:
        I.throw("AttributeError", f"'str' object has no attribute {name!r}")
    try:
        ha = [enc(I, s, seg)] + [enc(I, x) for x in a]
        hk = {n: enc(I, x) for n, x in k.items()}
    except I.NotClean:
        if isinstance(s, SStr) and name == "replace" and isinstance(a[0], str) and all(not isinstance(p, str) and I.is_abs(p) and not _may_contain(I, p, a[0]) or isinstance(p, str) for p in s.parts) and len(a) == 2:
            out = []
            for p in s.parts:
                if isinstance(p, str):
                    segs = p.split(a[0])
                    for i, g in enumerate(segs):
                        if i:
                            out.append(a[1])
                        out.append(g)
                else:
                    out.append(p)
            return I.mkstr(out)
        if isinstance(s, SStr) and name in ("split", "rsplit", "partition", "rpartition") and a and isinstance(a[0], str) and a[0]:
            r = split_parts(I, s, name, a)
            if r is not None:
                return r
        if name in ("split", "rsplit", "partition", "rpartition", "splitlines"):
            if I.is_abs(s) and a and isinstance(a[0], str) and name in ("split", "rsplit", "partition", "rpartition") and (len(a) == 1 or a[1] == 1 or name.endswith("partition")):
                # either the separator does not occur, or it splits the text
                if not I.pred_fork("contains", s, (a[0],)):
                    return [s] if "part" not in name else ((s, a[0][:0], "") if name == "partition" else ("", "", s))
                if name.endswith("partition"):
                    return (App(name + "0", (s, a[0]), ("str",)), a[0], App(name + "2", (s, a[0]), ("str",)))
                if len(a) > 1:
                    return [App(name + "1.0", (s, a[0]), ("str",)), App(name + "1.1", (s, a[0]), ("str",))]
            raise Undecided(f"{name} of {show(s)}")
        if name in ("count", "find", "rfind", "index", "rindex"):
            return App(name, (s,) + tuple(a), ("int",), lo=-1)
        if name in ("encode",):
            return App("encode", (s,), ("bytes",))
        return App(name, (s,) + tuple(a), ("str",))
    if name in ("title", "capitalize", "swapcase", "center", "ljust", "rjust", "zfill", "translate", "find", "rfind", "index", "rindex", "encode", "expandtabs", "maketrans") and not isinstance(s, str):
        return App(name, (s,) + tuple(a), ("int",) if "nd" in name or "dex" in name else ("str",))
    if name == "count" and not isinstance(s, str):
        lit = a[0] if isinstance(a[0], str) else None
        if lit is None or lit.isalnum():
            return App(name, (s,) + tuple(a), ("int",), lo=0)
    if name == "replace" and not isinstance(s, str):
        ps = s.parts if isinstance(s, SStr) else (s,)
        if isinstance(a[0], str) and any(not isinstance(p, str) and I.is_abs(p) and _may_contain(I, p, a[0]) for p in ps) :
            return App(name, (s,) + tuple(a), ("str",))
    try:
        r = f(*ha, **hk)
    except (ValueError, TypeError, LookupError) as e:
        I.throw(type(e).__name__, str(e))
    if isinstance(r, bytes):
        return App("encode", (s,), ("bytes",)) if not isinstance(s, str) else r
    return wrap(I, r)


def split_parts(I, s, name, a):
    """Split at literal separators when no unknown part can contain one."""
    sep = a[0]
    lim = a[1] if len(a) > 1 else -1
    if any(not isinstance(p, str) and _may_contain(I, p, sep) for p in s.parts):
        return None
    toks, m = [], {}
    for p in s.parts:
        if isinstance(p, str):
            toks.append(p)
        else:
            key = chr(0xE000 + len(m))
            m[key] = p
            toks.append(key)
    text = "".join(toks)

    def back(t):
        return I.mkstr([m.get(c, c) for c in t])

    if not isinstance(lim, int):
        return None
    r = getattr(text, name)(sep, lim) if "split" in name else getattr(text, name)(sep)
    return type(r)([back(t) for t in r])


def len_(I, v):
    v = I.norm(I.canon(v))
    if isinstance(v, (str, list, tuple, dict, set, frozenset, bytes, range)):
        return len(v)
    if isinstance(v, SStr):
        return App("len", (v,), ("int",), lo=sum(len(p) for p in v.parts if isinstance(p, str)))
    if I.is_abs(v):
        if I.ask_kind(v, "NoneType"):
            I.throw("TypeError", "object of type 'NoneType' has no len()")
        if I.kinds(v) <= {"int", "float", "bool"}:
            I.throw("TypeError", "object has no len()")
        return App("len", (v,), ("int",), lo=1 if v.nonempty else 0)
    if isinstance(v, Inst):
        if v.cls.find("__len__"):
            return I.call(I.getattr(v, "__len__"), [], {})
        if v.cls.dc and v.cls.dc.get("named"):
            return len(v.cls.dc["order"])
        I.throw("TypeError", f"object of type {v.cls.name!r} has no len()")
    if isinstance(v, Cls) and v.enum:
        return len(v.members)
    if isinstance(v, Model):
        f = getattr(v, "len", None)
        if f:
            return f(I)
        if isinstance(v, HostModel):
            return len(v.host)
        if hasattr(v, "items") and isinstance(v.items, list):
            return len(v.items)
        raise Undecided(f"len of {type(v).__name__}")
    if isinstance(v, (Ext, Top, JsonText)):
        return App("len", (v,), ("int",), lo=0)
    I.throw("TypeError", f"object of type {type(v).__name__!r} has no len()")


# --------------------------------------------------------------------- operators
HOPS = {
    "Add": hoperator.add, "Sub": hoperator.sub, "Mult": hoperator.mul, "Div": hoperator.truediv, "FloorDiv": hoperator.floordiv,
    "Mod": hoperator.mod, "Pow": hoperator.pow, "LShift": hoperator.lshift, "RShift": hoperator.rshift, "BitOr": hoperator.or_,
    "BitAnd": hoperator.and_, "BitXor": hoperator.xor, "MatMult": hoperator.matmul,
}
SIGN = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "LShift": "<<", "RShift": ">>", "BitOr": "|", "BitAnd": "&", "BitXor": "^"}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}


def binop(I, op, a, b):
    num = (int, float, bool, fractions.Fraction)
    if isinstance(a, num) and isinstance(b, num):
        try:
            if op == "Pow" and isinstance(b, int) and abs(b) > 100000:
                raise Undecided("power")
            return HOPS[op](a, b)
        except ZeroDivisionError:
            I.throw("ZeroDivisionError", "division by zero")
        except (ValueError, OverflowError, TypeError) as e:
            I.throw(type(e).__name__, str(e))
    for x in (a, b):
        if isinstance(x, Top):
            return Top(x.why)
    if isinstance(a, Inst) or isinstance(b, Inst):
        n = DUNDER.get(op, "?")
        if isinstance(a, Inst) and a.cls.find(f"__{n}__"):
            r = I.call(I.getattr(a, f"__{n}__"), [b], {})
            if not (isinstance(r, Ext) and r.path == "NotImplemented"):
                return r
        if isinstance(b, Inst) and b.cls.find(f"__r{n}__"):
            return I.call(I.getattr(b, f"__r{n}__"), [a], {})
        av = a.attrs["value"] if isinstance(a, Inst) and a.cls.enum and any(isinstance(c, BType) for c in a.cls.mro) else a
        bv = b.attrs["value"] if isinstance(b, Inst) and b.cls.enum and any(isinstance(c, BType) for c in b.cls.mro) else b
        if av is not a or bv is not b:
            return binop(I, op, av, bv)
        if any(isinstance(x, Inst) and x.cls.unknown_base for x in (a, b)):
            return Top("operator")
        I.throw("TypeError", f"unsupported operand type(s) for {SIGN.get(op, op)}")
    if op == "BitOr" and all(isinstance(x, (BType, Cls, Ext, tuple)) or x is None for x in (a, b)) and any(isinstance(x, (BType, Cls, Ext)) for x in (a, b)):
        if isinstance(a, Ext) and not a.res and not isinstance(b, (BType, Cls)):
            return a
        t = lambda x: x if isinstance(x, tuple) else (x,)
        return t(a) + t(b)
    if op == "BitOr" and (isinstance(a, str) or isinstance(b, str)) and any(isinstance(x, (BType, Cls, Ext)) for x in (a, b)):
        return Ext("typing.Union")
    if isinstance(a, HostModel) or isinstance(b, HostModel):
        return fold(I, HOPS[op], [a, b], {}, seg=True, name=op)
    if isinstance(a, Model) or isinstance(b, Model):
        for x, y, n in ((a, b, "op_" + op), (b, a, "rop_" + op)):
            f = getattr(x, n, None) if isinstance(x, Model) else None
            if f:
                return f(I, y)
        raise Undecided(f"operator on {show(a)}, {show(b)}")
    if isinstance(a, Ext) or isinstance(b, Ext):
        return Top("operator on external value")
    if op == "Mod" and (isinstance(a, str)):
        return str_percent(I, a, b)
    if op == "Add":
        if strlike(I, a) or strlike(I, b):
            o = b if strlike(I, a) else a
            if not strlike(I, o):
                if I.is_abs(o) and "str" in I.kinds(o):
                    if not I.ask_kind(o, "str"):
                        I.throw("TypeError", "can only concatenate str")
                else:
                    I.throw("TypeError", "can only concatenate str")
            if isinstance(a, JsonText) or isinstance(b, JsonText):
                raise Undecided("concatenation with a document")
            return I.mkstr([a, b])
        if isinstance(a, list) and isinstance(b, list):
            return list(a) + list(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (list, tuple, str)) and isinstance(y, int):
                return x * y
            if isinstance(x, SStr) and isinstance(y, int):
                return I.mkstr(list(x.parts) * y)
            if isinstance(x, (str, SStr)) and I.is_abs(y):
                return App("*", (x, y), ("str",))
    S = (set, frozenset, View)
    if isinstance(a, S) and isinstance(b, S + ((list,) if isinstance(a, View) else ())):
        A, B = list(a), list(b)
        if op == "BitOr":
            return I.mkset(A + B)
        inb = lambda x: any(I.eq(x, y) for y in B)
        if op == "BitAnd":
            return I.mkset([x for x in A if inb(x)])
        if op == "Sub":
            return I.mkset([x for x in A if not inb(x)])
        if op == "BitXor":
            return I.mkset([x for x in A if not inb(x)] + [y for y in B if not any(I.eq(x, y) for x in A)])
    if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
        d = dict(a)
        for k, v in b.items():
            d[I.dkey(d, k)] = v
        return d
    absn = lambda x: I.is_abs(x)
    if absn(a) or absn(b):
        for x in (a, b):
            if x is None or (absn(x) and I.ask_kind(x, "NoneType")):
                I.throw("TypeError", f"unsupported operand type(s) for {SIGN.get(op, op)}: 'NoneType'")
        a, b = I.canon(a), I.canon(b)
        if not (absn(a) or absn(b)):
            return binop(I, op, a, b)
        ka, kb = I.kinds(a), I.kinds(b)
        n3 = frozenset({"int", "float", "bool"})
        for x, kx in ((a, ka), (b, kb)):
            if not (kx & n3):
                if op == "Mod" and kx == {"str"}:
                    return App("%", (a, b), ("str",))
                if op in ("Add", "Mult") and (kx & {"list", "str", "tuple"}):
                    raise Undecided(f"operator on {show(a)}, {show(b)}")
                I.throw("TypeError", f"unsupported operand type(s) for {SIGN.get(op, op)}")
            if not (kx <= n3):
                if absn(x):
                    I.restrict(x, n3)  # other kinds raise a TypeError: not followed here
                    I.tainted("operand kind assumed")
        ra = I.range(a) if absn(a) else (a, a)
        rb = I.range(b) if absn(b) else (b, b)
        kinds = {"int"} if (I.kinds(a) <= {"int", "bool"} and I.kinds(b) <= {"int", "bool"} and op != "Div") else {"float", "int"}
        if op == "Div":
            kinds = {"float"}
        # x + c + d
        if op in ("Add", "Sub") and isinstance(b, int):
            c = b if op == "Add" else -b
            if isinstance(a, App) and a.op == "+" and isinstance(a.args[1], int):
                c += a.args[1]
                a = a.args[0]
                ra = I.range(a)
            if c == 0:
                return a
            lo = None if ra[0] is None else ra[0] + c
            hi = None if ra[1] is None else ra[1] + c
            return App("+", (a, c), kinds, lo=lo, hi=hi)
        if op == "Add" and isinstance(a, int):
            return binop(I, "Add", b, a)
        if op == "Sub" and I.same(a, b):
            return 0
        if op == "Mult" and isinstance(a, (int, float)):
            a, b, ra, rb = b, a, rb, ra
        if op == "Mult" and isinstance(b, int):
            if b == 1:
                return a
            if b == 0:
                return 0
            if isinstance(a, App) and a.op == "*" and isinstance(a.args[1], int):
                b *= a.args[1]
                a = a.args[0]
                ra = I.range(a)
            if isinstance(a, App) and a.op == "//" and a.args[1] == b and False:
                pass
            r = [None if x is None else x * b for x in ra]
            if b < 0:
                r = r[::-1]
            return App("*", (a, b), kinds, lo=r[0], hi=r[1])
        if op == "LShift" and isinstance(b, int):
            return binop(I, "Mult", a, 1 << b)
        if op == "FloorDiv" and isinstance(b, int) and b > 0:
            if b == 1:
                return a
            if isinstance(a, App) and a.op == "*" and isinstance(a.args[1], int) and a.args[1] % b == 0:
                return binop(I, "Mult", a.args[0], a.args[1] // b)
            return App("//", (a, b), kinds, lo=None if ra[0] is None else ra[0] // b, hi=None if ra[1] is None else ra[1] // b)
        if op == "Mod" and isinstance(b, int) and b > 0:
            if isinstance(a, App) and a.op == "*" and isinstance(a.args[1], int) and a.args[1] % b == 0:
                return 0
            return App("%", (a, b), kinds, lo=0, hi=b - 1)
        lo = hi = None
        if op == "Add":
            lo = None if ra[0] is None or rb[0] is None else ra[0] + rb[0]
            hi = None if ra[1] is None or rb[1] is None else ra[1] + rb[1]
        if op == "Sub":
            lo = None if ra[0] is None or rb[1] is None else ra[0] - rb[1]
            hi = None if ra[1] is None or rb[0] is None else ra[1] - rb[0]
        if op == "Div" and b == 0:
            I.throw("ZeroDivisionError", "division by zero")
        return App(SIGN.get(op, op), (a, b), kinds, lo=lo, hi=hi)
    if isinstance(a, bytes) and isinstance(b, bytes) and op == "Add":
        return a + b
    I.throw("TypeError", f"unsupported operand type(s) for {SIGN.get(op, op)}: {type(a).__name__!r} and {type(b).__name__!r}")


# --------------------------------------------------------------- attribute access
def N(name, f):
    return Native(name, f)


def value_attr(I, v, name):
    if isinstance(v, (str, SStr, JsonText)):
        if not hasattr(str, name) and not (isinstance(v, JsonText) and name == "decode"):
            I.throw("AttributeError", f"'str' object has no attribute {name!r}")
        return N("str." + name, lambda J, a, k: str_method(J, v, name, a, k))
    if I.is_abs(v):
        k = I.kinds(v)
        if "NoneType" in k and I.ask_kind(v, "NoneType"):
            I.throw("AttributeError", f"'NoneType' object has no attribute {name!r}")
        v = I.canon(v)
        if not I.is_abs(v):
            return I.getattr(v, name)
        k = I.kinds(v)
        have = {x for x in k if hasattr(getattr(hb, x, None), name)}
        if not have:
            if all(hasattr(hb, x) for x in k):
                I.throw("AttributeError", f"object has no attribute {name!r}")
            raise Undecided(f"attribute {name} of {show(v)}")
        for x in sorted(k - have):
            if I.ask_kind(v, x):
                I.throw("AttributeError", f"{x!r} object has no attribute {name!r}")
        if "str" in have:
            if len(have) > 1 and not I.ask_kind(v, "str"):
                raise Undecided(f"attribute {name} of {show(v)}")
            return N("str." + name, lambda J, a, kk: str_method(J, v, name, a, kk))
        if have <= {"int", "float", "bool"}:
            if name in ("real", "numerator"):
                return v
            return N("int." + name, lambda J, a, kk: App(name, (v,) + tuple(a), ("int",)))
        return N(name, lambda J, a, kk: _undec(f"{name} of {show(v)}"))
    if isinstance(v, Deque) and name in ("popleft", "appendleft"):
        def dq(J, a, k):
            J.mut(v)
            if name == "popleft":
                if not v:
                    J.throw("IndexError", "pop from an empty deque")
                return v.pop(0)
            v.insert(0, a[0])
        return N("deque." + name, dq)
    if isinstance(v, list):
        return list_attr(I, v, name)
    if isinstance(v, dict):
        return dict_attr(I, v, name)
    if isinstance(v, (set, frozenset)):
        return set_attr(I, v, name)
    if isinstance(v, tuple):
        if name in ("index", "count"):
            return list_attr(I, list(v), name)
        if name in ("__len__", "__getitem__", "__iter__", "__contains__"):
            return list_attr(I, list(v), name)
        I.throw("AttributeError", f"'tuple' object has no attribute {name!r}")
    if isinstance(v, Func):
        if name in v.attrs:
            return v.attrs[name]
        if name == "__name__":
            return v.name
        if name == "__qualname__":
            return v.qualname
        if name == "__module__":
            return v.module
        if name == "__doc__":
            import ast as _a
            return _a.get_docstring(v.node) if not isinstance(v.node, _a.Lambda) else None
        if name == "__wrapped__":
            I.throw("AttributeError", "__wrapped__")
        if name == "__get__":
            return N("__get__", lambda J, a, k: Bound(a[0], v))
        if name == "__call__":
            return v
        if name == "__annotations__":
            return {x.arg: Ext("annotation") for x in v.node.args.args if x.annotation}
        if name == "__defaults__":
            return tuple(v.defaults) or None
        if name in ("__kwdefaults__",):
            return dict(v.kwdefaults) or None
        if name in ("__dict__",):
            return v.attrs
        if name in ("__code__", "__globals__", "__closure__"):
            raise Undecided(name)
        I.throw("AttributeError", f"'function' object has no attribute {name!r}")
    if isinstance(v, Bound):
        if name == "__self__":
            return v.self_
        if name == "__func__":
            return v.fn
        return I.getattr(v.fn, name)
    if isinstance(v, Native):
        if name in v.attrs:
            return v.attrs[name]
        if name in ("__name__", "__qualname__"):
            return v.name.rpartition(".")[2]
        if "inner" in v.attrs and isinstance(v.attrs["inner"], Func):
            return I.getattr(v.attrs["inner"], name)
        if name == "__doc__":
            return None
        raise Undecided(f"attribute {name} of {v!r}")
    if isinstance(v, BType):
        if name in ("__name__", "__qualname__"):
            return v.name
        if name == "__module__":
            return "builtins"
        if name == "__dict__":
            return {}
        if name == "__mro__":
            return (v, I.btypes["object"])
        if v.name == "dict" and name == "fromkeys":
            return N("dict.fromkeys", lambda J, a, k: {x: (a[1] if len(a) > 1 else None) for x in J.iterate(a[0])})
        if v.name == "object":
            if name == "__setattr__":
                def osa(J, a, k):
                    J.mut(a[0].attrs)
                    a[0].attrs[a[1]] = a[2]
                return N("object.__setattr__", osa)
            if name == "__new__":
                return N("object.__new__", lambda J, a, k: Inst(a[0], J.site()))
            if name == "__init__":
                return N("object.__init__", lambda J, a, k: None)
            if name == "__eq__":
                return N("object.__eq__", lambda J, a, k: a[0] is a[1])
            if name == "__repr__":
                return N("object.__repr__", lambda J, a, k: App("repr", (a[0],), ("str",)))
        if v.name == "str" and name == "maketrans":
            raise Undecided("maketrans")
        if v.name == "bool" or v.name == "int" and name == "from_bytes":
            raise Undecided(name)

        def unbound(J, a, k):
            return J.call(J.getattr(a[0], name), a[1:], k)
        return N(f"{v.name}.{name}", unbound)
    if isinstance(v, Iter):
        if name == "__next__":
            return N("next", lambda J, a, k: next_(J, v))
        if name == "__iter__":
            return N("iter", lambda J, a, k: v)
        if name == "close":
            return N("close", lambda J, a, k: None)
        I.throw("AttributeError", f"'generator' object has no attribute {name!r}")
    if isinstance(v, (Coro, GenObj)):
        if name in ("__enter__", "__exit__"):
            raise Undecided("context manager used by hand")
        if name == "close":
            return N("close", lambda J, a, k: None)
        I.throw("AttributeError", name)
    if isinstance(v, Wrapped):
        if name == "setter":
            def st(J, a, k):
                w = Wrapped(v.kind, v.fn)
                w.setter = a[0]
                return w
            return N("setter", st)
        if name in ("__func__", "fget", "func"):
            return v.fn
        if name == "getter":
            return N("getter", lambda J, a, k: Wrapped(v.kind, a[0]))
        raise Undecided(f"attribute {name} of {v.kind}")
    if v is None:
        I.throw("AttributeError", f"'NoneType' object has no attribute {name!r}")
    if isinstance(v, (int, float, bytes)):
        if not hasattr(v, name):
            I.throw("AttributeError", f"{type(v).__name__!r} object has no attribute {name!r}")
        x = getattr(v, name)
        if callable(x):
            return N(name, lambda J, a, k: fold(J, x, a, k))
        return x
    if isinstance(v, range):
        x = getattr(v, name)
        return N(name, lambda J, a, k: fold(J, x, a, k)) if callable(x) else x
    if isinstance(v, Hold):
        raise Undecided("attribute")
    raise Undecided(f"attribute {name} of {show(v)}")


def _undec(msg):
    raise Undecided(msg)


def list_attr(I, v, name):
    def f(J, a, k):
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "__setitem__", "__delitem__"):
            J.mut(v)
        if name == "append":
            v.append(a[0])
        elif name == "extend":
            v.extend(J.iterate(a[0]))
        elif name == "insert":
            i = J.canon(a[0])
            if not isinstance(i, int):
                raise Undecided("unknown index")
            v.insert(i, a[1])
        elif name == "pop":
            i = J.canon(a[0]) if a else -1
            if not isinstance(i, int):
                raise Undecided("unknown index")
            try:
                return v.pop(i)
            except IndexError:
                J.throw("IndexError", "pop from empty list")
        elif name == "remove":
            for i, x in enumerate(v):
                if J.eq(x, a[0]):
                    del v[i]
                    return None
            J.throw("ValueError", "list.remove(x): x not in list")
        elif name == "index":
            for i, x in enumerate(v):
                if J.eq(x, a[0]):
                    return i
            J.throw("ValueError", "is not in list")
        elif name == "count":
            return sum(1 for x in v if J.eq(x, a[0]))
        elif name == "sort":
            v[:] = sort_(J, list(v), k)
        elif name == "reverse":
            v.reverse()
        elif name == "clear":
            v.clear()
        elif name == "copy":
            return list(v)
        elif name == "__len__":
            return len(v)
        elif name == "__getitem__":
            return J.getitem(v, a[0])
        elif name == "__setitem__":
            J.setitem(v, a[0], a[1])
        elif name == "__contains__":
            return J.contains(v, a[0])
        elif name == "__iter__":
            return Iter(list(v))
        elif name == "__eq__":
            return J.eq(v, a[0])
        elif name in ("isdisjoint", "union", "intersection", "difference") and isinstance(v, View):
            return set_attr(J, set(v), name).fn(J, a, k)
        else:
            raise Undecided(f"list.{name}")
        return None

    if not hasattr(list, name) and not (isinstance(v, View) and name in ("isdisjoint", "mapping")):
        I.throw("AttributeError", f"'list' object has no attribute {name!r}")
    return N("list." + name, f)


def dict_attr(I, v, name):
    def f(J, a, k):
        if name == "get":
            h = J.dget(v, a[0])
            return h[0] if h is not None else (a[1] if len(a) > 1 else k.get("default"))
        if name == "items":
            return View([(x, y) for x, y in v.items()])
        if name == "keys":
            return View(list(v))
        if name == "values":
            return View(list(v.values()))
        if name == "pop":
            h = J.dget(v, a[0])
            if h is None:
                if len(a) > 1:
                    return a[1]
                J.throw("KeyError", a[0])
            kk = key_in(J, v, a[0])
            J.mut(v)
            del v[kk]
            return h[0]
        if name == "popitem":
            if not v:
                J.throw("KeyError", "popitem(): dictionary is empty")
            J.mut(v)
            return v.popitem()
        if name == "setdefault":
            h = J.dget(v, a[0])
            if h is not None:
                return h[0]
            d = a[1] if len(a) > 1 else None
            J.dset(v, a[0], d)
            return d
        if name == "update":
            if a:
                J.dict_update(v, a[0])
            for x, y in k.items():
                J.dset(v, x, y)
            return None
        if name == "copy":
            d = type(v)(v)
            if isinstance(v, DefaultDict):
                d.default_factory = v.default_factory
            return d
        if name == "clear":
            J.mut(v)
            v.clear()
            return None
        if name == "fromkeys":
            return {x: (a[1] if len(a) > 1 else None) for x in J.iterate(a[0])}
        if name == "__getitem__":
            return J.getitem(v, a[0])
        if name == "__setitem__":
            return J.setitem(v, a[0], a[1])
        if name == "__contains__":
            return J.contains(v, a[0])
        if name == "__len__":
            return len(v)
        if name == "__eq__":
            return J.eq(v, a[0])
        if name == "__iter__":
            return Iter(list(v))
        if name == "__delitem__":
            return J.delitem(v, a[0])
        raise Undecided(f"dict.{name}")

    if not hasattr(dict, name):
        I.throw("AttributeError", f"'dict' object has no attribute {name!r}")
    return N("dict." + name, f)


def key_in(I, d, k):
    k = I.hkey(k)
    try:
        if k in d:
            return k
    except TypeError:
        pass
    for kk in d:
        if I.eq(kk, k):
            return kk
    raise Undecided("key")


def set_attr(I, v, name):
    def f(J, a, k):
        if name in ("add", "remove", "discard", "update", "pop", "clear", "difference_update", "intersection_update"):
            J.mut(v)
        if name == "add":
            if not J.contains(v, a[0]):
                v.add(J.hkey(a[0]))
        elif name in ("remove", "discard"):
            for x in list(v):
                if J.eq(x, a[0]):
                    v.discard(x)
                    return None
            if name == "remove":
                J.throw("KeyError", a[0])
        elif name == "update":
            for s in a:
                for x in J.iterate(s):
                    if not J.contains(v, x):
                        v.add(J.hkey(x))
        elif name == "union":
            return J.mkset(list(v) + [x for s in a for x in J.iterate(s)])
        elif name == "intersection":
            o = [J.iterate(s) for s in a]
            return J.mkset([x for x in v if all(any(J.eq(x, y) for y in s) for s in o)])
        elif name == "difference":
            o = [y for s in a for y in J.iterate(s)]
            return J.mkset([x for x in v if not any(J.eq(x, y) for y in o)])
        elif name == "difference_update":
            o = [y for s in a for y in J.iterate(s)]
            for x in list(v):
                if any(J.eq(x, y) for y in o):
                    v.discard(x)
        elif name == "symmetric_difference":
            return J.binop("BitXor", v, J.mkset(J.iterate(a[0])))
        elif name == "issubset":
            o = J.iterate(a[0])
            return all(any(J.eq(x, y) for y in o) for x in v)
        elif name == "issuperset":
            return all(J.contains(v, x) for x in J.iterate(a[0]))
        elif name == "isdisjoint":
            return not any(J.contains(v, x) for x in J.iterate(a[0]))
        elif name == "copy":
            return set(v)
        elif name == "clear":
            v.clear()
        elif name == "pop":
            if not v:
                J.throw("KeyError", "pop from an empty set")
            x = sorted(v, key=repr)[0]
            v.discard(x)
            return x
        else:
            raise Undecided(f"set.{name}")
        return None

    if not hasattr(set, name):
        I.throw("AttributeError", f"'set' object has no attribute {name!r}")
    return N("set." + name, f)


def next_(I, it, *default):
    it = I.canon(it)
    if isinstance(it, Iter):
        if it.pos < len(it.items):
            it.pos += 1
            return it.items[it.pos - 1]
        if default:
            return default[0]
        I.throw("StopIteration")
    if isinstance(it, Inst) and it.cls.find("__next__"):
        return I.call(I.getattr(it, "__next__"), [], {})
    if isinstance(it, Model) and hasattr(it, "next"):
        return it.next(I)
    raise Undecided(f"next({show(it)})")


def iter_(I, v):
    v = I.canon(v)
    if isinstance(v, Iter):
        return v
    return Iter(I.iterate(v))


def sort_(I, items, k):
    key = k.get("key")
    rev = I.truth(k.get("reverse", False))
    ks = [I.canon(I.call(key, [x], {})) if key is not None else I.canon(x) for x in items]

    def plain(x):
        return isinstance(x, (str, int, float, bytes)) or (isinstance(x, tuple) and all(plain(y) for y in x))

    if all(plain(x) for x in ks):
        try:
            order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=rev)
        except TypeError as e:
            I.throw("TypeError", str(e))
        return [items[i] for i in order]
    if all(isinstance(x, tuple) and x and isinstance(x[0], str) for x in ks) and len({x[0] for x in ks}) == len(ks):
        # the first parts settle it
        return [items[i] for i in sorted(range(len(ks)), key=lambda i: ks[i][0], reverse=rev)]
    if len(items) > 4 and any(not plain(x) for x in ks):
        raise Undecided("sorting many unknown values")
    out = []
    for i in range(len(items)):
        pos = len(out)
        while pos > 0 and (I.compare("<", ks[i], ks[out[pos - 1]]) if not rev else I.compare("<", ks[out[pos - 1]], ks[i])):
            pos -= 1
        out.insert(pos, i)
    return [items[i] for i in out]


def deepcopy(I, v, memo):
    v = I.canon(v)
    if isinstance(v, (list, dict, set, tuple, frozenset, Inst)):
        if id(v) in memo:
            return memo[id(v)][0]
    if isinstance(v, list):
        r = type(v)()
        memo[id(v)] = (r, v)
        r.extend(deepcopy(I, x, memo) for x in v)
        return r
    if isinstance(v, dict):
        r = type(v)()
        if isinstance(v, DefaultDict):
            r.default_factory = v.default_factory
        memo[id(v)] = (r, v)
        for k, x in v.items():
            r[deepcopy(I, k, memo)] = deepcopy(I, x, memo)
        return r
    if isinstance(v, (tuple, frozenset, set)):
        r = type(v)([deepcopy(I, x, memo) for x in v])
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Inst):
        if v.cls.enum or v.cls.exc and v.cls.module == "builtins":
            return v
        f = v.cls.find("__deepcopy__")
        if f:
            mm = MemoDict(memo)
            r = I.call(I.getattr(v, "__deepcopy__"), [mm], {})
            memo[id(v)] = (r, v)
            return r
        r = Inst(v.cls, v.site)
        memo[id(v)] = (r, v)
        for k, x in v.attrs.items():
            r.attrs[k] = deepcopy(I, x, memo)
        return r
    if isinstance(v, Model) and hasattr(v, "deepcopy"):
        return v.deepcopy(I)
    return v


class MemoDict(Model):
    """The memo dictionary that __deepcopy__ methods receive."""

    def __init__(self, memo):
        self.memo = memo

    def getitem(self, I, k):
        if k in self.memo:
            return self.memo[k][0]
        I.throw("KeyError", k)

    def setitem(self, I, k, v):
        self.memo[k] = (v, None)

    def contains(self, I, k):
        return k in self.memo

    def m_get(self, I, a, k):
        h = self.memo.get(a[0])
        return h[0] if h else (a[1] if len(a) > 1 else None)


# ------------------------------------------------------------------------ install
class Param(Model):
    classes = ("inspect.Parameter", "Parameter")

    def __init__(self, name, default, kind):
        self.name, self.default, self.kind = name, default, kind

    def a_name(self, I):
        return self.name

    def a_default(self, I):
        return self.default

    def a_kind(self, I):
        return self.kind

    def a_empty(self, I):
        return Ext("inspect._empty")

    def a_annotation(self, I):
        return Ext("annotation")

    def missing(self, I, name):
        if name.isupper():
            return Ext("inspect.Parameter." + name)
        raise Undecided("Parameter." + name)


class Signature(Model):
    classes = ("inspect.Signature",)

    def __init__(self, params):
        self.params = params

    def a_parameters(self, I):
        return self.params

    def m_bind(self, I, a, k):
        raise Undecided("Signature.bind")


def signature(I, f):
    f = I.canon(f)
    drop = 0
    if isinstance(f, Bound):
        drop = 1
        f = f.fn
    if isinstance(f, Cls):
        i = f.find("__init__")
        if i is None:
            if f.dc:
                params = {}
                for n in f.dc["order"]:
                    d = f.dc["fields"].get(n)
                    params[n] = Param(n, d[1] if d and d[0] == "default" else Ext("inspect._empty"), Ext("inspect.Parameter.POSITIONAL_OR_KEYWORD"))
                return Signature(params)
            return Signature({})
        f, drop = i[0], 1
    if isinstance(f, Wrapped):
        f = f.fn
    if isinstance(f, Native) and "inner" in f.attrs:
        f = f.attrs["inner"]
    if not isinstance(f, Func):
        raise Undecided("signature of " + show(f))
    a = f.node.args
    params = {}
    pos = a.posonlyargs + a.args
    d0 = len(pos) - len(f.defaults)
    for i, x in enumerate(pos):
        if i < drop:
            continue
        params[x.arg] = Param(x.arg, f.defaults[i - d0] if i >= d0 else Ext("inspect._empty"), Ext("inspect.Parameter.POSITIONAL_OR_KEYWORD"))
    if a.vararg:
        params[a.vararg.arg] = Param(a.vararg.arg, Ext("inspect._empty"), Ext("inspect.Parameter.VAR_POSITIONAL"))
    for x in a.kwonlyargs:
        params[x.arg] = Param(x.arg, f.kwdefaults.get(x.arg, Ext("inspect._empty")), Ext("inspect.Parameter.KEYWORD_ONLY"))
    if a.kwarg:
        params[a.kwarg.arg] = Param(a.kwarg.arg, Ext("inspect._empty"), Ext("inspect.Parameter.VAR_KEYWORD"))
    return Signature(params)


class Closing(Model):
    def __init__(self, thing):
        self.thing = thing

    def enter(self, I):
        return self.thing

    def exit(self, I, exc):
        I.call(I.getattr(self.thing, "close"), [], {})
        return False


class Suppress(Model):
    def __init__(self, types):
        self.types = tuple(types)

    def enter(self, I):
        return None

    def exit(self, I, exc):
        return exc is not None and I.exc_matches(exc.inst, self.types)


class NullContext(Model):
    def __init__(self, v):
        self.v = v

    def enter(self, I):
        return self.v

    def exit(self, I, exc):
        return False


class ExitStack(Model):
    def __init__(self):
        self.cbs = []

    def enter(self, I):
        return self

    def exit(self, I, exc):
        handled, cur = False, exc
        while self.cbs:
            cb = self.cbs.pop()
            try:
                if cb(I, cur):
                    handled, cur = True, None
            except PyExc as e:
                handled, cur = False, e
        if cur is not None and cur is not exc:
            raise cur
        return handled and exc is not None

    def m_enter_context(self, I, a, k):
        v, leave = I.enter_of(a[0])
        self.cbs.append(lambda J, e: leave(e))
        return v

    def m_callback(self, I, a, k):
        self.cbs.append(lambda J, e: (J.call(a[0], a[1:], k), False)[1])
        return a[0]

    def m_push(self, I, a, k):
        m = I.canon(a[0])
        if not isinstance(m, Inst) or not m.cls.find("__exit__"):
            raise Undecided("ExitStack.push")
        self.cbs.append(lambda J, e: J.truth(J.call(J.getattr(m, "__exit__"), [None, None, None] if e is None else [e.inst.cls, e.inst, None], {})))
        return m

    def m_pop_all(self, I, a, k):
        new = ExitStack()
        new.cbs, self.cbs = self.cbs, []
        return new

    def m_close(self, I, a, k):
        self.exit(I, None)


class FieldSpec:
    def __init__(self, k):
        self.k = k


def make_dataclass(I, cls, opts):
    order, fields, kwonly = [], {}, set()
    for b in reversed([b for b in cls.mro if isinstance(b, Cls)]):
        if b is not cls and b.dc is None:
            continue
        if b is not cls:
            for n in b.dc["order"]:
                if n not in order:
                    order.append(n)
                if n in b.dc["fields"]:
                    fields[n] = b.dc["fields"][n]
            kwonly |= set(b.dc.get("kwonly", ()))
            continue
        kwflag = bool(opts.get("kw_only"))
        for n, ann in b.attrs.get("__annotations__", {}).items():
            if "KW_ONLY" in ann:
                kwflag = True
                continue
            if "ClassVar" in ann:
                continue
            if n not in order:
                order.append(n)
            v = b.attrs.get(n, None) if n in b.attrs else None
            if n in b.attrs:
                if isinstance(v, FieldSpec):
                    init = v.k.get("init", True)
                    if "default" in v.k:
                        fields[n] = ("default", v.k["default"], init)
                        b.attrs[n] = v.k["default"]
                    elif "default_factory" in v.k:
                        fields[n] = ("factory", v.k["default_factory"], init)
                        del b.attrs[n]
                    else:
                        fields[n] = ("none", None, init)
                        del b.attrs[n]
                    if v.k.get("kw_only"):
                        kwonly.add(n)
                else:
                    if isinstance(v, (list, dict, set)):
                        I.throw("ValueError", "mutable default")
                    fields[n] = ("default", v)
            else:
                fields.pop(n, None)
            if kwflag:
                kwonly.add(n)
    cls.dc = {"order": order, "fields": fields, "kwonly": kwonly, "frozen": bool(opts.get("frozen")), "eq": opts.get("eq", True)}
    return cls


def install(I):
    B = {}
    I.builtins = B

    def reg(name, f):
        B[name] = N(name, f)

    def btype(name, fn=None):
        t = I.btypes.get(name)
        if t is None:
            t = I.btypes[name] = BType(name)
        t.fn = fn
        B[name] = t
        return t

    # --- types
    def t_str(J, a, k):
        if not a:
            return to_str(J, k["object"]) if "object" in k else ""
        if len(a) > 1 or "encoding" in k or "errors" in k:
            v = J.canon(a[0])
            if isinstance(v, (str, SStr)):
                J.throw("TypeError", "decoding str is not supported")
            return J.call(J.getattr(v, "decode"), a[1:], k)
        return to_str(J, a[0])

    def t_int(J, a, k):
        if not a:
            return 0
        v = J.norm(J.canon(a[0]))
        if isinstance(v, (int, float)) or isinstance(v, str):
            try:
                return int(v, *a[1:]) if len(a) > 1 else int(v)
            except (ValueError, TypeError) as e:
                J.throw(type(e).__name__, str(e))
        if isinstance(v, SStr):
            if len(v.parts) == 1 and J.is_abs(v.parts[0]) and J.kinds(v.parts[0]) <= {"int"}:
                return v.parts[0]
            if any(isinstance(p, str) and hre.search(r"[^0-9\s_+-]", p) for p in v.parts):
                J.throw("ValueError", "invalid literal for int()")
            if J.pred_fork("isint", v, ()):
                return App("int", (v,), ("int",))
            J.throw("ValueError", "invalid literal for int()")
        if J.is_abs(v):
            kk = J.kinds(v)
            if kk <= {"int", "bool"}:
                return v
            if isinstance(v, App) and v.op == "re.group":
                raise Undecided("the number in a part of an unknown string")
            if J.ask_kind(v, "NoneType"):
                J.throw("TypeError", "int() argument must be a string or a real number, not 'NoneType'")
            v = J.canon(v)
            if not J.is_abs(v):
                return t_int(J, [v], k)
            if J.kinds(v) <= {"float"}:
                return App("int", (v,), ("int",))
            if J.kinds(v) <= {"int", "bool"}:
                return v
            if J.kinds(v) <= {"str"}:
                if J.pred_fork("isint", v, ()):
                    return App("int", (v,), ("int",))
                J.throw("ValueError", "invalid literal for int()")
            if J.ask_kind(v, "int"):
                return J.canon(v)
            return t_int(J, [v], k)
        if isinstance(v, Inst):
            if v.cls.find("__int__"):
                return J.call(J.getattr(v, "__int__"), [], {})
            if v.cls.enum:
                return t_int(J, [v.attrs["value"]], {})
        if isinstance(v, (Ext, Top)):
            return Top("int of unknown value")
        if isinstance(v, Model) and hasattr(v, "toint"):
            return v.toint(J)
        J.throw("TypeError", "int() argument must be a string or a real number")

    def t_float(J, a, k):
        if not a:
            return 0.0
        v = J.canon(a[0])
        if isinstance(v, (int, float, str)):
            try:
                return float(v)
            except ValueError as e:
                J.throw("ValueError", str(e))
        if v is None:
            J.throw("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
        return App("float", (v,), ("float",)) if not isinstance(v, Top) else v

    def t_bool(J, a, k):
        return J.truth(a[0]) if a else False

    def t_list(J, a, k):
        return list(J.iterate(a[0])) if a else []

    def t_tuple(J, a, k):
        return tuple(J.iterate(a[0])) if a else ()

    def t_set(J, a, k):
        return J.mkset(J.iterate(a[0])) if a else set()

    def t_dict(J, a, k):
        d = {}
        if a:
            J.dict_update(d, a[0])
        for n, v in k.items():
            d[J.dkey(d, n)] = v
        return d

    def t_type(J, a, k):
        if len(a) == 1:
            return J.type_of(a[0])
        return J.make_class(a[0], list(a[1]), dict(a[2]), "?")

    def t_bytes(J, a, k):
        if not a:
            return b""
        v = J.canon(a[0])
        if isinstance(v, (bytes, int, str)):
            try:
                return bytes(v, *a[1:], **k) if isinstance(v, str) else bytes(v)
            except TypeError as e:
                J.throw("TypeError", str(e))
        return v if isinstance(v, JsonText) else App("bytes", (v,), ("bytes",))

    btype("str", t_str)
    btype("int", t_int)
    btype("float", t_float)
    btype("bool", t_bool)
    btype("list", t_list)
    btype("tuple", t_tuple)
    btype("set", t_set)
    btype("frozenset", lambda J, a, k: frozenset(t_set(J, a, k)))
    btype("dict", t_dict)
    btype("type", t_type)
    btype("object", lambda J, a, k: Ext("object()", None, False) if False else _newobj())
    btype("bytes", t_bytes)
    btype("bytearray", t_bytes)
    btype("complex")
    for n in ("NoneType", "function", "Mapping", "MutableMapping", "Sequence", "MutableSequence", "Iterable", "Iterator", "Collection", "Set", "Hashable", "Callable", "Generator", "Number", "Real", "Integral"):
        I.btypes[n] = BType(n)
    I.btypes["SStr"] = I.btypes["str"]
    I.btypes["View"] = BType("dict_view")
    I.btypes["DefaultDict"] = BType("dict")

    class _Obj(Model):
        pass

    def _newobj():
        return _Obj()

    # --- functions
    reg("len", lambda J, a, k: len_(J, a[0]))
    def print_(J, a, k):
        f = J.canon(k.get("file"))
        if f is None or (isinstance(f, Ext) and f.path.startswith("sys.std")):
            return J.event("print", list(a), {n: v for n, v in k.items() if n != "file"})
        sep, end = (J.canon(k.get(n)) for n in ("sep", "end"))
        parts = []
        for x in a:
            parts += ([" " if sep is None else sep] if parts else []) + [to_str(J, x)]
        parts.append("\n" if end is None else end)
        if any(isinstance(x, JsonText) for x in parts):
            parts = [x for x in parts if not isinstance(x, str) or x.strip()]
            if len(parts) != 1:
                raise Undecided("a document within a text")
            text = parts[0]
        else:
            text = J.mkstr(parts)
        J.call(J.getattr(f, "write"), [text], {})
        return None

    reg("print", print_)
    reg("input", lambda J, a, k: Top("input"))
    reg("id", lambda J, a, k: id(J.canon(a[0])))
    reg("hash", lambda J, a, k: hash_(J, a[0]))
    reg("repr", lambda J, a, k: to_repr(J, a[0]))
    reg("ascii", lambda J, a, k: to_repr(J, a[0]))
    reg("format", lambda J, a, k: format_(J, a[0], a[1] if len(a) > 1 else ""))
    reg("callable", lambda J, a, k: isinstance(J.canon(a[0]), (Func, Bound, Native, Cls, BType, Ext)) or (isinstance(a[0], Inst) and a[0].cls.find("__call__") is not None))
    reg("isinstance", lambda J, a, k: J.isinstance(a[0], a[1]) if len(a) == 2 else J.throw("TypeError", "isinstance expected 2 arguments"))

    def issub(J, a, k):
        c, t = J.canon(a[0]), J.canon(a[1])
        if isinstance(t, tuple):
            return any(issub(J, [c, x], {}) for x in t)
        if isinstance(c, Cls):
            if isinstance(t, BType) and t.name == "object":
                return True
            return t in c.mro
        if isinstance(c, BType):
            return c is t or (isinstance(t, BType) and (t.name == "object" or (c.name == "bool" and t.name == "int")))
        if isinstance(c, (Ext, Top)):
            J.tainted("issubclass of unknown")
            return J.fork("issubclass")
        J.throw("TypeError", "issubclass() arg 1 must be a class")

    reg("issubclass", issub)

    def gattr(J, a, k):
        n = J.norm(J.canon(a[1]))
        if not isinstance(n, str):
            raise Undecided("getattr with an unknown name")
        if len(a) > 2:
            h = J.hasattr(a[0], n)
            return h[0] if h is not None else a[2]
        return J.getattr(a[0], n)

    reg("getattr", gattr)

    def hattr(J, a, k):
        n = J.norm(J.canon(a[1]))
        if not isinstance(n, str):
            if isinstance(a[0], Inst) and J.is_abs(n):
                return J.dget({x: 1 for x in a[0].attrs}, n) is not None
            raise Undecided("hasattr with an unknown name")
        o = J.canon(a[0])
        if isinstance(o, Ext) and o.res:
            J.tainted("hasattr of external value")
            return J.fork("hasattr")
        return J.hasattr(a[0], n) is not None

    reg("hasattr", hattr)

    def sattr(J, a, k):
        n = J.norm(J.canon(a[1]))
        if not isinstance(n, str):
            raise Undecided("setattr with an unknown name")
        J.setattr(a[0], n, a[2])

    reg("setattr", sattr)

    def dattr(J, a, k):
        o, n = a[0], J.canon(a[1])
        if isinstance(o, Inst) and isinstance(n, str):
            J.mut(o.attrs)
            if n not in o.attrs:
                J.throw("AttributeError", n)
            del o.attrs[n]
            return None
        raise Undecided("delattr")

    reg("delattr", dattr)

    def rng(J, a, k):
        b = [J.canon(x) for x in a]
        if all(isinstance(x, int) for x in b):
            return range(*b)
        raise Undecided("range of unknown length")

    reg("range", rng)
    B["range"] = N("range", rng)
    reg("enumerate", lambda J, a, k: Iter([(i, x) for i, x in zip(_from(J, a[1] if len(a) > 1 else k.get("start", 0)), J.iterate(a[0]))]))

    def zip_(J, a, k):
        its = [J.canon(x) if isinstance(J.canon(x), Iter) else Iter(J.iterate(x)) for x in a]
        if J.truth(k.get("strict", False)) and len({len(i.items) - i.pos for i in its}) > 1:
            J.throw("ValueError", "zip() argument lengths differ")
        out = []
        while its and all(i.pos < len(i.items) for i in its):
            row = []
            for i in its:
                i.pos += 1
                row.append(i.items[i.pos - 1])
            out.append(tuple(row))
        return Iter(out)

    reg("zip", zip_)

    def map_(J, a, k):
        if len(a) == 2:
            return Iter([J.call(a[0], [x], {}) for x in J.iterate(a[1])])
        return Iter([J.call(a[0], list(x), {}) for x in zip(*[J.iterate(s) for s in a[1:]])])

    reg("map", map_)
    reg("filter", lambda J, a, k: Iter([x for x in J.iterate(a[1]) if J.truth(x if a[0] is None else J.call(a[0], [x], {}))]))
    reg("sorted", lambda J, a, k: sort_(J, J.iterate(a[0]), k))
    reg("reversed", lambda J, a, k: Iter(J.iterate(a[0])[::-1]))
    reg("any", lambda J, a, k: any(J.truth(x) for x in J.iterate(a[0])))
    reg("all", lambda J, a, k: all(J.truth(x) for x in J.iterate(a[0])))

    def best(op):
        def f(J, a, k):
            items = J.iterate(a[0]) if len(a) == 1 else list(a)
            if not items:
                if "default" in k:
                    return k["default"]
                J.throw("ValueError", "arg is an empty sequence")
            key = k.get("key")
            r = items[0]
            for x in items[1:]:
                kx, kr = (J.call(key, [x], {}), J.call(key, [r], {})) if key is not None else (x, r)
                if J.compare(op, kx, kr):
                    r = x
            return r
        return f

    reg("max", best(">"))
    reg("min", best("<"))

    def sum_(J, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in J.iterate(a[0]):
            r = J.binop("Add", r, x)
        return r

    reg("sum", sum_)

    def abs_(J, a, k):
        v = J.canon(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        if J.is_abs(v):
            return J.canon(v) if J.compare(">=", v, 0) else App("neg", (v,), J.kinds(v))
        raise Undecided("abs")

    reg("abs", abs_)
    reg("round", lambda J, a, k: round(*[J.canon(x) for x in a]) if all(isinstance(J.canon(x), (int, float)) for x in a) else App("round", tuple(a), ("int", "float")))
    reg("divmod", lambda J, a, k: (J.binop("FloorDiv", a[0], a[1]), J.binop("Mod", a[0], a[1])))
    reg("pow", lambda J, a, k: J.binop("Pow", a[0], a[1]))
    reg("ord", lambda J, a, k: ord(a[0]) if isinstance(a[0], str) else App("ord", tuple(a), ("int",)))
    reg("chr", lambda J, a, k: chr(a[0]) if isinstance(a[0], int) else App("chr", tuple(a), ("str",)))
    reg("iter", lambda J, a, k: iter_(J, a[0]))
    reg("next", lambda J, a, k: next_(J, *a))

    def vars_(J, a, k):
        o = J.canon(a[0])
        if isinstance(o, Inst):
            return o.attrs
        if isinstance(o, Mod):
            return o.env
        if isinstance(o, Cls):
            return dict(o.attrs)
        raise Undecided("vars()")

    reg("vars", vars_)
    reg("dir", lambda J, a, k: sorted(set(a[0].attrs) | {n for c in a[0].cls.mro if isinstance(c, Cls) for n in c.attrs}) if isinstance(a[0], Inst) else _undec("dir()"))
    reg("locals", lambda J, a, k: _undec("locals()"))
    reg("globals", lambda J, a, k: _undec("globals()"))
    reg("slice", lambda J, a, k: Slice(*([None] + a + [None])[:3] if len(a) == 1 else (list(a) + [None])[:3]))

    def open_(J, a, k):
        if "fs" not in J.hooks:
            return Ext("builtins.open()", (tuple(a),), True)
        p = J.canon(a[0])
        return J.hooks["fs"](J, "open", p.tostr(J) if hasattr(p, "tostr") else p, a[1:], k)

    B["open"] = N("open", open_)
    B["__import__"] = N("__import__", lambda J, a, k: J.import_chain(a[0])[0])
    B["exec"] = N("exec", lambda J, a, k: _undec("exec"))
    B["eval"] = N("eval", lambda J, a, k: _undec("eval"))
    B["compile"] = N("compile", lambda J, a, k: _undec("compile"))
    B["staticmethod"] = N("staticmethod", lambda J, a, k: Wrapped("static", a[0]))
    B["classmethod"] = N("classmethod", lambda J, a, k: Wrapped("class", a[0]))
    B["property"] = N("property", lambda J, a, k: Wrapped("property", a[0] if a else k.get("fget")))

    def super2(J, a, k):
        if len(a) == 2:
            return J.super_(a[0], a[1])
        raise Undecided("super()")

    B["super"] = N("super", super2)

    # ------------------------------------------------------------------ modules
    S = I.stdlib

    def mod(name, /, **env):
        S[name] = env
        return env

    ident = N("identity", lambda J, a, k: a[0])
    # typing
    ty = mod("typing", TYPE_CHECKING=False, NamedTuple=N("NamedTuple", lambda J, a, k: _undec("NamedTuple()")), overload=ident, final=ident, no_type_check=ident, runtime_checkable=ident)
    ty["cast"] = N("cast", lambda J, a, k: a[1])
    ty["assert_never"] = N("assert_never", lambda J, a, k: J.throw("AssertionError", "unreachable"))
    ty["get_args"] = N("get_args", lambda J, a, k: _undec("get_args"))
    ty["get_type_hints"] = N("get_type_hints", lambda J, a, k: _undec("get_type_hints"))
    for n in ("Mapping", "MutableMapping", "Sequence", "Iterable", "Iterator", "Collection", "Hashable", "Callable", "MutableSequence"):
        ty[n] = I.btypes[n]
    for n, b in (("Dict", "dict"), ("List", "list"), ("Tuple", "tuple"), ("Set", "set"), ("Text", "str"), ("Type", "type")):
        ty[n] = I.btypes[b]
    S["typing_extensions"] = ty
    S["collections.abc"] = {n: I.btypes[n] for n in ("Mapping", "MutableMapping", "Sequence", "Iterable", "Iterator", "Collection", "Hashable", "Callable", "Set", "Generator", "MutableSequence")}
    mod("numbers", Number=I.btypes["Number"], Real=I.btypes["Real"], Integral=I.btypes["Integral"])
    mod("types", MappingProxyType=N("MappingProxyType", lambda J, a, k: a[0]), NoneType=I.btypes["NoneType"], FunctionType=I.btypes["function"], SimpleNamespace=Ext("types.SimpleNamespace"), ModuleType=Ext("types.ModuleType"), GenericAlias=Ext("types.GenericAlias"), UnionType=Ext("types.UnionType"))
    mod("warnings", warn=N("warn", lambda J, a, k: None), catch_warnings=N("catch", lambda J, a, k: NullContext(None)), simplefilter=N("simplefilter", lambda J, a, k: None))

    # json
    def j_loads(J, a, k):
        v = J.norm(J.canon(a[0] if a else k.get("s")))
        if isinstance(v, JsonText):
            return deepcopy(J, v.value, {})
        if isinstance(v, (str, bytes)):
            try:
                return hjson.loads(v)
            except ValueError as e:
                J.throw(json_err(J), str(e))
        if v is None or isinstance(v, (int, float, list, dict)):
            J.throw("TypeError", "the JSON object must be str, bytes or bytearray")
        if isinstance(v, (Top, Ext)):
            return Top("decoded document")
        if J.is_abs(v):
            if J.pred_fork("isjson", v, ()):
                return App("json.loads", (v,), ANY)
            J.throw(json_err(J), "Expecting value")
        if isinstance(v, Model) and hasattr(v, "json"):
            return v.json(J)
        raise Undecided("json.loads")

    def json_err(J):
        c = J.exc_cache.get("JSONDecodeError")
        if c is None:
            c = Cls("JSONDecodeError", [J.exc_class("ValueError")], {}, "json")
            c.exc = True
            c.mro = [c] + J.exc_class("ValueError").mro
            J.exc_cache["JSONDecodeError"] = c
        return c

    def jsonable(J, v, k, depth=0):
        v = J.canon(v)
        if depth > 60:
            J.throw("ValueError", "Circular reference detected")
        if isinstance(v, dict):
            out = {}
            for x, y in v.items():
                x = J.canon(x)
                if isinstance(x, (tuple, Inst)) and not (isinstance(x, Inst) and x.cls.enum and isinstance(x.attrs["value"], (str, int))):
                    J.throw("TypeError", "keys must be str, int, float, bool or None")
                if x is None or isinstance(x, (int, float)):
                    x = {True: "true", False: "false", None: "null"}.get(x, str(x)) if x is None or isinstance(x, bool) else str(x)
                if isinstance(x, Inst):
                    x = x.attrs["value"]
                out[x] = jsonable(J, y, k, depth + 1)
            if J.truth(k.get("sort_keys", False)) and all(isinstance(x, str) for x in out):
                out = dict(sorted(out.items()))
            return out
        if isinstance(v, (list, tuple)):
            return [jsonable(J, y, k, depth + 1) for y in v]
        if isinstance(v, Inst):
            if v.cls.enum and any(isinstance(b, BType) for b in v.cls.mro):
                return v.attrs["value"]
            if v.cls.dc and v.cls.dc.get("named"):
                return [jsonable(J, v.attrs[n], k, depth + 1) for n in v.cls.dc["order"]]
            if k.get("default") is not None:
                return jsonable(J, J.call(k["default"], [v], {}), k, depth + 1)
            J.throw("TypeError", f"Object of type {v.cls.name} is not JSON serializable")
        if isinstance(v, (set, frozenset, bytes, Func, Cls, BType, Native, Bound, Iter)) or (isinstance(v, Model) and not hasattr(v, "jsonable")):
            if k.get("default") is not None:
                return jsonable(J, J.call(k["default"], [v], {}), k, depth + 1)
            J.throw("TypeError", "Object is not JSON serializable")
        return v

    def j_dumps(J, a, k):
        return JsonText(jsonable(J, a[0], k))

    def j_load(J, a, k):
        return j_loads(J, [J.call(J.getattr(a[0], "read"), [], {})], {})

    def j_dump(J, a, k):
        J.call(J.getattr(a[1], "write"), [JsonText(jsonable(J, a[0], k))], {})

    mod("json", loads=N("json.loads", j_loads), dumps=N("json.dumps", j_dumps), load=N("json.load", j_load), dump=N("json.dump", j_dump), JSONDecodeError=json_err(I))
    S["json.decoder"] = {"JSONDecodeError": json_err(I)}

    # copy
    def cp(J, a, k):
        v = J.canon(a[0])
        if isinstance(v, Inst):
            f = v.cls.find("__copy__")
            if f:
                return J.call(J.getattr(v, "__copy__"), [], {})
            if v.cls.enum:
                return v
            r = Inst(v.cls, v.site)
            r.attrs.update(v.attrs)
            return r
        if isinstance(v, DefaultDict):
            d = DefaultDict(v)
            d.default_factory = v.default_factory
            return d
        if isinstance(v, (list, dict, set)):
            return type(v)(v)
        return v

    def dcp(J, a, k):
        m = a[1] if len(a) > 1 else k.get("memo")
        return deepcopy(J, a[0], m.memo if isinstance(m, MemoDict) else {})

    mod("copy", deepcopy=N("deepcopy", dcp), copy=N("copy", cp))

    # inspect
    mod(
        "inspect", signature=N("signature", lambda J, a, k: signature(J, a[0])), _empty=Ext("inspect._empty"),
        isclass=N("isclass", lambda J, a, k: isinstance(J.canon(a[0]), (Cls, BType))),
        isfunction=N("isfunction", lambda J, a, k: isinstance(J.canon(a[0]), Func)),
        isgenerator=N("isgenerator", lambda J, a, k: isinstance(J.canon(a[0]), Iter)),
        ismethod=N("ismethod", lambda J, a, k: isinstance(J.canon(a[0]), Bound)),
        isabstract=N("isabstract", lambda J, a, k: bool(J.abstract_names(a[0])) if isinstance(a[0], Cls) else False),
    )

    class ParamCls(Model):
        def attr(self, J, name):
            return Ext("inspect._empty") if name == "empty" else Ext("inspect.Parameter." + name)

    S["inspect"]["Parameter"] = ParamCls()

    # re
    def rec(J, a, k):
        p = J.canon(a[0])
        if isinstance(p, Pattern):
            return p
        if not isinstance(p, str):
            if isinstance(p, SStr) or J.is_abs(p):
                raise Undecided("unknown pattern")
        return Pattern(p, a[1] if len(a) > 1 else k.get("flags", 0))

    rm = mod("re", compile=N("re.compile", rec), escape=N("re.escape", lambda J, a, k: fold(J, hre.escape, a, k)))
    for n in ("match", "fullmatch", "search", "split", "findall", "finditer", "sub"):
        def mk(n):
            def f(J, a, k):
                p = J.canon(a[0])
                fl = 0
                if isinstance(p, Pattern):
                    p, fl = p.pat, p.flags
                a = list(a[1:])
                if n in ("match", "fullmatch", "search", "findall", "finditer") and len(a) > 1:
                    fl = a.pop()
                return re_call(J, n, p, a, k, fl)
            return f
        rm[n] = N("re." + n, mk(n))
    for n in ("IGNORECASE", "I", "MULTILINE", "M", "DOTALL", "S", "VERBOSE", "X", "ASCII", "A"):
        rm[n] = int(getattr(hre, n))
    rm["Pattern"] = Ext("re.Pattern")
    rm["Match"] = Ext("re.Match")
    rm["error"] = I.exc_class("ValueError")

    # math
    def mfn(f, name):
        def g(J, a, k):
            b = [J.canon(x) for x in a]
            if all(isinstance(x, (int, float)) for x in b):
                try:
                    return f(*b)
                except (ValueError, OverflowError) as e:
                    J.throw(type(e).__name__, str(e))
            v = b[0]
            if any(x is None for x in b):
                J.throw("TypeError", "must be real number, not NoneType")
            if name in ("ceil", "floor") and isinstance(v, App):
                if v.op == "/" and isinstance(v.args[1], int) and v.args[1] > 0 and J.kinds(v.args[0]) <= {"int"}:
                    x, d = v.args
                    if isinstance(x, App) and x.op == "*" and isinstance(x.args[1], int) and x.args[1] % d == 0:
                        return J.binop("Mult", x.args[0], x.args[1] // d)
                    if name == "floor":
                        return J.binop("FloorDiv", x, d)
                    return J.binop("FloorDiv", J.binop("Add", x, d - 1), d)
            if name in ("ceil", "floor") and J.is_abs(v) and J.kinds(v) <= {"int"}:
                return v
            return App("math." + name, tuple(b), ("int",) if name in ("ceil", "floor", "trunc", "gcd", "lcm") else ("float",))
        return g

    mm = mod("math", pi=hmath.pi, inf=hmath.inf, nan=hmath.nan, e=hmath.e)
    for n in ("ceil", "floor", "log2", "log", "log10", "sqrt", "trunc", "gcd", "isnan", "isinf", "fabs", "pow", "prod"):
        mm[n] = N("math." + n, mfn(getattr(hmath, n), n))

    # urllib.parse
    def quote_(name):
        h = getattr(hurl, name)

        def f(J, a, k):
            v = J.norm(J.canon(a[0]))
            safe = a[1] if len(a) > 1 else k.get("safe", "/" if name == "quote" else "")
            try:
                return J.decode(h(J.encode(v), J.encode(safe)))
            except J.NotClean:
                pass
            if v is None or (J.is_abs(v) and J.kinds(v) <= {"NoneType"}):
                J.throw("TypeError", "quote_from_bytes() expected bytes")
            if isinstance(v, SStr):
                return J.mkstr([h(p, safe) if isinstance(p, str) else (p if p.clean or J.kinds(p) <= {"int"} else App(name, (p,) if safe == "" else (p, safe), ("str",))) for p in v.parts])
            if isinstance(v, (Top, Ext)):
                return Top("quoted")
            if name == "quote" and safe == "":
                return App("quote", (v, ""), ("str",))
            return App(name, (v,) if (name == "quote_plus" and safe == "") else (v, safe), ("str",))
        return f

    def unquote_(name):
        h = getattr(hurl, name)
        inv = {"unquote_plus": "quote_plus", "unquote": "quote"}[name]

        def one(J, v):
            v = J.canon(v)
            if isinstance(v, str):
                return h(v)
            if v.clean or J.kinds(v) <= {"int"}:
                return v
            if isinstance(v, App) and v.op == inv:
                return v.args[0]
            return App(name, (v,), ("str",))

        def f(J, a, k):
            v = J.norm(J.canon(a[0]))
            if isinstance(v, SStr):
                return J.mkstr([one(J, p) for p in v.parts])
            if isinstance(v, str) or J.is_abs(v):
                return one(J, v)
            if isinstance(v, (Top, Ext)):
                return Top("unquoted")
            return fold(J, h, a, k)
        return f

    um = mod("urllib.parse")
    mod("urllib", parse=Mod("urllib.parse", um, "<lib>"))
    for n in ("quote", "quote_plus"):
        um[n] = N(n, quote_(n))
    for n in ("unquote", "unquote_plus"):
        um[n] = N(n, unquote_(n))
    for n in ("urlsplit", "urlparse", "urlunsplit", "urlunparse", "urljoin", "parse_qs", "parse_qsl", "urlencode", "urldefrag", "SplitResult", "ParseResult"):
        um[n] = N(n, (lambda h, n: lambda J, a, k: fold(J, h, a, k, name=n))(getattr(hurl, n), n))

    # pathlib: never touches the file system
    pp = {}

    def path_(J, a, k):
        try:
            return HostModel(hpathlib.PurePosixPath(*[enc(J, x, True) for x in a]), ("Path", "PosixPath", "PurePath", "PurePosixPath"))
        except J.NotClean as e:
            raise Undecided(f"path of {e}")
        except TypeError as e:
            J.throw("TypeError", str(e))

    class PathCls(Model):
        classes = ("type",)

        def __init__(self, name):
            self.name = name

        def call(self, J, a, k):
            return path_(J, a, k)

        def attr(self, J, name):
            if name in ("home", "cwd"):
                return N("Path." + name, lambda K, a, k: HostModel(hpathlib.PurePosixPath("/home/user"), ("Path",)))
            if name == "__name__":
                return self.name
            raise Undecided("Path." + name)

    for n in ("Path", "PurePath", "PurePosixPath", "PosixPath"):
        pp[n] = PathCls(n)
    S["pathlib"] = pp

    # os
    op_ = {}
    for n in ("join", "basename", "dirname", "split", "splitext", "normpath", "isabs", "commonprefix", "commonpath", "relpath"):
        op_[n] = N("os.path." + n, (lambda h, n: lambda J, a, k: fold(J, h, a, k, seg=n != "splitext", name=n))(getattr(hposix, n), n))
    op_["expanduser"] = N("expanduser", lambda J, a, k: a[0].replace("~", "/home/user", 1) if isinstance(a[0], str) and a[0].startswith("~") else a[0])
    op_["expandvars"] = N("expandvars", lambda J, a, k: a[0])
    op_["abspath"] = N("abspath", lambda J, a, k: fold(J, hposix.normpath, a, k))
    op_["sep"] = "/"

    def there(n, how):
        def f(J, a, k):
            p = to_str(J, a[0])
            for h in ("made", "fs"):
                if h in J.hooks:
                    return J.hooks[h](J, how, p, [], {})
            return Ext(f"os.path.{n}()", (p,), True)
        return N("os.path." + n, f)

    for n, how in (("exists", "exists"), ("isdir", "is_dir"), ("isfile", "is_file")):
        op_[n] = there(n, how)
    S["os.path"] = op_
    S["posixpath"] = op_
    environ = {}

    def listdir(J, a, k):
        if "fs" not in J.hooks:
            return Ext("os.listdir()", (tuple(a),), True)
        p = J.canon(a[0])
        return [J.getattr(x, "name") for x in J.iterate(J.hooks["fs"](J, "iterdir", p.tostr(J) if hasattr(p, "tostr") else p, [], {}))]

    def make(n):
        def f(J, a, k):
            J.event("extcall", "os." + n, a, k)
            return J.hooks["made"](J, n, to_str(J, a[0]), a[1:], k) if "made" in J.hooks else None
        return N("os." + n, f)

    mod("os", environ=environ, path=Mod("os.path", op_, "<lib>"), sep="/", linesep="\n", name="posix",
        getenv=N("getenv", lambda J, a, k: (lambda h: h[0] if h else (a[1] if len(a) > 1 else k.get("default")))(J.dget(environ, a[0]))),
        fspath=N("fspath", lambda J, a, k: to_str(J, a[0])), makedirs=make("makedirs"), mkdir=make("mkdir"), listdir=N("listdir", listdir))

    # contextlib
    def cmgr(J, a, k):
        f = a[0]
        if isinstance(f, Func):
            f.cm = True
            return f
        raise Undecided("contextmanager")

    mod("contextlib", contextmanager=N("contextmanager", cmgr), closing=N("closing", lambda J, a, k: Closing(a[0])), suppress=N("suppress", lambda J, a, k: Suppress(a)),
        nullcontext=N("nullcontext", lambda J, a, k: NullContext(a[0] if a else None)), ExitStack=N("ExitStack", lambda J, a, k: ExitStack()), AbstractContextManager=Ext("typing.ACM"))

    # importlib
    def imp(J, a, k):
        n = J.norm(J.canon(a[0]))
        if not isinstance(n, str):
            raise Undecided("import of an unknown module")
        J.event("import", n)
        _, m = J.import_chain(n)
        return m

    mod("importlib", import_module=N("import_module", imp))

    # enum
    def ecls(name, bases=()):
        c = Cls(name, list(bases), {}, "enum")
        c.enum = True
        c.mro = [c] + [x for b in bases for x in (b.mro if isinstance(b, Cls) else [b])]
        return c

    E = ecls("Enum")
    mod("enum", Enum=E, StrEnum=ecls("StrEnum", (I.btypes["str"], E)), IntEnum=ecls("IntEnum", (I.btypes["int"], E)), Flag=ecls("Flag", (E,)), IntFlag=ecls("IntFlag", (I.btypes["int"], E)),
        auto=N("auto", lambda J, a, k: Ext("enum.auto()")), unique=ident)

    # abc
    def absm(J, a, k):
        f = a[0]
        g = f.fn if isinstance(f, Wrapped) else f
        if isinstance(g, Func):
            g.attrs["__isabstractmethod__"] = True
        return f

    mod("abc", abstractmethod=N("abstractmethod", absm), ABC=Ext("abc.ABC"), ABCMeta=Ext("abc.ABCMeta"), abstractproperty=N("abstractproperty", lambda J, a, k: Wrapped("property", a[0])))

    # dataclasses
    def dc(J, a, k):
        if a:
            return make_dataclass(J, a[0], k)
        return N("dataclass", lambda K, b, kk: make_dataclass(K, b[0], k))

    def dfields(J, a, k):
        c = a[0].cls if isinstance(a[0], Inst) else a[0]
        d = next((b.dc for b in c.mro if isinstance(b, Cls) and b.dc), None)
        if d is None:
            J.throw("TypeError", "must be called with a dataclass type or instance")
        return tuple(Fld(n) for n in d["order"])

    class Fld(Model):
        def __init__(self, n):
            self.n = n

        def a_name(self, J):
            return self.n

    def dreplace(J, a, k):
        o = a[0]
        d = next((b.dc for b in o.cls.mro if isinstance(b, Cls) and b.dc), None)
        if d is None:
            J.throw("TypeError", "replace() should be called on dataclass instances")
        vals = {n: o.attrs[n] for n in d["order"] if n in o.attrs and not (d["fields"].get(n) and len(d["fields"][n]) > 2 and d["fields"][n][2] is False)}
        vals.update(k)
        return J.call(o.cls, [], vals)

    def dasdict(J, a, k):
        def go(v):
            v = J.canon(v)
            if isinstance(v, Inst) and any(isinstance(b, Cls) and b.dc for b in v.cls.mro):
                d = next(b.dc for b in v.cls.mro if isinstance(b, Cls) and b.dc)
                return {n: go(v.attrs[n]) for n in d["order"]}
            if isinstance(v, list):
                return [go(x) for x in v]
            if isinstance(v, dict):
                return {x: go(y) for x, y in v.items()}
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            return deepcopy(J, v, {})
        return go(a[0])

    mod("dataclasses", dataclass=N("dataclass", dc), field=N("field", lambda J, a, k: FieldSpec(k)), fields=N("fields", dfields), replace=N("replace", dreplace), asdict=N("asdict", dasdict),
        is_dataclass=N("is_dataclass", lambda J, a, k: any(isinstance(b, Cls) and b.dc for b in (a[0].cls if isinstance(a[0], Inst) else a[0]).mro) if isinstance(a[0], (Inst, Cls)) else False), KW_ONLY=Ext("dataclasses.KW_ONLY"))

    # functools
    def cached(J, f):
        n = N(getattr(f, "name", "cached"), None)
        cache_id = id(n)

        def g(K, a, k):
            try:
                key = (cache_id, freeze(tuple(a)), freeze(dict(k)))
                hash(key)
            except TypeError:
                K.throw("TypeError", "unhashable type")
            if any(isinstance(x, (list, dict, set)) for x in a):
                K.throw("TypeError", "unhashable type")
            if key in K.caches:
                K.event("cached", getattr(f, "name", "?"))
                return K.caches[key]
            r = K.call(f, a, k)
            K.caches[key] = r
            return r
        n.fn = g
        n.attrs["method"] = True
        n.attrs["inner"] = f
        n.attrs["cache_clear"] = N("cache_clear", lambda K, a, k: K.caches.clear())
        return n

    def lru(J, a, k):
        if a and isinstance(a[0], (Func, Bound, Native)):
            return cached(J, a[0])
        return N("lru_cache", lambda K, b, kk: cached(K, b[0]))

    def partial(J, a, k):
        f, pa = a[0], a[1:]
        n = N("partial", lambda K, b, kk: K.call(f, pa + b, {**k, **kk}))
        n.attrs.update(func=f, args=tuple(pa), keywords=k)
        return n

    def reduce_(J, a, k):
        items = J.iterate(a[1])
        if len(a) > 2:
            r = a[2]
        elif items:
            r, items = items[0], items[1:]
        else:
            J.throw("TypeError", "reduce() of empty iterable with no initial value")
        for x in items:
            r = J.call(a[0], [r, x], {})
        return r

    def wraps_(J, a, k):
        w = a[0]

        def deco(K, b, kk):
            if isinstance(b[0], Func):
                b[0].attrs["__wrapped__"] = w
            return b[0]
        return N("wraps", deco)

    def sdispatch(J, a, k):
        raise Undecided("singledispatch")

    mod("functools", lru_cache=N("lru_cache", lru), cache=N("cache", lru), partial=N("partial", partial), reduce=N("reduce", reduce_), wraps=N("wraps", wraps_), singledispatch=N("singledispatch", sdispatch),
        singledispatchmethod=N("singledispatchmethod", sdispatch), cached_property=N("cached_property", lambda J, a, k: Wrapped("cached_property", a[0])), total_ordering=ident, update_wrapper=N("update_wrapper", lambda J, a, k: a[0]))

    # itertools / operator / collections
    def chain(J, a, k):
        return Iter([x for s in a for x in J.iterate(s)])

    ch = N("chain", chain)
    ch.attrs["from_iterable"] = N("from_iterable", lambda J, a, k: Iter([x for s in J.iterate(a[0]) for x in J.iterate(s)]))

    def groupby(J, a, k):
        key = a[1] if len(a) > 1 else k.get("key")
        out = []
        for x in J.iterate(a[0]):
            kk = J.call(key, [x], {}) if key is not None else x
            if out and J.eq(out[-1][0], kk):
                out[-1][1].items.append(x)
            else:
                out.append((kk, Iter([x])))
        return Iter(out)

    import itertools as hit

    def takewhile(J, a, k):
        out = []
        for x in J.live_iter(J.canon(a[1])):
            if not J.truth(J.call(a[0], [x], {})):
                break
            out.append(x)
        return Iter(out)

    def dropwhile(J, a, k):
        items = J.iterate(a[1])
        i = 0
        while i < len(items) and J.truth(J.call(a[0], [items[i]], {})):
            i += 1
        return Iter(items[i:])

    def islice(J, a, k):
        it = J.canon(a[0])
        b = [J.canon(x) for x in a[1:]]
        if any(x is not None and not isinstance(x, int) for x in b):
            raise Undecided("islice")
        if isinstance(it, Iter):
            start, stop = (0, b[0]) if len(b) == 1 else (b[0] or 0, b[1])
            step = b[2] if len(b) > 2 and b[2] else 1
            if stop is None:
                return Iter(J.iterate(it)[start::step])
            n = min(stop, len(it.items) - it.pos)
            r = [it.items[it.pos + i] for i in range(start, n, step)]
            it.pos += max(n, 0)
            return Iter(r)
        return Iter(list(hit.islice(J.iterate(it), *b)))

    mod("itertools", chain=ch, count=N("count", lambda J, a, k: Iter(CountSeq(a[0] if a else k.get("start", 0), a[1] if len(a) > 1 else k.get("step", 1)))),
        repeat=N("repeat", lambda J, a, k: Iter([a[0]] * a[1]) if len(a) > 1 else Iter(RepeatSeq(a[0], 0))),
        zip_longest=N("zip_longest", lambda J, a, k: Iter(list(hit.zip_longest(*[J.iterate(x) for x in a], fillvalue=k.get("fillvalue"))))),
        product=N("product", lambda J, a, k: Iter(list(hit.product(*[J.iterate(x) for x in a], **k)))),
        islice=N("islice", islice), takewhile=N("takewhile", takewhile), dropwhile=N("dropwhile", dropwhile), groupby=N("groupby", groupby),
        filterfalse=N("filterfalse", lambda J, a, k: Iter([x for x in J.iterate(a[1]) if not J.truth(x if a[0] is None else J.call(a[0], [x], {}))])),
        starmap=N("starmap", lambda J, a, k: Iter([J.call(a[0], J.iterate(x), {}) for x in J.iterate(a[1])])),
        accumulate=N("accumulate", lambda J, a, k: _undec("accumulate")),
        combinations=N("combinations", lambda J, a, k: Iter(list(hit.combinations(J.iterate(a[0]), a[1])))),
        permutations=N("permutations", lambda J, a, k: Iter(list(hit.permutations(J.iterate(a[0]), *a[1:])))),
        pairwise=N("pairwise", lambda J, a, k: Iter(list(hit.pairwise(J.iterate(a[0]))))),
        tee=N("tee", lambda J, a, k: (lambda xs: tuple(Iter(list(xs)) for _ in range(a[1] if len(a) > 1 else 2)))(J.iterate(a[0]))))

    def igetter(J, a, k):
        ks = list(a)
        return N("itemgetter", lambda K, b, kk: K.getitem(b[0], ks[0]) if len(ks) == 1 else tuple(K.getitem(b[0], x) for x in ks))

    def agetter(J, a, k):
        def one(K, o, n):
            for p in n.split("."):
                o = K.getattr(o, p)
            return o
        ks = list(a)
        return N("attrgetter", lambda K, b, kk: one(K, b[0], ks[0]) if len(ks) == 1 else tuple(one(K, b[0], x) for x in ks))

    om = mod("operator", itemgetter=N("itemgetter", igetter), attrgetter=N("attrgetter", agetter), methodcaller=N("methodcaller", lambda J, a, k: N("methodcaller", lambda K, b, kk: K.call(K.getattr(b[0], a[0]), a[1:], k))))
    for n, o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("or_", "BitOr"), ("and_", "BitAnd"), ("mod", "Mod"), ("floordiv", "FloorDiv"), ("truediv", "Div")):
        om[n] = N(n, (lambda o: lambda J, a, k: J.binop(o, a[0], a[1]))(o))
    for n, o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
        om[n] = N(n, (lambda o: lambda J, a, k: J.cmp(o, a[0], a[1]))(o))
    om["contains"] = N("contains", lambda J, a, k: J.contains(a[0], a[1]))
    om["not_"] = N("not_", lambda J, a, k: not J.truth(a[0]))
    om["truth"] = N("truth", lambda J, a, k: J.truth(a[0]))
    om["getitem"] = N("getitem", lambda J, a, k: J.getitem(a[0], a[1]))

    def ddict(J, a, k):
        d = DefaultDict()
        d.default_factory = a[0] if a else None
        if len(a) > 1:
            J.dict_update(d, a[1])
        for n, v in k.items():
            d[n] = v
        return d

    def ntuple(J, a, k):
        names = J.canon(a[1])
        names = names.replace(",", " ").split() if isinstance(names, str) else J.iterate(names)
        c = J.make_class(a[0], [], {"__annotations__": {n: "" for n in names}}, "?")
        c.dc = {"order": list(names), "named": True}
        ds = J.iterate(k["defaults"]) if "defaults" in k else []
        for n, v in zip(names[len(names) - len(ds):], ds):
            c.attrs[n] = v
        return c

    def counter(J, a, k):
        d = DefaultDict()
        d.default_factory = N("zero", lambda K, b, kk: 0)
        if a:
            src = J.canon(a[0])
            if isinstance(src, dict):
                d.update(src)
            else:
                for x in J.iterate(src):
                    h = J.dget(d, x)
                    J.dset(d, x, J.binop("Add", h[0] if h else 0, 1))
        return d

    mod("collections", defaultdict=N("defaultdict", ddict), OrderedDict=N("OrderedDict", t_dict), deque=N("deque", lambda J, a, k: Deque(J.iterate(a[0]) if a else [])), namedtuple=N("namedtuple", ntuple), Counter=N("Counter", counter), abc=Mod("collections.abc", S["collections.abc"], "<lib>"))
    def hook(J, a, k):
        h = J.hooks.get(a[0])
        J.event("hook", a[0], list(a[1:]), dict(k))
        if h is not None:
            return h(J, list(a[1:]), dict(k))
        return Ext(a[0] + "()", (tuple(a[1:]), tuple(k.items())), True)

    mod("recap_analysis", hook=N("hook", hook))
    mod("string", ascii_letters=hstring.ascii_letters, digits=hstring.digits, ascii_lowercase=hstring.ascii_lowercase, ascii_uppercase=hstring.ascii_uppercase, punctuation=hstring.punctuation, whitespace=hstring.whitespace)


def _from(J, start):
    start = J.canon(start)
    i = 0
    while True:
        yield J.binop("Add", start, i)
        i += 1


def hash_(I, v):
    v = I.canon(v)
    if isinstance(v, (list, dict, set)):
        I.throw("TypeError", "unhashable type")
    if isinstance(v, Inst) and v.cls.find("__hash__"):
        h = v.cls.find("__hash__")[0]
        if h is None:
            I.throw("TypeError", "unhashable type")
        if isinstance(h, Func):
            return I.call(Bound(v, h), [], {})
    return App("hash", (v if not isinstance(v, tuple) else Hold(v),), ("int",))
