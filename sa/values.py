"""Abstract values of the analysis.

Known values are represented by the host value (None, bool, int, float, str,
bytes, tuple, list, dict, set).  Everything that is not known is represented by
one of the classes below.
"""
from __future__ import annotations

ANY = None


class Undecided(Exception):
    """The analysis cannot follow the code from here (never a verdict)."""


class Poison:
    """What a module-level name is bound to when its value could not be
    followed: whatever reads it is undecided, the rest of the module is not."""

    def __init__(self, why):
        self.why = why


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    """The collected facts contradict each other: no run takes this path."""


class Sym:
    """An unknown input.  `kinds` is the set of its possible types (None: any)."""

    __slots__ = ("name", "kinds", "clean", "nonempty", "lo", "hi", "apart", "tok")
    count = 0

    def __init__(self, name, kinds=("str",), clean=False, nonempty=False, lo=None, hi=None, apart=False):
        self.name = name
        self.kinds = frozenset(kinds) if kinds is not None else None
        self.clean = clean  # alphanumeric, lower case, not empty
        self.nonempty = nonempty or clean
        self.lo, self.hi = lo, hi
        self.apart = apart  # never equal to a literal of the code; starts with a letter
        self.tok = None

    def __repr__(self):
        return f"<{self.name}>"


class App:
    """An unknown value that is a function of other values."""

    __slots__ = ("op", "args", "kinds", "clean", "_h", "tok", "lo", "hi")

    def __init__(self, op, args, kinds=ANY, clean=False, lo=None, hi=None):
        self.op = op
        self.args = tuple(args)
        self.kinds = frozenset(kinds) if kinds is not None else None
        self.clean = clean
        self._h = None
        self.tok = None
        self.lo, self.hi = lo, hi

    def key(self):
        return (self.op, freeze(self.args))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, App) and self.key() == o.key()

    @property
    def nonempty(self):
        return self.op in ("quote_plus",)

    @property
    def name(self):
        return repr(self)

    @property
    def apart(self):
        return False

    def __repr__(self):
        return f"{self.op}({', '.join(map(show, self.args))})"


class SStr:
    """A string made of known and unknown parts."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __hash__(self):
        return hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __repr__(self):
        return "f" + repr("".join(p if isinstance(p, str) else "{%s}" % (p.name if isinstance(p, Sym) else repr(p)) for p in self.parts))


class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<unknown: {self.why}>"


class JsonText:
    """A JSON document whose decoded value is `value` (a str for the code)."""

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"json({show(self.value)})"


class BType:
    """A built-in type."""

    __slots__ = ("name", "fn")

    def __init__(self, name):
        self.name = name
        self.fn = None

    def __repr__(self):
        return f"<class '{self.name}'>"


class Cls:
    def __init__(self, name, bases, attrs, module, site=None):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.site = site
        self.mro = None
        self.unknown_base = False
        self.enum = False
        self.members = []
        self.dc = None
        self.exc = False

    def __repr__(self):
        return f"<class '{self.module}.{self.name}'>"

    def find(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name], c
        return None


class Inst:
    __slots__ = ("cls", "attrs", "site", "__weakref__")

    def __init__(self, cls, site=None):
        self.cls = cls
        self.attrs = {}
        self.site = site

    def __repr__(self):
        return show(self)


class Func:
    __slots__ = ("node", "env", "module", "name", "qualname", "defaults", "kwdefaults", "owner", "is_async", "is_gen", "attrs", "cm")

    def __repr__(self):
        return f"<function {self.module}.{self.qualname}>"


class Bound:
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn

    def __repr__(self):
        return f"<bound {self.fn!r}>"


class Native:
    __slots__ = ("name", "fn", "attrs")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = {}

    def __repr__(self):
        return f"<{self.name}>"


class Wrapped:
    """staticmethod, classmethod, property and cached_property objects."""

    __slots__ = ("kind", "fn", "setter")

    def __init__(self, kind, fn):
        self.kind = kind
        self.fn = fn
        self.setter = None


class Mod:
    def __init__(self, name, env=None, file=None):
        self.name = name
        self.env = env if env is not None else {}
        self.file = file

    def __repr__(self):
        return f"<module {self.name}>"


class Ext:
    """Something outside the analysed code, known by where it comes from."""

    __slots__ = ("path", "args", "res")

    def __init__(self, path, args=None, res=False):
        self.path = path
        self.args = args
        self.res = res  # result of a call

    def __repr__(self):
        return f"<external {self.path}>"


class Model:
    """Base of the models of external objects that the properties provide."""

    classes: tuple = ()

    def attr(self, I, name):
        m = getattr(self, "a_" + name, None)
        if m is not None:
            return m(I)
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return Native(f"{type(self).__name__}.{name}", m)
        return self.missing(I, name)

    def missing(self, I, name):
        raise Undecided(f"{type(self).__name__}.{name} is not modelled")

    def setattr(self, I, name, value):
        raise Undecided(f"assignment to {type(self).__name__}.{name}")


class Coro:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class GenObj:
    """The result of calling a generator function that is a context manager."""

    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Iter:
    """An iterator over known items."""

    __slots__ = ("items", "pos")

    def __init__(self, items):
        self.items = items
        self.pos = 0


class PyExc(Exception):
    """An exception of the analysed code."""

    def __init__(self, inst, site=None):
        self.inst = inst
        self.site = site

    def __str__(self):
        return f"{self.inst.cls.name}({', '.join(show(a) for a in self.inst.attrs.get('args', ()))})"


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


def freeze(v, _d=0):
    """A hashable stand-in for a value."""
    if _d > 12:
        return "..."
    if isinstance(v, tuple):
        return ("t",) + tuple(freeze(x, _d + 1) for x in v)
    if isinstance(v, list):
        return ("l",) + tuple(freeze(x, _d + 1) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple((freeze(k, _d + 1), freeze(x, _d + 1)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted((freeze(x, _d + 1) for x in v), key=repr))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, (int, float)):
        return ("n", v)
    return v if not isinstance(v, Inst) else ("i", id(v))


def show(v, depth=0):
    if depth > 6:
        return "..."
    d = depth + 1
    if isinstance(v, Inst):
        if v.cls.enum:
            return f"{v.cls.name}.{v.attrs.get('name', v.attrs.get('_name_'))}"
        a = dict(v.attrs)
        ex = a.pop("extra_attrs", None)
        a.pop("registry", None)
        a.pop("_type_registry", None)
        s = ", ".join(f"{k}={show(x, d)}" for k, x in a.items() if x is not None and k != "type_")
        if isinstance(ex, dict) and ex:
            s += (", " if s else "") + ", ".join(f"+{k if isinstance(k, str) else show(k, d)}={show(x, d)}" for k, x in ex.items())
        return f"{v.cls.name}({s})"
    if isinstance(v, list):
        return "[" + ", ".join(show(x, d) for x in v) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, d) for x in v) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{show(k, d)}: {show(x, d)}" for k, x in v.items()) + "}"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(show(x, d) for x in v)) + "}"
    return repr(v)
