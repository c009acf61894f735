from __future__ import annotations

from ..spec import *
from ..spec import diff, X, CORE, COMMON, CLASSES, REQ
from ..values import *

# The built-in aliases of the Recap specification.
BUILTIN = {
    "int8": X("int", bits=8, signed=True),
    "uint8": X("int", bits=8, signed=False),
    "int16": X("int", bits=16, signed=True),
    "uint16": X("int", bits=16, signed=False),
    "int32": X("int", bits=32, signed=True),
    "uint32": X("int", bits=32, signed=False),
    "int64": X("int", bits=64, signed=True),
    "uint64": X("int", bits=64, signed=False),
    "float16": X("float", bits=16),
    "float32": X("float", bits=32),
    "float64": X("float", bits=64),
    "string32": X("string", bytes_=2_147_483_648, variable=True),
    "string64": X("string", bytes_=9_223_372_036_854_775_807, variable=True),
    "bytes32": X("bytes", bytes_=2_147_483_648, variable=True),
    "bytes64": X("bytes", bytes_=9_223_372_036_854_775_807, variable=True),
    "uuid": X("string", logical="build.recap.UUID", bytes_=36, variable=False),
    "decimal128": X("bytes", logical="build.recap.Decimal", bytes_=16, variable=False, precision=28, scale=14),
    "decimal256": X("bytes", logical="build.recap.Decimal", bytes_=32, variable=False, precision=56, scale=28),
    "duration64": X("int", logical="build.recap.Duration", bits=64, signed=True, unit="millisecond"),
    "interval128": X("bytes", logical="build.recap.Interval", bytes_=16, variable=False, unit="millisecond"),
    "time32": X("int", logical="build.recap.Time", bits=32, signed=True, unit="second"),
    "time64": X("int", logical="build.recap.Time", bits=64, signed=True, unit="second"),
    "timestamp64": X("int", logical="build.recap.Timestamp", bits=64, signed=True, unit="millisecond", timezone="UTC"),
    "date32": X("int", logical="build.recap.Date", bits=32, signed=True, unit="day"),
    "date64": X("int", logical="build.recap.Date", bits=64, signed=True, unit="day"),
}


def full(x):
    """An X with every attribute spelled out."""
    a = {**{k: v for k, v in CORE[x.type_].items() if v is not REQ}, **COMMON, **x.attrs}
    return X(x.type_, **{k: [full(e) if isinstance(e, X) else e for e in v] if isinstance(v, (list, tuple)) else full(v) if isinstance(v, X) else v for k, v in a.items()})


def as_x(I, v, expand=True, depth=0):
    """The Recap type instance `v` as an X; proxies to built-ins expanded."""
    v = I.canon(v)
    if depth > 12:
        raise Undecided("type nested too deeply")
    if isinstance(v, (list, tuple)):
        return [as_x(I, e, expand, depth + 1) for e in v]
    if isinstance(v, Inst) and "type_" in v.attrs and "extra_attrs" in v.attrs:
        a = {k: as_x(I, e, expand, depth + 1) for k, e in v.attrs.items() if k not in ("type_", "extra_attrs", "registry", "_resolved") and not k.startswith("_")}
        ex = {I.canon(k) if not isinstance(k, str) else k: (as_x(I, e, expand, depth + 1) if isinstance(e, Inst) else e) for k, e in v.attrs["extra_attrs"].items()}
        t = v.attrs["type_"]
        if not isinstance(t, str) or t not in CLASSES:
            raise Undecided(f"type_ {show(t)}")
        x = mk(t, {**a, **ex})
        if t == "proxy" and expand and isinstance(a.get("alias"), str) and a["alias"] in BUILTIN:
            b = full(BUILTIN[a["alias"]])
            over = {k: e for k, e in {**a, **ex}.items() if k != "alias" and not (k in COMMON and e is None)}
            x = mk(b.type_, {**b.attrs, **over})
        return x
    return v


def mk(t, attrs):
    x = X(t)
    x.attrs = dict(attrs)
    return x


def xdiff(I, a, b, path=""):
    """None if the two descriptions are the same type, else where they differ."""
    if isinstance(a, X) or isinstance(b, X):
        if not (isinstance(a, X) and isinstance(b, X)) or a.type_ != b.type_:
            return f"{path or 'result'} is {a!r} instead of {b!r}"
        ra = list(a.attrs.items())
        for k, v in b.attrs.items():
            m = [i for i, (kk, _) in enumerate(ra) if kk is k or kk == k or (not isinstance(kk, str) and leaf_eq(I, kk, k))]
            if not m:
                return f"{path or 'result'} lost {show(k)}={show(v) if not isinstance(v, X) else v}: {a!r}"
            d = xdiff(I, ra.pop(m[0])[1], v, f"{path}.{k}")
            if d:
                return d
        if ra:
            return f"{path or 'result'} gained {ra}: {a!r}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path or 'result'} has {len(a)} items instead of {len(b)}: {show_x(a)} instead of {show_x(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            d = xdiff(I, p, q, f"{path}[{i}]")
            if d:
                return d
        return None
    return diff(I, a, b, path)


def show_x(v):
    return repr(v) if isinstance(v, (X, list)) else show(v)


def leaves(C):
    """One description per leaf type; open attributes are atoms."""
    bits = C.sym("bits", "int", lo=1, hi=2_147_483_647)
    n = C.sym("n", "int", lo=1, hi=9_223_372_036_854_775_807)
    return {
        "null": X("null"),
        "bool": X("bool"),
        "int": X("int", bits=bits, signed=C.sym("signed", "bool")),
        "float": X("float", bits=bits),
        "string": X("string", bytes_=C.sym("n?", ("int", "NoneType"), lo=1, hi=9_223_372_036_854_775_807), variable=True),
        "string-fixed": X("string", bytes_=n, variable=False),
        "bytes": X("bytes", bytes_=C.sym("n?", ("int", "NoneType"), lo=1, hi=9_223_372_036_854_775_807), variable=True),
        "bytes-fixed": X("bytes", bytes_=n, variable=False),
        "enum": X("enum", symbols=[C.name("A"), C.name("B")]),
    }


def ext_calls(I, name=None):
    return [e for e in I.trace if e[0] == "hook" and (name is None or e[1] == name)]


# --------------------------------------------------------- stand-ins (stubs/environment)
def fake(C, methods, attrs=None, managed=False):
    """An object of the environment with the given methods."""
    return C.new("environment:" + ("Managed" if managed else "Object"), **{n: Native(n, m) for n, m in methods.items()}, **(attrs or {}))


def database(C, answer, closes=True):
    """A connection; answer(sql, params) gives the column names and rows of a query."""
    C.I.hooks["env.execute"] = lambda I, a, k: answer(*a)
    return C.new("environment:Connection", closes)
