"""Properties of the type system (recap/types.py)."""
from __future__ import annotations

from .common import *


def attr_sets(C):
    """Attributes a type may carry besides its own."""
    dflt = C.sym("default", ("str", "int", "bool", "NoneType"))
    one = {
        "doc": {"doc": C.sym("doc")},
        "logical": {"logical": C.sym("logical")},
        "alias": {"alias": SStr(["build.", C.name("al")])},
        "name": {"name": C.name("fname")},
        "default": {"default": dflt},
        "custom": {"my_attr": C.sym("custom", ("str", "int", "bool", "NoneType"))},
    }
    every = {}
    for v in one.values():
        every.update(v)
    return {"plain": {}, **one, "all": every}


def contexts(C, t):
    s = X("string", bytes_=C.sym("m", "int", lo=1, hi=9_223_372_036_854_775_807), variable=False)
    b = X("bool", name=C.name("g"))
    return {
        "alone": t,
        "list": X("list", values=t, length=C.sym("len?", ("int", "NoneType"), lo=1, hi=9_223_372_036_854_775_807)),
        "fixed list": X("list", values=t, length=C.sym("len", "int", lo=1, hi=9_223_372_036_854_775_807), variable=False, doc=C.sym("doc1")),
        "map key": X("map", keys=t, values=s),
        "map value": X("map", keys=s, values=t, logical=C.sym("logical1")),
        "struct field": X("struct", fields=[t, b], doc=C.sym("doc1")),
        "union": X("union", types=[b, t]),
        "optional": X("union", types=[X("null"), t], default=None),
        "optional named": X("union", types=[X("null"), t], default=C.sym("default1", ("str", "int", "NoneType")), doc=C.sym("doc1"), name=C.name("un")),
        "optional custom": X("union", types=[X("null"), t], default=None, my_attr=C.sym("custom1")),
        "optional alias": X("union", types=[X("null"), t], default=None, alias="build.un", logical=C.sym("logical1")),
        "null last": X("union", types=[t, X("null")], default=None),
        "nullable, no default": X("union", types=[X("null"), t]),
        "optional of two": X("union", types=[X("null"), t, b], default=None, doc=C.sym("doc1")),
        "optional of optional": X("union", types=[X("null"), X("union", types=[X("null"), t], default=None)], default=None),
        "null with doc": X("union", types=[X("null", doc=C.sym("doc1")), t], default=None),
        "list of lists": X("list", values=X("list", values=t)),
        "struct in struct": X("struct", fields=[X("struct", fields=[t], name=C.name("in")), b]),
        "list of optional": X("list", values=X("union", types=[X("null"), t], default=None)),
        "struct with optional": X("struct", fields=[X("union", types=[X("null"), t], default=None, name=C.name("un"))]),
        "optional logical": X("union", types=[X("null"), t], default=C.sym("default1", ("str", "int", "NoneType")), logical=C.sym("logical1")),
        "optional nameless": X("union", types=[X("null"), t], default=None, name=None),
        "optional of three": X("union", types=[X("null"), t, X("null"), b], default=None),
        "union logical": X("union", types=[t], logical=C.sym("logical1")),
        "union documented": X("union", types=[t, b], doc=C.sym("doc1")),
        "union custom": X("union", types=[t], my_attr=C.sym("custom1", ("str", "int", "NoneType"))),
        "union with default": X("union", types=[t, b], default=C.sym("default1", ("str", "int", "NoneType"))),
        "deep": X("list", values=X("map", keys=s, values=X("struct", fields=[b, X("union", types=[X("null"), X("list", values=X("union", types=[t, b]), length=C.sym("len", "int", lo=1, hi=9_223_372_036_854_775_807))], default=None, name=C.name("un"))]))),
    }


MORE = ["optional logical", "optional nameless", "optional of three", "union logical", "union documented", "union custom", "union with default", "deep"]


LEAVES = ["null", "bool", "int", "float", "string", "string-fixed", "bytes", "bytes-fixed", "enum"]
ATTRS = ["plain", "doc", "logical", "alias", "name", "default", "custom", "all"]
CTX = [
    "alone", "list", "fixed list", "map key", "map value", "struct field", "union", "optional", "optional named", "optional custom",
    "optional alias", "null last", "nullable, no default", "optional of two", "optional of optional", "null with doc", "list of lists",
    "struct in struct", "list of optional", "struct with optional",
]


def shape(C, leaf, attrs, ctx):
    t = leaves(C)[leaf]
    t = t.but(**attr_sets(C)[attrs])
    return contexts(C, t)[ctx]


def expanded(C, v):
    return as_x(C.I, v, True)


def round_trip(ck):
    ck.rule("from_dict(to_dict(t, clean, alias)) is the type t: every attribute at every level, up to built-in aliases")

    def one(leaf, attrs, ctx, clean, alias):
        def f(C):
            t = build(C, shape(C, leaf, attrs, ctx))
            d = C.ok_value(C.run("recap.types:to_dict", t, clean=clean, alias=alias), "to_dict")
            back = C.run("recap.types:from_dict", d)
            if back.raised:
                C.fail(f"from_dict({show(d)}) {back!r}", back.site)
            want = as_x(C.I, t, alias)
            got = as_x(C.I, back.value, alias)
            r = xdiff(C.I, got, want)
            if r:
                C.fail(f"{show(t)} became {show(d)} and then {show(back.value)}: {r}")
            if not alias:
                C.require(C.I.eq(back.value, t), f"{show(t)} became {show(d)} and then {show(back.value)}, which is not equal to it")

        ck.cell(f"{leaf} / {attrs} / {ctx} / clean={clean} alias={alias}", f)

    for clean in (True, False):
        for alias in (True, False):
            for leaf in LEAVES:
                for ctx in CTX:
                    for attrs in ATTRS:
                        if not ck.thorough and attrs not in ("plain", "all") and (ctx not in ("alone", "optional", "struct with optional") or leaf not in ("bool", "int", "bytes-fixed")):
                            continue
                        one(leaf, attrs, ctx, clean, alias)
            for leaf in LEAVES if ck.thorough else ("bool", "int", "enum"):
                for ctx in MORE:
                    for attrs in ("plain", "all"):
                        one(leaf, attrs, ctx, clean, alias)

    def builtin(name, ctx, clean):
        def f(C):
            t = build(C, contexts(C, BUILTIN[name])[ctx])
            d = C.ok_value(C.run("recap.types:to_dict", t, clean=clean), "to_dict")
            back = C.run("recap.types:from_dict", d)
            if back.raised:
                C.fail(f"from_dict({show(d)}) {back!r}", back.site)
            r = xdiff(C.I, expanded(C, back.value), expanded(C, t))
            if r:
                C.fail(f"{show(t)} became {show(d)} and then {show(back.value)}: {r}")

        ck.cell(f"built-in {name} / {ctx} / clean={clean}", f)

    for n in BUILTIN:
        for ctx in CTX if ck.thorough else ("alone", "struct field", "list"):
            builtin(n, ctx, True)

    def proxy(attrs, ctx, clean, alias):
        def f(C):
            reg = C.new("recap.types:RecapTypeRegistry")
            t = build(C, contexts(C, X("proxy", alias=SStr(["build.", C.name("al")]), registry=reg, **{k: v for k, v in attr_sets(C)[attrs].items() if k != "alias"}))[ctx])
            d = C.ok_value(C.run("recap.types:to_dict", t, clean=clean, alias=alias), "to_dict")
            back = C.run("recap.types:from_dict", d)
            if back.raised:
                C.fail(f"from_dict({show(d)}) {back!r}", back.site)
            r = xdiff(C.I, expanded(C, back.value), expanded(C, t))
            if r:
                C.fail(f"{show(t)} became {show(d)} and then {show(back.value)}: {r}")
            if not alias:
                C.require(C.I.eq(back.value, t), f"{show(t)} became {show(d)} and then {show(back.value)}, which is not equal to it")

        ck.cell(f"reference / {attrs} / {ctx} / clean={clean} alias={alias}", f)

    for clean in (True, False):
        for alias in (True, False):
            for ctx in CTX:
                for attrs in ATTRS:
                    if attrs != "alias" and (ck.thorough or attrs in ("plain", "all")):
                        proxy(attrs, ctx, clean, alias)

    def foreign(leaf, clean, alias):
        """Extra attributes that have the name of an attribute of another kind, also after types of that kind."""
        def f(C):
            after = C.pick("after", ["nothing", "others"] if clean and not alias else ["nothing"])
            if after == "others":
                n = C.sym("n", "int", lo=300)
                for o in (X("int", bits=n, signed=True), X("string", bytes_=n), X("float", bits=n), X("enum", symbols=[C.name("A")]), X("list", values=X("bool")), X("map", keys=X("string"), values=X("bool")), X("struct", fields=[]), X("union", types=[X("bool")])):
                    C.ok_value(C.run("recap.types:to_dict", build(C, o), clean=clean, alias=alias), "to_dict")
            x = leaves(C)[leaf]
            more = {k: v for k, v in {"variable": True, "length": None, "signed": True, "bytes": None, "registry": None, "unit": None}.items() if k not in x.attrs and not (k in ("bytes", "variable") and leaf.startswith(("string", "bytes")))}
            t = build(C, x.but(**more))
            d = C.ok_value(C.run("recap.types:to_dict", t, clean=clean, alias=alias), "to_dict")
            back = C.ok_value(C.run("recap.types:from_dict", d), f"from_dict({show(d)})")
            r = xdiff(C.I, as_x(C.I, back, alias), as_x(C.I, t, alias))
            if r:
                C.fail(f"{show(t)} became {show(d)} and then {show(back)}: {r}")

        ck.cell(f"attributes of other kinds / {leaf} / clean={clean} alias={alias}", f)

    for leaf in LEAVES:
        for clean in (True, False):
            for alias in (True, False):
                foreign(leaf, clean, alias)

    def shortened(fn, leaf, ctx):
        """The helpers that shorten a dictionary form keep what it describes."""
        def f(C):
            d, x = dict_leaves(C)[leaf]
            d, x = dict_contexts(C, d, x)[ctx]
            if fn == "clean twice":
                v = C.ok_value(C.run("recap.types:clean_dict", d), f"clean_dict({show(d)})")
                v = C.ok_value(C.run("recap.types:clean_dict", v), f"clean_dict({show(v)})")
            else:
                v = C.ok_value(C.run("recap.types:" + fn, d), f"{fn}({show(d)})")
            back = C.ok_value(C.run("recap.types:from_dict", v), f"from_dict({show(v)}), which {fn} made of {show(d)},")
            d, x = dict_leaves(C)[leaf]
            d, x = dict_contexts(C, d, x)[ctx]
            r = xdiff(C.I, expanded(C, back), expanded(C, C.ok_value(C.run("recap.types:from_dict", d), f"from_dict({show(d)})")))
            if r:
                C.fail(f"{fn} makes {show(v)} of {show(d)}: {r}")

        ck.cell(f"{fn} / {leaf} / {ctx}", f)

    for fn in ("clean_dict", "clean twice", "alias_dict"):
        for leaf in DLEAF:
            for ctx in DCTX:
                if ctx == "alias" and "reference" in leaf:
                    continue
                if ctx in ("optional", "optional with attributes", "optional field", "list of optional", "optional union") and leaf == "null":
                    continue
                if fn != "alias_dict" or ctx != "list as union":
                    shortened(fn, leaf, ctx)


# ------------------------------------------------------------------ C02: reading
def dict_leaves(C):
    """name -> (dictionary, expected type)"""
    bits = C.sym("bits", "int", lo=1, hi=2_147_483_647)
    n = C.sym("n", "int", lo=1, hi=9_223_372_036_854_775_807)
    sg = C.sym("signed", "bool")
    syms = [C.name("A"), C.name("B")]
    out = {
        "null": ({"type": "null"}, X("null")),
        "bool": ({"type": "bool"}, X("bool")),
        "int": ({"type": "int", "bits": bits}, X("int", bits=bits, signed=True)),
        "int signed": ({"type": "int", "bits": bits, "signed": sg}, X("int", bits=bits, signed=sg)),
        "float": ({"type": "float", "bits": bits}, X("float", bits=bits)),
        "enum": ({"type": "enum", "symbols": list(syms)}, X("enum", symbols=syms)),
        "reference": ({"type": SStr(["build.", C.name("al")])}, X("proxy", alias=SStr(["build.", C.name("al")]))),
        "built-in reference": ({"type": "decimal128", "precision": n}, X("proxy", alias="decimal128", precision=n)),
    }
    for t in ("string", "bytes"):
        out[t] = ({"type": t}, X(t, bytes_=None, variable=True))
        out[t + " sized"] = ({"type": t, "bytes": n}, X(t, bytes_=n, variable=True))
        out[t + " fixed"] = ({"type": t, "bytes": n, "variable": False}, X(t, bytes_=n, variable=False))
    return out


def dict_contexts(C, d, x):
    n = C.sym("len", "int", lo=1, hi=9_223_372_036_854_775_807)
    o, ox = {"type": "bool", "name": "g"}, X("bool", name="g")
    a, doc = C.name("fname"), C.sym("doc")
    dv = C.sym("dv", ("str", "int", "NoneType"))
    named = {**d, "name": a, "doc": doc, "my_attr": dv, "logical": "l"}
    nx = x.but(name=a, doc=doc, my_attr=dv, logical="l")
    out = {
        "alone": (d, x),
        "with attributes": (named, nx),
        "list": ({"type": "list", "values": d}, X("list", values=x)),
        "fixed list": ({"type": "list", "values": d, "length": n, "variable": False, "doc": doc}, X("list", values=x, length=n, variable=False, doc=doc)),
        "map key": ({"type": "map", "keys": d, "values": o}, X("map", keys=x, values=ox)),
        "map value": ({"type": "map", "keys": o, "values": d}, X("map", keys=ox, values=x)),
        "struct field": ({"type": "struct", "fields": [o, named]}, X("struct", fields=[ox, nx])),
        "union": ({"type": "union", "types": [o, d], "default": dv}, X("union", types=[ox, x], default=dv)),
        "list as union": ([o, d], X("union", types=[ox, x])),
        "type list as union": ({"type": [d, o], "doc": doc}, X("union", types=[x, ox], doc=doc)),
        "optional": ({**d, "optional": True}, X("union", types=[X("null"), x], default=None)),
        "optional false": ({**d, "optional": False}, x),
        "optional with attributes": ({**named, "optional": True, "default": dv}, X("union", types=[X("null"), x.but(my_attr=dv, logical="l")], default=dv, doc=doc, name=a)),
        "optional union": ({"type": "union", "types": [d, o], "optional": True, "name": a, "doc": doc}, X("union", types=[X("null"), x, ox], default=None, name=a, doc=doc)),
        "optional union with null": ({"type": "union", "types": ["null", d], "optional": True}, X("union", types=[X("null"), x], default=None)),
        "optional field": (
            {"type": "struct", "fields": [{**d, "name": a, "optional": True}, o]},
            X("struct", fields=[X("union", types=[X("null"), x], default=None, name=a), ox]),
        ),
        "list of optional": ({"type": "list", "values": {**d, "optional": True}}, X("list", values=X("union", types=[X("null"), x], default=None))),
        "alias": ({**d, "alias": "build.x"}, x.but(alias="build.x")),
    }
    return out


DCTX = [
    "alone", "with attributes", "list", "fixed list", "map key", "map value", "struct field", "union", "list as union", "type list as union",
    "optional", "optional false", "optional with attributes", "optional union", "optional union with null", "optional field",
    "list of optional", "alias",
]
DLEAF = [
    "null", "bool", "int", "int signed", "float", "enum", "reference", "built-in reference", "string", "string sized", "string fixed",
    "bytes", "bytes sized", "bytes fixed",
]


def bad_leaves(C):
    big = 2_147_483_647
    huge = 9_223_372_036_854_775_807
    lo = C.sym("low", "int", hi=0)
    hi = C.sym("high", "int", lo=big + 1)
    xhi = C.sym("xhigh", "int", lo=huge + 1)
    ok = C.sym("bits", "int", lo=1, hi=big)
    out = {
        "no type": {"bits": ok},
        "type None": {"type": None},
        "type number": {"type": C.sym("tn", "int", lo=2)},
        "type true": {"type": True},
        "type dict": {"type": {"type": "bool"}},
        "int without bits": {"type": "int"},
        "float without bits": {"type": "float"},
        "int bits low": {"type": "int", "bits": lo},
        "int bits high": {"type": "int", "bits": hi},
        "unsigned int bits high": {"type": "int", "bits": hi, "signed": False},
        "float bits low": {"type": "float", "bits": lo},
        "float bits high": {"type": "float", "bits": hi},
        "list without values": {"type": "list"},
        "list length low": {"type": "list", "values": "bool", "length": lo},
        "list length high": {"type": "list", "values": "bool", "length": xhi},
        "fixed list without length": {"type": "list", "values": "bool", "variable": False},
        "map without keys": {"type": "map", "values": "bool"},
        "map without values": {"type": "map", "keys": "bool"},
        "enum without symbols": {"type": "enum"},
        "union without types": {"type": "union"},
    }
    for t in ("string", "bytes"):
        out[t + " low"] = {"type": t, "bytes": lo}
        out[t + " high"] = {"type": t, "bytes": xhi}
        out["fixed " + t + " high"] = {"type": t, "bytes": xhi, "variable": False}
        out["fixed " + t + " without length"] = {"type": t, "variable": False}
    return out


BAD = [
    "no type", "type None", "type number", "type true", "type dict", "int without bits", "float without bits", "int bits low", "int bits high",
    "unsigned int bits high", "float bits low", "float bits high", "list without values", "list length low", "list length high",
    "fixed list without length", "map without keys", "map without values", "enum without symbols", "union without types",
] + [p for t in ("string", "bytes") for p in (t + " low", t + " high", "fixed " + t + " high", "fixed " + t + " without length")]


def reading(ck):
    ck.rule("from_dict(d) is the type that d describes, or raises if d lacks a required attribute or has one out of range")

    def good(leaf, ctx):
        def f(C):
            d, x = dict_leaves(C)[leaf]
            d, x = dict_contexts(C, d, x)[ctx]
            o = C.run("recap.types:from_dict", d)
            v = C.ok_value(o, f"from_dict({show(d)})")
            r = diff(C.I, v, x)
            if r:
                C.fail(f"from_dict({show(d)}): {r}")

        ck.cell(f"{leaf} / {ctx}", f)

    for leaf in DLEAF:
        for ctx in DCTX:
            if ctx == "alias" and "reference" in leaf:
                continue
            if ctx in ("optional", "optional with attributes", "optional field", "list of optional", "optional union") and leaf == "null":
                continue
            good(leaf, ctx)

    def short(C):
        for s in ("null", "bool", "string", "bytes"):
            v = C.ok_value(C.run("recap.types:from_dict", s), f"from_dict({s!r})")
            r = diff(C.I, v, X(s))
            if r:
                C.fail(f"from_dict({s!r}): {r}")
        s = SStr(["build.", C.name("al")])
        v = C.ok_value(C.run("recap.types:from_dict", s))
        r = diff(C.I, v, X("proxy", alias=s))
        if r:
            C.fail(f"from_dict({show(s)}): {r}")
        v = C.ok_value(C.run("recap.types:from_dict", {"type": "struct"}))
        r = diff(C.I, v, X("struct", fields=[]))
        if r:
            C.fail(f"struct without fields: {r}")
        for how, kw in (("no fields", {}), ("fields None", {"fields": None})):
            v = C.ok_value(C.run("recap.types:StructType", **kw), f"StructType with {how}")
            r = diff(C.I, v, X("struct", fields=[]))
            C.require(r is None, f"StructType with {how}: {r}")

    ck.cell("short forms", short)

    def boundary(t, key, attr, low, high):
        def f(C):
            v = C.sym("v", "int")
            d = {"type": t, key: v}
            if t == "list":
                d["values"] = "bool"
            o = C.run("recap.types:from_dict", d)
            lo, hi = C.I.range(v)
            c = C.I.canon(v)
            if not C.I.is_abs(c):
                lo = hi = c
            if o.raised:
                if (lo is None or lo <= high) and (hi is None or hi >= low):
                    C.fail(f"from_dict rejects {t} with {key} in {lo}..{hi}: {o!r}", o.site)
            elif lo is None or hi is None or lo < low or hi > high:
                C.fail(f"from_dict accepts {t} with {key} in {lo}..{hi}")
            else:
                r = leaf_eq(C.I, C.attr(o.value, attr), v)
                C.require(r, f"{t}.{attr} is {show(C.attr(o.value, attr))}")

        ck.cell(f"{t} range of {key}", f)

    boundary("int", "bits", "bits", 1, 2_147_483_647)
    boundary("float", "bits", "bits", 1, 2_147_483_647)
    boundary("string", "bytes", "bytes_", 1, 9_223_372_036_854_775_807)
    boundary("bytes", "bytes", "bytes_", 1, 9_223_372_036_854_775_807)
    boundary("list", "length", "length", 1, 9_223_372_036_854_775_807)

    def bad(leaf, ctx):
        def f(C):
            d = bad_leaves(C)[leaf]
            d, _ = dict_contexts(C, d, X("bool"))[ctx]
            o = C.run("recap.types:from_dict", d)
            if not o.raised:
                C.fail(f"from_dict({show(d)}) accepts an invalid type: {show(o.value)}")

        ck.cell(f"reject {leaf} / {ctx}", f)

    for leaf in BAD:
        for ctx in DCTX:
            bad(leaf, ctx)

    def registered(C):
        """An alias is known to the references that follow it in the same document."""
        n = C.sym("bits", "int", lo=1, hi=2_147_483_647)
        d = {"type": "struct", "fields": [{"type": "int", "bits": n, "alias": "build.x", "name": "a"}, {"type": "build.x", "name": "b", "doc": "hey"}]}
        v = C.ok_value(C.run("recap.types:from_dict", d))
        f = C.attr(v, "fields")[1]
        t = C.ok_value(C.meth(f, "resolve"), "resolve of a reference to a type of the same document")
        r = diff(C.I, t, X("int", bits=n, signed=True, name="b", doc="hey"))
        if r:
            C.fail(f"reference to an alias of the same document: {r}")

    ck.cell("references in one document", registered)

    def inner(form):
        """Wherever the alias and the reference stand."""
        def f(C):
            n = C.sym("bits", "int", lo=1, hi=2_147_483_647)
            d = {"type": "int", "bits": n, "alias": "build.x"}
            wraps = {
                "list of values": ({"type": "list", "values": d}, {"type": "list", "values": "build.x"}, lambda t: C.attr(t, "values")),
                "key of a map": ({"type": "map", "keys": d, "values": "bool"}, {"type": "map", "keys": "build.x", "values": "bool"}, lambda t: C.attr(t, "keys")),
                "value of a map": ({"type": "map", "keys": "string", "values": d}, {"type": "map", "keys": "string", "values": "build.x"}, lambda t: C.attr(t, "values")),
                "union": ({"type": "union", "types": ["null", d]}, {"type": "union", "types": ["null", "build.x"]}, lambda t: C.attr(t, "types")[1]),
                "list as union": (["null", d], ["null", "build.x"], lambda t: C.attr(t, "types")[1]),
                "type is a list": ({"type": ["null", d]}, {"type": ["null", "build.x"]}, lambda t: C.attr(t, "types")[1]),
                "struct": ({"type": "struct", "fields": [d]}, {"type": "struct", "fields": ["build.x"]}, lambda t: C.attr(t, "fields")[0]),
                "optional": ({**d, "optional": True}, {"type": "build.x", "optional": True}, lambda t: C.attr(t, "types")[1]),
            }
            de, re_, at = wraps[form]
            first, second, get = C.pick("where", [
                (de, {"type": "struct", "fields": ["build.x"]}, lambda t: C.attr(t, "fields")[0]),
                ({"type": "struct", "fields": [d]}, re_, at),
            ])
            v = C.ok_value(C.run("recap.types:from_dict", {"type": "struct", "fields": [first, second]}), f"from_dict with {show(first)}, then {show(second)}")
            p = get(C.attr(v, "fields")[1])
            t = C.ok_value(C.meth(p, "resolve"), f"resolving a reference in {show(second)} to an alias in {show(first)}")
            r = diff(C.I, t, X("int", bits=n, signed=True))
            if r:
                C.fail(f"reference to an alias of the same document: {r}")

        ck.cell(f"references in one document / {form}", f)

    for form in ("list of values", "key of a map", "value of a map", "union", "list as union", "type is a list", "struct", "optional"):
        inner(form)

    def dup(C):
        d = {"type": "struct", "fields": [{"type": "bool", "alias": "build.x"}, {"type": "int", "bits": 8, "alias": "build.x"}]}
        o = C.run("recap.types:from_dict", d)
        if not o.raised:
            C.fail("one alias is given to two types of a document")

    ck.cell("one alias twice", dup)


# ----------------------------------------------------------------- C03: equality
def equality(ck):
    ck.rule("two types are equal exactly when every attribute is equal at every level")

    def variants(C, x):
        """Types that differ from x in exactly one place."""
        out = []
        for k, v in x.attrs.items():
            if isinstance(v, X):
                out += [(f"{k}.{w}", x.but(**{k: y})) for w, y in variants(C, v)]
            elif isinstance(v, list) and v and isinstance(v[0], X):
                for i, e in enumerate(v):
                    out += [(f"{k}[{i}].{w}", x.but(**{k: v[:i] + [y] + v[i + 1 :]})) for w, y in variants(C, e)]
                out.append((f"{k} shorter", x.but(**{k: v[:-1]})))
                out.append((f"{k} repeated", x.but(**{k: [*v, v[-1]]})))
                if len(v) > 1:
                    out.append((f"{k} reversed", x.but(**{k: v[::-1]})))
            elif isinstance(v, list):
                out.append((f"{k} other", x.but(**{k: v[:-1] + [C.name("other")]})))
                out.append((f"{k} shorter", x.but(**{k: v[:-1]})))
                out.append((f"{k} longer", x.but(**{k: [*v, C.name("other")]})))
                out.append((f"{k} reversed", x.but(**{k: v[::-1]})))
                out.append((f"{k} repeated", x.but(**{k: [*v, v[-1]]})))
            elif isinstance(v, bool):
                out.append((k, x.but(**{k: not v})))
            elif k in ("bits", "bytes_", "length"):
                out.append((k, x.but(**{k: C.sym("other " + k, "int", lo=1)})))
            else:
                out.append((k, x.but(**{k: C.sym("other " + k)})))
        for k in ("doc", "logical", "alias", "name", "zzz"):
            if k not in x.attrs:
                out.append(("+" + k, x.but(**{k: C.sym("new " + k)})))
            elif k in ("name", "zzz"):
                y = X(x.type_, **{a: b for a, b in x.attrs.items() if a != k})
                out.append(("-" + k, y))
        return out

    def shapes(C):
        lf = leaves(C)
        base = {}
        for k, v in lf.items():
            if k in ("string", "bytes"):
                continue
            base[k] = v.but(signed=True) if k == "int" else v
        base["list"] = X("list", values=base["int"], length=C.sym("len", "int", lo=1), variable=False)
        base["map"] = X("map", keys=base["string-fixed"], values=base["float"])
        base["struct"] = X("struct", fields=[base["int"].but(name=C.name("a")), X("bool", name=C.name("b"))])
        base["union"] = X("union", types=[X("null"), base["int"]], default=C.sym("d"))
        base["nested"] = X("struct", fields=[X("list", values=X("map", keys=X("string"), values=base["struct"]), name=C.name("q"))])
        return base

    names = ["null", "bool", "int", "float", "string-fixed", "bytes-fixed", "enum", "list", "map", "struct", "union", "nested"]

    def reflexive(n):
        def f(C):
            x = shapes(C)[n].but(doc=C.sym("doc"), logical=C.sym("lg"), alias="build.x", name=C.name("nm"), zzz=C.sym("z"))
            a, b = build(C, x), build(C, x)
            C.require(C.I.eq(a, b), f"two equal {n} types compare unequal: {show(a)}")

        ck.cell(f"{n} equals its copy", f)

        def g(C):
            t = build(C, shapes(C)[n])
            for other in (None, "x", 1, {}, [], (), 2.5, True, C.sym("anything"), C.get("recap.types:RecapType")):
                for p, q in ((t, other), (other, t)):
                    try:
                        r = C.I.eq(p, q)
                    except PyExc as e:
                        C.fail(f"comparing a {n} type with {show(other)}: {e}", e.site)
                    C.require(not r, f"a {n} type equals {show(other)}")

        ck.cell(f"{n} differs from other values", g)

    def differs(n):
        labels = []

        def collect(C):
            labels.extend(w for w, _ in variants(C, shapes(C)[n]))

        collect(Cell(ck, "x"))
        for i, w in enumerate(labels):
            def f(C, i=i, w=w):
                x = shapes(C)[n]
                y = variants(C, x)[i][1]
                a, b = build(C, x), build(C, y)
                if C.I.eq(a, b) or C.I.eq(b, a):
                    C.fail(f"types that differ in {w} compare equal: {show(a)} and {show(b)}")

            ck.cell(f"{n} differing in {w}", f)

    def classes(C):
        sh = shapes(C)
        for i, p in enumerate(names):
            for q in names[i + 1 :]:
                if sh[p].type_ == sh[q].type_:
                    continue
                try:
                    r = C.I.eq(build(C, sh[p]), build(C, sh[q]))
                except PyExc as e:
                    C.fail(f"comparing {p} and {q} types: {e}", e.site)
                if r:
                    C.fail(f"{p} and {q} types compare equal")

    from ..spec import Cell

    for n in names:
        reflexive(n)
        differs(n)
    ck.cell("types of different classes", classes)

    def proxies_(C):
        reg = C.new("recap.types:RecapTypeRegistry")
        P = lambda al, **kw: C.new("recap.types:ProxyType", al, reg, **kw)
        a, b = C.name("a1"), C.name("b1")
        C.require(C.I.eq(P(a, name=b), P(a, name=b)), "equal references compare unequal")
        C.require(not C.I.eq(P(a), P(b)), "references to different aliases compare equal")
        C.require(not C.I.eq(P(a), P(a, doc=C.sym("doc"))), "references with different docs compare equal")
        C.require(not C.I.eq(P(a), P(a, name=b)), "references with different attributes compare equal")
        t = build(C, X("int", bits=C.sym("bits", "int", lo=1, hi=64), alias="build.x"))
        C.ok_value(C.meth(reg, "register_alias", t), "register_alias")
        p, q = P("build.x"), P("build.x")
        C.ok_value(C.meth(p, "resolve"), "resolve")
        C.require(C.I.eq(p, q) and C.I.eq(q, p), "a reference that was resolved does not equal one that was not")
        for other in (None, "x", a, {}, C.new("recap.types:BoolType")):
            try:
                r = C.I.eq(P(a), other) or C.I.eq(other, P(a))
            except PyExc as e:
                C.fail(f"comparing a reference with {show(other)}: {e}", e.site)
            C.require(not r, f"a reference equals {show(other)}")

    ck.cell("references", proxies_)


# ------------------------------------------------------------------ C04: aliases
GOOD_ALIASES = ["a.b", "build.recap.X", "_a._b", "A1.B2_c", "a.b.c.d.e"]
BAD_ALIASES = ["", "a", "abc", "a.", ".a", "a..b", "1a.b", "a.1b", "a-b.c", "a.b c", "a.b\n", " a.b", "a/b.c", "a.b.", "int 32.x", "é.b"]


def aliases(ck):
    ck.rule("a registry maps each alias to one immutable definition; definitions carry no alias, doc or default; built-ins are fixed")

    def store(leaf, attrs):
        def f(C):
            x = leaves(C)[leaf].but(**{**attr_sets(C)[attrs], "alias": "build.x"})
            reg = C.new("recap.types:RecapTypeRegistry")
            t = build(C, x)
            before = snapshot(C.I, t)
            C.ok_value(C.meth(reg, "register_alias", t), "register_alias")
            C.require(snapshot(C.I, t) == before, f"register_alias modified the type: {show(t)}")
            got = C.ok_value(C.meth(reg, "from_alias", "build.x"), "from_alias")
            y = {k: v for k, v in x.attrs.items() if k not in ("alias", "doc", "default")}
            r = diff(C.I, got, X(x.type_, **y))
            if r:
                C.fail(f"definition of an alias: {r}")
            C.require(not (set(insts(got)) & set(insts(t))), "the registry keeps the caller's object")

        ck.cell(f"definition / {leaf} / {attrs}", f)

    for leaf in LEAVES:
        for attrs in ATTRS:
            if attrs != "alias":
                store(leaf, attrs)

    def nested(C):
        """Later changes to nested parts of the registered type do not reach the registry."""
        inner = build(C, X("struct", fields=[X("int", bits=C.sym("bits", "int"), name="a")], alias="build.x"))
        reg = C.new("recap.types:RecapTypeRegistry")
        C.ok_value(C.meth(reg, "register_alias", inner))
        got = C.ok_value(C.meth(reg, "from_alias", "build.x"))
        C.require(C.attr(got, "fields") is not C.attr(inner, "fields"), "the registry shares the fields of the caller's type")
        C.require(not (set(insts(got)) & set(insts(inner))), "the registry shares parts of the caller's type")

    ck.cell("definition is a deep copy", nested)

    def twice(C):
        reg = C.new("recap.types:RecapTypeRegistry")
        al = SStr(["build.", C.name("al")])
        a = build(C, X("int", bits=8, alias=al))
        b = build(C, X("bool", alias=al))
        C.ok_value(C.meth(reg, "register_alias", a))
        o = C.meth(reg, "register_alias", b)
        got = C.ok_value(C.meth(reg, "from_alias", al))
        if not o.raised:
            C.fail("an alias was registered twice")
        r = diff(C.I, got, X("int", bits=8, signed=True))
        if r:
            C.fail(f"a rejected registration changed the definition: {r}")
        C.require(o.is_a("ValueError"), f"registering an alias twice {o!r}", o.site)

    ck.cell("alias registered twice", twice)

    def fixed(name):
        def f(C):
            reg = C.new("recap.types:RecapTypeRegistry")
            o = C.meth(reg, "register_alias", build(C, X("bool", alias=name)))
            C.require(o.raised, f"the built-in alias {name} can be redefined")
            got = C.ok_value(C.meth(reg, "from_alias", name), f"from_alias({name!r})")
            r = diff(C.I, got, BUILTIN[name])
            if r:
                C.fail(f"built-in alias {name}: {r}")

        ck.cell(f"built-in {name}", f)

    for n in BUILTIN:
        fixed(n)

    def names(C):
        reg = C.new("recap.types:RecapTypeRegistry")
        for a in GOOD_ALIASES:
            o = C.meth(reg, "register_alias", build(C, X("bool", alias=a)))
            C.require(not o.raised, f"alias {a!r} is rejected: {o!r}", o.site)
        for a in BAD_ALIASES:
            o = C.meth(reg, "register_alias", build(C, X("bool", alias=a)))
            C.require(o.raised, f"alias {a!r} is accepted")
            o = C.meth(reg, "from_alias", a)
            C.require(o.raised, f"rejected alias {a!r} is registered")

    ck.cell("well-formed aliases", names)

    def described(C):
        """The same aliases in a dictionary form, on every kind of type, alone and within another."""
        d, x = dict_leaves(C)[C.pick("type", [n for n in DLEAF if "reference" not in n])]
        inside = C.pick("within", [False, True])
        for a in [*GOOD_ALIASES, *BAD_ALIASES, *list(BUILTIN)[:3]]:
            reg = C.new("recap.types:RecapTypeRegistry")
            e = {**d, "alias": a}
            o = C.run("recap.types:from_dict", {"type": "list", "values": e} if inside else e, reg)
            if a in GOOD_ALIASES:
                C.ok_value(o, f"from_dict({show(e)})")
                got = C.ok_value(C.meth(reg, "from_alias", a), f"alias {a!r} of a dictionary form")
                C.require(C.attr(got, "type_") == x.type_, f"alias {a!r} of {show(e)} is {show(got)}")
            else:
                C.require(o.raised, f"from_dict({show(e)}) accepts the alias {a!r}")

    ck.cell("aliases of dictionary forms", described)

    def unknown(C):
        reg = C.new("recap.types:RecapTypeRegistry")
        a = SStr(["build.", C.name("al")])
        o = C.meth(reg, "from_alias", a)
        C.require(o.is_a("TypeError"), f"an unknown alias {o!r}", o.site)
        o = C.meth(reg, "register_alias", build(C, X("bool")))
        C.require(o.is_a("ValueError"), f"registering a type without alias {o!r}", o.site)

    ck.cell("unknown aliases", unknown)

    def isolated(C):
        a, b = C.new("recap.types:RecapTypeRegistry"), C.new("recap.types:RecapTypeRegistry")
        C.ok_value(C.meth(a, "register_alias", build(C, X("bool", alias="build.x"))))
        C.require(C.meth(b, "from_alias", "build.x").raised, "a registration is visible in another registry")
        c = C.new("recap.types:RecapTypeRegistry")
        C.require(C.meth(c, "from_alias", "build.x").raised, "a registration is visible in a later registry")
        for n in BUILTIN:
            p = C.ok_value(C.meth(a, "from_alias", n))
            q = C.ok_value(C.meth(b, "from_alias", n))
            C.require(p is not q, f"registries share the definition of {n}")

    ck.cell("registries are independent", isolated)

    def through(C):
        """from_dict registers aliases in the registry it is given, at every level."""
        reg = C.new("recap.types:RecapTypeRegistry")
        n = C.sym("bits", "int", lo=1, hi=2_147_483_647)
        d = {
            "type": "struct",
            "alias": "build.top",
            "fields": [
                {"type": "list", "values": {"type": "int", "bits": n, "alias": "build.v"}},
                {"type": "map", "keys": {"type": "int", "bits": n, "alias": "build.k"}, "values": {"type": "bool", "alias": "build.m"}},
                {"type": "union", "types": ["null", {"type": "enum", "symbols": ["A"], "alias": "build.u"}]},
                {"type": "int", "bits": n, "alias": "build.o", "optional": True},
            ],
        }
        C.ok_value(C.run("recap.types:from_dict", d, reg))
        for a, t in (("build.v", "int"), ("build.k", "int"), ("build.m", "bool"), ("build.u", "enum"), ("build.o", "int"), ("build.top", "struct")):
            v = C.ok_value(C.meth(reg, "from_alias", a), f"alias {a} of a nested type")
            C.require(C.attr(v, "type_") == t, f"alias {a} is {show(v)}")

    ck.cell("aliases of nested types", through)


# ----------------------------------------------------------------- C05: nullable
def nullable(ck):
    ck.rule("make_nullable() is a union of null and the type; doc, default and field name move to the union; other attributes stay")

    def one(leaf, attrs):
        def f(C):
            x = shape(C, leaf, attrs, "alone")
            t = build(C, x)
            v = C.ok_value(C.meth(t, "make_nullable"), "make_nullable")
            rest = {k: a for k, a in x.attrs.items() if k not in ("doc", "default", "name")}
            up = {"default": x.attrs.get("default"), "doc": x.attrs.get("doc")}
            if "name" in x.attrs:
                up["name"] = x.attrs["name"]
            if leaf == "null":
                want = X("union", types=[X("null", **rest)], **up)
            else:
                want = X("union", types=[X("null"), X(x.type_, **rest)], **up)
            r = diff(C.I, v, want)
            if r:
                C.fail(f"{show(t)}.make_nullable(): {r}")
            C.require(C.I.truth(C.ok_value(C.meth(v, "is_nullable"))), "the result is not nullable")

        ck.cell(f"{leaf} / {attrs}", f)

    for leaf in LEAVES:
        for attrs in ATTRS:
            one(leaf, attrs)

    def anyname(C):
        x = leaves(C)[C.pick("type", LEAVES[1:])].but(name=C.sym("any name", ("str", "NoneType")), default=C.sym("d", ("str", "int", "float", "list", "dict", "NoneType")), doc=C.sym("any doc", ("str", "NoneType")))
        v = C.ok_value(C.meth(build(C, x), "make_nullable"), "make_nullable")
        up = ("doc", "default", "name")
        want = X("union", types=[X("null"), X(x.type_, **{k: a for k, a in x.attrs.items() if k not in up})], **{k: x.attrs[k] for k in up})
        r = diff(C.I, v, want)
        if r:
            C.fail(f"{x!r}.make_nullable(): {r}")

    ck.cell("any name, doc and default", anyname)

    def nested(C):
        lf = leaves(C)
        t = C.pick("type", [
            X("list", values=lf["int"], length=C.sym("len", "int", lo=1), variable=False, doc=C.sym("doc"), name=C.name("a")),
            X("map", keys=lf["string-fixed"], values=lf["int"], default=C.sym("d")),
            X("struct", fields=[lf["int"].but(name=C.name("b"), doc=C.sym("doc2"), default=C.sym("d2"))], alias="build.x", doc=C.sym("doc")),
        ])
        v = C.ok_value(C.meth(build(C, t), "make_nullable"))
        up = {"default": t.attrs.get("default"), "doc": t.attrs.get("doc")}
        if "name" in t.attrs:
            up["name"] = t.attrs["name"]
        want = X("union", types=[X("null"), X(t.type_, **{k: a for k, a in t.attrs.items() if k not in ("doc", "default", "name")})], **up)
        r = diff(C.I, v, want)
        if r:
            C.fail(f"make_nullable of a {t.type_}: {r}")

    ck.cell("containers", nested)

    def union(kind):
        def f(C):
            lf = leaves(C)
            mem = {"plain": [lf["int"], X("bool")], "null first": [X("null"), lf["int"]], "null last": [lf["int"], X("null")], "null with doc": [lf["int"], X("null", doc=C.sym("nd"))]}[kind]
            attrs = C.pick("attributes", [{}, {"default": C.sym("d", ("str", "int", "NoneType"))}, {"doc": C.sym("doc"), "name": C.name("a"), "alias": "build.x", "logical": C.sym("l"), "zzz": C.sym("z"), "default": C.sym("d2")}])
            x = X("union", types=mem, **attrs)
            t = build(C, x)
            v = C.ok_value(C.meth(t, "make_nullable"), "make_nullable")
            want = x.but(types=([] if "null" in kind else [X("null")]) + mem, default=attrs.get("default"))
            r = diff(C.I, v, want)
            if r:
                C.fail(f"{show(t)}.make_nullable(): {r}")
            n = C.ok_value(C.meth(v, "make_nullable"), "make_nullable")
            r = diff(C.I, n, want)
            if r:
                C.fail(f"make_nullable() twice: {r}")

        ck.cell(f"union {kind}", f)

    for k in ("plain", "null first", "null last", "null with doc"):
        union(k)

    def isnull(C):
        lf = leaves(C)
        for x, w in (
            (lf["int"], False), (X("null"), True), (X("null", doc=C.sym("d")), True), (X("union", types=[lf["int"], X("bool")]), False),
            (X("union", types=[lf["int"], X("null")]), True), (X("union", types=[X("null", zzz=C.sym("z")), lf["int"]]), True),
            (X("list", values=X("null")), False), (X("struct", fields=[X("null")]), False), (X("union", types=[]), False),
        ):
            v = C.ok_value(C.meth(build(C, x), "is_nullable"), "is_nullable")
            C.require(C.I.truth(v) == w, f"{x!r}.is_nullable() is {not w}")

    ck.cell("is_nullable", isnull)

    def isopt(C):
        i = leaves(C)["int"]
        for x, w in (
            (X("union", types=[X("null"), i], default=None), True), (X("union", types=[i, X("null")], default=None), True),
            (X("union", types=[X("null"), i]), False), (X("union", types=[X("null"), i, X("bool")], default=None), False),
            (X("union", types=[i], default=None), False), (X("union", types=[X("null")], default=None), False),
            (X("union", types=[X("null"), i], default=C.sym("d", ("str", "int", "bool", "NoneType"))), True),
            (X("union", types=[X("null"), X("null")], default=None), False), (X("union", types=[X("null"), i, i], default=None), False),
            (X("union", types=[i, X("bool")], default=None), False), (X("union", types=[], default=None), False),
            (X("union", types=[X("null"), i], default=None, doc=C.sym("doc"), alias="build.x", logical=C.sym("lg"), name=C.name("nm"), zzz=C.sym("z")), True),
            (X("union", types=[X("null"), X("union", types=[X("null"), i], default=None)], default=None), True),
            (X("union", types=[X("null"), X("list", values=i)], default=None), True),
        ):
            v = C.attr(build(C, x), "is_optional")
            C.require(C.I.truth(v) == w, f"{x!r}.is_optional is {not w}")

    ck.cell("is_optional", isopt)


# ------------------------------------------------------------ C06: inputs are kept
def inputs_kept(ck):
    ck.rule("no operation on a type or dictionary modifies its argument")

    def op(name, call):
        def mkf(leaf, attrs, ctx):
            def f(C):
                t = build(C, shape(C, leaf, attrs, ctx))
                before = snapshot(C.I, t)
                b4 = show(t)
                call(C, t)
                if snapshot(C.I, t) != before:
                    C.fail(f"{name} changed its input from {b4} to {show(t)}")

            return f

        for leaf in LEAVES:
            for ctx in CTX:
                for attrs in ATTRS if ck.thorough else ("all",):
                    ck.cell(f"{name} / {leaf} / {attrs} / {ctx}", mkf(leaf, attrs, ctx))

    def nullable_(C, t):
        v = C.ok_value(C.meth(t, "make_nullable"))
        if C.attr(t, "type_") == "union":
            C.require(C.attr(v, "types") is not C.attr(t, "types"), "make_nullable() returns a union that shares its list of types")
        C.require(C.attr(v, "extra_attrs") is not C.attr(t, "extra_attrs"), "make_nullable() shares extra_attrs")

    op("make_nullable", nullable_)
    op("to_dict", lambda C, t: C.run("recap.types:to_dict", t, clean=C.pick("clean", [True, False]), alias=C.pick("alias", [True, False])))

    def misc(C, t):
        C.meth(t, "is_nullable")
        C.meth(t, "validate")
        C.I.eq(t, build(C, X("union", types=[X("null"), X("bool")], default=None)))
        if C.attr(t, "type_") == "union":
            C.attr(t, "is_optional")

    op("queries", misc)

    def rd(leaf, ctx):
        def f(C):
            d, x = dict_leaves(C)[leaf]
            d, x = dict_contexts(C, d, x)[ctx]
            before, b4 = snapshot(C.I, d), show(d)
            C.run("recap.types:from_dict", d)
            if snapshot(C.I, d) != before:
                C.fail(f"from_dict changed its input from {b4} to {show(d)}")

        ck.cell(f"from_dict / {leaf} / {ctx}", f)

    for leaf in DLEAF:
        for ctx in DCTX:
            rd(leaf, ctx)

    from .writers import WRITERS

    def writer(fmt):
        def mkf(leaf, ctx):
            def f(C):
                inner = shape(C, leaf, "plain", ctx)
                nm = {"name": C.name("f1")}
                t = build(C, X("struct", fields=[inner.but(**nm), X("bool", name=C.name("f2"), doc=C.sym("doc2"))], alias="build.recap.Top", name="Top", doc=C.sym("doc")))
                before, b4 = snapshot(C.I, t), show(t)
                WRITERS[fmt](C, t)
                if snapshot(C.I, t) != before:
                    C.fail(f"the {fmt} writer changed its input from {b4} to {show(t)}")

            return f

        for leaf in LEAVES:
            for ctx in CTX:
                ck.cell(f"{fmt} writer / {leaf} / {ctx}", mkf(leaf, ctx))

    for fmt in WRITERS:
        writer(fmt)


# ------------------------------------------------------------------- C07: proxies
def proxies(ck):
    ck.rule("a reference resolves to a copy of the definition with the reference's attributes on top; the definition is unchanged")

    def over(C):
        return {
            "none": ({}, {}),
            "name": ({"name": C.name("nm")},) * 2,
            "doc": ({"doc": C.sym("doc")},) * 2,
            "default": ({"default": C.sym("d", ("str", "int", "NoneType"))},) * 2,
            "custom": ({"zzz": C.sym("z")},) * 2,
            "all": ({"name": C.name("nm"), "doc": C.sym("doc"), "default": C.sym("d"), "zzz": C.sym("z"), "unit": C.sym("u"), "logical": C.sym("l")},) * 2,
        }

    def one(leaf, o):
        def f(C):
            x = leaves(C)[leaf].but(zzz=C.sym("old"), unit=C.sym("oldu"))
            reg = C.new("recap.types:RecapTypeRegistry")
            C.ok_value(C.meth(reg, "register_alias", build(C, x.but(alias="build.x", doc=C.sym("olddoc")))))
            before = snapshot(C.I, C.ok_value(C.meth(reg, "from_alias", "build.x")))
            kw, want = over(C)[o]
            p = C.new("recap.types:ProxyType", "build.x", reg, **kw)
            ps = snapshot(C.I, p)
            v = C.ok_value(C.meth(p, "resolve"), "resolve")
            r = diff(C.I, v, x.but(**want))
            if r:
                C.fail(f"resolve of a reference with {sorted(kw)}: {r}")
            w = C.ok_value(C.meth(p, "resolve"), "second resolve")
            r = diff(C.I, w, x.but(**want))
            if r:
                C.fail(f"second resolve: {r}")
            d = C.ok_value(C.meth(reg, "from_alias", "build.x"))
            C.require(snapshot(C.I, d) == before, f"resolving changed the definition: {show(d)}")
            C.require(not set(insts(v)) & set(insts(d)), "the resolved type is the registry's own object")
            C.require(snapshot(C.I, p) == ps, f"resolving changed the reference: {show(p)}")
            q = C.new("recap.types:ProxyType", "build.x", reg)
            r = diff(C.I, C.ok_value(C.meth(q, "resolve")), x)
            if r:
                C.fail(f"another reference to the same alias: {r}")

        ck.cell(f"{leaf} / {o}", f)

    for leaf in LEAVES:
        for o in ("none", "name", "doc", "default", "custom", "all"):
            one(leaf, o)

    # key of a type dictionary -> attribute
    OVER = {"int": ("bits", "signed"), "float": ("bits",), "string": ("bytes", "variable"), "bytes": ("bytes", "variable")}

    def builtin(n, k):
        def f(C):
            w = C.sym("w", "bool") if k in ("signed", "variable") else C.sym("w", "int", lo=1)
            v = C.ok_value(C.run("recap.types:from_dict", {"type": n, "name": "x", k: w}))
            want = BUILTIN[n].but(name="x", **{"bytes_" if k == "bytes" else k: w})
            for go in ("resolve", "second resolve"):
                r = diff(C.I, C.ok_value(C.meth(v, "resolve"), go), want)
                if r:
                    C.fail(f"{go} of a reference to {n} with its own {k}: {r}")

        ck.cell(f"built-in {n} with its own {k}", f)

    for n in BUILTIN:
        for k in OVER[BUILTIN[n].type_]:
            builtin(n, k)

    def own(key, attr, base):
        """The same for a definition of the document, in the document's own spelling."""
        def f(C):
            reg = C.new("recap.types:RecapTypeRegistry")
            C.ok_value(C.meth(reg, "register_alias", build(C, base.but(alias="build.x"))))
            w = C.sym("w", "bool") if key in ("signed", "variable") else C.sym("w", "int", lo=1)
            v = C.ok_value(C.run("recap.types:from_dict", {"type": "build.x", key: w}, reg), "reference with an attribute")
            r = diff(C.I, C.ok_value(C.meth(v, "resolve")), base.but(**{attr: w}))
            if r:
                C.fail(f"a reference to a {base.type_} with its own {key}: {r}")
            d = C.ok_value(C.run("recap.types:to_dict", v), "to_dict of the reference")
            h = C.I.dget(d, key) if isinstance(d, dict) else None
            C.require(h and leaf_eq(C.I, h[0], w), f"to_dict of a reference with its own {key} gives {show(d)}")

        ck.cell(f"{base.type_} definition, reference with {key}", f)

    for key, attr, base in (
        ("bits", "bits", X("int", bits=8, signed=True)), ("signed", "signed", X("int", bits=8, signed=True)),
        ("bits", "bits", X("float", bits=32)),
        ("bytes", "bytes_", X("string", bytes_=7, variable=True)), ("variable", "variable", X("string", bytes_=7, variable=True)),
        ("bytes", "bytes_", X("bytes", bytes_=7, variable=True)), ("variable", "variable", X("bytes", bytes_=7, variable=True)),
        ("bytes", "bytes", X("int", bits=8, signed=True)),
    ):
        own(key, attr, base)

    def late(C):
        """A reference made before its alias is registered resolves afterwards; also in copies."""
        reg = C.new("recap.types:RecapTypeRegistry")
        p = C.new("recap.types:ProxyType", "build.x", reg)
        st = build(C, X("struct", fields=[X("list", values=X("bool"))], alias="build.s"))
        C.attr(st, "fields").append(p)
        C.ok_value(C.meth(reg, "register_alias", st))
        n = C.sym("bits", "int", lo=1)
        C.ok_value(C.meth(reg, "register_alias", build(C, X("int", bits=n, alias="build.x"))))
        r = diff(C.I, C.ok_value(C.meth(p, "resolve"), "resolve of an early reference"), X("int", bits=n, signed=True))
        if r:
            C.fail(f"early reference: {r}")
        q = C.new("recap.types:ProxyType", "build.s", reg)
        s = C.ok_value(C.meth(q, "resolve"))
        inner = C.attr(s, "fields")[1]
        r = diff(C.I, C.ok_value(C.meth(inner, "resolve"), "resolve of a reference inside a resolved type"), X("int", bits=n, signed=True))
        if r:
            C.fail(f"reference inside a resolved type: {r}")

    ck.cell("references made early", late)

    def selfref(C):
        d = {"type": "struct", "alias": "build.node", "fields": [{"type": "int32", "name": "v"}, {"type": "build.node", "name": "next", "optional": True}]}
        t = C.ok_value(C.run("recap.types:from_dict", d), "self-referencing document")
        nx = C.attr(t, "fields")[1]
        p = C.attr(nx, "types")[1]
        v = C.ok_value(C.meth(p, "resolve"), "resolve of a self reference")
        C.require(C.attr(v, "type_") == "struct" and len(C.attr(v, "fields")) == 2, f"self reference resolves to {show(v)}")
        p2 = C.attr(C.attr(v, "fields")[1], "types")[1]
        v2 = C.ok_value(C.meth(p2, "resolve"), "second-level self reference")
        C.require(C.attr(v2, "type_") == "struct", f"second-level self reference is {show(v2)}")

    ck.cell("self reference", selfref)

    def unknown(C):
        reg = C.new("recap.types:RecapTypeRegistry")
        o = C.meth(C.new("recap.types:ProxyType", "build.x", reg), "resolve")
        C.require(o.is_a("TypeError"), f"a reference to an unknown alias {o!r}", o.site)

    ck.cell("unknown alias", unknown)


# ------------------------------------------------------------- C09: alias names
def type_positions(C, v):
    """The types that a dictionary form has, outermost first."""
    v = C.I.canon(v)
    out = [v]
    if isinstance(v, list):
        for x in v:
            out += type_positions(C, x)
    elif isinstance(v, dict):
        for k in ("values", "keys"):
            if h := C.I.dget(v, k):
                out += type_positions(C, h[0])
        for k in ("fields", "types"):
            h = C.I.dget(v, k)
            for x in C.I.canon(h[0]) if h else []:
                out += type_positions(C, x)
        h = C.I.dget(v, "type")
        if h and isinstance(C.I.canon(h[0]), list):
            out += type_positions(C, h[0])[1:]
    return out


def named(C, v, n):
    """How many parts of a dictionary form are the alias of that name."""
    c = 0
    for x in type_positions(C, v):
        if isinstance(x, dict):
            h = C.I.dget(x, "type")
            x = h[0] if h else None
        c += isinstance(x, (str, SStr)) and leaf_eq(C.I, x, n)
    return c


def alias_names(ck):
    ck.rule("every part of a dictionary form that an alias stands for is written by the name of the alias, and no other part is")

    def builtin(name, ctx, clean):
        def f(C):
            t = build(C, contexts(C, BUILTIN[name])[ctx])
            v = C.ok_value(C.run("recap.types:to_dict", t, clean=clean, alias=True), f"to_dict({show(t)})")
            want = 1
            C.require(named(C, v, name) == want, f"to_dict({show(t)}) does not use the alias {name}: {show(v)}")
            v = C.ok_value(C.run("recap.types:to_dict", t, clean=clean, alias=False), f"to_dict({show(t)})")
            C.require(named(C, v, name) == 0, f"to_dict({show(t)}, alias=False) uses the alias {name}: {show(v)}")

        ck.cell(f"{name} / {ctx} / clean={clean}", f)

    for n in BUILTIN:
        for ctx in CTX:
            for clean in (True, False):
                builtin(n, ctx, clean)

    def kept(name, attrs, clean):
        """A type that has more to say than the alias is not written as the alias alone."""
        def f(C):
            more = attr_sets(C)[attrs]
            if "logical" in more:
                more["logical"] = "my.Logical"
            t = build(C, X("struct", fields=[BUILTIN[name].but(**more)]))
            v = C.ok_value(C.run("recap.types:to_dict", t, clean=clean, alias=True), f"to_dict({show(t)})")
            field = type_positions(C, v)[1]
            C.require(isinstance(field, dict), f"to_dict({show(t)}) loses {', '.join(more)}: {show(v)}")
            for k, w in more.items():
                h = C.I.dget(field, k)
                if k == "default" and h is None and C.I.truth(C.I.eq(w, None)):
                    continue  # the same as no default
                C.require(h and leaf_eq(C.I, h[0], w), f"to_dict({show(t)}) loses {k}: {show(v)}")

        ck.cell(f"{name} with {attrs} / clean={clean}", f)

    for n in BUILTIN:
        for attrs in ATTRS:
            if attrs != "plain" and (ck.thorough or n in ("int32", "string64", "uuid", "decimal128")):
                for clean in (True, False):
                    kept(n, attrs, clean)

    def own(kind, ctx):
        """alias_dict with a registry that has aliases of its own."""
        def f(C):
            m = C.sym("m", "int", lo=1, hi=9_223_372_036_854_775_807)
            d = lambda: {
                "struct": {"type": "struct", "fields": [{"type": "bool", "name": "a"}, {"type": "string", "bytes": m, "name": "b"}]},
                "enum": {"type": "enum", "symbols": ["A", "B"]},
                "int": {"type": "int", "bits": 24, "signed": False},
                "list": {"type": "list", "values": {"type": "int", "bits": 24}},
                "map": {"type": "map", "keys": {"type": "string"}, "values": {"type": "int", "bits": 24}},
                "union": {"type": "union", "types": [{"type": "null"}, {"type": "int", "bits": 24}]},
                "text": {"type": "string", "bytes": m, "variable": False, "logical": "build.Code"},
            }[kind]
            o = {"type": "float", "bits": 24}
            doc = C.sym("doc")
            nest = {
                "alone": lambda d: d,
                "list": lambda d: {"type": "list", "values": d},
                "fixed list": lambda d: {"type": "list", "values": d, "length": m, "variable": False},
                "map key": lambda d: {"type": "map", "keys": d, "values": dict(o)},
                "map value": lambda d: {"type": "map", "keys": dict(o), "values": d},
                "struct field": lambda d: {"type": "struct", "fields": [dict(o), d], "doc": doc},
                "union": lambda d: {"type": "union", "types": [dict(o), "null", d]},
                "list of lists": lambda d: {"type": "list", "values": {"type": "list", "values": d}},
                "struct in map in struct": lambda d: {"type": "struct", "fields": [{"type": "map", "keys": {"type": "string"}, "values": {"type": "struct", "fields": [d], "name": "s"}}]},
                "union in union": lambda d: {"type": "union", "types": [{"type": "union", "types": [d, "null"]}, "null"]},
            }[ctx]
            al = SStr(["build.", C.name("al")])
            reg = C.new("recap.types:RecapTypeRegistry")
            t = C.ok_value(C.run("recap.types:from_dict", {**d(), "alias": al}, reg), f"from_dict of a {kind}")
            C.require(not C.meth(reg, "from_alias", al).raised, "the alias is not registered")
            whole = nest(d())
            v = C.ok_value(C.run("recap.types:alias_dict", whole, reg), f"alias_dict({show(nest(d()))})")
            C.require(named(C, v, al) == 1, f"alias_dict({show(nest(d()))}) does not use the alias of the {kind}: {show(v)}")
            back = C.ok_value(C.run("recap.types:from_dict", v, reg), f"from_dict({show(v)})")
            other = C.new("recap.types:RecapTypeRegistry")
            v = C.ok_value(C.run("recap.types:alias_dict", nest(d()), other), f"alias_dict({show(nest(d()))})")
            C.require(named(C, v, al) == 0, f"alias_dict uses the alias of another registry: {show(v)}")
            v = C.ok_value(C.run("recap.types:alias_dict", nest(d())), f"alias_dict({show(nest(d()))})")
            C.require(named(C, v, al) == 0, f"alias_dict uses the alias of another registry: {show(v)}")
            if kind != "union":
                df = nest({**d(), "alias": "build.defined"})
                v = C.ok_value(C.run("recap.types:alias_dict", df, reg), f"alias_dict({show(df)})")
                C.require(named(C, v, al) == 0, f"alias_dict replaces a type that defines an alias: {show(v)}")
                C.require(C.meth(reg, "from_alias", "build.defined").raised, "alias_dict registers the aliases that it meets")

        ck.cell(f"registered {kind} / {ctx}", f)

    for kind in ("struct", "enum", "int", "list", "map", "union", "text"):
        for ctx in ("alone", "list", "fixed list", "map key", "map value", "struct field", "union", "list of lists", "struct in map in struct", "union in union"):
            own(kind, ctx)
