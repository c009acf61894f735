"""Properties of the schema writers (Recap to Avro, JSON schema, Protobuf)."""
from __future__ import annotations

from .common import *

MAX64 = 9_223_372_036_854_775_807


def avro_writer(C, t):
    return C.meth(C.new("recap.converters.avro:AvroConverter"), "from_recap", t)


def json_writer(C, t):
    return C.meth(C.new("recap.converters.json_schema:JSONSchemaConverter"), "from_recap", t)


def proto_writer(C, t):
    return C.meth(C.new("recap.converters.protobuf:ProtobufConverter"), "from_recap", t)


WRITERS = {"Avro": avro_writer, "JSON schema": json_writer, "Protobuf": proto_writer}


class Refuse(Exception):
    """The format cannot express the type: the writer must raise."""


def le(C, a, b):
    return C.I.compare("<=", a, b)


def isnone(C, a):
    return C.I.is_none(a)


# --------------------------------------------------------------------- Avro (C11)
def canon_avro(v):
    if isinstance(v, (str, SStr, Sym, App)):
        return {"type": v}
    if isinstance(v, list):
        return {"type": [canon_avro(e) for e in v]}
    if isinstance(v, dict):
        out = {}
        for k, e in v.items():
            if k in ("items", "values"):
                e = canon_avro(e)
            elif k == "fields" and isinstance(e, list):
                e = [canon_avro(f) for f in e]
            elif k == "type" and isinstance(e, list):
                e = [canon_avro(f) for f in e]
            out[k] = e
        return out
    return v


def avro_of(C, x):
    """The Avro schema of a Recap type (oracle)."""
    I = C.I
    x = full(x)
    a = x.attrs
    out = {}
    if a["doc"] is not None:
        out["doc"] = a["doc"] if I.truth(a["doc"]) else Maybe("")
    if "name" in a:
        out["name"] = a["name"]
    if "default" in a:
        out["default"] = a["default"]
    if a["alias"] is not None and x.type_ != "proxy":
        out["aliases"] = [a["alias"]]
    t = x.type_
    if t == "proxy":
        if isinstance(a["alias"], str) and a["alias"] in BUILTIN:
            over = {k: v for k, v in a.items() if k not in ("alias", "registry") and v is not None or k == "default"}
            return avro_of(C, BUILTIN[a["alias"]].but(**over))
        out["type"] = a["alias"]
        return out
    lg = a["logical"]
    if lg is not None:
        unit = a.get("unit")
        if t == "bytes" and lg == "build.recap.Decimal" and a["bytes_"] is not None and not isnone(C, a["bytes_"]) and isinstance(I.kinds(a.get("precision")), frozenset) and I.kinds(a.get("precision")) == {"int"}:
            return {**out, "type": "bytes", "logicalType": "decimal", "precision": a["precision"], "scale": a.get("scale", 0)}
        if t == "int" and I.truth(a["signed"]):
            if lg == "build.recap.Date" and le(C, a["bits"], 32):
                return {**out, "type": "int", "logicalType": "date"}
            if lg == "build.recap.Time" and unit == "millisecond" and le(C, a["bits"], 32):
                return {**out, "type": "int", "logicalType": "time-millis"}
            if lg == "build.recap.Time" and unit == "microsecond" and le(C, a["bits"], 64):
                return {**out, "type": "long", "logicalType": "time-micros"}
            if lg == "build.recap.Timestamp" and unit == "millisecond" and le(C, a["bits"], 64):
                return {**out, "type": "long", "logicalType": "timestamp-millis"}
            if lg == "build.recap.Timestamp" and unit == "microsecond" and le(C, a["bits"], 64):
                return {**out, "type": "long", "logicalType": "timestamp-micros"}
        if t == "bytes" and lg == "build.recap.Interval" and unit == "millisecond" and not a["variable"] and I.eq(a["bytes_"], 12):
            return {**out, "type": "fixed", "logicalType": "duration", "size": 12}
        if t == "string" and lg == "build.recap.UUID" and not isnone(C, a["bytes_"]):
            return {**out, "type": "string", "logicalType": "uuid"}
        raise Refuse(f"logical type {show(lg)}")
    if t == "null":
        out["type"] = "null"
    elif t == "bool":
        out["type"] = "boolean"
    elif t == "int":
        if I.truth(a["signed"]):
            if le(C, a["bits"], 32):
                out["type"] = "int"
            elif le(C, a["bits"], 64):
                out["type"] = "long"
            else:
                out |= {"type": "bytes", "logicalType": "decimal", "precision": ANYTHING, "scale": Maybe(0)}
        elif le(C, a["bits"], 32):
            out["type"] = "long"
        else:
            out |= {"type": "bytes", "logicalType": "decimal", "precision": ANYTHING, "scale": Maybe(0)}
    elif t == "float":
        if le(C, a["bits"], 32):
            out["type"] = "float"
        elif le(C, a["bits"], 64):
            out["type"] = "double"
        else:
            raise Refuse("float with more than 64 bits")
    elif t == "string":
        out["type"] = "string"
    elif t == "bytes":
        if a["variable"]:
            out["type"] = "bytes"
        else:
            out |= {"type": "fixed", "size": a["bytes_"]}
    elif t == "struct":
        out["type"] = "record"
        out["fields"] = [avro_of(C, f) for f in a["fields"]]
    elif t == "enum":
        out |= {"type": "enum", "symbols": a["symbols"]}
    elif t == "list":
        out |= {"type": "array", "items": avro_of(C, a["values"])}
    elif t == "map":
        if a["keys"].type_ != "string":
            raise Refuse("map with keys that are not strings")
        out |= {"type": "map", "values": avro_of(C, a["values"])}
    elif t == "union":
        out["type"] = [avro_of(C, e) for e in a["types"]]
    return out


def compare_written(C, out, oracle, canon, what):
    try:
        want = oracle()
    except Refuse as e:
        if not out.raised:
            C.fail(f"{what} is written as {show(out.value)}, although the format cannot express it ({e})")
        return
    if out.raised:
        C.fail(f"{what} {out!r}", out.site)
    d = diff(C.I, canon(out.value), canon(want))
    if d:
        C.fail(f"{what} is written as {show(out.value)}: {d}")


LOGICAL = [
    ("Date", "int", "day"), ("Time", "int", "millisecond"), ("Time", "int", "microsecond"), ("Time", "int", "second"), ("Time", "int", "nanosecond"),
    ("Timestamp", "int", "millisecond"), ("Timestamp", "int", "microsecond"), ("Timestamp", "int", "second"), ("Timestamp", "int", "nanosecond"),
    ("Interval", "bytes", "millisecond"), ("Interval", "bytes", "second"), ("Duration", "int", "millisecond"), ("UUID", "string", None), ("Decimal", "bytes", None), ("Date", "bytes", None),
    ("Decimal", "int", None), ("Other", "string", None),
]


def logical_shapes(C, which):
    lg, t, unit = which
    kw = {"logical": "build.recap." + lg}
    if unit:
        kw["unit"] = unit
    if t == "int":
        return X("int", bits=C.sym("bits", "int", lo=1, hi=2_147_483_647), signed=C.pick("signed", [True, False]), **kw)
    n = C.sym("n", "int", lo=1, hi=MAX64)
    if lg == "Decimal":
        kw |= C.pick("precision", [{"precision": C.sym("p", "int", lo=1), "scale": C.sym("s", "int")}, {"precision": C.sym("p", "int", lo=1)}, {}])
    return X(t, bytes_=C.pick("n", [n, None]) if t == "string" else n, variable=C.pick("variable", [True, False]) if t != "string" else True, **kw)


ODD_NAMES = ["a-b", "a b", "a.b", "aB", "AB", "a__b", "_a", "1", "é", "$ref", "name", "type", "self", "class"]
ODD_DEFAULTS = [None, False, True, 0, -1, 0.0, "", "null", [], ["a"], {}, {"a": 1}, {"name": "x"}]


def avro_write(ck):
    ck.rule("the Avro schema written for a type describes the same values: type by width, signedness and length; names, docs, defaults and order kept; types Avro cannot express are refused")
    from .types import LEAVES, CTX, shape

    def one(leaf, ctx, mode):
        def f(C):
            x = shape(C, leaf, "plain", ctx)
            if mode == "field":
                x = X("struct", fields=[X("bool", name=C.name("f0")), x.but(name=C.name("f1"), **({} if "default" in x.attrs else {"default": C.sym("dflt", ("str", "int", "bool", "NoneType"))}), **({} if x.attrs.get("doc") is not None else {"doc": C.sym("fdoc")})), X("int", bits=8, name=C.name("f2"))], alias="build.recap.Top", doc=C.sym("tdoc"), name=C.name("Top"))
            t = build(C, x)
            out = avro_writer(C, t)
            compare_written(C, out, lambda: avro_of(C, x), canon_avro, show(t))

        ck.cell(f"{leaf} / {ctx} / {mode}", f)

    for leaf in LEAVES:
        for ctx in CTX:
            for mode in ("alone", "field"):
                one(leaf, ctx, mode)

    for w in LOGICAL:
        for mode in ("alone", "field", "list"):
            def f(C, w=w, mode=mode):
                x = logical_shapes(C, w)
                if C.pick("alias", [False, True]):
                    x = x.but(alias="my.Alias")
                if mode == "field":
                    x = X("struct", fields=[x.but(name=C.name("f1"), doc=C.sym("fdoc"))], name=C.name("Top"))
                elif mode == "list":
                    x = X("list", values=x)
                t = build(C, x)
                compare_written(C, avro_writer(C, t), lambda: avro_of(C, x), canon_avro, show(t))

            ck.cell(f"logical {w} / {mode}", f)

    def wide(bits, signed):
        """Integers that Avro does not have become decimals, of the digits that always fit."""
        def f(C):
            x = X("int", bits=bits, signed=signed)
            o = avro_writer(C, build(C, x))
            v = C.ok_value(o, f"writing {show(x)}")
            h = C.I.dget(v, "precision")
            top = 2 ** (bits - signed)
            C.require(h and isinstance(h[0], int) and 10 ** h[0] <= top < 10 ** (h[0] + 1), f"{show(x)} is written as {show(v)}")

        ck.cell(f"{'signed' if signed else 'unsigned'} integer of {bits} bits", f)

    for bits in (33, 34, 36, 48, 63, 64, 65, 66, 67, 68, 80, 96, 127, 128, 256, 1024):
        for signed in (False, True):
            if bits > 64 or not signed:
                wide(bits, signed)

    def odd_names(C):
        """Names, symbols and defaults are kept as they are, whatever they look like."""
        n = C.pick("name", ODD_NAMES)
        x = C.pick("type", [X("int", bits=8), X("enum", symbols=[n, "b", "B"]), X("struct", fields=[X("bool", name=n)]), X("union", types=[X("null"), X("string", bytes_=9)]), X("list", values=X("float", bits=32))])
        x = X("struct", fields=[X("bool", name="f0"), x.but(name=n, default=C.pick("default", ODD_DEFAULTS))], name=n)
        t = build(C, x)
        compare_written(C, avro_writer(C, t), lambda: avro_of(C, x), canon_avro, show(t))

    ck.cell("names and defaults of every kind", odd_names)

    def many(C):
        """Unions, records and enums of many parts."""
        ts = [X("null"), X("bool"), X("int", bits=8), X("int", bits=16), X("float", bits=64), X("string", bytes_=9), X("struct", fields=[X("bool", name="a")], alias="my.S"), X("enum", symbols=list("CABDE"), alias="my.E"), X("bool")]
        x = C.pick("type", [X("union", types=ts), X("union", types=ts[::-1]), X("struct", fields=[e.but(name=n) for e, n in zip(ts, "zyxabcdef")])])
        t = build(C, x)
        compare_written(C, avro_writer(C, t), lambda: avro_of(C, x), canon_avro, show(t))

    ck.cell("many parts", many)

    def foreign(C):
        """Another logical type that looks like one of Avro's is not written as that."""
        lg = C.pick("logical", ["my.Logical", "build.recap.Other", "Decimal", "decimal", "build.recap.decimal", "build.recap.Date2", "build.recap.Duration", ""])
        s, n = C.sym("s", "int"), C.sym("n", "int", lo=1, hi=MAX64)
        x = C.pick("type", [
            X("bytes", bytes_=n, variable=True, precision=s, scale=s), X("bytes", bytes_=n, variable=False, precision=s, scale=s), X("bytes", bytes_=16, variable=False, precision=28, scale=14),
            X("bytes", bytes_=12, variable=False, unit="millisecond"), X("string", bytes_=36, variable=False), X("string", bytes_=n, variable=True),
            *[X("int", bits=b, signed=True, unit=u) for b in (32, 64) for u in ("day", "millisecond", "microsecond")],
        ]).but(logical=lg)
        o = avro_writer(C, build(C, x))
        if not o.raised:
            v = C.I.canon(o.value)
            h = C.I.dget(v, "logicalType") if isinstance(v, dict) else None
            C.require(not h, f"{show(x)} is written as {show(v)}")

    ck.cell("logical types that Avro does not have", foreign)

    def incomplete(C):
        """A decimal without its precision."""
        x = X("bytes", bytes_=C.pick("bytes", [16, C.sym("n", "int", lo=1, hi=MAX64)]), variable=C.pick("variable", [True, False]), logical="build.recap.Decimal", **C.pick("precision", [{}, {"precision": None}, {"precision": None, "scale": 2}, {"scale": 2}, {"precision": "28"}]))
        o = avro_writer(C, build(C, x))
        if not o.raised:
            v = C.I.canon(o.value)
            C.require(isinstance(v, dict) and not C.I.dget(v, "logicalType"), f"{show(x)} is written as {show(v)}")

    ck.cell("decimals without a precision", incomplete)

    for n in list(BUILTIN) + ["build.x"]:
        for ctx in ("alone", "struct field", "list", "map value", "optional"):
            def f(C, n=n, ctx=ctx):
                reg = C.new("recap.types:RecapTypeRegistry")
                from .types import contexts

                attrs = C.pick("attributes", [{}, {"name": C.name("f1"), "doc": C.sym("fdoc"), "default": C.sym("dflt")}])
                x = contexts(C, X("proxy", alias=n, registry=reg, **attrs))[ctx]
                t = build(C, x)
                y = contexts(C, X("proxy", alias=n, **attrs))[ctx]
                compare_written(C, avro_writer(C, t), lambda: avro_of(C, y), canon_avro, show(t))

            ck.cell(f"reference to {n} / {ctx}", f)


# --------------------------------------------------------------- JSON schema (C13)
def json_of(C, x, defs, refs=True, prop=False):
    I = C.I
    x = full(x)
    a = x.attrs
    out = {}
    if x.type_ == "proxy":
        extra = {k for k in a if k not in COMMON and k not in ("name", "registry")}
        if isinstance(a["alias"], str) and a["alias"] in BUILTIN:
            over = {k: v for k, v in a.items() if k not in ("alias", "registry") and v is not None or k == "default"}
            return json_of(C, BUILTIN[a["alias"]].but(**over), defs, refs, prop)
        if "definition" in a and extra - {"definition"}:
            # A reference cannot say anything else, so what it refers to is written out.
            over = {k: v for k, v in a.items() if k not in ("alias", "definition") and v is not None or k == "default"}
            return json_of(C, a["definition"].but(alias=None, **over), defs, refs, prop)
        out = {"$ref": SStr(["#/$defs/", a["alias"]]) if not isinstance(a["alias"], str) else "#/$defs/" + a["alias"]}
        if a["doc"] is not None:
            out["description"] = a["doc"] if I.truth(a["doc"]) else Maybe("")
        return out
    if "default" in a:
        out["default"] = a["default"]
    if a["doc"] is not None:
        out["description"] = a["doc"] if I.truth(a["doc"]) else Maybe("")
    if a["alias"] is not None and refs:
        defs[a["alias"]] = json_of(C, x, defs, False, prop)
        return {"$ref": I.mkstr(["#/$defs/", a["alias"]])}
    t = x.type_
    if t == "union":
        if prop and optional(a):
            inner = [e for e in a["types"] if e.type_ != "null"][0]
            return out | {k: v for k, v in json_of(C, inner, defs).items() if not (isinstance(v, Maybe) and k in out)}
        out["oneOf"] = [json_of(C, e, defs) for e in a["types"]]
    elif t == "struct":
        out |= {"type": "object", "properties": {}}
        req = []
        for f in a["fields"]:
            if "name" not in f.attrs:
                raise Refuse("field without a name")
            out["properties"][f.attrs["name"]] = json_of(C, f, defs, True, True)
            if not (f.type_ == "union" and optional(f.attrs)):
                req.append(f.attrs["name"])
        out["required"] = req if req else Maybe([])
    elif t == "list":
        out |= {"type": "array", "items": json_of(C, a["values"], defs)}
    elif t == "map":
        out |= {"type": "object", "additionalProperties": json_of(C, a["values"], defs)}
    elif t == "enum":
        out |= {"type": "string", "enum": a["symbols"]}
    elif t == "bytes":
        out |= {"type": "string", "format": "byte"}
    else:
        out["type"] = {"null": "null", "bool": "boolean", "int": "integer", "float": "number", "string": "string"}[t]
        if t == "string" and a["logical"] is not None:
            for logical, fmt in JSON_FORMATS.items():
                if I.eq(a["logical"], logical):
                    out["format"] = fmt
                    break
    return out


JSON_FORMATS = {"org.iso.8601.Date": "date", "org.iso.8601.DateTime": "date-time", "org.iso.8601.Time": "time"}


def plain_null(e):
    return e.type_ == "null" and all(v is None for v in e.attrs.values())


def optional(a):
    return any(plain_null(e) for e in a["types"]) and "default" in a and sum(1 for e in a["types"] if not plain_null(e)) == 1


def unsorted_required(v):
    if isinstance(v, dict):
        out = {k: unsorted_required(e) for k, e in v.items()}
        return out
    if isinstance(v, list):
        return [unsorted_required(e) for e in v]
    return v


def refs_of(v, out):
    if isinstance(v, dict):
        for k, e in v.items():
            if k == "$ref" and not isinstance(e, dict):  # else a property of that name
                out.append(e)
            elif k != "default":
                refs_of(e, out)
    elif isinstance(v, list):
        for e in v:
            refs_of(e, out)
    return out


def json_write(ck):
    ck.rule("the JSON schema written for a type has its properties, required names, item types, docs and defaults; every $ref leads to a definition in $defs")
    from .types import LEAVES, CTX, shape, contexts

    def judge(C, t, x):
        out = json_writer(C, t)

        def want():
            defs = {}
            w = json_of(C, x, defs)
            if defs:
                w["$defs"] = defs
            return w

        compare_written(C, out, want, unsorted_required, show(t))
        if not out.raised:
            have = out.value.get("$defs", {}) if isinstance(out.value, dict) else {}
            for r in refs_of(out.value, []):
                ok = any(leaf_eq(C.I, r, C.I.mkstr(["#/$defs/", k])) for k in have)
                if not ok and "refers" not in C.label:
                    C.fail(f"{show(t)} is written with the reference {show(r)}, which leads nowhere: $defs has {show(list(have))}")

    def one(leaf, attrs, ctx, mode):
        def f(C):
            x = shape(C, leaf, attrs, ctx)
            if mode == "field":
                x = X("struct", fields=[X("bool", name=C.name("f0")), x.but(name=C.name("f1")), X("int", bits=8, name=C.name("f2"), doc=C.sym("fdoc"))], alias="build.recap.Top", doc=C.sym("tdoc"))
            judge(C, build(C, x), x)

        ck.cell(f"{leaf} / {attrs} / {ctx} / {mode}", f)

    for leaf in LEAVES:
        for ctx in CTX:
            if ctx == "optional alias":
                continue
            for mode in ("alone", "field"):
                for attrs in ("plain", "doc", "default", "alias"):
                    if leaf == "null" and ("optional" in ctx or "null" in ctx):
                        continue
                    if ctx == "map key" and attrs != "plain":
                        continue
                    one(leaf, attrs, ctx, mode)

    for n in list(BUILTIN):
        for ctx in ("alone", "struct field", "list", "map value", "optional", "struct with optional"):
            def f(C, n=n, ctx=ctx):
                reg = C.new("recap.types:RecapTypeRegistry")
                attrs = C.pick("attributes", [{"name": C.name("f1")}, {"name": C.name("f1"), "doc": C.sym("fdoc"), "default": C.sym("dflt")}])
                t = build(C, contexts(C, X("proxy", alias=n, registry=reg, **attrs))[ctx])
                judge(C, t, contexts(C, X("proxy", alias=n, **attrs))[ctx])

            ck.cell(f"reference to {n} / {ctx}", f)

    for order in ("after", "before"):
        for nested in ("struct field", "list", "map value", "optional", "union", "list of lists", "struct in struct", "struct with optional"):
            def f(C, order=order, nested=nested):
                """A type that is defined once and used again."""
                reg = C.new("recap.types:RecapTypeRegistry")
                attrs = C.pick("attributes", [{}, {"doc": C.sym("udoc")}, {"default": C.sym("dflt")}, {"doc": C.sym("udoc"), "default": C.sym("dflt")}])
                inner = X("struct", fields=[X("int", bits=32, name=C.name("g"))], alias="build.Inner")
                C.ok_value(C.meth(reg, "register_alias", build(C, inner)))
                use = X("proxy", alias="build.Inner", definition=inner, **attrs)
                use_r = X("proxy", alias="build.Inner", registry=reg, **attrs)
                nm = {"name": C.name("f1")}
                d = contexts(C, inner)["alone"].but(name=C.name("f0"))

                def whole(u):
                    c = contexts(C, u)[nested].but(**nm) if nested != "struct field" else contexts(C, u.but(name=C.name("h")))[nested].but(**nm)
                    if nested in ("struct in struct",):
                        c = contexts(C, u.but(name=C.name("h")))[nested].but(**nm)
                    return X("struct", fields=[d, c] if order == "after" else [c, d], alias="build.Top")

                judge(C, build(C, whole(use_r)), whole(use))

            ck.cell(f"definition used again {order} / {nested}", f)

    def odd_names(C):
        """Names, symbols and defaults are kept as they are, whatever they look like."""
        n = C.pick("name", ODD_NAMES)
        x = C.pick("type", [X("int", bits=8), X("enum", symbols=[n, "b", "B"]), X("struct", fields=[X("bool", name=n)]), X("union", types=[X("null"), X("string", bytes_=9)]), X("list", values=X("float", bits=32))])
        x = X("struct", fields=[X("bool", name="f0"), x.but(name=n, default=C.pick("default", ODD_DEFAULTS))])
        judge(C, build(C, x), x)

    ck.cell("names and defaults of every kind", odd_names)

    def formats(C, ctx):
        """A string's logical type says what its format is; nothing else does."""
        logical = C.pick("logical", list(JSON_FORMATS) + ["org.iso.8601.Duration", "build.recap.Date", "date", ""])
        leaf = C.pick("type", ["string", "int", "bytes"])
        x = X(leaf, logical=logical, **({"bits": 32} if leaf == "int" else {"bytes_": C.pick("bytes", [9, 65_536])}))
        attrs = C.pick("attributes", [{}, {"doc": C.sym("udoc")}, {"alias": "my.When"}])
        x = contexts(C, x.but(name=C.name("f1"), **attrs))[ctx]
        judge(C, build(C, x), x)

    for ctx in ("alone", "struct field", "list", "map value", "optional", "union", "struct with optional"):
        ck.cell(f"formats of dates and times / {ctx}", lambda C, ctx=ctx: formats(C, ctx))

    def format_reference(C):
        reg = C.new("recap.types:RecapTypeRegistry")
        inner = X("string", bytes_=9, logical=C.pick("logical", list(JSON_FORMATS) + ["other"]), alias="my.When")
        C.ok_value(C.meth(reg, "register_alias", build(C, inner)))
        attrs = C.pick("attributes", [{}, {"default": C.sym("dflt")}])

        def whole(**kw):
            return X("struct", fields=[inner.but(name="f0"), X("proxy", alias="my.When", name="f1", **kw, **attrs)])

        judge(C, build(C, whole(registry=reg)), whole(definition=inner))

    ck.cell("formats of definitions used again", format_reference)

    def many(C):
        """Several definitions, wherever they are."""
        d = [X("struct", fields=[X("bool", name=f"a{i}")], alias=f"my.S{i}") for i in range(3)] + [X("enum", symbols=list("CAB"), alias="my.E"), X("int", bits=8, alias="other.I"), X("list", values=X("struct", fields=[], alias="my.deep"), alias="my.L")]
        rest = [X("null"), X("bool"), X("string", bytes_=9)]
        how = C.pick("order", ["first", "last", "between"])
        ts = d + rest if how == "first" else rest + d if how == "last" else rest[:2] + d + rest[2:]
        x = C.pick("type", [
            X("union", types=ts), X("struct", fields=[e.but(name=f"f{i}") for i, e in enumerate(ts)]), X("list", values=X("union", types=ts)),
            X("map", keys=X("string", bytes_=9), values=X("union", types=ts)), X("union", types=[X("list", values=e) for e in ts]), X("struct", fields=[X("union", types=[X("null"), e], default=None, name=f"f{i}") for i, e in enumerate(d)]),
        ])
        x = X("struct", fields=[x.but(name="u")], alias=C.pick("alias", [None, "my.Top"]))
        judge(C, build(C, x), x)

    ck.cell("several definitions", many)

    def unnamed(C):
        x = X("struct", fields=[X("bool", name=C.name("f0")), leaves(C)["int"]])
        judge(C, build(C, x), x)

    ck.cell("field without a name", unnamed)


# ----------------------------------------------------------------- Protobuf (C15)
PSCALAR = {"bool": "bool", "null": "google.protobuf.NullValue"}


def proto_type(C, x):
    """(type name, cardinality) of a field whose Recap type is x."""
    I = C.I
    x = full(x)
    a = x.attrs
    t = x.type_
    if t == "proxy" and isinstance(a["alias"], str) and a["alias"] in BUILTIN:
        return proto_type(C, BUILTIN[a["alias"]])
    if t in ("struct", "enum", "proxy"):
        if a["alias"] is None:
            raise Refuse("type without a name")
        return I.mkstr([".", a["alias"]]), None
    if t in PSCALAR:
        return PSCALAR[t], None
    if t == "int":
        s = I.truth(a["signed"])
        if le(C, a["bits"], 32):
            return ("int32" if s else "uint32"), None
        if le(C, a["bits"], 64):
            return ("int64" if s else "uint64"), None
        raise Refuse("more than 64 bits")
    if t == "float":
        if le(C, a["bits"], 32):
            return "float", None
        if le(C, a["bits"], 64):
            return "double", None
        raise Refuse("more than 64 bits")
    if t in ("string", "bytes"):
        if not isnone(C, a["bytes_"]) and le(C, a["bytes_"], 2_147_483_648):
            return t, None
        raise Refuse("too long")
    if t == "list":
        p, c = proto_type(C, a["values"])
        if c not in (None, "OPTIONAL"):
            raise Refuse("list of lists or maps")
        return p, "REPEATED"
    if t == "union":
        nn = [e for e in a["types"] if e.type_ != "null"]
        if len(nn) == 1:
            p, c = proto_type(C, nn[0])
            return p, ("OPTIONAL" if c in (None, "OPTIONAL") else c)
        raise Refuse("nested union")
    if t == "map":
        return "map", "MAP"
    raise Refuse(t)


def proto_field(C, x, number):
    """(description of the field, next number)"""
    x = full(x)
    nm = x.attrs.get("name", f"field_{number}")
    core = x
    own = x
    while True:
        # a nested type's own name wins
        nn = [e for e in own.attrs["types"] if e.type_ != "null"] if own.type_ == "union" else [own.attrs["values"]] if own.type_ == "list" else []
        if len(nn) != 1:
            break
        own = nn[0]
        nm = own.attrs.get("name", nm)
    if x.type_ == "union":
        nn = [e for e in x.attrs["types"] if e.type_ != "null"]
        if len(nn) != 1:
            subs = []
            for e in nn:
                p, c = proto_type(C, e)
                if c not in (None, "OPTIONAL"):
                    raise Refuse("maps, lists and unions in a oneof")
                subs.append(("field", full(e).attrs.get("name", f"field_{number}"), number, p, c))
                number += 1
            return ("oneof", nm, subs), number
        core = nn[0]
        while core.type_ == "union":
            inner = [e for e in core.attrs["types"] if e.type_ != "null"]
            if len(inner) != 1:
                raise Refuse("nested union")
            core = inner[0]
    if core.type_ == "map":
        k, kc = proto_type(C, core.attrs["keys"])
        v, vc = proto_type(C, core.attrs["values"])
        if vc not in (None, "OPTIONAL") or kc not in (None, "OPTIONAL"):
            raise Refuse("map of maps, lists or unions")
        if isinstance(k, str) and k not in ("bool", "int32", "int64", "uint32", "uint64", "string") or not isinstance(k, str):
            raise Refuse("map keys that are no integers, booleans or text")
        return ("map", nm, number, k, v), number + 1
    p, c = proto_type(C, x)
    return ("field", nm, number, p, c), number + 1


def proto_seen(C, e):
    """The same description read off the written element."""
    at = e.attrs
    n = e.cls.name
    if n == "Field":
        c = at.get("cardinality")
        if isinstance(c, Inst):
            c = c.attrs.get("name", c.attrs.get("_name_"))
        return ("field", at["name"], at["number"], at["type"], c)
    if n == "MapField":
        return ("map", at["name"], at["number"], at["key_type"], at["value_type"])
    if n == "OneOf":
        return ("oneof", at["name"], [proto_seen(C, s) for s in at["elements"]])
    if n == "Message":
        return ("message", at["name"], [proto_seen(C, s) for s in at["elements"]])
    if n == "Enum":
        return ("enum", at["name"], [(v.attrs["name"], v.attrs["number"]) for v in at["elements"]])
    if n == "Package":
        return ("package", at["name"])
    raise Undecided(f"element {n}")


def numbers(m, out):
    for e in m[2]:
        if e[0] in ("field", "map"):
            out.append(e[2])
        elif e[0] == "oneof":
            out += [s[2] for s in e[2]]
    return out


def gather(x, out):
    """Every struct and enum of a type, innermost last."""
    x = full(x)
    a = x.attrs
    if x.type_ in ("struct", "enum"):
        out.append(x)
    for f in a.get("fields") or []:
        gather(f, out)
    for f in a.get("types") or []:
        gather(f, out)
    for k in ("keys", "values"):
        if isinstance(a.get(k), X):
            gather(a[k], out)
    return out


def flatten_proto(els, pkg, out):
    for e in els:
        if e[0] in ("message", "enum"):
            out.append((pkg, e))
            if e[0] == "message":
                flatten_proto([s for s in e[2] if s[0] in ("message", "enum")], f"{pkg}.{e[1]}", out)
    return out


def name_structs(x, it):
    x = full(x)
    a = {k: [name_structs(e, it) if isinstance(e, X) else e for e in v] if isinstance(v, list) else name_structs(v, it) if isinstance(v, X) else v for k, v in x.attrs.items()}
    if x.type_ == "struct" and a["alias"] is None:
        a["alias"] = "build.recap." + next(it)
    return mk(x.type_, a)


def proto_write(ck):
    ck.rule("every struct and enum is declared once, where its alias says; fields keep order, names and types and have distinct numbers; lists are repeated, nullable fields optional; what Protobuf cannot express is refused")
    from .types import LEAVES, CTX, shape

    def judge(C, t, x):
        out = proto_writer(C, t)

        def want():
            w = {}
            for s in gather(x, []):
                al = s.attrs["alias"]
                if al is None:
                    raise Refuse("type without a name")
                if s.type_ == "enum":
                    w[al] = ("enum", al.rpartition(".")[2], [(v, i) for i, v in enumerate(s.attrs["symbols"])])
                else:
                    fs, n = [], 1
                    for f in s.attrs["fields"]:
                        d, n = proto_field(C, f, n)
                        fs.append(d)
                    w[al] = ("message", al.rpartition(".")[2], fs)
            # What a package declares is nested in the message of that name, or at the top of the one file.
            roots = {p for p in (al.rpartition(".")[0] for al in w) if w.get(p, "-")[0] != "message"}
            if len(roots) > 1:
                raise Refuse(f"types of the packages {sorted(roots)}")
            return w

        try:
            w = want()
        except Refuse as e:
            if not out.raised:
                C.fail(f"{show(t)} is written as {show(out.value)}, although Protobuf cannot express it ({e})")
            return
        if out.raised:
            C.fail(f"{show(t)} {out!r}", out.site)
        els = [proto_seen(C, e) for e in C.attr(out.value, "file_elements")]
        pk = [e for e in els if e[0] == "package"]
        C.require(len(pk) == 1, f"{show(t)} is written with the packages {pk}")
        got = {}
        for p, e in flatten_proto(els, pk[0][1], []):
            key = f"{p}.{e[1]}"
            C.require(key not in got, f"{show(t)}: {key} is declared twice")
            if e[0] == "message":
                ns = numbers(e, [])
                C.require(len(set(ns)) == len(ns) and all(isinstance(n, int) and n > 0 for n in ns), f"{show(t)}: field numbers of {key} are {ns}")
                e = ("message", e[1], [s for s in e[2] if s[0] not in ("message", "enum")])
            got[key] = e
        for k, e in w.items():
            C.require(k in got, f"{show(t)}: {k} is not declared where its name says; declared are {sorted(got)}")
            d = diff(C.I, list(got[k]), list(e))
            if d:
                C.fail(f"{show(t)}: {k} is written as {show(got[k])} instead of {show(e)}: {d}")
        C.require(set(got) == set(w), f"{show(t)}: declares {sorted(got)} instead of {sorted(w)}")

    def one(leaf, ctx):
        def f(C):
            x = shape(C, leaf, "plain", ctx)
            if leaf == "enum":
                from .types import contexts

                x = contexts(C, leaves(C)["enum"].but(alias="build.recap.E"))[ctx]
            if ctx in ("struct field", "struct in struct", "struct with optional"):
                x = name_structs(x, iter(["S1", "S2", "S3"]))
            x = X("struct", fields=[X("bool", name=C.name("f0")), x.but(name=C.name("f1"), alias=x.attrs.get("alias")), X("int", bits=8, name=C.name("f2"))], alias="build.recap.Top")
            judge(C, build(C, x), x)

        ck.cell(f"{leaf} / {ctx}", f)

    for leaf in LEAVES:
        for ctx in CTX:
            if leaf == "null" and ctx in ("optional", "optional named", "optional custom", "optional alias", "null last", "nullable, no default", "optional of two", "optional of optional", "null with doc", "list of optional", "struct with optional"):
                continue
            one(leaf, ctx)

    def tree(C):
        """Nested, sibling and reused message types."""
        i = X("int", bits=64, name=C.name("v"))
        inner = X("struct", fields=[i], alias="build.recap.Top.Inner", name=C.name("a"))
        deepst = X("struct", fields=[X("struct", fields=[i], alias="build.recap.Top.Mid.Deep", name=C.name("d"))], alias="build.recap.Top.Mid", name=C.name("m"))
        en = X("enum", symbols=[C.name("A"), C.name("B"), C.name("Cc")], alias="build.recap.Top.Color", name=C.name("c"))
        side = X("struct", fields=[X("bool", name=C.name("w"))], alias="build.recap.Side", name=C.name("s"))
        fs = C.pick("fields", [[inner], [deepst], [en], [side], [inner, deepst, en, side], [X("list", values=side, name=C.name("l"))], [X("map", keys=X("string", bytes_=9), values=en, name=C.name("l"))],
                               [X("union", types=[X("null"), side, en], default=None, name=C.name("u")), i]])
        fs = [f.but(name=f.attrs["name"]) for f in fs]
        x = X("struct", fields=fs, alias="build.recap.Top")
        judge(C, build(C, x), x)

    ck.cell("nested declarations", tree)

    def inside(C):
        """A type that is declared within one of its own parts."""
        out = X("struct", fields=[X("int", bits=64, name=C.name("v"))], alias="build.recap.Outer", name=C.name("a"))
        st = X("string", bytes_=9)
        opt = X("union", types=[X("null"), out.but(name=None)], default=None)
        u = C.pick("used as", [out, X("list", values=out, name=C.name("l")), X("map", keys=st, values=out, name=C.name("l"))])
        x = X("struct", fields=[X("bool", name=C.name("f0")), u], alias="build.recap.Outer.Top")
        judge(C, build(C, x), x)

    ck.cell("declared within a part", inside)

    def used(kind, place):
        def f(C):
            nm = {"name": C.name("f1")}
            i = X("int", bits=64, name=C.name("v"))
            t = {
                "struct": X("struct", fields=[i], alias="build.recap.Side"),
                "nested struct": X("struct", fields=[i], alias="build.recap.Top.Inner"),
                "enum": X("enum", symbols=[C.name("A"), C.name("B")], alias="build.recap.E"),
                "nested enum": X("enum", symbols=[C.name("A"), C.name("B")], alias="build.recap.Top.E"),
                "deep": X("struct", fields=[X("struct", fields=[X("enum", symbols=[C.name("A")], alias="build.recap.Top.Mid.Deep.E", name=C.name("e"))], alias="build.recap.Top.Mid.Deep", name=C.name("d")), i], alias="build.recap.Top.Mid"),
                "other package": X("struct", fields=[i], alias="acme.Side"),
                "outer package": X("struct", fields=[i], alias="build.Side"),
                "enum of another package": X("enum", symbols=[C.name("A"), C.name("B")], alias="zeta.recap.E"),
                "package of no message": X("struct", fields=[i], alias="build.recap.Topmost.Inner"),
                "package below a message": X("struct", fields=[i], alias="build.recap.Top.deeper.Inner"),
                "package of an enum": X("struct", fields=[X("enum", symbols=[C.name("A")], alias="build.recap.E", name=C.name("e"))], alias="build.recap.E.Inner"),
                "package with a message's beginning": X("struct", fields=[i], alias="build.recap2.Side"),
                "package with the name of a message": X("struct", fields=[i], alias="build.other.Top.Side"),
                "deep elsewhere": X("struct", fields=[X("list", values=X("struct", fields=[i], alias="build.recap.Side"), name=C.name("d"))], alias="build.recap.Mid"),
            }[kind]
            opt = lambda u: X("union", types=[X("null"), u], default=None)
            st = X("string", bytes_=9)
            u = {
                "field": t,
                "list": X("list", values=t),
                "map": X("map", keys=st, values=t),
                "optional": opt(t),
                "null last": X("union", types=[t, X("null")]),
                "optional list": opt(X("list", values=t)),
                "optional map": opt(X("map", keys=st, values=t)),
                "oneof first": X("union", types=[X("null"), t.but(name=C.name("o1")), X("bool", name=C.name("o2"))], default=None),
                "oneof last": X("union", types=[X("bool", name=C.name("o2")), t.but(name=C.name("o1")), X("null")], default=None),
                "list of optional": X("list", values=opt(t)),
                "list of lists": X("list", values=X("list", values=t)),
                "map of optional": X("map", keys=st, values=opt(t)),
                "map of lists": X("map", keys=st, values=X("list", values=t)),
                "map of maps": X("map", keys=st, values=X("map", keys=st, values=t)),
                "list of maps": X("list", values=X("map", keys=st, values=t)),
                "list of unions": X("list", values=X("union", types=[X("bool"), t])),
                "oneof of list": X("union", types=[X("list", values=t, name=C.name("o1")), X("bool", name=C.name("o2"))]),
                "oneof of map": X("union", types=[X("bool", name=C.name("o2")), X("map", keys=st, values=t, name=C.name("o1")), X("null")]),
                "oneof of optional": X("union", types=[X("bool", name=C.name("o2")), opt(t).but(name=C.name("o1")), X("null")]),
                "oneof of oneof": X("union", types=[X("bool", name=C.name("o2")), X("union", types=[X("bool"), t], name=C.name("o1")), X("null")]),
                "oneof of optional list": X("union", types=[X("bool", name=C.name("o2")), opt(X("list", values=t)).but(name=C.name("o1"))]),
            }[place].but(**nm)
            fs = [X("bool", name=C.name("f0")), u, X("int", bits=8, name=C.name("f2"))]
            if C.pick("in", ["top", "struct"]) == "struct":
                fs = [X("bool", name=C.name("g0")), X("struct", fields=fs, alias="build.recap.Other", name=C.name("g1"))]
            x = X("struct", fields=fs, alias="build.recap.Top")
            judge(C, build(C, x), x)

        ck.cell(f"{kind} used as {place}", f)

    other = ("other package", "outer package", "enum of another package", "package of no message", "package below a message", "package of an enum", "package with a message's beginning", "package with the name of a message")
    for kind in other:
        for place in ("field", "list", "map", "optional", "oneof last"):
            used(kind, place)
    for kind in ("struct", "nested struct", "enum", "nested enum", "deep", "deep elsewhere"):
        for place in ("field", "list", "map", "optional", "null last", "optional list", "optional map", "oneof first", "oneof last", "list of optional", "list of lists", "map of optional",
                      "map of lists", "map of maps", "list of maps", "list of unions", "oneof of list", "oneof of map", "oneof of optional", "oneof of oneof", "oneof of optional list"):
            used(kind, place)

    def oneof(k):
        def f(C):
            ts = [X("int", bits=32, name=C.name("o1")), X("string", bytes_=5, name=C.name("o2")), X("bool", name=C.name("o3"))][:k]
            u = X("union", types=C.pick("null", [[X("null")] + ts, ts, ts + [X("null")]]), default=None, name=C.name("u"))
            x = X("struct", fields=C.pick("place", [[u, X("bool", name=C.name("f2")), X("int", bits=8, name=C.name("f3"))], [X("bool", name=C.name("f2")), u, u.but(name=C.name("u2")), X("int", bits=8, name=C.name("f3"))]]), alias="build.recap.Top")
            judge(C, build(C, x), x)

        ck.cell(f"oneof of {k}", f)

    oneof(2)
    oneof(3)

    def refs(n):
        def f(C):
            reg = C.new("recap.types:RecapTypeRegistry")
            nm = {"name": C.name("f1")}
            px = X("proxy", alias=n, **nm)
            wrap = C.pick("context", [lambda p: p, lambda p: X("list", values=p, **nm), lambda p: X("union", types=[X("null"), p], default=None, **nm)])
            x = X("struct", fields=[X("bool", name=C.name("f0")), wrap(px)], alias="build.recap.Top")
            y = X("struct", fields=[X("bool", name=C.name("f0")), wrap(X("proxy", alias=n, registry=reg, **nm))], alias="build.recap.Top")
            judge(C, build(C, y), x)

        ck.cell(f"reference to {n}", f)

    for n in list(BUILTIN) + ["build.recap.Top"]:
        refs(n)

    def unnamed(C):
        x = C.pick("type", [X("struct", fields=[X("bool", name="a")]), X("struct", fields=[X("struct", fields=[], name="b")], alias="build.Top"), X("struct", fields=[X("enum", symbols=["A"], name="b")], alias="build.Top"),
                            X("struct", fields=[X("list", values=X("struct", fields=[]), name="b")], alias="build.Top")])
        judge(C, build(C, x), x)

    ck.cell("types without a name", unnamed)

    def odd_names(C):
        """Names and symbols are kept as they are, whatever they look like."""
        n = C.pick("name", [n for n in ODD_NAMES if n[0].isalpha() or n[0] == "_"])
        en = X("enum", symbols=C.pick("symbols", [[n, "b", "B"], ["Z", n, "A"], [n]]), alias="build.recap.E")
        u = C.pick("type", [X("int", bits=8), en, X("list", values=en), X("union", types=[X("null"), X("bool", name=n), en.but(name="o")]), X("map", keys=X("string", bytes_=9), values=en)])
        x = X("struct", fields=[X("bool", name="f0"), u.but(name=n)], alias="build.recap.Top")
        judge(C, build(C, x), x)

    ck.cell("names of every kind", odd_names)

    def many(C):
        """Many fields, many symbols, large oneofs."""
        ts = [X("bool"), X("int", bits=8), X("int", bits=33), X("int", bits=32, signed=False), X("float", bits=32), X("string", bytes_=9), X("bytes", bytes_=9), X("int", bits=64, signed=False), X("float", bits=64)]
        fs = [t.but(name=f"z{9 - i}") for i, t in enumerate(ts)]
        one = X("union", types=C.pick("null", [[X("null")] + fs, fs[:5] + [X("null")] + fs[5:], fs]), name="u")
        en = X("enum", symbols=[f"S{9 - i}" for i in range(10)], alias="build.recap.E", name="e")
        more = [X("union", types=[X("null"), X("bool", name="p"), X("int", bits=8, name="q")], name="u2"), X("list", values=X("bool"), name="l"), X("map", keys=X("string", bytes_=9), values=X("bool"), name="m")]
        x = X("struct", fields=C.pick("fields", [fs, [one, en], [en, one, X("bool", name="last")], [X("bool", name=f"n{i}") for i in range(12)] + [one, X("bool", name="mid"), more[0], one.but(name="u3"), en, X("bool", name="last")], more + [one] + more[:0] + [en], [more[0], one, more[1], more[2], en]]), alias="build.recap.Top")
        judge(C, build(C, x), x)

    ck.cell("many parts", many)
