"""Properties of the schema readers (Avro, JSON schema, Protobuf to Recap)."""
from __future__ import annotations

from .common import *

M = 9_223_372_036_854_775_807


class Env:
    def __init__(self, ns):
        self.ns = ns


class Bad(Exception):
    pass


# --------------------------------------------------------------------- Avro (C10)
PRIM = {
    "null": X("null"),
    "boolean": X("bool"),
    "int": X("int", bits=32, signed=True),
    "long": X("int", bits=64, signed=True),
    "float": X("float", bits=32),
    "double": X("float", bits=64),
    "bytes": X("bytes", bytes_=M),
    "string": X("string", bytes_=M),
}
LOGI = {
    "uuid": X("string", logical="build.recap.UUID", bytes_=36, variable=False),
    "date": X("int", logical="build.recap.Date", bits=32, signed=True, unit="day"),
    "time-millis": X("int", logical="build.recap.Time", bits=32, signed=True, unit="millisecond"),
    "time-micros": X("int", logical="build.recap.Time", bits=64, signed=True, unit="microsecond"),
    "timestamp-millis": X("int", logical="build.recap.Timestamp", bits=64, signed=True, unit="millisecond"),
    "timestamp-micros": X("int", logical="build.recap.Timestamp", bits=64, signed=True, unit="microsecond"),
    "duration": X("bytes", logical="build.recap.Interval", bytes_=12, variable=False, signed=True, unit="millisecond"),
}


def cat(C, *parts):
    return C.I.mkstr(parts)


def avro_x(C, s, ns, defs):
    """The Recap type of an Avro schema (oracle).  Collects named types in defs."""
    if isinstance(s, (str, SStr, Sym)):
        s = {"type": s}
    if isinstance(s, list):
        s = {"type": s}
    a = {}
    if "doc" in s:
        a["doc"] = s["doc"]
    if "default" in s:
        a["default"] = s["default"]
    t = s["type"]
    if "namespace" in s:
        ns = s["namespace"]
    named = isinstance(t, str) and t in ("record", "enum", "fixed")
    if "name" in s:
        nm = s["name"]
        if isinstance(nm, tuple):  # (namespace, name)
            ns, nm = nm
        if ns is None or ns == "":
            ns = "_root"
        a["name"] = nm
        if named:
            a["alias"] = cat(C, ns, ".", nm)
    lt = s.get("logicalType")
    if lt == "decimal":
        x = X("bytes", logical="build.recap.Decimal", bytes_=s.get("size", M), variable=ANYTHING, precision=s["precision"], scale=s.get("scale", 0), **a)
    elif lt is not None:
        x = LOGI[lt].but(**a)
    elif isinstance(t, list):
        x = X("union", types=[avro_x(C, e, ns, defs) for e in t], **a)
    elif isinstance(t, dict):
        inner = avro_x(C, t, ns, defs)
        return mk(inner.type_, {**inner.attrs, **a})
    elif isinstance(t, str) and t in PRIM:
        x = PRIM[t].but(**a)
    elif t == "fixed":
        x = X("bytes", bytes_=s["size"], variable=ANYTHING, **a)
    elif t == "enum":
        x = X("enum", symbols=s["symbols"], **a)
    elif t == "record":
        x = X("struct", fields=[avro_x(C, f, ns, defs) for f in s["fields"]], **a)
    elif t == "array":
        x = X("list", values=avro_x(C, s["items"], ns, defs), **a)
    elif t == "map":
        x = X("map", keys=X("string", bytes_=M), values=avro_x(C, s["values"], ns, defs), **a)
    elif t == "union":
        x = X("union", types=[avro_x(C, e, ns, defs) for e in s["types"]], **a)
    else:
        if isinstance(t, tuple):
            al = cat(C, t[0], ".", t[1])
        else:
            al = cat(C, ns, ".", t)
        return X("proxy", alias=al, **a)
    if a.get("alias") is not None:
        defs.append((a["alias"], x))
    return x


def plain_names(C, s):
    """Replace (namespace, name) pairs by dotted names."""
    if isinstance(s, tuple):
        return cat(C, s[0], ".", s[1])
    if isinstance(s, dict):
        return {k: plain_names(C, v) for k, v in s.items()}
    if isinstance(s, list):
        return [plain_names(C, v) for v in s]
    return s


def avro_types(C):
    n = C.sym("size", "int", lo=1, hi=M)
    p, sc = C.sym("prec", "int", lo=1), C.sym("scale", "int", lo=0)
    out = {k: k for k in PRIM}
    out |= {
        "fixed": {"type": "fixed", "size": n, "name": C.tname("fx")},
        "enum": {"type": "enum", "symbols": [C.name("A"), C.name("B")], "name": C.tname("en"), "doc": C.sym("edoc")},
        "record": {"type": "record", "name": C.tname("rc"), "fields": [{"name": C.name("v"), "type": "long", "doc": C.sym("vdoc")}]},
        "record in namespace": {"type": "record", "name": C.tname("rc"), "namespace": C.name("ns2"), "fields": [{"name": C.name("v"), "type": {"type": "enum", "symbols": [C.name("A")], "name": C.tname("en")}}]},
        "dotted record": {"type": "record", "name": (C.name("ns3"), C.tname("rc")), "fields": [{"name": C.name("v"), "type": {"type": "fixed", "size": n, "name": C.tname("fx")}}]},
        "array": {"type": "array", "items": "int"},
        "array of union": {"type": "array", "items": ["null", "string"]},
        "array of record": {"type": "array", "items": {"type": "record", "name": C.tname("rc"), "fields": [{"name": C.name("v"), "type": "double"}]}},
        "map": {"type": "map", "values": "bytes"},
        "map of enum": {"type": "map", "values": {"type": "enum", "symbols": [C.name("A")], "name": C.tname("en")}},
        "union": ["null", "int"],
        "union last null": ["string", "null"],
        "union of record": ["null", {"type": "record", "name": C.tname("rc"), "fields": []}],
        "union of array": ["null", {"type": "array", "items": "long"}],
        "union form": {"type": "union", "types": ["string", "null"]},
        "decimal": {"type": "bytes", "logicalType": "decimal", "precision": p, "scale": sc},
        "decimal without scale": {"type": "bytes", "logicalType": "decimal", "precision": p},
        "decimal fixed": {"type": "fixed", "size": n, "logicalType": "decimal", "precision": p, "scale": sc, "name": C.tname("fx")},
        "optional date": ["null", {"type": "int", "logicalType": "date"}],
    }
    for k, b in (("uuid", "string"), ("date", "int"), ("time-millis", "int"), ("time-micros", "long"), ("timestamp-millis", "long"), ("timestamp-micros", "long"), ("duration", "fixed")):
        out[k] = {"type": b, "logicalType": k, **({"size": 12, "name": C.tname("dur")} if k == "duration" else {})}
    return out


AVRO = list(PRIM) + [
    "fixed", "enum", "record", "record in namespace", "dotted record", "array", "array of union", "array of record", "map", "map of enum", "union",
    "union last null", "union of record", "union of array", "union form", "decimal", "decimal without scale", "decimal fixed", "optional date",
    "uuid", "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "duration",
]


def avro_read(ck):
    ck.rule("the type read from an Avro schema has every field, in order, with the type, size, doc and default the schema gives; named types are registered under their full name and references lead to them")

    def judge(C, s, ns_arg=None):
        conv = C.new("recap.converters.avro:AvroConverter")
        text = JsonText(plain_names(C, s))
        o = C.meth(conv, "to_recap", text) if ns_arg is None else C.meth(conv, "to_recap", text, ns_arg)
        defs = []
        want = avro_x(C, s, ns_arg, defs)
        v = C.ok_value(o, f"reading {show(plain_names(C, s))}")
        d = diff(C.I, v, want)
        if d:
            C.fail(f"{show(plain_names(C, s))}: {d}")
        reg = C.attr(conv, "registry")
        for al, x in defs:
            r = C.meth(reg, "from_alias", al)
            g = C.ok_value(r, f"the definition of {show(al)}")
            y = {k: w for k, w in x.attrs.items() if k not in ("alias", "doc", "default")}
            d = diff(C.I, g, mk(x.type_, y))
            if d:
                C.fail(f"definition of {show(al)}: {d}")
        return v

    def field(n, attrs):
        def f(C):
            t = avro_types(C)[n]
            fd = {"name": C.name("f1"), "type": t}
            if attrs:
                fd |= {"doc": C.sym("fdoc"), "default": C.sym("dflt", ("str", "int", "bool", "NoneType"))}
            s = {"type": "record", "name": C.tname("Top"), "fields": [{"name": C.name("f0"), "type": "boolean"}, fd, {"name": C.name("f2"), "type": "string"}]}
            if attrs:
                s["doc"] = C.sym("tdoc")
            ns = C.pick("namespace", ["none", "empty", "attribute", "dotted", "argument"])
            arg = None
            if ns == "empty":
                s["namespace"] = ""
            elif ns == "attribute":
                s["namespace"] = C.name("ns1")
            elif ns == "dotted":
                s["name"] = (C.name("ns1"), C.tname("Top"))
            elif ns == "argument":
                arg = C.name("nsa")
            judge(C, s, arg)

        ck.cell(f"field {n} / {'doc and default' if attrs else 'plain'}", f)

    for n in AVRO:
        for a in (False, True):
            field(n, a)

    def inline(n):
        def f(C):
            t = avro_types(C)[n]
            s = {"type": "record", "name": C.tname("Top"), "fields": [{**t, "name": C.name("f1"), "doc": C.sym("fdoc")}]}
            judge(C, s)

        ck.cell(f"inline {n}", f)

    for n in ("array", "array of union", "array of record", "map", "map of enum", "union form", "decimal", "decimal without scale", "uuid", "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros"):
        inline(n)

    def prec(C):
        """A dotted name overrides the namespace attribute; siblings are not affected."""
        s = {
            "type": "record", "name": (C.name("ns1"), C.tname("Top")), "namespace": C.name("nsx"),
            "fields": [
                {"name": C.name("f0"), "type": {"type": "record", "name": C.tname("In"), "namespace": C.name("ns2"), "fields": [{"name": C.name("g"), "type": {"type": "enum", "symbols": [C.name("A")], "name": C.tname("e1")}}]}},
                {"name": C.name("f1"), "type": {"type": "enum", "symbols": [C.name("A")], "name": C.tname("e2")}},
                {"name": C.name("f2"), "type": {"type": "array", "items": {"type": "fixed", "name": C.tname("fx"), "size": 3}}},
            ],
        }
        judge(C, s)

    ck.cell("namespaces of nested and sibling types", prec)

    def back(C):
        """An empty namespace inside another one is the null namespace."""
        e = {"type": "enum", "symbols": [C.name("A")], "name": C.tname("e1")}
        inner = C.pick("inner", ["itself", "below"])
        s = {"type": "record", "name": C.tname("Top"), "namespace": C.name("ns1"), "fields": [
            {"name": C.name("f0"), "type": {**e, "namespace": ""} if inner == "itself" else {"type": "record", "name": C.tname("In"), "namespace": "", "fields": [{"name": C.name("g"), "type": e}]}},
            {"name": C.name("f1"), "type": {"type": "enum", "symbols": [C.name("B")], "name": C.tname("e2")}},
        ]}
        judge(C, s)

    ck.cell("null namespace inside another one", back)

    def deep(C):
        """Namespaces of several parts, given in every way; types within and references follow them."""
        n1 = cat(C, C.tname("na"), ".", C.tname("nb"), *C.pick("parts", [[], [".", C.tname("nc")]]))
        n2 = cat(C, C.tname("nd"), ".", C.tname("ne"))
        how = C.pick("namespace", ["attribute", "dotted", "argument"])
        inner = C.pick("within", [{"name": C.tname("In")}, {"name": C.tname("In"), "namespace": n2}, {"name": (n2, C.tname("In"))}])
        enum = {"type": "enum", "symbols": [C.name("A")], "name": C.tname("e1")}
        s = {"type": "record", **{"attribute": {"name": C.tname("Top"), "namespace": n1}, "dotted": {"name": (n1, C.tname("Top"))}, "argument": {"name": C.tname("Top")}}[how], "fields": [
            {"name": C.name("f0"), "type": {"type": "record", **inner, "fields": [{"name": C.name("g"), "type": enum}, {"name": C.name("h"), "type": C.tname("e1")}]}},
            {"name": C.name("f1"), "type": {"type": "fixed", "size": 3, "name": C.tname("fx")}},
            {"name": C.name("f2"), "type": {"type": "array", "items": C.tname("fx")}},
            {"name": C.name("f3"), "type": (n2 if len(inner) > 1 or isinstance(inner["name"], tuple) else n1, C.tname("e1"))},
        ]}
        v = judge(C, s, n1 if how == "argument" else None)
        for path in ((0, 1), (2,), (3,)):
            t = v
            for i in path:
                t = C.attr(t, "fields")[i]
            t = C.attr(t, "values") if path == (2,) else t
            r = C.ok_value(C.meth(t, "resolve"), f"resolve of field {path} of {show(s)}")
            C.require(C.attr(r, "type_") == ("bytes" if path == (2,) else "enum"), f"field {path} of {show(s)} leads to {show(r)}")

    ck.cell("namespaces of several parts", deep)

    def again(C):
        """A name can be defined once only."""
        size = C.sym("size", "int", lo=1, hi=M)
        kinds = [
            {"type": "enum", "symbols": [C.name("A")]}, {"type": "fixed", "size": size}, {"type": "fixed", "size": size, "logicalType": "decimal", "precision": 3},
            {"type": "record", "fields": [{"name": C.name("g"), "type": "long"}]}, {"type": "fixed", "size": 12, "logicalType": "duration"},
        ]
        one, two = C.pick("first", kinds), C.pick("second", kinds)
        n = C.tname("n")
        s = {"type": "record", "name": C.tname("Top"), "fields": [{"name": C.name("f0"), "type": {**one, "name": n}}, {"name": C.name("f1"), "type": {"type": "array", "items": {**two, "name": n}}}]}
        o = C.meth(C.new("recap.converters.avro:AvroConverter"), "to_recap", JsonText(plain_names(C, s)))
        if not o.raised:
            C.fail(f"a name that is defined twice: {show(s)} is read as {show(o.value)}")

    ck.cell("names defined twice", again)

    def many(C):
        """Many fields, and types nested deeply."""
        t = {"type": "enum", "symbols": [f"S{i}" for i in range(40)], "name": C.tname("e1")}
        for i in range(C.pick("depth", [3, 9])):
            t = [{"type": "array", "items": t}, {"type": "map", "values": t}, ["null", "int", t], {"type": "record", "name": f"R{i}", "fields": [{"name": C.name("g"), "type": t}]}][i % 4]
        prims = list(PRIM)
        judge(C, {"type": "record", "name": C.tname("Top"), "fields": [{"name": f"f{i}", "type": prims[i % len(prims)], "doc": f"d{i}", "default": i} for i in range(60)] + [{"name": C.name("deep"), "type": t}, {"name": C.name("last"), "type": prims + ["null"]}]})

    ck.cell("many fields and deep types", many)

    def any_default(C):
        """Defaults of every kind, those that are false too."""
        d = C.pick("default", [None, False, True, 0, -1, 0.0, "", "null", [], ["a"], {}, {"a": 1}, {"name": "x", "type": "int"}])
        t = C.pick("type", ["int", ["null", "string"], {"type": "array", "items": "int"}, {"type": "map", "values": "int"}])
        judge(C, {"type": "record", "name": C.tname("Top"), "fields": [{"name": C.name("f0"), "type": t, "default": d}, {"name": C.name("f1"), "type": t}]})

    ck.cell("defaults of every kind", any_default)

    def unknown_attributes(C):
        """Attributes that Avro does not define change nothing."""
        more = {C.sym("attr", apart=True): C.sym("v"), "order": "ignore", "aliases": ["other"], "length": 7, "format": "uuid", "nullable": True, "optional": True}
        t = C.pick("type", ["int", {"type": "string"}, {"type": "fixed", "size": 3, "name": "fx"}, {"type": "array", "items": "int"}])
        s = {"type": "record", "name": C.tname("Top"), "fields": [{"name": C.name("f0"), "type": t}]}
        v = {**s, "fields": [{**f, **more, "type": {**f["type"], **more} if isinstance(f["type"], dict) else f["type"]} for f in s["fields"]], **more}
        conv = C.new("recap.converters.avro:AvroConverter")
        o = C.ok_value(C.meth(conv, "to_recap", JsonText(v)), f"reading {show(v)}")
        d = diff(C.I, o, avro_x(C, s, None, []))
        if d:
            C.fail(f"{show(v)}: {d}")

    ck.cell("attributes that Avro does not know", unknown_attributes)

    def refs(C):
        ns = C.pick("namespace", [None, "ns"])
        how = C.pick("reference", ["short", "full"])
        e = C.tname("e1")
        prec, size = C.sym("prec", "int", lo=1), C.sym("size", "int", lo=1, hi=M)
        kind, x = C.pick("type", [
            ({"type": "enum", "symbols": [C.name("A"), C.name("B")]}, X("enum", symbols=[C.name("A"), C.name("B")])),
            ({"type": "fixed", "size": size}, X("bytes", bytes_=size, variable=ANYTHING)),
            ({"type": "fixed", "size": size, "logicalType": "decimal", "precision": prec, "scale": 2}, X("bytes", logical="build.recap.Decimal", bytes_=size, variable=ANYTHING, precision=prec, scale=2)),
            ({"type": "fixed", "size": 12, "logicalType": "duration"}, LOGI["duration"]),
            ({"type": "record", "fields": [{"name": C.name("g"), "type": "long"}]}, X("struct", fields=[X("int", bits=64, signed=True, name=C.name("g"))])),
        ])
        s = {
            "type": "record", "name": C.tname("Top"), **({"namespace": C.name("ns1")} if ns else {}),
            "fields": [
                {"name": C.name("f0"), "type": {**kind, "name": e}},
                {"name": C.name("f1"), "doc": C.sym("fdoc"), "default": C.sym("dflt"), "type": e if how == "short" else ((C.name("ns1") if ns else "_root"), e)},
                {"name": C.name("f2"), "type": ["null", e], "default": None},
                {"name": C.name("f3"), "type": {"type": "array", "items": e}},
                {"name": C.name("f4"), "type": {"type": "map", "values": e}},
                {"name": C.name("f5"), "type": ["null", C.tname("Top")], "default": None},
            ],
        }
        v = judge(C, s)
        fs = C.attr(v, "fields")
        r = C.ok_value(C.meth(fs[1], "resolve"), "resolve of a reference")
        d = diff(C.I, r, x.but(name=C.name("f1"), doc=C.sym("fdoc"), default=C.sym("dflt")))
        if d:
            C.fail(f"resolved reference: {d}")
        r = C.ok_value(C.meth(C.attr(fs[5], "types")[1], "resolve"), "resolve of a recursive reference")
        C.require(C.attr(r, "type_") == "struct" and len(C.attr(r, "fields")) == 6, "recursive reference")

    ck.cell("references", refs)

    def same_names(C):
        """Fields may share names with fields of other records, with types and with the record."""
        i = C.name("idf")
        T = C.tname("Top")
        s = {"type": "record", "name": T, "fields": [
            {"name": i, "type": "int"},
            {"name": T, "type": "string"},
            {"name": C.name("in"), "type": {"type": "record", "name": C.tname("In"), "fields": [{"name": i, "type": "long"}, {"name": C.tname("In"), "type": "boolean"}]}},
        ]}
        judge(C, s)

    ck.cell("names used twice", same_names)

    def refuse(C):
        rec = lambda t: {"type": "record", "name": C.tname("T"), "fields": [{"name": "a", "type": t}]}
        s = C.pick("schema", [
            "string", {"type": "int"}, {"type": "array", "items": "int"}, {"type": "enum", "symbols": ["A"], "name": "e"}, {"type": "map", "values": "int"},
            rec({"items": "int"}), rec({"type": "bytes", "logicalType": "decimal"}),
        ])
        o = C.meth(C.new("recap.converters.avro:AvroConverter"), "to_recap", JsonText(s))
        if not o.raised:
            C.fail(f"{show(s)} is read as {show(o.value)}")

    ck.cell("schemas that are refused", refuse)


# --------------------------------------------------------------- JSON schema (C12)
def json_x(C, s):
    if isinstance(s, str):
        s = {"type": s}
    a = {}
    if "description" in s:
        a["doc"] = s["description"]
    if "default" in s:
        a["default"] = s["default"]
    if "$alias" in s:
        a["alias"] = s["$alias"]
    t = s.get("type")
    if "$proxy" in s:
        return X("proxy", alias=s["$proxy"], **a)
    if isinstance(t, list):
        return X("union", types=[json_x(C, e) for e in t], **a)
    if t == "object":
        fs = []
        for k, p in s["properties"].items():
            f = json_x(C, p)
            if not any(k is r or leaf_eq(C.I, k, r) for r in s.get("required", [])):
                if f.type_ == "null":
                    f = f.but(default=f.attrs.get("default"))
                elif f.type_ == "union":
                    if not any(e.type_ == "null" for e in f.attrs["types"]):
                        f = f.but(types=[X("null")] + f.attrs["types"])
                    f = f.but(default=f.attrs.get("default"))
                else:
                    up = {"default": f.attrs.get("default"), "doc": f.attrs.get("doc")}
                    rest = {k2: v for k2, v in f.attrs.items() if k2 not in ("doc", "default")}
                    f = X("union", types=[X("null"), mk(f.type_, rest)], **up)
            fs.append(f.but(name=k))
        return X("struct", fields=fs, **a)
    if t == "array":
        return X("list", values=json_x(C, s["items"]), **a)
    if t == "string":
        fm = s.get("format")
        if fm in ("byte", "bytes"):
            return X("bytes", **a)
        lg = {"date": "org.iso.8601.Date", "date-time": "org.iso.8601.DateTime", "time": "org.iso.8601.Time"}.get(fm) if isinstance(fm, str) else None
        return X("string", logical=lg, **a)
    return {"number": X("float", bits=64), "integer": X("int", bits=32, signed=True), "boolean": X("bool"), "null": X("null")}[t].but(**a)


def json_types(C):
    g = C.name("g")
    return {
        "string": {"type": "string"},
        "byte": {"type": "string", "format": "byte"},
        "bytes": {"type": "string", "format": "bytes"},
        "date": {"type": "string", "format": "date"},
        "date-time": {"type": "string", "format": "date-time"},
        "time": {"type": "string", "format": "time"},
        "other format": {"type": "string", "format": C.sym("fmt", apart=True)},
        "number": {"type": "number"},
        "integer": {"type": "integer"},
        "boolean": {"type": "boolean"},
        "null": {"type": "null"},
        "list of types": {"type": ["string", "boolean"]},
        "nullable list of types": {"type": ["null", "integer"]},
        "nullable last": {"type": ["integer", "null"]},
        "array": {"type": "array", "items": {"type": "integer"}},
        "array of nullable": {"type": "array", "items": {"type": ["null", "string"]}},
        "array of arrays": {"type": "array", "items": {"type": "array", "items": {"type": "number"}}},
        "array of objects": {"type": "array", "items": {"type": "object", "properties": {g: {"type": "boolean", "description": C.sym("gdoc")}}, "required": [g]}},
        "object": {"type": "object", "properties": {g: {"type": "string"}}},
        "object required": {"type": "object", "properties": {g: {"type": "string"}, C.name("h"): {"type": "number"}}, "required": [C.name("h")]},
        "empty object": {"type": "object", "properties": {}},
    }


JTYPES = [
    "string", "byte", "bytes", "date", "date-time", "time", "other format", "number", "integer", "boolean", "null", "list of types", "nullable list of types", "nullable last",
    "array", "array of nullable", "array of arrays", "array of objects", "object", "object required", "empty object",
]


def strip_marks(s):
    if isinstance(s, dict):
        return {k: strip_marks(v) for k, v in s.items() if k not in ("$alias", "$proxy")}
    if isinstance(s, list):
        return [strip_marks(v) for v in s]
    return s


def json_read(ck):
    ck.rule("the type read from a JSON schema has every property, in order, with its type, description and default; a property is nullable with a default exactly when it is not required")
    CONV = "recap.converters.json_schema:JSONSchemaConverter"

    def offline(C):
        """Whatever the schemas at hand answer is not fetched."""

        def get(I, a, k):
            I.throw("RuntimeError", "no such server")

        C.I.hooks.setdefault("httpx.get", get)

    def judge(C, s, want=None):
        offline(C)
        conv = C.new(CONV)
        o = C.meth(conv, "to_recap", JsonText(strip_marks(s)))
        v = C.ok_value(o, f"reading {show(strip_marks(s))}")
        d = diff(C.I, v, want or json_x(C, s))
        if d:
            C.fail(f"{show(strip_marks(s))}: {d}")

    def prop(n, attrs, req):
        def f(C):
            t = dict(json_types(C)[n])
            if "doc" in attrs:
                t["description"] = C.sym("fdoc")
            if "default" in attrs:
                t["default"] = C.sym("dflt", ("str", "int", "bool", "NoneType"))
            p = C.name("f1")
            s = {"type": "object", "properties": {C.name("f0"): {"type": "boolean"}, p: t, C.name("f2"): {"type": "string"}}}
            r = {"none": None, "this": [p], "others": [C.name("f0"), C.name("f2")], "all": [C.name("f2"), p, C.name("f0")], "unknown": [C.name("zz")]}[req]
            if r is not None:
                s["required"] = r
            if attrs:
                s["description"] = C.sym("tdoc")
            judge(C, s)

        ck.cell(f"property {n} / {attrs or 'plain'} / required: {req}", f)

    for n in JTYPES:
        for attrs in ("", "doc", "default", "doc default"):
            for req in ("none", "this", "others", "all", "unknown"):
                prop(n, attrs, req)

    def any_default(C):
        """Defaults of every kind, those that are false too."""
        dv = C.pick("default", [None, False, True, 0, -1, 0.0, "", "null", [], ["a"], {}, {"a": 1}, {"type": "x"}])
        t = C.pick("type", [{"type": "integer"}, {"type": ["null", "string"]}, {"type": "array", "items": {"type": "string"}}, {"type": "object", "properties": {}}])
        f = [C.name("f0"), C.name("f1")]
        judge(C, {"type": "object", "properties": {n: {**t, "default": dv} for n in f}, "required": f[:1]})

    ck.cell("defaults of every kind", any_default)

    def keywords(C):
        """Keywords that say nothing about type, format, description or default change nothing."""
        more = C.pick("keywords", [
            {"title": "T", "$comment": "c", "examples": ["e"], "deprecated": True}, {"readOnly": True}, {"writeOnly": True}, {"nullable": True}, {"optional": True},
            {"minimum": 0, "maximum": 10, "multipleOf": 1}, {"minLength": 1, "maxLength": 36, "pattern": "^[0-9]+$", "contentEncoding": "base64"},
            {"enum": ["a"], "const": "a"}, {"minItems": 3, "maxItems": 3, "uniqueItems": True}, {"additionalProperties": False, "minProperties": 1},
            {C.sym("kw", apart=True): C.sym("v")}, {"name": "x", "alias": "a.b", "logical": "l", "bits": 8},
        ])
        n = C.pick("type", JTYPES)
        t = json_types(C)[n]
        f = [C.name("f0"), C.name("f1")]
        s = {"type": "object", "properties": dict.fromkeys(f, t), "required": f[:1]}
        offline(C)
        v = {**s, **{k: w for k, w in more.items() if k != "enum"}, "properties": dict.fromkeys(f, {**t, **more})}
        o = C.ok_value(C.meth(C.new(CONV), "to_recap", JsonText(v)), f"reading {show(v)}")
        d = diff(C.I, o, json_x(C, s))
        if d:
            C.fail(f"{show(v)}: {d}")

    ck.cell("keywords that say nothing about the type", keywords)

    def formats(C):
        """Other formats, and other spellings, are no formats that Recap knows."""
        f = [C.name("f0"), C.name("f1")]
        fmt = C.pick("format", ["binary", "base64", "uuid", "email", "duration", "datetime", "Date", "DATE-TIME", "date ", "", "timestamp", "decimal", "int64", "bool", "null", "unknown"])
        judge(C, {"type": "object", "properties": {f[0]: {"type": "string", "format": fmt}, f[1]: {"type": "array", "items": {"type": "string", "format": fmt}}}, "required": f})

    ck.cell("formats that Recap does not know", formats)

    def many(C):
        """Many properties, and types nested deeply."""
        t = {"type": "string", "format": "date"}
        for i in range(C.pick("depth", [3, 8])):
            t = [{"type": "array", "items": t, "description": f"d{i}"}, {"type": "object", "properties": {C.name("g"): t, C.name("h"): {"type": "null"}}, "required": [C.name("g")][: i % 3]}][i % 2]
        names = [f"n{i}" for i in range(40)]
        one = json_types(C)
        judge(C, {"type": "object", "properties": {**{n: {**one[JTYPES[i % len(JTYPES)]], "description": n, "default": i} for i, n in enumerate(names)}, C.name("deep"): t}, "required": [*names[::3], C.name("deep")]})

    ck.cell("many properties and deep types", many)

    def similar(C):
        """Required is the property of that very name."""
        a, b, r = C.pick("names", [("id", "user_id", ["user_id"]), ("a", "ab", ["ab"]), ("a b", "b", ["a b"]), ("A", "a", ["a"]), ("x", "", ["x"]), ("", "y", [""])])
        judge(C, {"type": "object", "properties": {a: {"type": "string"}, b: {"type": "integer"}}, "required": r})

    ck.cell("properties of similar names", similar)

    def ids(C):
        """$id gives an alias: the reversed domain and the path."""
        a, b, p, q = C.name("a"), C.name("b"), C.name("p"), C.name("q")
        for uri, al in (
            (SStr(["https://", a, ".", b, "/", p, "/", q]), SStr([b, ".", a, ".", p, ".", q])),
            (SStr(["http://", a, ".", b, "/", p, ".schema.json"]), SStr([b, ".", a, ".", p, ".schema.json"])),
            (SStr(["https://", a, ".", b]), SStr([b, ".", a])),
            (SStr(["https://", a, ".", b, "/"]), SStr([b, ".", a])),
            ("https://Example.com/Foo-Bar/baz", "com.Example.foo.bar.baz"),
            ("https://example.com/-/foo/-/", "com.example.foo"),
            ("https://example.com/schemas/v1.2/person.json", "com.example.schemas.v1.2.person.json"),
            ("https://example.com:8080/foo", "com:8080.example.foo"),
        ):
            s = {"$id": uri, "$alias": al, "type": "object", "properties": {C.name("f"): {"type": "string"}}}
            judge(C, s)

    ck.cell("aliases of identified schemas", ids)

    def nested(C):
        u = SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name("p")])
        al = SStr([C.name("b"), ".", C.name("a"), ".", C.name("p")])
        top = SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name("top")])
        tal = SStr([C.name("b"), ".", C.name("a"), ".", C.name("top")])
        kw = C.pick("keyword", ["$ref", "$dynamicRef"])
        s = {"$id": top, "$alias": tal, "type": "object", "properties": {
            C.name("f0"): {"$id": u, "$alias": al, "type": "object", "properties": {C.name("g"): {"type": "integer"}}},
            C.name("f1"): {kw: u, "$proxy": al, "description": C.sym("fdoc"), "default": C.sym("dflt")},
            C.name("f2"): {"type": "array", "items": {kw: top, "$proxy": tal}},
        }, "required": [C.name("f0")]}
        judge(C, s)

    ck.cell("references", nested)

    DRAFT = "https://json-schema.org/draft/2020-12/schema"

    def other(C):
        """A schema of its own, and a schema that refers to it twice."""
        u = SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name("p")])
        al = SStr([C.name("b"), ".", C.name("a"), ".", C.name("p")])
        inner = {"$schema": DRAFT, "$id": u, "$alias": al, "type": "object", "properties": {C.name("g"): {"type": "integer"}}}
        f0, f1 = C.name("f0"), C.name("f1")
        place = C.pick("place", ["property", "items", "not required"])
        ref = {"property": {"$ref": u}, "items": {"type": "array", "items": {"$ref": u}}, "not required": {"$ref": u}}[place]
        s = {"type": "object", "properties": {f0: ref, f1: {"$ref": u, "$proxy": al}}, "required": [f0, f1] if place != "not required" else [f1]}
        x = json_x(C, inner)
        x = {"property": x, "items": X("list", values=x), "not required": X("union", types=[X("null"), x], default=None, doc=None)}[place]
        return u, al, inner, s, X("struct", fields=[x.but(name=f0), X("proxy", alias=al, name=f1)])

    def retrieved(C):
        u, al, inner, s, want = other(C)
        got = []

        def fetch(I, a, k):
            got.append(a[0])
            return C.new("environment:Object", text=JsonText(strip_marks(inner)), content=JsonText(strip_marks(inner)), json=Native("json", lambda I, a, k: strip_marks(inner)))

        C.I.hooks["httpx.get"] = fetch
        judge(C, s, want)
        C.require(len(got) == 1 and leaf_eq(C.I, got[0], u), f"retrieved {show(got)} instead of {show(u)} once")

    ck.cell("schemas that are retrieved", retrieved)

    def own(C):
        """The registry that the caller gives is where references are looked up."""
        offline(C)
        u, al, inner, s, want = other(C)
        how = C.pick("registry", ["retrieves", "holds the schema"])
        res = lambda: C.run(C.get("referencing:Resource.from_contents"), strip_marks(inner)).value
        if how == "retrieves":
            reg = C.new("referencing:Registry", retrieve=Native("retrieve", lambda I, a, k: res()))
        else:
            reg = C.meth(C.new("referencing:Registry"), "with_resource", u, res()).value
            want = X("struct", fields=[w if i else rebuilt(w, X("proxy", alias=al)) for i, w in enumerate(want.attrs["fields"])])
        v = C.ok_value(C.meth(C.new(CONV, reg), "to_recap", JsonText(strip_marks(s))), f"reading {show(strip_marks(s))} with a registry that {how}")
        d = diff(C.I, v, want)
        if d:
            C.fail(f"{show(strip_marks(s))} with a registry that {how}: {d}")

    def rebuilt(w, x):
        """The description `w` of a field, with x in place of the struct in it."""
        if w.type_ == "struct":
            return x.but(name=w.attrs["name"])
        if w.type_ == "list":
            return w.but(values=x)
        return w.but(types=[X("null"), x])

    ck.cell("registries of the caller", own)

    def forward(C):
        """References to a schema that is defined in the same document, but later."""
        u = SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name("p")])
        al = SStr([C.name("b"), ".", C.name("a"), ".", C.name("p")])
        top = SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name("top")])
        tal = SStr([C.name("b"), ".", C.name("a"), ".", C.name("top")])
        inner = {"$id": u, "$alias": al, "type": "object", "properties": {C.name("g"): {"type": "integer"}}}
        place = C.pick("place", ["property", "items"])
        f = [C.name(f"f{i}") for i in range(3)]
        s = {"$id": top, "$alias": tal, "type": "object", "properties": {f[0]: {"$ref": u}, f[1]: inner if place == "property" else {"type": "array", "items": inner}, f[2]: {"$ref": u, "$proxy": al}}, "required": f}
        x = json_x(C, inner)
        want = X("struct", alias=tal, fields=[x.but(name=f[0]), (x if place == "property" else X("list", values=x)).but(name=f[1]), X("proxy", alias=al, name=f[2])])
        judge(C, s, want)

    ck.cell("references to what follows", forward)

    def refuse(C):
        s = C.pick("schema", [{"type": "string"}, {"type": "array", "items": {"type": "string"}}, {"type": C.sym("t", apart=True)}, *({"type": "object", "properties": {"a": {"type": t}}} for t in ("Object", "int", "long", "any", "date", "file", "enum", "bytes", "float", "bool", "", "String", "array", None, 1)), {}, {"type": "array"}, {"type": "object", "properties": {"a": {"type": C.sym("t", apart=True)}}}, {"type": "object", "properties": {"a": {"type": "array"}}}, {"type": "object", "properties": {"a": {}}}])
        o = C.meth(C.new(CONV), "to_recap", JsonText(s))
        if not o.raised:
            C.fail(f"{show(s)} is read as {show(o.value)}")

    ck.cell("schemas that are refused", refuse)

    def strategy(C):
        seen = []

        def strat(I, a, k):
            seen.append(a[0])
            return "my.alias"

        s = {"$id": C.name("u"), "$alias": "my.alias", "type": "object", "properties": {C.name("f"): {"$ref": C.name("u"), "$proxy": "my.alias"}}, "required": [C.name("f")]}
        o = C.meth(C.new(CONV), "to_recap", JsonText(strip_marks(s)), Native("strategy", strat))
        v = C.ok_value(o, "reading with an alias strategy")
        d = diff(C.I, v, json_x(C, s))
        if d:
            C.fail(f"alias strategy: {d}")

    ck.cell("alias strategy", strategy)


# ----------------------------------------------------------------- Protobuf (C14)
PROTO = {
    "string": X("string", bytes_=2_147_483_648),
    "bool": X("bool"),
    "bytes": X("bytes", bytes_=2_147_483_648),
    "int32": X("int", bits=32, signed=True),
    "int64": X("int", bits=64, signed=True),
    "uint32": X("int", bits=32, signed=False),
    "uint64": X("int", bits=64, signed=False),
    "sint32": X("int", bits=32, signed=True),
    "sint64": X("int", bits=64, signed=True),
    "float": X("float", bits=32),
    "double": X("float", bits=64),
    "fixed32": X("int", bits=32, signed=False),
    "fixed64": X("int", bits=64, signed=False),
    "sfixed32": X("int", bits=32, signed=True),
    "sfixed64": X("int", bits=64, signed=True),
    "google.protobuf.Timestamp": X("int", logical="build.recap.Timestamp", bits=64, signed=True, unit="nanosecond", timezone="UTC"),
    "google.protobuf.Duration": X("int", logical="build.recap.Duration", bits=64, signed=True, unit="nanosecond"),
    "google.protobuf.NullValue": X("null"),
}


def P(C, cls, *a, **k):
    return C.new("proto_schema_parser.ast:" + cls, *a, **k)


class Later:
    """A reference whose expansion depends on what was read before."""

    def __init__(self, alias):
        self.alias = alias


def proto_read(ck):
    ck.rule("the type read from a Protobuf file is its first message: fields in order with the type of the table; not required means nullable with default null; repeated is a list; a message or enum is written out at its first use and referred to afterwards")
    CONV = "recap.converters.protobuf:ProtobufConverter"

    def card(C, c):
        return None if c is None else C.get("proto_schema_parser.ast:FieldCardinality." + c)

    def read(C, els, ns=None):
        C.I.hooks["proto.parse"] = lambda I, a, k: P(C, "File", file_elements=els)
        conv = C.new(CONV) if ns is None else C.new(CONV, ns)
        return C.meth(conv, "to_recap", C.sym("text"))

    def fx(C, t, c, name):
        x = PROTO[t] if isinstance(t, str) else t
        if c == "REPEATED":
            x = X("list", values=x)
        if c != "REQUIRED":
            if x.type_ == "null":
                return x.but(default=None, name=name)
            return X("union", types=[X("null"), x], default=None, name=name)
        return x.but(name=name)

    def judge(C, o, want, what):
        v = C.ok_value(o, what)
        d = diff(C.I, v, want)
        if d:
            C.fail(f"{what}: {d}")

    def scalar(t):
        for c in (None, "REQUIRED", "OPTIONAL", "REPEATED"):
            def f(C, c=c):
                els = [P(C, "Package", C.name("pk")), P(C, "Message", C.tname("Top"), [
                    P(C, "Field", C.name("f0"), 1, "bool", card(C, "REQUIRED")), P(C, "Field", C.name("f1"), C.sym("no", "int", lo=1), t, card(C, c)), P(C, "Field", C.name("f2"), 3, "string", card(C, "REQUIRED"))])]
                want = X("struct", alias=SStr([C.name("pk"), ".", C.tname("Top")]), fields=[fx(C, "bool", "REQUIRED", C.name("f0")), fx(C, t, c, C.name("f1")), fx(C, "string", "REQUIRED", C.name("f2"))])
                judge(C, read(C, els), want, f"field of type {t}, {c}")

            ck.cell(f"{t} / {c}", f)

    for t in PROTO:
        scalar(t)

    def maps(C):
        k = C.pick("key", [k for k, x in PROTO.items() if x.type_ in ("int", "string", "bool") and "." not in k])
        v = C.pick("value", [v for v in PROTO])
        els = [P(C, "Message", C.tname("Top"), [P(C, "MapField", C.name("f1"), 1, k, v)])]
        want = X("struct", alias=SStr(["_root.", C.tname("Top")]), fields=[X("union", types=[X("null"), X("map", keys=PROTO[k], values=PROTO[v])], default=None, name=C.name("f1"))])
        judge(C, read(C, els), want, f"map<{k}, {v}>")

    ck.cell("maps", maps)

    def oneof(C):
        t = C.pick("type", list(PROTO)[:17])
        c = C.pick("cardinality", [None, "OPTIONAL"])
        els = [P(C, "Message", C.tname("Top"), [P(C, "Field", C.name("f0"), 1, "bool", card(C, "REQUIRED")),
               P(C, "OneOf", C.name("u"), [P(C, "Field", C.name("o1"), 2, t, card(C, c)), P(C, "Field", C.name("o2"), 3, "bool"), P(C, "Field", C.name("o3"), 4, t)]), P(C, "Field", C.name("f2"), 5, "string")])]
        want = X("struct", alias=SStr(["_root.", C.tname("Top")]), fields=[fx(C, "bool", "REQUIRED", C.name("f0")),
               X("union", types=[X("null"), PROTO[t].but(name=C.name("o1")), X("bool", name=C.name("o2")), PROTO[t].but(name=C.name("o3"))], default=None, name=C.name("u")), fx(C, "string", None, C.name("f2"))])
        judge(C, read(C, els), want, f"oneof of {t}")

    ck.cell("oneofs", oneof)

    def names(C):
        ns = C.pick("namespace", [None, "arg"])
        pk = C.pick("package", ["first", "last", None])
        msg = P(C, "Message", C.tname("Top"), [P(C, "Field", C.name("f0"), 1, C.tname("E"), card(C, "REQUIRED"))])
        en = P(C, "Enum", C.tname("E"), [P(C, "EnumValue", C.name("A"), 0), P(C, "EnumValue", C.name("B"), 1)])
        p = [P(C, "Package", C.name("pk"))]
        els = (p if pk == "first" else []) + [msg, en] + (p if pk == "last" else [])
        space = C.name("pk") if pk else C.name("na") if ns else "_root"
        want = X("struct", alias=cat(C, space, ".", C.tname("Top")), fields=[X("enum", symbols=[C.name("A"), C.name("B")], alias=cat(C, space, ".", C.tname("E")), name=C.name("f0"))])
        judge(C, read(C, els, C.name("na") if ns else None), want, "names")

    ck.cell("namespaces and enums", names)

    def uses(C):
        """A message used several times, before and after its declaration, nested or not, in several places."""
        first = C.pick("declared", ["before", "after", "nested"])
        inner = lambda: P(C, "Message", C.tname("In"), [P(C, "Field", C.name("v"), 1, "int32", card(C, "REQUIRED"))])
        ref = C.pick("reference", [C.tname("In"), SStr([C.name("pk"), ".", C.tname("In")]), SStr([".", C.name("pk"), ".", C.tname("In")])])
        place = C.pick("place", ["field", "optional", "repeated", "map", "oneof"])

        def use(n, i):
            if place == "field":
                return P(C, "Field", C.name(n), i, ref, card(C, "REQUIRED"))
            if place == "optional":
                return P(C, "Field", C.name(n), i, ref, card(C, "OPTIONAL"))
            if place == "repeated":
                return P(C, "Field", C.name(n), i, ref, card(C, "REPEATED"))
            if place == "map":
                return P(C, "MapField", C.name(n), i, "string", ref)
            return P(C, "OneOf", C.name(n), [P(C, "Field", C.name(n + "a"), i, ref), P(C, "Field", C.name(n + "b"), i + 5, "bool")])

        def want(n, x):
            if place == "field":
                return x.but(name=C.name(n))
            if place == "optional":
                return X("union", types=[X("null"), x], default=None, name=C.name(n))
            if place == "repeated":
                return X("union", types=[X("null"), X("list", values=x)], default=None, name=C.name(n))
            if place == "map":
                return X("union", types=[X("null"), X("map", keys=PROTO["string"], values=x)], default=None, name=C.name(n))
            return X("union", types=[X("null"), x.but(name=C.name(n + "a")), X("bool", name=C.name(n + "b"))], default=None, name=C.name(n))

        fs = [use("f1", 1), use("f2", 2), P(C, "Field", C.name("f3"), 3, "bool", card(C, "REQUIRED"))]
        al = SStr([C.name("pk"), ".", C.tname("In")])
        if first == "nested":
            els = [P(C, "Message", C.tname("Top"), [inner()] + fs)]
        elif first == "before":
            els = [P(C, "Message", C.tname("Top"), fs), inner()]
        else:
            els = [P(C, "Message", C.tname("Top"), fs), P(C, "Message", C.tname("Mid"), []), inner()]
        els = [P(C, "Package", C.name("pk"))] + els
        st = X("struct", fields=[X("int", bits=32, signed=True, name=C.name("v"))], alias=al)
        w = X("struct", alias=SStr([C.name("pk"), ".", C.tname("Top")]), fields=[want("f1", st), want("f2", X("proxy", alias=al)), X("bool", name=C.name("f3"))])
        judge(C, read(C, els), w, f"message used twice ({place}, {first})")

    ck.cell("messages used twice", uses)

    def qualified(C):
        """Packages of several parts, and types by their full name with or without the dot that says so."""
        pk = C.pick("package", ["a.b", "a.b.c.d", cat(C, C.tname("p1"), ".", C.tname("p2"))])
        dot = C.pick("written", ["", "."])
        req = card(C, "REQUIRED")
        full = lambda n: cat(C, dot, pk, ".", C.tname(n))
        ts = [t for t in PROTO if "." in t]
        els = [P(C, "Package", pk), P(C, "Message", C.tname("Top"), [
            P(C, "Field", C.name("f0"), 1, full("In"), req), P(C, "Field", C.name("f1"), 2, full("E"), req), P(C, "MapField", C.name("f2"), 3, "string", full("In")), P(C, "Field", C.name("f3"), 4, C.tname("E"), req),
            *(P(C, "Field", C.name(f"w{i}"), 5 + i, dot + t, req) for i, t in enumerate(ts)),
        ]), P(C, "Enum", C.tname("E"), [P(C, "EnumValue", C.name("A"), 0)]), P(C, "Message", C.tname("In"), [P(C, "Field", C.name("v"), 1, "int32", req), P(C, "Field", C.name("b"), 2, full("Top"), req)])]
        al = lambda n: cat(C, pk, ".", C.tname(n))
        px = lambda n, **a: X("proxy", alias=al(n), **a)
        want = X("struct", alias=al("Top"), fields=[
            X("struct", alias=al("In"), fields=[X("int", bits=32, signed=True, name=C.name("v")), px("Top", name=C.name("b"))], name=C.name("f0")),
            X("enum", symbols=[C.name("A")], alias=al("E"), name=C.name("f1")),
            X("union", types=[X("null"), X("map", keys=PROTO["string"], values=px("In"))], default=None, name=C.name("f2")), px("E", name=C.name("f3")),
            *(PROTO[t].but(name=C.name(f"w{i}")) for i, t in enumerate(ts)),
        ])
        judge(C, read(C, els), want, f"types of the package {show(pk)} by their full names")

    ck.cell("fully qualified names", qualified)

    def many(C):
        """Many fields and symbols, large oneofs, and messages nested deeply."""
        req = card(C, "REQUIRED")
        ts = [t for t in PROTO if "." not in t]
        n = C.pick("fields", [3, 45])
        fs = [P(C, "Field", f"f{i}", 100 - i, ts[i % len(ts)], req) for i in range(n)]
        one = [P(C, "Field", f"o{i}", 200 - i, ts[i % len(ts)]) for i in range(n)]
        syms = [f"S{n - i}" for i in range(n)]
        chain = [P(C, "Message", f"M{i}", [P(C, "Field", "c", 1, f"M{i + 1}" if i < 9 else "E", req)]) for i in range(10)]
        order = C.pick("order", [chain, chain[::-1]])
        els = [P(C, "Message", C.tname("Top"), [*fs, P(C, "OneOf", "u", one), P(C, "Field", "deep", 300, "M0", req), P(C, "Enum", "E", [P(C, "EnumValue", s, i) for i, s in enumerate(syms)])]), *order]
        x = X("enum", symbols=syms, alias="_root.E")
        for i in range(9, -1, -1):
            x = X("struct", fields=[x.but(name="c")], alias=f"_root.M{i}")
        want = X("struct", alias=SStr(["_root.", C.tname("Top")]), fields=[
            *(PROTO[ts[i % len(ts)]].but(name=f"f{i}") for i in range(n)),
            X("union", types=[X("null"), *(PROTO[ts[i % len(ts)]].but(name=f"o{i}") for i in range(n))], default=None, name="u"), x.but(name="deep")])
        judge(C, read(C, els), want, "a large file")

    ck.cell("many fields and deep messages", many)

    def inside(C):
        """Enums and messages declared inside messages, to any depth."""
        kind = C.pick("declares", ["enum", "message"])
        depth = C.pick("depth", [1, 2])
        order = C.pick("declared", ["before its use", "after its use"])
        where = C.pick("used in", ["its message", "the other message"])
        al = SStr([C.name("pk"), ".", C.tname("In")])
        if kind == "enum":
            els = [P(C, "Option", "allow_alias", "true"), P(C, "EnumValue", C.name("A"), 0), P(C, "EnumReserved", ["2"], []), P(C, "EnumValue", C.name("B"), 1)]
            decl = P(C, "Enum", C.tname("In"), els)
            x = X("enum", symbols=[C.name("A"), C.name("B")], alias=al)
        else:
            decl = P(C, "Message", C.tname("In"), [P(C, "Field", C.name("v"), 1, "int32", card(C, "REQUIRED")), P(C, "MapField", C.name("w"), 2, "string", "bool"), P(C, "OneOf", C.name("u"), [P(C, "Field", C.name("o"), 3, "bool")])])
            x = X("struct", alias=al, fields=[X("int", bits=32, signed=True, name=C.name("v")), X("union", types=[X("null"), X("map", keys=PROTO["string"], values=X("bool"))], default=None, name=C.name("w")), X("union", types=[X("null"), X("bool", name=C.name("o"))], default=None, name=C.name("u"))])
        use = P(C, "Field", C.name("f1"), 1, C.tname("In"), card(C, "REQUIRED"))
        rest = [P(C, "Field", C.name("f2"), 2, "bool", card(C, "REQUIRED"))]
        inner = [P(C, "Option", "deprecated", "true"), P(C, "Reserved", ["7"], []), P(C, "ExtensionRange", ["100 to 200"])] + ([decl] if depth == 1 else [P(C, "Message", C.tname("Mid"), [decl])])
        f2 = X("bool", name=C.name("f2"))
        if where == "its message":
            els = [P(C, "Message", C.tname("Top"), inner + [use] + rest if order == "before its use" else [use] + rest + inner)]
        else:
            a, b = P(C, "Message", C.tname("Top"), [use] + rest), P(C, "Message", C.tname("Oth"), inner)
            if order == "before its use":
                els = [P(C, "Message", C.tname("Zero"), [P(C, "Field", C.name("z"), 1, C.tname("Top"), card(C, "REQUIRED"))]), b, a]
            else:
                els = [a, b]
        want = X("struct", alias=SStr([C.name("pk"), ".", C.tname("Top")]), fields=[x.but(name=C.name("f1")), f2])
        if where != "its message" and order == "before its use":
            want = X("struct", alias=SStr([C.name("pk"), ".", C.tname("Zero")]), fields=[want.but(name=C.name("z"))])
        judge(C, read(C, [P(C, "Import", "a.proto"), P(C, "Option", "java_package", "x"), P(C, "Package", C.name("pk"))] + els), want, f"{kind} declared inside a message")

    ck.cell("declarations inside messages", inside)

    def first(C):
        """The type is the first message of the file, whatever it has and whatever comes before and after."""
        a = P(C, "Message", C.tname("Aa"), C.pick("fields", [[], [P(C, "Option", "deprecated", "true")], [P(C, "Enum", C.tname("E"), [P(C, "EnumValue", "X", 0)])]]))
        b = P(C, "Message", C.tname("Bb"), [P(C, "Field", C.name("f"), 1, C.tname("Aa")), P(C, "Field", C.name("g"), 2, "bool")])
        en = P(C, "Enum", C.tname("En"), [P(C, "EnumValue", "X", 0)])
        els = C.pick("order", [[a, b], [en, a, b], [a, en, b], [P(C, "Package", C.name("pk")), a, b]])
        ns = C.name("pk") if len(els) == 3 and els[0].cls.name == "Package" else "_root"
        judge(C, read(C, els), X("struct", fields=[], alias=cat(C, ns, ".", C.tname("Aa"))), "an empty first message")

    ck.cell("first message", first)

    def cycle(C):
        T = C.tname("Top")
        al = SStr([C.name("pk"), ".", T])
        els = [P(C, "Package", C.name("pk")), P(C, "Message", T, [P(C, "Field", C.name("v"), 1, "int32"), P(C, "Field", C.name("n"), 2, T), P(C, "Field", C.name("m"), 3, C.tname("In"), card(C, "REPEATED"))]), P(C, "Message", C.tname("In"), [P(C, "Field", C.name("b"), 1, T), P(C, "Field", C.name("s"), 2, C.tname("In"))])]
        ial = SStr([C.name("pk"), ".", C.tname("In")])
        opt = lambda x, n: X("union", types=[X("null"), x], default=None, name=C.name(n))
        inn = X("struct", alias=ial, fields=[opt(X("proxy", alias=al), "b"), opt(X("proxy", alias=ial), "s")])
        want = X("struct", alias=al, fields=[opt(PROTO["int32"], "v"), opt(X("proxy", alias=al), "n"), opt(X("list", values=inn), "m")])
        o = read(C, els)
        judge(C, o, want, "recursive messages")

    ck.cell("recursive messages", cycle)

    def refuse(C):
        els = C.pick("file", ["no message", "unknown type", "unknown type in map", "float key", "message key"])
        e = {
            "no message": lambda: [P(C, "Enum", C.tname("E"), [])],
            "unknown type": lambda: [P(C, "Message", C.tname("Top"), [P(C, "Field", C.name("f"), 1, SStr([C.name("q"), ".", C.tname("Zz")]))])],
            "unknown type in map": lambda: [P(C, "Message", C.tname("Top"), [P(C, "MapField", C.name("f"), 1, "string", SStr([C.name("q"), ".", C.tname("Zz")]))])],
            "float key": lambda: [P(C, "Message", C.tname("Top"), [P(C, "MapField", C.name("f"), 1, "double", "string")])],
            "message key": lambda: [P(C, "Message", C.tname("Top"), [P(C, "MapField", C.name("f"), 1, C.tname("Top"), "string")])],
        }[els]()
        o = read(C, e)
        if not o.raised:
            C.fail(f"a file with {els} is read as {show(o.value)}")

    ck.cell("files that are refused", refuse)
