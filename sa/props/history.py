"""Independence: what is read, written or answered does not depend on what was asked before."""
from __future__ import annotations

from .common import *
from .common import as_x, xdiff
from .clients import Far, names_of, text, path_of, files, document
from .readers import P, avro_types, AVRO, plain_names, json_types, JTYPES, PROTO, strip_marks
from .server import target, TARGETS, gateway
from .settings import any_url, configure
from .writers import proto_seen


def fresh(C, body):
    """In a process of its own: with newly loaded modules, used for nothing else on this path."""
    I = C.I
    if I.copies_used == len(I.copies):
        I.copies.append({m: v for m, v in I.modules.items() if not (m == "recap" or m.startswith("recap."))})
    saved, I.modules = I.modules, I.copies[I.copies_used]
    I.copies_used += 1
    try:
        return body()
    finally:
        I.modules = saved


def picture(C, v):
    """A value without identities: types as descriptions, together with what their references lead to."""
    I = C.I
    v = I.canon(v)
    if isinstance(v, Inst) and "extra_attrs" in v.attrs:
        defs, seen = [], set()

        def walk(t, d=0):
            t = I.canon(t)
            if isinstance(t, (list, tuple)):
                for e in t:
                    walk(e, d)
                return
            if not (isinstance(t, Inst) and "extra_attrs" in t.attrs) or id(t) in seen:
                return
            seen.add(id(t))
            if t.attrs.get("type_") == "proxy":
                o = C.meth(t, "resolve")
                if o.raised:
                    defs.append(("refused", o.exc.cls.name))
                    return
                defs.append(as_x(I, o.value, expand=False))
                if d < 3:
                    walk(o.value, d + 1)
                return
            for k, e in t.attrs.items():
                if k not in ("registry", "extra_attrs"):
                    walk(e, d)

        walk(v)
        return ["type", as_x(I, v, expand=False), defs]
    if isinstance(v, Inst) and "file_elements" in v.attrs:
        return ["file", [proto_seen(C, e) for e in C.attr(v, "file_elements")]]
    return v


def result(C, o):
    return ["refused", o.exc.cls.name] if o.raised else ["result", picture(C, o.value)]


def differ(C, a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and a[0] in ("type", "result") and b[0] == a[0]:
        for x, y in zip(a[1:], b[1:]):
            d = differ(C, x, y)
            if d:
                return d
        return None
    return xdiff(C.I, a, b)


# ------------------------------------------------------------------------- schemas
AVRO_C = "recap.converters.avro:AvroConverter"
JSON_C = "recap.converters.json_schema:JSONSchemaConverter"
PROTO_C = "recap.converters.protobuf:ProtobufConverter"


def avro_docs(C):
    """Documents that define the same names differently."""
    top, e, f = C.tname("Top"), C.tname("en"), C.tname("fx")
    rec = lambda *fs: {"type": "record", "name": top, "fields": [{"name": C.name(f"f{i}"), "type": t} for i, t in enumerate(fs)]}
    return {
        "enum": rec({"type": "enum", "symbols": [C.name("A"), C.name("B")], "name": e}, e),
        "other enum": rec({"type": "enum", "symbols": [C.name("Q")], "name": e, "doc": C.sym("edoc")}, ["null", e]),
        "fixed under that name": rec({"type": "fixed", "size": 7, "name": e}, {"type": "array", "items": e}),
        "record under that name": rec({"type": "record", "name": e, "fields": [{"name": C.name("v"), "type": "long"}]}, {"type": "map", "values": e}),
        "reference that is not defined": rec("int", e),
        "recursive": rec("int", ["null", top]),
        "other recursive": rec(["null", top], "string", {"type": "array", "items": top}),
        "not read": rec({"type": "enum", "symbols": [C.name("A")], "name": e}, {"items": "int"}),
        "not a record": {"type": "enum", "symbols": [C.name("A")], "name": top},
        "defaults": {"type": "record", "name": top, "doc": C.sym("tdoc"), "fields": [{"name": C.name("f0"), "type": "int", "default": C.sym("dflt"), "doc": C.sym("fdoc")}, {"name": C.name("f1"), "type": ["null", "string"], "default": None}]},
        "plain": rec("int", ["null", "string"]),
        "namespace": {**rec({"type": "enum", "symbols": [C.name("A"), C.name("B")], "name": e}, e), "namespace": C.name("ns")},
    }


def json_docs(C):
    uri = lambda p: SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name(p)])
    st = lambda **fs: {"type": "object", "properties": {C.name(k): v for k, v in fs.items()}, "required": [C.name("f0")]}
    i = {"type": "integer"}
    return {
        "identified": {"$id": uri("top"), **st(f0=i, f1={"$id": uri("in"), **st(v=i)}, f2={"$ref": uri("in")})},
        "identified differently": {"$id": uri("top"), **st(f0={"type": "string"}, f1={"$id": uri("in"), **st(w={"type": "boolean"})}, f2={"type": "array", "items": {"$ref": uri("in")}})},
        "recursive": {"$id": uri("top"), **st(f0=i, f1={"$ref": uri("top"), "description": C.sym("fdoc")})},
        "plain": st(f0=i, f1={"type": "string"}),
        "defaults": st(f0={**i, "default": C.sym("dflt")}, f1={"type": "string", "description": C.sym("fdoc"), "default": None}),
        "not read": {"$id": uri("top"), **st(f0=i, f1={"$id": uri("in"), **st(v=i)}, f2={"type": C.tname("strange")})},
        "all required": {**st(f0=i, f1={"type": "string"}), "required": [C.name("f0"), C.name("f1")]},
        "reference to another document": st(f0=i, f1={"$ref": uri("in")}),
        "unions": st(f0={"type": ["null", "string"]}, f1={"type": ["string", "integer"]}),
    }


def proto_docs(C):
    T, N = C.tname("Top"), C.tname("In")
    req = lambda: C.get("proto_schema_parser.ast:FieldCardinality.REQUIRED")
    F = lambda n, i, t, c=None: P(C, "Field", C.name(n), i, t, c)
    msg = lambda n, *e: P(C, "Message", n, list(e))
    en = lambda n, *v: P(C, "Enum", n, [P(C, "EnumValue", C.name(x), i) for i, x in enumerate(v)])
    return {
        "message": lambda: [msg(T, F("f0", 1, N, req()), F("f1", 2, N)), msg(N, F("v", 1, "int32", req()))],
        "other message": lambda: [msg(T, F("f0", 1, N, req()), F("f1", 2, N)), msg(N, F("w", 1, "string"))],
        "enum under that name": lambda: [msg(T, F("f0", 1, N, req()), F("f1", 2, N)), en(N, "A", "B")],
        "package": lambda: [P(C, "Package", C.name("pk")), msg(T, F("f0", 1, N, req()), F("f1", 2, N)), msg(N, F("v", 1, "int64"))],
        "nested": lambda: [msg(T, msg(N, F("v", 1, "bool")), F("f0", 1, N, req()), F("f1", 2, N))],
        "recursive": lambda: [msg(T, F("f0", 1, T), F("f1", 2, "string"))],
        "unknown type": lambda: [msg(T, F("f0", 1, "int32"), F("f1", 2, N))],
        "package, not read": lambda: [P(C, "Package", C.name("pk")), msg(T, F("f0", 1, "int32"), F("f1", 2, N))],
        "float key": lambda: [P(C, "Package", C.name("pk")), msg(T, P(C, "MapField", C.name("f0"), 1, "double", "string"))],
        "no message": lambda: [P(C, "Package", C.name("pk")), en(N, "A")],
        "map and oneof": lambda: [msg(T, P(C, "MapField", C.name("f0"), 1, "string", N), P(C, "OneOf", C.name("u"), [F("o1", 2, "int32"), F("o2", 3, N)])), msg(N, F("v", 1, "double"))],
    }


def recap_docs(C):
    al = SStr([C.name("p"), ".", C.tname("q")])
    st = lambda *fs: {"type": "struct", "fields": [{**f, "name": C.name(f"f{i}")} for i, f in enumerate(fs)]}
    return {
        "alias": st({"type": "int", "bits": C.sym("bits", "int", lo=1, hi=64), "alias": al}, {"type": al}),
        "other alias": st({"type": "string", "bytes": 9, "alias": al}, {"type": al, "doc": C.sym("doc")}),
        "alias that is not defined": st({"type": "bool"}, {"type": al}),
        "recursive": {"type": "struct", "alias": al, "fields": [{"type": ["null", al], "default": None, "name": C.name("f0")}]},
        "built-in": st({"type": "int32"}, {"type": "decimal128", "precision": 7}, {"type": "uuid", "optional": True}),
        "built-in differently": st({"type": "int32", "signed": False}, {"type": "decimal128", "scale": C.sym("scale", "int", lo=0)}, {"type": "uuid"}),
        "not read": st({"type": "int", "bits": 8, "alias": al}, {"type": "float"}),
        "plain": st({"type": "int", "bits": 8, "default": 1, "doc": C.sym("doc")}, {"type": "list", "values": {"type": "bool"}}),
    }


def types_to_write(C):
    e = lambda *s, **k: X("enum", symbols=[C.name(x) for x in s], alias="build.recap.E", **k)
    top = lambda *fs, **k: X("struct", fields=[f.but(name=C.name(f"f{i}")) for i, f in enumerate(fs)], alias="build.recap.Top", **k)
    px = lambda a: X("proxy", alias=a)
    opt = lambda x: X("union", types=[X("null"), x], default=None)
    s = lambda *fs: X("struct", fields=[f.but(name=C.name(f"g{i}")) for i, f in enumerate(fs)], alias="build.recap.Top.In")
    return {
        "enum": top(e("A", "B"), px("build.recap.E")),
        "other enum": top(opt(e("Q")), X("list", values=px("build.recap.E"))),
        "struct": top(s(X("bool")), px("build.recap.Top.In")),
        "other struct": top(s(X("int", bits=64), X("string", bytes_=5)), opt(px("build.recap.Top.In"))),
        "plain": top(X("int", bits=8, default=C.sym("dflt"), doc=C.sym("doc")), opt(X("string", bytes_=7))),
        "built-in": top(px("int32"), px("decimal128"), px("timestamp64")),
        "recursive": top(X("bool"), opt(px("build.recap.Top"))),
        "not written": top(X("bool"), X("float", bits=C.sym("bits", "int", lo=65, hi=128)), X("map", keys=X("float", bits=64), values=X("bool"))),
        "attributes of other kinds": top(X("bool", variable=True, signed=True), X("int", bits=8, variable=True, length=None), X("string", bytes_=9, signed=True, length=None), X("float", bits=32, signed=True, variable=True)),
        "lengths": top(X("list", values=X("bool"), length=3), X("string", bytes_=9, variable=False), X("bytes", bytes_=9)),
        "many fields": top(X("bool"), X("bool"), X("union", types=[X("null"), X("bool", name=C.name("o1")), X("int", bits=8, name=C.name("o2"))], default=None), X("map", keys=X("string", bytes_=3), values=X("bool"))),
    }


def with_registry(x, reg):
    if isinstance(x, X):
        a = {k: with_registry(v, reg) for k, v in x.attrs.items()}
        if x.type_ == "proxy":
            a["registry"] = reg
        return X(x.type_, **a)
    return [with_registry(v, reg) for v in x] if isinstance(x, list) else x


def schemas(ck):
    ck.rule("a schema is read and written as in a fresh process, whatever was read or written before by other converters and whatever failed; what was read before does not change")

    def compare(C, label, one, two, again=True):
        o1 = one()
        before = result(C, o1)
        o2 = two()
        got = result(C, o2)
        want = fresh(C, lambda: result(C, two()))
        d = differ(C, got, want)
        if d:
            C.fail(f"{label}: {d}", o2.site)
        d = differ(C, result(C, o1), before)
        if d:
            C.fail(f"{label}: what came first has changed: {d}")

    def reading(fmt, docs, run):
        names = list(docs(_Dry()))

        def pair(a):
            def f(C):
                b = C.pick("then", names)
                compare(C, f"{fmt}: {b} read after {a}", lambda: run(C, docs(C)[a]), lambda: run(C, docs(C)[b]))

            ck.cell(f"{fmt}: after {a}", f)

        for a in names:
            pair(a)

    def avro(C, s, c=None):
        return C.meth(c or C.new(AVRO_C), "to_recap", JsonText(s))

    def json(C, s, c=None):
        d = {"$id": SStr(["https://", C.name("a"), ".", C.name("b"), "/", C.name("in")]), "type": "object", "properties": {C.name("far"): {"type": "number"}}}
        C.I.hooks["httpx.get"] = lambda I, a, k: C.new("environment:Object", text=JsonText(d), content=JsonText(d), json=Native("json", lambda I, a, k: d))
        return C.meth(c or C.new(JSON_C), "to_recap", JsonText(s))

    def proto(C, els, c=None):
        e = els()
        C.I.hooks["proto.parse"] = lambda I, a, k: P(C, "File", file_elements=e)
        return C.meth(c or C.new(PROTO_C), "to_recap", C.sym("text"))

    def recap(C, s):
        return C.run("recap.types:from_dict", s)

    def reused(fmt, conv, docs, run):
        """One converter that reads documents of different names."""
        names = list(docs(_Dry()))

        def pair(a):
            def f(C):
                b = C.pick("then", names)
                c = C.new(conv)
                compare(C, f"{fmt}: {b} read after other names in {a} by the same converter", lambda: run(C, docs(Renamed(C))[a], c), lambda: run(C, docs(C)[b], c if c.cls is C.get(conv) else C.new(conv)))

            ck.cell(f"{fmt}: same converter after {a}", f)

        for a in names:
            pair(a)

    reading("Avro", avro_docs, avro)
    reused("Avro", AVRO_C, avro_docs, avro)
    reused("JSON schema", JSON_C, json_docs, json)
    reused("Protobuf", PROTO_C, proto_docs, proto)
    reading("JSON schema", json_docs, json)
    reading("Protobuf", proto_docs, proto)
    reading("Recap", recap_docs, recap)

    def writing(fmt, conv, own):
        names = list(types_to_write(_Dry()))

        def pair(a):
            def f(C):
                b = C.pick("then", names)
                used = C.new(conv) if conv and own == "same" else None

                def write(x):
                    t = build(C, with_registry(x, C.new("recap.types:RecapTypeRegistry")))
                    if conv is None:
                        return C.run("recap.types:to_dict", t)
                    return C.meth(used if used is not None else C.new(conv), "from_recap", t)

                def alone():
                    nonlocal used
                    used = None
                    return write(types_to_write(C)[b])

                o1 = write(types_to_write(C)[a])
                before = result(C, o1)
                o2 = write(types_to_write(C)[b])
                got = result(C, o2)
                want = fresh(C, lambda: result(C, alone()))
                label = f"{fmt}: {b} written after {a} by {own} converter"
                d = differ(C, got, want)
                if d:
                    C.fail(f"{label}: {d}", o2.site)
                d = differ(C, result(C, o1), before)
                if d:
                    C.fail(f"{label}: what came first has changed: {d}")

            ck.cell(f"{fmt}: after {a}, {own} converter", f)

        for a in names:
            pair(a)

    for fmt, conv in (("Avro", AVRO_C), ("JSON schema", JSON_C), ("Protobuf", PROTO_C)):
        for own in ("another", "the same"):
            writing("to " + fmt, conv, "same" if own == "the same" else own)
    writing("to Recap", None, "another")


# ------------------------------------------------------------------------ requests
def requests(ck):
    ck.rule("each listing or schema is answered from what its source holds at the time of the request and connects as the request says, as in a fresh process, whatever was asked before")

    def ask(C, how, op, url, conf, N, fmt, keep=False):
        """(answer, connections) of one request to a world with these names; the configuration stays as the process has it, or is set."""
        far = Far(C, N)
        C.I.hooks["proto.generate"] = lambda I, a, k: ["generated", [proto_seen(C, e) for e in C.attr(a[0], "file_elements")]]
        if not keep:
            configure(C, [any_url(C, *c) for c in conf])
        if how == "gateway":
            r = gateway(C, op, url, {"content-type": fmt} if fmt and op == "schema" else None)
            got = [r.status, r.value]
        elif fmt and op == "schema":
            f = C.I.getattr(C.get("recap.commands:SchemaFormat"), {"application/schema+json": "json", "application/avro+json": "avro"}[fmt])
            o = C.run(f"recap.commands:{op}", url, f, how == "strict")
            got = result(C, o)
        else:
            got = result(C, C.run(f"recap.commands:{op}", url, strict=how == "strict"))
        return got, [[c[0], list(c[1]), c[2]] for c in far.calls]

    def copy_of(v):
        if isinstance(v, dict):
            return {k: copy_of(e) for k, e in v.items()}
        return [copy_of(e) for e in v] if isinstance(v, (list, tuple)) else v

    def history(C, asked, label):
        """The requests in order; each compared with a process that gets this request only."""
        kept = []
        for i, r in enumerate(asked):
            got = ask(C, *r, keep=i > 0 and r[3] == asked[i - 1][3])
            want = fresh(C, lambda: ask(C, *r))
            what = f"{label}: request {i + 1}, {r[1]} of {show(r[2])}"
            d = differ(C, got[0], want[0])
            if d:
                C.fail(f"{what} is answered with {show(got[0])} instead of {show(want[0])}: {d}")
            d = xdiff(C.I, got[1], want[1])
            if d:
                C.fail(f"{what} connects with {show(got[1])} instead of {show(want[1])}: {d}")
            kept.append((got[0], copy_of(got[0])))
        for i, (v, w) in enumerate(kept):
            d = differ(C, v, w)
            if d:
                C.fail(f"{label}: the answer to request {i + 1} has changed: {d}")

    def of(C, t, op, N, own=()):
        url, conf, _ = target(C, t, op, N, Far(C, N), own)
        return url, conf

    FMT = [None, "application/schema+json", "application/avro+json"]

    def changed(t, op, how):
        """The same URL twice; the source has changed in between. Then with other credentials, if it has any."""

        def f(C):
            N = {**names_of(C, "url"), "upper": False, "levels": 1}
            N["levels"] = 3
            N2 = {**N, "tab2": C.tname("tab3"), "sch2": C.tname("sch3"), "cat2": C.tname("cat3"), "col": "d", "arranged": True}
            own = [] if t in ("SQLite", "BigQuery") or how == "gateway" else [C.tname("me"), ":", C.tname("mypw"), "@"]
            url, conf = of(C, t, op, N, own)
            conf = [conf] if how != "command" else []
            reqs = [(how, op, url, conf, N, None), (how, op, url, conf, N2, None)]
            history(C, reqs, f"{t}, changed in between")

        ck.cell(f"{t} {op} twice by {how}", f)

    def mixed(t, how):
        """Listing and reading, in both orders, in different formats."""

        def f(C):
            N = {**names_of(C, "url"), "upper": False, "levels": 1}
            url1, conf = of(C, t, "ls", N)
            url2, _ = of(C, t, "schema", N)
            conf = [conf] if how != "command" else []
            fm = C.pick("format", FMT)
            reqs = [(how, "schema", url2, conf, N, fm), (how, "ls", url1, conf, N, None), (how, "schema", url2, conf, N, None)]
            history(C, reqs, f"{t}, schema and ls")

        ck.cell(f"{t} schema, ls, schema by {how}", f)

    def users(t):
        """The same server with other credentials, without any, and another server."""

        def f(C):
            op = C.pick("operation", ["ls", "schema"])
            N = {**names_of(C, "url"), "upper": False, "levels": 1}
            levels = None
            first = [C.tname("me"), ":", C.tname("mypw"), "@"]
            second = C.pick("then", [[], [C.tname("you"), ":", C.tname("yourpw"), "@"], [C.tname("me"), ":", C.tname("otherpw"), "@"], [C.tname("me"), "@"]])
            s = {"MySQL": "mysql", "PostgreSQL": "postgresql", "Snowflake": "snowflake", "Hive": "thrift+hms", "registry": "https+csr"}[t]
            path = ["/", N["tab"]] if t == "registry" else path_of((N["sch"], N["tab"])) if t in ("MySQL", "Hive") else path_of((N["cat"], N["sch"], N["tab"]))
            if op == "ls":
                path = [] if t == "registry" else path[:-2]
            host = [C.tname("host"), ".example.com:4321"]
            u1 = text(C, s, "://", *first, *host, *path)
            u2 = text(C, s, "://", *second, *C.pick("host", [host, [C.tname("host2"), ".example.com:4321"], [C.tname("host"), ".example.com"]]), *path)
            history(C, [("command", op, u1, [], N, None), ("command", op, u2, [], N, None)], f"{t}, other credentials")

        ck.cell(f"{t} with other credentials", f)

    def others(a, b):
        def f(C):
            N = {**names_of(C, "url"), "upper": False, "levels": 1}
            o1, o2 = C.pick("first", ["ls", "schema"]), C.pick("then", ["ls", "schema"])
            u1, c1 = of(C, a, o1, N)
            u2, c2 = of(C, b, o2, N)
            history(C, [("strict", o1, u1, [c1, c2], N, None), ("strict", o2, u2, [c1, c2], N, None)], f"{a}, then {b}")

        ck.cell(f"{a}, then {b}", f)

    for t in TARGETS:
        for how in ("command", "strict", "gateway"):
            for op in ("ls", "schema"):
                changed(t, op, how)
        for how in ("command", "gateway"):
            mixed(t, how)
        if t not in ("SQLite", "BigQuery"):
            users(t)
    for a, b in zip(TARGETS, TARGETS[1:] + TARGETS[:1]):
        others(a, b)

    def refused(t, op, how):
        """After an accepted request an unconfigured URL is still refused, and after a refused one the next is answered."""

        def f(C):
            N = {**names_of(C, "url"), "upper": False, "levels": 1}
            url, conf = of(C, t, op, N)
            url2, conf2 = of(Renamed(C), t, op, N)
            if t == "BigQuery":
                conf = ["mysql://", C.tname("h")]
            order = C.pick("order", [(url, url2), (url2, url)])
            history(C, [(how, op, u, [conf], N, None) for u in order], f"{t}, configured and not")

        ck.cell(f"{t} {op} by {how}, configured and not", f)

    for t in TARGETS:
        for op in ("ls", "schema"):
            for how in ("strict", "gateway"):
                refused(t, op, how)

    def allowed(t, op, how):
        """What a command without the strict mode may read is not configured by that: it stays refused to others, and is not listed."""

        def f(C):
            N = {**names_of(C, "url"), "upper": False, "levels": 1}
            url, _ = of(C, t, op, N)
            conf = [["mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("h"), "/", C.tname("zz")], ["postgresql://", C.tname("u2"), "@", C.tname("aa"), "/", C.tname("db")]]
            reqs = [("command", op, url, conf, N, None), (how, op, url, conf, N, None), (how, "ls", None if how != "gateway" else "", conf, N, None), ("command", op, url, conf, N, None)]
            history(C, reqs, f"{t}, not configured, by a command and then {how}")

        ck.cell(f"{t} {op} not configured, by command and {how}", f)

    for t in TARGETS:
        for op in ("ls", "schema"):
            for how in ("strict", "gateway"):
                allowed(t, op, how)

    def roots(C):
        """The configured URLs are listed alike again and again, and a URL keeps its credentials."""
        N = {**names_of(C, "url"), "upper": False, "levels": 1}
        t = C.pick("target", ["MySQL", "Hive", "registry"])
        how = C.pick("by", ["strict", "gateway"])
        op = C.pick("operation", ["ls", "schema"])
        url, conf = of(C, t, op, N)
        conf = [["sqlite:///", C.tname("zz")], conf, ["bigquery://", C.tname("aa")], ["mysql://", C.tname("u"), "@", C.tname("bb"), "/", C.tname("cc")]]
        root = (how, "ls", None if how != "gateway" else "", conf, N, None)
        one = (how, op, url, conf, N, None)
        history(C, C.pick("order", [[root, root, root], [root, one, root, one], [one, root, one]]), "the configured URLs")

    ck.cell("configured URLs", roots)

    def documents(k1, k2):
        """Files: another document, or the same one changed."""

        def f(C):
            ext = {"avro": "avsc", "json": "json", "protobuf": "proto"}
            d = ["/", C.tname("dir"), "/"]
            st = [text(C, *d, C.tname("doc1"), "." + ext[k1]), text(C, *d, C.tname("doc2"), "." + ext[k2])]
            pre = C.pick("form", ["file://", "", "client of another file system", "client kept"])
            cl = C.new("recap.clients.fs:FilesystemClient", C.tname("s3")) if pre == "client kept" else None

            def go(i, doc, names):
                def one():
                    files(C, [(text(C, *d), names)], [(st[i], doc)])
                    if pre.startswith("client"):
                        c = cl or C.new("recap.clients.fs:FilesystemClient", C.tname("s3"))
                        return result(C, C.meth(c, "schema", st[i])), result(C, C.meth(c, "ls", text(C, *d)))
                    return result(C, C.run("recap.commands:schema", text(C, pre, st[i]), strict=False)), result(C, C.run("recap.commands:ls", text(C, pre, *d), strict=False))

                got, want = one(), fresh(C, one)
                for g, w in zip(got, want):
                    dd = differ(C, g, w)
                    if dd:
                        C.fail(f"file {show(st[i])} after others: {dd}")

            go(0, document(C, k1), [C.tname("doc1")])
            go(1, document(C, k2), [C.tname("doc1"), C.tname("doc2")])
            go(0, other(C, k1), [C.tname("doc2")])

        ck.cell(f"files: {k1}, {k2}, changed {k1}", f)

    def other(C, kind):
        if kind == "avro":
            return JsonText({"type": "record", "name": "R", "fields": [{"name": C.name("zz"), "type": "long"}]})
        if kind == "json":
            return JsonText({"type": "object", "properties": {C.name("zz"): {"type": "integer"}}, "required": [C.name("zz")]})
        t = C.sym("other text", nonempty=True)
        old = C.I.hooks["proto.parse"]
        C.I.hooks["proto.parse"] = lambda I, a, k: P(C, "File", file_elements=[P(C, "Message", C.tname("R"), [P(C, "Field", C.name("zz"), 1, "int64")])]) if C.I.canon(a[0]) is t else old(I, a, k)
        return t

    for a in ("avro", "json", "protobuf"):
        for b in ("avro", "json", "protobuf"):
            documents(a, b)


class _Dry:
    """Stands for a cell where only the labels of a table are needed."""

    def name(self, n):
        return n

    tname = sym = lambda self, n, *a, **k: n


class Renamed:
    """A cell whose names all differ from those of the original."""

    def __init__(self, C):
        self.C = C

    def name(self, n):
        return self.C.name(n + "'")

    def tname(self, n):
        return self.C.tname(n + "'")

    def __getattr__(self, n):
        return getattr(self.C, n)
