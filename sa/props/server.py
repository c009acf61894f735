"""Properties of the commands, the gateway and the command line."""
from __future__ import annotations

from .common import *
from .clients import *
from .clients import HOOK, Far, World, names_of, bag, text, path_of, tree_of, authority, check_dict, files, mentions, HOST
from .settings import any_url, configure
from .registry import serve, Reply


def gateway(C, op, url, headers=None):
    return serve(C, "GET", ["gateway", op, url], headers or {})


def cli(C, name):
    cmds = C.I.canon(C.attr(C.get("recap.cli:app"), "commands"))
    for n, fn in cmds:
        if n == name:
            return fn
    C.fail(f"there is no command {name}")


class Screen:
    """What the command line shows."""

    def __init__(self, C):
        self.shown = []
        C.I.hooks["rich.print_json"] = self.json
        C.I.hooks["rich.print"] = lambda I, a, k: self.shown.append(("rich", a))
        C.I.hooks["typer.echo"] = lambda I, a, k: self.shown.append(("text", a[0] if a else None))
        C.I.hooks["print"] = lambda I, a, k: self.shown.append(("text", a[0] if a else "") if len(a) < 2 else ("many", a))

    def json(self, I, a, k):
        if k.get("sort_keys") and I.truth(k["sort_keys"]):
            # the order of a schema's properties is lost
            self.shown.append(("sorted", k.get("data")))
        elif "data" in k:
            self.shown.append(("json", k["data"]))
        else:
            self.shown.append(self.parse(I, a[0] if a else k.get("json")))

    def parse(self, I, v):
        v = I.canon(v)
        if isinstance(v, JsonText):
            return ("json", v.value)
        return ("parsed as JSON", v)


def command(C, name, *args, **kw):
    return C.run(cli(C, name), *args, **kw)


# ------------------------------------------------------------------- reachable URLs
TARGETS = ["MySQL", "PostgreSQL", "Snowflake", "Hive", "registry", "SQLite", "BigQuery"]
SCH = {"MySQL": "mysql", "PostgreSQL": "postgresql", "Snowflake": "snowflake", "BigQuery": "bigquery", "Hive": "thrift+hms", "registry": "https+csr"}
PORTS = {"MySQL": "3306", "PostgreSQL": "5432", "Snowflake": "443", "Hive": "9083", "registry": "443"}
HK = dict(HOOK, registry="csr.client", SQLite="sqlite3.connect")


def target(C, t, op, N, far, own=()):
    """(URL without credentials, URL with configured credentials, other configured URLs)"""
    host = [C.tname("host"), ".example.com", *N.get("port", [":4321"])]
    cred = [C.tname("u"), ":", C.tname("pw"), "@"]
    if t == "SQLite":
        f = ["sqlite:////", C.tname("d"), "/", C.tname("f"), ".db"]
        url = text(C, *f, *(["/", N["tab"]] if op == "schema" else []))
        others = {
            "nothing": [],
            "other file": [["sqlite:////", C.tname("d"), "/", C.tname("g"), ".db"]],
            "longer name": [["sqlite:////", C.tname("d"), "/", C.tname("f"), ".db2"]],
            "shorter name": [["sqlite:////", C.tname("d"), "/", C.tname("f")]],
        }
        return url, f, others
    if t == "BigQuery":
        levels, address = tree_of(t, C, far)
        args = C.pick("listing", levels[: N.get("levels")])[0] if op == "ls" else address
        return text(C, "bigquery://", *path_of(args)), ["bigquery://"], {"nothing": [], "another database": [["mysql://", *cred, *host]]}
    s = SCH[t]
    if t == "registry":
        path = ["/", N["tab"]] if op == "schema" else []
    else:
        levels, address = tree_of(t, C, far)
        path = path_of(C.pick("listing", levels[: N.get("levels")])[0] if op == "ls" else address)
    url = text(C, s, "://", *own, *host, *path)
    other_scheme = {"mysql": "postgresql", "postgresql": "mysql", "snowflake": "mysql", "thrift+hms": "mysql", "https+csr": "http+csr"}[s]
    others = {
        "nothing": [],
        "other host": [[s, "://", *cred, C.tname("host2"), ".example.com", ":4321"]],
        "other port": [[s, "://", *cred, C.tname("host"), ".example.com", ":4322"]],
        "other scheme": [[other_scheme, "://", *cred, *host]],
        "other path": [[s, "://", *cred, *host, "/", C.tname("elsewhere")]],
        "longer host": [[s, "://", *cred, C.tname("host"), ".example.com.evil", ":4321"]],
    }
    return url, [s, "://", *cred, *host], others


def credentials(C, t, call):
    """(user, password, host) of a connection."""
    _, a, k = call
    if t in ("MySQL", "PostgreSQL", "Snowflake"):
        return k.get("user"), k.get("password"), k.get(HOST[t])
    return None


def entry(C, how, op, url):
    """Ask for a URL where it has to be configured: how it ends, as (accepted, value, text)."""
    if how == "gateway":
        r = gateway(C, op, url)
        return r.status in (200, 201), r.value, repr(r)
    o = C.run(f"recap.commands:{op}", url)
    return not o.raised, o.value, repr(o)


def LISTINGS(C):
    return [[], [C.tname("a")], [C.tname("b"), C.tname("a")], ["b", "a", "B", "a b", "c/d", "", "é", "1", "10", "2", "_x", ".y", "-z", "a-value", "[bold]"], [f"s{(i * 7) % 1100}" for i in range(1100)]]


def reachable(ck):
    ck.rule("through the gateway, and by the commands' default, nothing is connected to, opened or read for a URL that is not configured; a configured URL is reached with the configured credentials, whatever credentials the request has")

    def refused(t, op, how):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            own = C.pick("credentials of the request", [[], [C.tname("me"), ":", C.tname("mypw"), "@"]]) if t not in ("SQLite", "BigQuery") else []
            url, conf, others = target(C, t, op, N, far, own)
            kind = C.pick("configured", list(others))
            configure(C, [any_url(C, *p) for p in others[kind]])
            if C.pick("before", ["nothing", "the same without the strict mode"]) != "nothing":
                C.run(f"recap.commands:{op}", url, strict=False)
                far.calls.clear()
            if how == "command":
                o = C.run("recap.clients:parse_url", op, url)
                C.require(o.raised, f"parse_url({op!r}, {show(url)}) with {kind} configured gives {show(o.value)}")
            good, v, shown = entry(C, how, op, url)
            C.require(not far.calls, f"{how} {op} of {show(url)} with {kind} configured connects: {[(c[0], show(c[1]), show(c[2])) for c in far.calls]}")
            C.require(not good, f"{how} {op} of {show(url)} with {kind} configured: {shown}")

        ck.cell(f"{t} {op} by {how}, not configured", f)

    def accepted(t, op, how):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            own = C.pick("credentials of the request", [[], [C.tname("me"), ":", C.tname("mypw"), "@"]]) if t not in ("SQLite", "BigQuery") else []
            N["port"] = C.pick("port", [[":4321"], [], [":" + PORTS[t]]]) if t in PORTS else []
            url, conf, others = target(C, t, op, N, far, own)
            more = any_url(C, "mysql://", C.tname("u9"), ":", C.tname("pw9"), "@", C.tname("h9"))
            urls = [any_url(C, *conf)]
            configure(C, C.pick("configured", [urls, urls + [more], [more] + urls]))
            before = C.pick("before", ["nothing", "another user without the strict mode"] if t not in ("SQLite", "BigQuery") and not own and op == "ls" else ["nothing"])
            if before != "nothing":
                C.run(f"recap.commands:{op}", target(C, t, op, N, far, [C.tname("me"), ":", C.tname("mypw"), "@"])[0], strict=False)
                far.calls.clear()
            good, v, shown = entry(C, how, op, url)
            C.require(good, f"{how} {op} of {show(url)}, which is configured: {shown}")
            C.require(len(far.calls) == 1 and far.calls[0][0] == HK[t], f"{how} {op} of {show(url)} connects by {[c[0] for c in far.calls]}")
            c = credentials(C, t, far.calls[0])
            if c:
                C.require(leaf_eq(C.I, c[0], C.tname("u")) and leaf_eq(C.I, c[1], C.tname("pw")), f"{how} {op} of {show(url)} connects as {show(c[0])} with password {show(c[1])} instead of the configured ones")
                C.require(leaf_eq(C.I, c[2], text(C, C.tname("host"), ".example.com")), f"{how} {op} of {show(url)} connects to {show(c[2])}")
            if t == "registry":
                u = C.I.dget(far.calls[0][1][0], "url")
                C.require(u and leaf_eq(C.I, u[0], text(C, "https://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"), ".example.com", *N["port"])), f"{how} {op} of {show(url)} asks {show(far.calls[0][1])}")
            for a in ("me", "mypw", "u9", "pw9", "h9"):
                C.require(not mentions(C, [list(far.calls[0][1]), far.calls[0][2]], C.tname(a)), f"{how} {op} of {show(url)} connects with {show(far.calls[0][2])}")
            for a in ("pw", "u"):
                C.require(not mentions(C, v, C.tname(a)), f"the answer to {show(url)} has the credentials: {show(v)}")

        ck.cell(f"{t} {op} by {how}, configured", f)

    for t in TARGETS:
        for op in ("ls", "schema"):
            for how in ("gateway", "command"):
                refused(t, op, how)
                accepted(t, op, how)

    def local(C):
        far = Far(C, names_of(C, "url"))
        doc = JsonText({"type": "object", "properties": {"f": {"type": "boolean"}}, "required": ["f"]})
        d = [C.tname("dir"), "/", C.tname("sub")]
        touched = files(C, [(text(C, "/", *d), [C.tname("f1")])], [(text(C, "/", *d, "/", C.tname("doc"), ".json"), doc)])
        configure(C, C.pick("configured", [lambda: [], lambda: [any_url(C, "file:///", C.tname("other"))], lambda: [any_url(C, "mysql://", C.tname("host"))]])())
        op = C.pick("operation", ["ls", "schema"])
        how = C.pick("by", ["gateway", "command"])
        url = text(C, C.pick("form", ["file://", ""]), "/", *d, *(["/", C.tname("doc"), ".json"] if op == "schema" else []))
        ops = []
        inner = C.I.hooks["fs"]
        C.I.hooks["fs"] = lambda I, o, p, a, k: (ops.append((o, p)), inner(I, o, p, a, k))[1]
        good, v, shown = entry(C, how, op, url)
        C.require(not touched and not ops, f"{how} {op} of {show(url)}, which is not configured, reads {show(touched)} {ops}")
        C.require(not good, f"{how} {op} of {show(url)}, which is not configured: {shown}")

    ck.cell("files, not configured", local)

    DEEP = {
        # (part of the URL that the connection has, further parts)
        "MySQL": (["sch"], ["tab"]),
        "PostgreSQL": (["cat"], ["sch", "tab"]),
        "Snowflake": (["cat"], ["sch", "tab"]),
        "BigQuery": ([], ["cat", "sch", "tab"]),
        "Hive": ([], ["sch", "tab"]),
    }

    def beneath(t, near):
        """Only what lies beneath the path of the configured URL can be reached."""

        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            conn, more = DEEP[t]
            full = [N[n] for n in conn + more]
            base = [SCH[t], "://"] + ([C.tname("u"), ":", C.tname("pw"), "@"] if t != "BigQuery" else []), ([C.tname("host"), ":4321"] if t != "BigQuery" else [])
            depths = range(1, len(conn) + 1) if near else range(len(conn) + 1, len(full) + 1)
            n = C.pick("parts configured", list(depths) or [0])
            configure(C, [any_url(C, *base[0], *base[1], *path_of(full[:n]))])
            how = C.pick("by", ["gateway", "command"])
            if near and n:
                # another object beside the configured one, of a similar name or not, and the one above
                k = C.pick("elsewhere", range(n))
                last = C.pick("name", [C.tname("elsewhere"), text(C, full[k], "x"), text(C, "x", full[k])])
                for path in ([*full[:k], last, *full[k + 1:]], full[:k]):
                    url = text(C, SCH[t], "://", *base[1], *path_of(path))
                    good, v, shown = entry(C, how, "schema" if len(path) == len(full) else "ls", url)
                    C.require(not good and not far.calls, f"{how} of {show(url)} with {show(path_of(full[:n]))} configured: {shown}")
            url = text(C, SCH[t], "://", *base[1], *path_of(full))
            good, v, shown = entry(C, how, "schema", url)
            C.require(good, f"{how} schema of {show(url)} with {show(path_of(full[:n]))} configured: {shown}")

        ck.cell(f"{t}, " + ("its path configured" if near else "configured deeper than it connects"), f)

    def beside(t):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            conn, more = DEEP[t]
            full = [N[n] for n in conn + more]
            cred, host = ([C.tname("u"), ":", C.tname("pw"), "@"], [C.tname("host"), ":4321"]) if t != "BigQuery" else ([], [])
            n = C.pick("parts configured", range(len(conn) + 1, len(full) + 1))
            configure(C, [any_url(C, SCH[t], "://", *cred, *host, *path_of(full[:n]))])
            k = C.pick("elsewhere", range(n))
            last = C.pick("name", [C.tname("elsewhere"), text(C, full[k], "x"), text(C, "x", full[k]), ".."])
            how = C.pick("by", ["gateway", "command"])
            for path in ([*full[:k], last, *full[k + 1:]], [*full[:k], last], full[:k], [*full[:n], "..", "..", *full[:n]]):
                url = text(C, SCH[t], "://", *host, *path_of(path))
                for op in ("ls", "schema"):
                    good, v, shown = entry(C, how, op, url)
                    C.require(not good and not far.calls, f"{how} {op} of {show(url)} with {show(path_of(full[:n]))} configured: {shown}")

        ck.cell(f"{t}, beside what is configured", f)

    for t in DEEP:
        if DEEP[t][0]:
            beneath(t, True)
        beneath(t, False)
        beside(t)

    def directory(C, name):
        far = Far(C, names_of(C, "url"))
        doc = JsonText({"type": "object", "properties": {"f": {"type": "boolean"}}, "required": ["f"]})
        d = ["/", C.tname("dir"), "/", C.tname("sub")]
        other = ["/", C.tname("dir"), "/", C.tname("other")]
        file = ["/", C.tname("doc"), ".json"]
        touched = files(C, [(text(C, *d), [C.tname("f1")]), (text(C, *other), [C.tname("f2")])], [(text(C, *p, *file), doc) for p in (d, other)])
        conf = C.pick("configured", [[], ["/"]] if name == "root" else [d, [*d, "/"], d[:2]] + ([] if name == "inside" else [[*d, *file]]))
        configure(C, [any_url(C, "file://", *conf)])
        return d, other, file, touched, conf

    def inside(name):
        def f(C):
            d, other, file, touched, conf = directory(C, name)
            op = C.pick("operation", ["ls", "schema"])
            how = C.pick("by", ["gateway", "command"])
            url = text(C, C.pick("form", ["file://", ""]) if name == "root" else "file://", *d, *(file if op == "schema" else []))
            good, v, shown = entry(C, how, op, url)
            C.require(good, f"{how} {op} of {show(url)} with {show(text(C, 'file://', *conf))} configured: {shown}")

        ck.cell("files, " + ("the root configured" if name == "root" else "a directory configured"), f)

    def outside(C):
        d, other, file, touched, conf = directory(C, "outside")
        C.require(len(conf) > 2 or conf == d[:2], "configured")
        up = C.pick("way", [["/", C.tname("elsewhere")], other, [*d, "/..", "/", C.tname("other")], ["/", C.tname("dir"), "x"]])
        if conf == d[:2] and up is not None and leaf_eq(C.I, text(C, *up[:2]), text(C, *d[:2])) and up[2:3] == ["/"]:
            C.skip()  # it lies beneath
        op = C.pick("operation", ["ls", "schema"])
        how = C.pick("by", ["gateway", "command"])
        url = text(C, "file://", *up, *(file if op == "schema" else []))
        good, v, shown = entry(C, how, op, url)
        C.require(not good and not touched, f"{how} {op} of {show(url)} with {show(text(C, 'file://', *conf))} configured: {shown}")

    inside("root")
    inside("inside")
    ck.cell("files, outside what is configured", outside)

    def root(C):
        """The root listing shows no credentials."""
        far = Far(C, names_of(C, "url"))
        urls = [any_url(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host")), any_url(C, "postgresql://", C.tname("host2"), ":5432/", C.tname("db"))]
        configure(C, urls)
        r = gateway(C, "ls", "")
        C.require(r.status == 200, f"the root listing is answered with {r!r}")
        bag(C, r.value, [text(C, "mysql://", C.tname("host")), text(C, "postgresql://", C.tname("host2"), ":5432/", C.tname("db"))], "the root listing")
        C.require(not far.calls, "the root listing connects")

    ck.cell("root listing", root)


def command_line(ck):
    ck.rule("the command line reads any URL, with its own credentials if it is not configured and the configured ones otherwise, and shows exactly what was found")

    def one(t, op):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            scr = Screen(C)
            own = [C.tname("me"), ":", C.tname("mypw"), "@"] if t not in ("SQLite", "BigQuery", "registry", "Hive") else []
            url, conf, others = target(C, t, op, N, far, own)
            kind = C.pick("configured", list(others) + ["it"])
            configure(C, [any_url(C, *p) for p in (others[kind] if kind != "it" else [conf])])
            o = command(C, op, url)
            C.require(not o.raised, f"{op} of {show(url)} with {kind} configured {o!r}", o.site)
            C.require(len(far.calls) == 1 and far.calls[0][0] == HK[t], f"{op} of {show(url)} connects by {[c[0] for c in far.calls]}")
            c = credentials(C, t, far.calls[0])
            if c:
                w = ("u", "pw") if kind == "it" else ("me", "mypw")
                C.require(leaf_eq(C.I, c[0], C.tname(w[0])) and leaf_eq(C.I, c[1], C.tname(w[1])), f"{op} of {show(url)} with {kind} configured connects as {show(c[0])} with password {show(c[1])}")
            C.require(len(scr.shown) == 1 and scr.shown[0][0] == "json", f"{op} of {show(url)} shows {scr.shown}")
            v = C.I.canon(scr.shown[0][1])
            # the same as the command gives
            n = len(far.calls)
            w = C.I.canon(C.ok_value(C.run(f"recap.commands:{op}", url, strict=False), op))
            if op == "ls":
                bag(C, v, list(w), f"ls of {show(url)}")
                C.require(diff(C.I, list(v), list(w)) is None, f"ls of {show(url)} shows {show(v)} instead of {show(w)}")
            else:
                d = diff(C.I, v, w)
                C.require(d is None, lambda: f"schema of {show(url)} shows something else: {d}")

        ck.cell(f"{t} {op}", f)

    for t in TARGETS:
        for op in ("ls", "schema"):
            one(t, op)

    def listing(C):
        """Whatever the names look like, all are shown as they are and in order."""
        scr = Screen(C)
        configure(C, [])
        subjects = C.pick("subjects", LISTINGS(C)[1:])
        C.I.hooks["csr.client"] = lambda I, a, k: fake(C, {"get_subjects": lambda J, b, kk: list(subjects)}, managed=True)
        C.I.hooks["env.event"] = lambda I, a, k: None
        o = command(C, "ls", text(C, "https+csr://", C.tname("host")))
        C.require(not o.raised, f"ls {o!r}", o.site)
        C.require(len(scr.shown) == 1 and scr.shown[0][0] == "json" and diff(C.I, list(C.I.canon(scr.shown[0][1])), subjects) is None, f"ls of {show(subjects)} shows {show(scr.shown)}")

    ck.cell("listings", listing)

    def root(C):
        scr = Screen(C)
        configure(C, [any_url(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"))])
        o = command(C, "ls")
        C.require(not o.raised, f"ls {o!r}", o.site)
        C.require(len(scr.shown) == 1 and scr.shown[0][0] == "json", f"ls shows {scr.shown}")
        bag(C, scr.shown[0][1], [text(C, "mysql://", C.tname("host"))], "ls")

    ck.cell("root listing", root)

    def formats(C):
        """Each output format, as the command gives it."""
        N = names_of(C, "url")
        far = Far(C, N)
        scr = Screen(C)
        configure(C, [])
        txt = C.sym("proto text", nonempty=True)
        C.I.hooks["proto.generate"] = lambda I, a, k: txt
        SF = C.get("recap.commands:SchemaFormat")
        fmt = C.pick("format", ["avro", "json", "protobuf", "recap"])
        url = proto_able(C)
        doc = stand_in(C)
        o = command(C, "schema", url, C.I.getattr(SF, fmt))
        C.require(not o.raised, f"schema --output-format {fmt} {o!r}", o.site)
        C.require(len(scr.shown) == 1, f"schema --output-format {fmt} shows {scr.shown}")
        kind, v = scr.shown[0]
        if fmt == "protobuf":
            C.require(kind == "text", f"the text of a Protobuf schema is not shown as it is (by {kind})")
            C.require(leaf_eq(C.I, v, txt), f"schema --output-format protobuf shows {show(v)}")
        else:
            C.require(kind == "json", f"schema --output-format {fmt} shows {kind}")
            is_format(C, v, fmt, txt)

    ck.cell("output formats", formats)

    def default_format(C):
        scr = Screen(C)
        configure(C, [])
        url = proto_able(C)
        stand_in(C)
        o = command(C, "schema", url)
        C.require(not o.raised, f"schema {o!r}", o.site)
        C.require(len(scr.shown) == 1 and scr.shown[0][0] == "json", f"schema shows {scr.shown}")
        is_format(C, scr.shown[0][1], "recap", None)

    ck.cell("default format", default_format)

    def serving(C):
        calls = []
        C.I.hooks["uvicorn.run"] = lambda I, a, k: calls.append((a, k))
        kw = C.pick("options", [{}, {"host": C.tname("host"), "port": C.sym("port", "int"), "log_level": C.tname("level")}])
        o = command(C, "serve", **kw)
        C.require(not o.raised, f"serve {o!r}", o.site)
        C.require(len(calls) == 1, "serve starts no server")
        a, k = calls[0]
        want = {"host": "127.0.0.1", "port": 8000, "log_level": "info", **kw}
        app = a[0] if a else k.get("app")
        C.require(app == "recap.server.app:app" or (isinstance(app, Inst) and app is C.get("recap.server.app:app")), f"serve runs {show(app)}")
        for n, w in want.items():
            C.require(n in k and leaf_eq(C.I, k[n], w), f"serve runs with {show(k)} instead of {n}={show(w)}")

    ck.cell("serve", serving)


# ---------------------------------------------------------------------------- formats
def proto_able(C):
    return text(C, "https+csr://", C.tname("host"), "/", C.tname("subject"))


AVRO = {"type": "record", "name": "R", "doc": "text", "fields": [{"name": "a", "type": "boolean"}, {"name": "b", "type": "int"}]}


def stand_in(C):
    """A registry with one Avro schema."""
    sch = fake(C, {}, dict(schema_str=JsonText(AVRO), schema_type="AVRO", references=[]))
    reg = fake(C, {}, dict(schema=sch, schema_id=1, subject="s", version=1))
    calls = []

    def client(I, a, k):
        calls.append(a)
        return fake(C, {"get_latest_version": lambda J, b, kk: reg, "get_subjects": lambda J, b, kk: [C.tname("subject")]}, managed=True)

    C.I.hooks["csr.client"] = client
    C.I.hooks["env.event"] = lambda I, a, k: None
    return calls


CONV = {"avro": "recap.converters.avro:AvroConverter", "json": "recap.converters.json_schema:JSONSchemaConverter", "protobuf": "recap.converters.protobuf:ProtobufConverter"}


def is_format(C, v, fmt, txt):
    """The answer is the schema of stand_in() in this format."""
    t = C.ok_value(C.meth(C.new(CONV["avro"]), "to_recap", JsonText(AVRO)), "reading the schema")
    if fmt == "protobuf":
        C.require(leaf_eq(C.I, v, txt), f"asked for {fmt}, the answer is {show(v)}")
        return
    if fmt == "recap":
        want = C.ok_value(C.run("recap.types:to_dict", t), "to_dict")
    else:
        want = C.ok_value(C.meth(C.new(CONV[fmt]), "from_recap", t), "from_recap")
    d = diff(C.I, C.I.canon(v), want)
    C.require(d is None, lambda: f"asked for {fmt}, the answer is {show(v)}: {d}")


TYPES = {"application/schema+json": "json", "application/avro+json": "avro", "application/x-protobuf": "protobuf", "application/x-recap+json": "recap"}


def formats(ck):
    ck.rule("a schema is answered in the format that was asked for, by content type or by name: the writer of that format is given the type that was read; an unknown one is answered with 415 and nothing is connected to")

    def generated(C):
        """What the writer of Protobuf files is given."""
        seen = []
        txt = C.sym("proto text", nonempty=True)
        C.I.hooks["proto.generate"] = lambda I, a, k: (seen.append(a[0] if a else k.get("file")), txt)[1]
        return seen, txt

    def same_file(C, seen):
        t = C.ok_value(C.meth(C.new(CONV["avro"]), "to_recap", JsonText(AVRO)), "reading the schema")
        want = C.ok_value(C.meth(C.new(CONV["protobuf"]), "from_recap", t), "from_recap")
        C.require(len(seen) == 1, f"{len(seen)} Protobuf files are generated")
        d = inst_diff(C.I, C.I.canon(seen[0]), want)
        C.require(not d, lambda: f"the Protobuf file is another one: {d}")

    def by_type(ct, fmt):
        def f(C):
            configure(C, [any_url(C, "https+csr://", C.tname("host"))])
            calls = stand_in(C)
            seen, txt = generated(C)
            h = {C.pick("header", ["content-type", "Content-Type"]): ct} if ct is not None else C.pick("header", [{}, {"content-type": ""}, {"accept": "application/schema+json"}])
            r = gateway(C, "schema", proto_able(C), h)
            C.require(r.status == 200, f"a request with {h} is answered with {r!r}", r.out.site if r.out else None)
            is_format(C, r.value, fmt, txt)
            if fmt == "protobuf":
                same_file(C, seen)
            C.require(len(calls) == 1, f"{len(calls)} connections for one request")

        ck.cell(f"content type {ct}", f)

    for ct, fmt in TYPES.items():
        by_type(ct, fmt)
    by_type(None, "recap")

    def unsupported(C):
        configure(C, [any_url(C, "https+csr://", C.tname("host"))])
        calls = stand_in(C)
        ct = C.pick("content type", ["text/plain", "application/json", "avro", "json", C.tname("type")])
        r = gateway(C, "schema", proto_able(C), {"content-type": ct})
        C.require(r.status == 415, f"a request with content type {show(ct)} is answered with {r!r}")
        C.require(not calls, f"a request with content type {show(ct)} connects")

    ck.cell("unsupported content types", unsupported)

    def by_name(fmt):
        def f(C):
            configure(C, [any_url(C, "https+csr://", C.tname("host"))])
            calls = stand_in(C)
            seen, txt = generated(C)
            SF = C.get("recap.commands:SchemaFormat")
            kw = {} if fmt is None else {"format": C.I.getattr(SF, fmt)}
            o = C.run("recap.commands:schema", proto_able(C), **kw)
            v = C.ok_value(o, f"schema in format {fmt}")
            is_format(C, v, fmt or "recap", txt)
            if fmt == "protobuf":
                same_file(C, seen)

        ck.cell(f"format {fmt}", f)

    for fmt in ("avro", "json", "protobuf", "recap", None):
        by_name(fmt)

    def names(C):
        """The names of the formats on the command line."""
        SF = C.get("recap.commands:SchemaFormat")
        for n in ("avro", "json", "protobuf", "recap"):
            v = C.attr(C.I.getattr(SF, n), "value")
            C.require(v == n, f"the format {n} is called {show(v)}")
        FM = C.I.canon(C.get("recap.commands:FORMAT_MAP"))
        for ct, n in TYPES.items():
            g = C.I.dget(FM, ct)
            C.require(g and C.I.canon(g[0]) is C.I.getattr(SF, n), f"content type {ct} is not {n}")

    ck.cell("names of formats", names)

    def listing(C):
        configure(C, [any_url(C, "https+csr://", C.tname("host"))])
        subjects = C.pick("subjects", LISTINGS(C))
        C.I.hooks["csr.client"] = lambda I, a, k: fake(C, {"get_subjects": lambda J, b, kk: list(subjects)}, managed=True)
        C.I.hooks["env.event"] = lambda I, a, k: None
        r = gateway(C, "ls", text(C, "https+csr://", C.tname("host")))
        C.require(r.status == 200, f"a list of {len(subjects)} children is answered with {r!r}", r.out.site if r.out else None)
        bag(C, r.value, subjects, "the listing")
        C.require(diff(C.I, list(C.I.canon(r.value)), subjects) is None, lambda: f"the listing of {show(subjects)} is answered as {show(r.value)}")

    ck.cell("listings", listing)

    def empty_root(C):
        configure(C, [])
        r = gateway(C, "ls", "")
        C.require(r.status == 200, f"the listing of an empty configuration is answered with {r!r}")
        bag(C, r.value, [], "the listing")

    ck.cell("empty configuration", empty_root)


# ---------------------------------------------------------------- optional packages
APP = {"fastapi", "pydantic", "pydantic_settings", "typer", "uvicorn", "rich", "dotenv", "fsspec"}
# What those packages bring with them.
APP |= {"starlette", "anyio", "sniffio", "idna", "pydantic_core", "annotated_types", "typing_extensions", "click", "h11", "pygments", "markdown_it", "shellingham"}
JSON = {"referencing", "httpx"}
PROTO = {"proto_schema_parser"}
PARTS = {
    "recap.types": set(),
    "recap.converters.avro": set(),
    "recap.converters.dbapi": set(),
    "recap.converters.mysql": set(),
    "recap.converters.postgresql": set(),
    "recap.converters.snowflake": set(),
    "recap.converters.sqlite": set(),
    "recap.converters.json_schema": JSON,
    "recap.converters.protobuf": PROTO,
    "recap.converters.hive_metastore": {"pymetastore"},
    "recap.converters.bigquery": {"google"},
    "recap.settings": APP,
    "recap.storage.registry": APP,
    "recap.clients": APP,
    "recap.commands": APP,
    "recap.cli": APP,
    "recap.server.app": APP,
    "recap.clients.fs": APP,
    "recap.clients.dbapi": APP,
    "recap.clients.sqlite": APP,
    "recap.clients.mysql": APP | {"mysql"},
    "recap.clients.postgresql": APP | {"psycopg2"},
    "recap.clients.snowflake": APP | {"snowflake"},
    "recap.clients.bigquery": APP | {"google"},
    "recap.clients.hive_metastore": APP | {"pymetastore"},
    "recap.clients.confluent_registry": APP | {"confluent_kafka"},
}
DRIVER = {"MySQL": {"mysql"}, "PostgreSQL": {"psycopg2"}, "Snowflake": {"snowflake"}, "Hive": {"pymetastore"}, "registry": {"confluent_kafka"}, "SQLite": set(), "BigQuery": {"google"}}


def installed(C, packages, body):
    """With only these third-party packages installed (None: all), in a fresh process."""
    I = C.I
    saved = dict(I.modules)
    for m in list(I.modules):
        if m == "recap" or m.startswith("recap."):
            del I.modules[m]
    I.available = None if packages is None else set(packages) | {"environment"}
    try:
        return body()
    finally:
        I.available = None
        I.modules.clear()
        I.modules.update(saved)


def optional(ck):
    ck.rule("every part can be imported and used with the packages of its own extra: types, Avro and the SQL converters need none, and a URL of one kind never needs the driver of another")

    def imported(m, pk):
        def f(C):
            def body():
                try:
                    if C.I.module(m) is None:
                        raise Anchor(f"module {m} does not exist")
                except PyExc as e:
                    C.require(not any(getattr(c, "name", "") == "ImportError" for c in e.inst.cls.mro), f"importing {m} with only {sorted(pk) or 'the standard library'} installed raises {e}", e.site)
                    raise

            installed(C, pk, body)

        ck.cell(f"import {m}", f)

    for m, pk in PARTS.items():
        imported(m, pk)

    def used(t, op):
        def f(C):
            def body():
                N = names_of(C, "url")
                far = Far(C, N)
                url, conf, others = target(C, t, op, N, far)
                o = C.run(f"recap.commands:{op}", url, strict=False)
                C.require(not o.raised, f"{op} of {show(url)} with only {sorted(APP | DRIVER[t])} installed {o!r}", o.site)

            installed(C, APP | DRIVER[t], body)

        ck.cell(f"{t} {op}", f)

    for t in TARGETS:
        for op in ("ls", "schema"):
            used(t, op)

    def formatted(fmt, more):
        def f(C):
            def body():
                stand_in(C)
                C.I.hooks["proto.generate"] = lambda I, a, k: C.sym("proto text", nonempty=True)
                o = C.run("recap.commands:schema", proto_able(C), C.I.getattr(C.get("recap.commands:SchemaFormat"), fmt), strict=False)
                C.require(not o.raised, f"writing {fmt} with only {sorted(APP | {'confluent_kafka'} | more)} installed {o!r}", o.site)

            installed(C, APP | {"confluent_kafka"} | more, body)

        ck.cell(f"format {fmt}", f)

    for fmt, more in (("avro", set()), ("recap", set()), ("json", JSON), ("protobuf", PROTO)):
        formatted(fmt, more)

    def read(kind, more):
        def f(C):
            def body():
                d = ["/", C.tname("dir"), "/", C.tname("doc")]
                files(C, [], [(text(C, *d, "." + {"avro": "avsc", "json": "json", "protobuf": "proto"}[kind]), document(C, kind))])
                url = text(C, "file://", *d, "." + {"avro": "avsc", "json": "json", "protobuf": "proto"}[kind])
                o = C.run("recap.commands:schema", url, strict=False)
                C.require(not o.raised, f"reading {kind} files with only {sorted(APP | more)} installed {o!r}", o.site)

            installed(C, APP | more, body)

        ck.cell(f"file {kind}", f)

    for k, more in (("avro", set()), ("json", JSON), ("protobuf", PROTO)):
        read(k, more)
