"""Properties of the settings and of what the commands may reach with them."""
from __future__ import annotations

from .common import *
from .clients import Far, names_of, text, path_of, bag, call_url, SCHEMES, HOST, DBARG, tree_of, mentions

ST = "recap.settings:RecapSettings"


def any_url(C, *parts):
    return C.new("pydantic:AnyUrl", text(C, *parts))


def settings_with(C, urls):
    return C.new(ST, urls=urls)


CRED = {
    "none": lambda C: [],
    "user": lambda C: [C.tname("u"), "@"],
    "password": lambda C: [C.tname("u"), ":", C.tname("pw"), "@"],
    "only password": lambda C: [":", C.tname("pw"), "@"],
    "encoded": lambda C: [C.tname("u"), "%40", C.tname("u"), ":", C.tname("pw"), "%3A%2F", C.tname("pw"), "@"],
    "with colons": lambda C: [C.tname("u"), ":", C.tname("pw"), ":", C.tname("pw"), "@"],
    "with @": lambda C: [C.tname("u"), "@", C.tname("u"), ":", C.tname("pw"), "@", C.tname("pw"), "@"],
}
HOSTS = {
    "name": lambda C: [C.tname("host")],
    "domain": lambda C: [C.tname("host"), ".example.com"],
    "IPv4": lambda C: ["10.0.0.1"],
    "IPv6": lambda C: ["[2001:db8::1]"],
}
PATHS = {"none": lambda C: [], "one": lambda C: ["/", C.tname("db")], "two": lambda C: ["/", C.tname("db"), "/", C.tname("sub")]}


def tail(C):
    return C.pick("query and fragment", [[], ["?", C.tname("k"), "=", C.tname("v")], ["#", C.tname("frag")], ["?", C.tname("k"), "=", C.tname("v"), "&", C.tname("k2"), "=", C.tname("v2"), "#", C.tname("frag")]])


def safe(ck):
    ck.rule("the listed URL is the configured one without its user and password (and without a trailing slash); no part of them is in the list")

    def one(cred, host):
        def f(C):
            scheme = C.pick("scheme", ["mysql", "postgresql", "snowflake", "http", "https+csr", "thrift+hms"])
            cr, h = CRED[cred](C), HOSTS[host](C)
            port = C.pick("port", [[], [":4321"]])
            p = PATHS[C.pick("path", list(PATHS))](C)
            q = tail(C)
            slash = C.pick("slash", ["", "/"])
            others = C.pick("position", [0, 1])
            url = any_url(C, scheme, "://", *cr, *h, *port, *p, slash, *q)
            other = any_url(C, "mysql://", C.tname("u9"), ":", C.tname("pw9"), "@", C.tname("h9"), "/", C.tname("db9"))
            st = settings_with(C, [other, url] if others else [url, other])
            try:
                v = C.I.canon(C.I.getattr(st, "safe_urls"))
            except PyExc as e:
                C.fail(f"listing {show(url.attrs['_url'])} raises {e.inst.cls.name}", e.site)
            C.require(isinstance(v, (list, tuple)) and len(v) == 2, f"the list of 2 URLs is {show(v)}")
            got = v[others]
            want = text(C, scheme, "://", *h, *port, *p, *q)
            for a in (C.tname("u"), C.tname("pw"), C.tname("u9"), C.tname("pw9")):
                C.require(not mentions(C, v, a), f"credentials of {show(url.attrs['_url'])} are listed: {show(v)}")
            C.require(leaf_eq(C.I, got, want), f"{show(url.attrs['_url'])} is listed as {show(got)} instead of {show(want)}")
            C.require(leaf_eq(C.I, v[1 - others], text(C, "mysql://", C.tname("h9"), "/", C.tname("db9"))), f"the other URL is listed as {show(v[1 - others])}")

        ck.cell(f"{cred} / {host}", f)

    for c in CRED:
        for h in HOSTS:
            one(c, h)

    def nohost(C):
        u, w = C.pick("url", [(["bigquery://"], None), (["sqlite:///", C.tname("f"), ".db"], None), (["sqlite:////", C.tname("d"), "/", C.tname("f"), ".db"], None), (["file:///", C.tname("d"), "/", C.tname("e")], None)])
        st = settings_with(C, [any_url(C, *u)])
        v = C.I.canon(C.I.getattr(st, "safe_urls"))
        C.require(len(v) == 1 and leaf_eq(C.I, v[0], text(C, *u)), f"{show(text(C, *u))} is listed as {show(v)}")

    ck.cell("no host", nohost)

    def listing(C):
        """The root listing is the safe list."""
        url = any_url(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"), "/", C.tname("db"))
        configure(C, [url])
        v = C.ok_value(C.run("recap.commands:ls", C.pick("url", [None, ""])), "the root listing")
        C.require(not mentions(C, v, C.tname("pw")) and not mentions(C, v, C.tname("u")), f"credentials are listed: {show(v)}")
        bag(C, v, [text(C, "mysql://", C.tname("host"), "/", C.tname("db"))], "the root listing")

    ck.cell("root listing", listing)

    def again(C):
        """The list is the same again, whatever was asked in between, also if it was refused or not strict."""
        st = settings_with(C, [any_url(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"), "/", C.tname("db")), any_url(C, "mysql://", C.tname("u9"), "@", C.tname("a9"), "/", C.tname("db"))])
        want = [text(C, "mysql://", C.tname("host"), "/", C.tname("db")), text(C, "mysql://", C.tname("a9"), "/", C.tname("db"))]
        for i in range(3):
            v = C.I.canon(C.I.getattr(st, "safe_urls"))
            C.require(isinstance(v, (list, tuple)) and len(v) == 2 and all(leaf_eq(C.I, x, y) for x, y in zip(v, want)), f"listed the {['first', 'second', 'third'][i]} time, the URLs are {show(v)}")
            h = C.pick(f"asked {i + 1}", [["host"], ["a9"], ["other"]])
            C.meth(st, "unsafe_url", text(C, "mysql://", C.tname("me"), ":", C.tname("mypw"), "@", C.tname(h[0]), "/", C.tname("db"), "/", C.tname("t")), C.pick(f"strict {i + 1}", [True, False]))

    ck.cell("listed again", again)


def configure(C, urls):
    """Every module's settings have these URLs."""
    for m in ("recap.clients", "recap.commands", "recap.server.registry"):
        try:
            mod = C.I.module(m)
        except Exception:
            mod = None
        if mod is None:
            continue
        for n, v in list(mod.env.items()):
            if isinstance(v, Inst) and v.cls.name == "RecapSettings":
                C.I.setattr(v, "urls", list(urls))


def strict(ck):
    ck.rule("a URL is accepted exactly if a configured URL has its scheme, host and port and a path that it equals or lies beneath; the result has the configured credentials, the given path and both queries")

    REL = {
        # (path of the configured URL, path of the given one, accepted)
        "same": (["/", "db"], ["/", "db"], True),
        "same with slash": (["/", "db"], ["/", "db", "/"], True),
        "configured with slash": (["/", "db", "/"], ["/", "db"], True),
        "beneath": (["/", "db"], ["/", "db", "/", "x"], True),
        "deep beneath": (["/", "db"], ["/", "db", "/", "x", "/", "y"], True),
        "root": ([], ["/", "db"], True),
        "root slash": (["/"], ["/", "db", "/", "x"], True),
        "root itself": ([], [], True),
        "root with slash": ([], ["/"], True),
        "above": (["/", "db", "/", "x"], ["/", "db"], False),
        "root above": (["/", "db"], [], False),
        "beside": (["/", "db"], ["/", "other"], False),
        "prefix": (["/", "db"], ["/", "db", "x2"], False),
        "suffix": (["/", "db"], ["/", "x", "db"], False),
        "beneath another": (["/", "db"], ["/", "x", "/", "db"], False),
        "up": (["/", "db"], ["/", "db", "/../", "x"], False),
        "deep up": (["/", "db"], ["/", "db", "/", "x", "/../../", "y"], False),
        "deep up and up": (["/", "db", "/", "x"], ["/", "db", "/", "x", "/", "y", "/", "z", "/../../../", "y"], False),
        "up and down": (["/", "db"], ["/", "db", "/", "x", "/../", "y"], None),
        "up from root": ([], ["/../", "x"], None),
    }

    def path(C, ps):
        return [C.tname(p) if p.isalnum() else p for p in ps]

    def one(rel, match):
        def f(C):
            conf, given, ok = REL[rel]
            s = C.pick("scheme", ["mysql", "https+csr", "postgresql"])
            cred = CRED[C.pick("configured credentials", ["none", "password", "encoded"])](C)
            own = C.pick("given credentials", [[], [C.tname("me"), ":", C.tname("mypw"), "@"]])
            h = HOSTS[C.pick("host", ["domain", "IPv6"])](C)
            port = C.pick("port", [[], [":4321"]])
            h2, s2, port2 = list(h), s, list(port)
            if match == "other host":
                h2 = [C.tname("host2"), ".example.com"]
            elif match == "sub domain":
                h2 = [C.tname("host2"), "."] + h if h[0] != "[2001:db8::1]" else ["[2001:db8::2]"]
            elif match == "parent domain":
                h2 = ["example.com"] if h[0] != "[2001:db8::1]" else ["[2001:db8::]"]
            elif match == "other scheme":
                s2 = {"mysql": "snowflake", "https+csr": "http+csr", "postgresql": "postgres"}[s]
            elif match == "other port":
                port2 = [":4322"] if C.pick("other port", [0, 1]) or not port else []
                if not port and C.I.taken[-1][0] == 1:
                    port2 = [":1"]
            if match != "same":
                ok = False
            unsafe = text(C, s, "://", *cred, *h, *port, *path(C, conf))
            url = text(C, s2, "://", *own, *h2, *port2, *path(C, given))
            urls = [C.new("pydantic:AnyUrl", unsafe)]
            decoy = any_url(C, "mysql://", C.tname("u9"), ":", C.tname("pw9"), "@", C.tname("h9"), "/", C.tname("db9"))
            urls = C.pick("position", [lambda: urls, lambda: [decoy] + urls])()
            st = settings_with(C, urls)
            mode = C.pick("strict", [True, False, None])
            o = C.meth(st, "unsafe_url", url, *([] if mode is None else [mode]))
            what = f"{show(url)} with {show(unsafe)} configured"
            if ok is None:
                ok = not o.raised and mentions(C, o.value, C.tname("pw")) and None
                if not o.raised and mode is not False:
                    # accepted: it must still lie beneath
                    return
                return
            if ok:
                v = C.ok_value(o, what)
                want = text(C, s, "://", *cred, *h, *port, *strip(path(C, given)))
                C.require(leaf_eq(C.I, v, want), f"{what} becomes {show(v)} instead of {show(want)}")
            elif mode is False:
                v = C.ok_value(o, what + ", not strict")
                C.require(leaf_eq(C.I, v, url), f"{what}, not strict, becomes {show(v)}")
            else:
                C.require(o.raised, f"{what} is accepted as {show(o.value)}")

        ck.cell(f"{rel} / {match}", f, max_paths=4000)

    for rel in REL:
        for match in ("same", "other host", "sub domain", "parent domain", "other scheme", "other port") if rel in ("same", "beneath", "root") else ("same",):
            one(rel, match)

    def query(C):
        k = lambda n: C.tname("k" + n)
        conf = C.pick("configured", [[], ["?", k("1"), "=", C.tname("v1")], ["?", k("1"), "=", C.tname("v1"), "&", k("2"), "=", C.tname("v2")]])
        given = C.pick("given", [[], ["?", k("3"), "=", C.tname("v3")], ["?", k("3"), "=", C.tname("v3"), "&", k("4"), "=", C.tname("v4")]])
        fc, fg = C.pick("fragments", [([], []), (["#", C.tname("f1")], []), ([], ["#", C.tname("f2")]), (["#", C.tname("f1")], ["#", C.tname("f2")])])
        st = settings_with(C, [any_url(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"), *conf, *fc)])
        url = text(C, "mysql://", C.tname("host"), "/", C.tname("db"), *given, *fg)
        v = C.ok_value(C.meth(st, "unsafe_url", url), f"merging {show(url)}")
        merged(C, url, v, [p for p in (conf[1:4], conf[5:], given[1:4], given[5:]) if p], fg or fc)

    def merged(C, url, v, pairs, frag):
        """The URL with credentials, its own path and fragment and, in any order, the parameters."""
        opts = {}
        for k, _, x in pairs:
            opts.setdefault(k, []).append(x)
        what = f"{show(url)} becomes {show(v)}, which"
        sp = C.ok_value(C.run("urllib.parse:urlsplit", v), f"splitting {show(v)}")
        part = lambda n: C.I.getattr(sp, n)
        for n, w in (("scheme", "mysql"), ("netloc", text(C, C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"))), ("path", text(C, "/", C.tname("db"))), ("fragment", text(C, *frag[1:]) if frag else "")):
            C.require(leaf_eq(C.I, part(n), w), f"{what} has the {n} {show(part(n))} instead of {show(w)}")
        got = C.I.canon(C.ok_value(C.run("urllib.parse:parse_qs", part("query")), f"reading {show(part('query'))}"))
        C.require(isinstance(got, dict) and len(got) == len(opts), f"{what} has the parameters {show(got)}")
        for k, ws in opts.items():
            e = C.I.dget(got, k)
            vs = list(e[0]) if e else []
            ok = len(vs) == len(ws) and all(leaf_eq(C.I, x, w) for x, w in zip(vs, ws))
            C.require(ok, f"{what} has for {show(k)} the values {show(vs)} instead of {show(ws)}")

    def overlap(C):
        """A parameter that both have is the given one; one that is given several times stays so."""
        p = lambda k, x: [C.tname("k" + k), "=", C.tname("v" + x)]
        conf, given, want = C.pick("queries", [
            ([p("1", "1")], [p("1", "2")], [p("1", "2")]),
            ([p("1", "1"), p("2", "2")], [p("2", "3")], [p("1", "1"), p("2", "3")]),
            ([p("1", "1"), p("1", "2")], [], [p("1", "1"), p("1", "2")]),
            ([p("1", "1"), p("1", "2")], [p("2", "3")], [p("1", "1"), p("1", "2"), p("2", "3")]),
            ([p("1", "1")], [p("2", "2"), p("2", "3")], [p("1", "1"), p("2", "2"), p("2", "3")]),
        ])
        q = lambda ps: [x for i, y in enumerate(ps) for x in ["&" if i else "?", *y]]
        st = settings_with(C, [any_url(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"), *q(conf))])
        url = text(C, "mysql://", C.tname("host"), "/", C.tname("db"), *q(given))
        v = C.ok_value(C.meth(st, "unsafe_url", url), f"merging {show(url)}")
        merged(C, url, v, want, [])

    ck.cell("parameters of both", overlap)

    def nothing(C):
        """Nothing is configured, so nothing is accepted."""
        st = settings_with(C, [])
        url = text(C, C.pick("url", ["mysql://", "https+csr://", "sqlite:///", "bigquery://", "file:///"]), C.tname("host"), "/", C.tname("db"))
        for mode in ([], [True]):
            o = C.meth(st, "unsafe_url", url, *mode)
            C.require(o.raised, f"{show(url)} is accepted as {show(o.value)} with nothing configured")
        v = C.ok_value(C.meth(st, "unsafe_url", url, False), f"{show(url)}, not strict")
        C.require(leaf_eq(C.I, v, url), f"{show(url)}, not strict, becomes {show(v)}")

    ck.cell("nothing configured", nothing)

    ck.cell("queries and fragments", query)

    def nohost(C):
        conf, given, ok = C.pick("urls", [
            (["bigquery://"], ["bigquery://"], True),
            (["bigquery://"], ["bigquery:///", C.tname("p")], True),
            (["sqlite:///", C.tname("f"), ".db"], ["sqlite:///", C.tname("f"), ".db"], True),
            (["sqlite:///", C.tname("f"), ".db"], ["sqlite:///", C.tname("g"), ".db"], False),
            (["sqlite:////", C.tname("d"), "/", C.tname("f"), ".db"], ["sqlite:////", C.tname("d"), "/", C.tname("f"), ".db"], True),
            (["file:///", C.tname("d")], ["file:///", C.tname("d"), "/", C.tname("e")], True),
            (["file:///", C.tname("d")], ["file:///", C.tname("e")], False),
            (["file:///", C.tname("d")], ["file:///", C.tname("d"), "/../", C.tname("e")], False),
        ])
        st = settings_with(C, [any_url(C, *conf)])
        o = C.meth(st, "unsafe_url", text(C, *given))
        if ok:
            v = C.ok_value(o, f"{show(text(C, *given))}")
            C.require(leaf_eq(C.I, v, text(C, *given)), f"{show(text(C, *given))} becomes {show(v)}")
        else:
            C.require(o.raised, f"{show(text(C, *given))} is accepted with {show(text(C, *conf))} configured, as {show(o.value)}")

    ck.cell("no host", nohost)

    def several(C):
        """Each URL gets the credentials of its own entry."""
        us = [any_url(C, "mysql://", C.tname(f"u{i}"), ":", C.tname(f"pw{i}"), "@", C.tname(f"h{i}"), "/", C.tname("db")) for i in range(3)]
        st = settings_with(C, us)
        i = C.pick("asked", [0, 1, 2])
        v = C.ok_value(C.meth(st, "unsafe_url", text(C, "mysql://", C.tname(f"h{i}"), "/", C.tname("db"), "/", C.tname("t"))), "merging")
        want = text(C, "mysql://", C.tname(f"u{i}"), ":", C.tname(f"pw{i}"), "@", C.tname(f"h{i}"), "/", C.tname("db"), "/", C.tname("t"))
        C.require(leaf_eq(C.I, v, want), f"becomes {show(v)} instead of {show(want)}")

    ck.cell("several entries", several)

    def again(C):
        """What was asked before, accepted or not, in either mode, makes no difference."""
        us = [any_url(C, "mysql://", C.tname(f"u{i}"), ":", C.tname(f"pw{i}"), "@", C.tname(f"h{i}"), "/", C.tname("db"), *q) for i, q in ((0, ["?", C.tname("k"), "=", C.tname("v")]), (1, []))]
        st = settings_with(C, us)
        url = lambda i, *p: text(C, "mysql://", C.tname(f"h{i}"), "/", C.tname("db"), *p)
        sub = ["/", C.tname("t")]
        want = {
            0: text(C, "mysql://", C.tname("u0"), ":", C.tname("pw0"), "@", C.tname("h0"), "/", C.tname("db"), *sub, "?", C.tname("k"), "=", C.tname("v")),
            1: text(C, "mysql://", C.tname("u1"), ":", C.tname("pw1"), "@", C.tname("h1"), "/", C.tname("db"), *sub), 2: None,
        }
        for i in range(3):
            n, strict_ = C.pick(f"request {i + 1}", [(0, True), (1, False), (2, False), (2, True)])
            o = C.meth(st, "unsafe_url", url(n, *sub), strict_)
            what = f"{show(url(n, *sub))}, {'strict' if strict_ else 'not strict'}, as request {i + 1}"
            if n == 2 and strict_:
                C.require(o.raised, f"{what}, not configured, is accepted as {show(o.value)}")
            else:
                v = C.ok_value(o, what)
                C.require(leaf_eq(C.I, v, want[n] if n < 2 else url(n, *sub)), f"{what} becomes {show(v)}")

    ck.cell("one request after the other", again)


def strip(ps):
    ps = list(ps)
    while ps and isinstance(ps[-1], str) and ps[-1].endswith("/"):
        ps[-1] = ps[-1].rstrip("/")
        if not ps[-1]:
            ps.pop()
    return ps


# --------------------------------------------------------------------- where settings come from
def environment(ck):
    ck.rule("the settings are those of the environment, of a .env file or of the directory of secrets, in this order; without them nothing is configured and the registry lies in the home directory of Recap, which is created")
    from .registry import Store, serve, ok
    from .server import installed, gateway

    class Process:
        """A process with this environment, .env file and secrets."""

        def __init__(self, C, env, dotenv=None, secrets=None, existing=()):
            self.C, self.made = C, []
            self.env, self.dotenv, self.secrets, self.existing = env, dotenv or {}, secrets or {}, list(existing)

        def run(self, body):
            C = self.C
            environ = C.I.stdlib["os"]["environ"]

            def load(I, a, k):
                for n, v in self.dotenv.items():
                    if n not in environ or k.get("override"):
                        environ[n] = v
                return True

            def secret(I, a, k):
                d = I.canon(a[0])
                for (p, n), v in self.secrets.items():
                    if n == I.canon(a[1]) and leaf_eq(I, I.norm(d), p):
                        return v
                return None

            def made(I, op, p, a, k):
                there = any(leaf_eq(I, I.norm(p), e) for e in self.existing + self.made)
                if op in ("exists", "is_dir"):
                    return there
                if there and not k.get("exist_ok"):
                    I.throw("FileExistsError", f"{show(p)} exists")
                self.made.append(p)

            C.I.hooks.update({"dotenv.load": load, "settings.secret": secret, "made": made})
            environ.clear()
            environ.update(self.env)
            try:
                return installed(C, None, body)
            except PyExc as e:
                C.fail(f"with the environment {show(self.env)}, .env {show(self.dotenv)}: {e}", e.site)
            finally:
                environ.clear()

    HOME = "/home/user/.recap"

    def home(how):
        def f(C):
            h = text(C, "/", C.tname("data"), "/", C.tname("rc"))
            env, dot = {}, {}
            want = h
            if how == "environment":
                env = {"RECAP_HOME": h}
                dot = C.pick(".env", [{}, {"RECAP_HOME": text(C, "/", C.tname("elsewhere"))}])
            elif how == ".env":
                dot = {"RECAP_HOME": h}
            else:
                want = HOME
                env = C.pick("environment", [{}, {"RECAP_HOME": ""}])
            p = Process(C, env, dot, existing=C.pick("exists", [[], [want]]))

            def body():
                C.I.module("recap.settings")
                st = Store(C, "local", "as made")
                ok(C, serve(C, "GET", ["registry", ""]), "the list of names")
                return st.urls, C.ok_value(C.run("recap.commands:ls"), "the root listing")

            urls, root = p.run(body)
            C.require(any(leaf_eq(C.I, C.I.norm(m), want) for m in p.made + p.existing), f"the directory {show(want)} is not created, but {show(p.made)}")
            w = C.I.mkstr(["file://", *(want.parts if isinstance(want, SStr) else [want]), "/schemas"])
            C.require(urls and all(leaf_eq(C.I, C.I.norm(u), w) for u, _ in urls), f"with the home directory {show(want)} the registry is at {show([u for u, _ in urls])}")
            C.require(all(not k for _, k in urls), f"the registry is opened with {show(urls)}")
            C.require(C.I.canon(root) == [], f"the root listing without configured URLs is {show(root)}")

        ck.cell(f"home directory from the {how}", f)

    for how in ("environment", ".env", "user"):
        home(how)

    def urls(how):
        def f(C):
            far = Far(C, names_of(C, "url"))
            mine = [text(C, "mysql://", C.tname("u"), ":", C.tname("pw"), "@", C.tname("host"), ".example.com"), text(C, "postgresql://", C.tname("host2"), ".example.com:5432")]
            doc = JsonText(mine)
            sec = text(C, "/", C.tname("vault"))
            V = {"RECAP_URLS": doc}
            other = {"RECAP_URLS": JsonText([text(C, "snowflake://", C.tname("host3"))])}
            osec = {(sec, "recap_urls"): other["RECAP_URLS"]}
            if how == "environment":
                p = Process(C, {C.pick("name", ["RECAP_URLS", "recap_urls"]): doc, **C.pick("secrets", [{}, {"RECAP_SECRETS": sec}])}, C.pick(".env", [{}, {"RECAP_HOME": "/x"}]), osec)
            elif how == ".env":
                p = Process(C, {}, C.pick(".env", [V, {**V, "RECAP_SECRETS": sec}]), osec)
            else:
                p = Process(C, *C.pick("directory", [({"RECAP_SECRETS": sec}, {}), ({}, {"RECAP_SECRETS": sec})]), {(sec, "recap_urls"): doc}, existing=C.pick("exists", [[], [sec]]))
            by = C.pick("by", ["gateway", "command"])

            def body():
                root = gateway(C, "ls", "").value if by == "gateway" else C.ok_value(C.run("recap.commands:ls"), "the root listing")
                u = text(C, "mysql://", C.tname("host"), ".example.com")
                if by == "gateway":
                    r = gateway(C, "ls", u)
                    C.require(r.status == 200, f"a configured URL is answered with {r!r}")
                else:
                    C.ok_value(C.run("recap.commands:ls", u), "listing a configured URL")
                return root

            root = p.run(body)
            bag(C, root, [text(C, "mysql://", C.tname("host"), ".example.com"), text(C, "postgresql://", C.tname("host2"), ".example.com:5432")], "the root listing")
            C.require(len(far.calls) == 1 and leaf_eq(C.I, far.calls[0][2].get("password"), C.tname("pw")), f"a configured URL connects with {far.calls}")

        ck.cell(f"URLs from the {how}", f)

    for how in ("environment", ".env", "secrets"):
        urls(how)

    def storage(how):
        def f(C):
            url = text(C, C.tname("proto"), "://", C.tname("bucket"), "/", C.tname("dir"))
            sec = text(C, "/", C.tname("vault"))
            v = {"RECAP_REGISTRY_STORAGE_URL": url}
            a, want = C.pick("arguments", [({}, {}), ({"RECAP_REGISTRY_STORAGE_URL_ARGS": JsonText({"key": C.tname("key"), "anon": True})}, {"key": C.tname("key"), "anon": True}),
                                           ({"RECAP_REGISTRY_STORAGE_URL_ARGS__KEY": C.tname("key")}, {"key": C.tname("key")})])
            if how == "environment":
                p = Process(C, {**v, **a})
            elif how == ".env":
                p = Process(C, {}, {**v, **a})
            else:
                p = Process(C, {"RECAP_SECRETS": sec, **a}, {}, {(sec, "recap_registry_storage_url"): url})
            more = C.pick("request", [("GET", ["registry", ""]), ("GET", ["registry", C.tname("n")]), ("GET", ["registry", C.tname("n"), "versions"])])

            def body():
                st = Store(C, "local", "as made")
                serve(C, *more)
                return st.urls

            us = p.run(body)
            C.require(us, "no file system was opened")
            for u, k in us:
                C.require(leaf_eq(C.I, C.I.norm(u), url), f"the storage is at {show(u)} instead of {show(url)}")
                d = diff(C.I, dict(k), want)
                C.require(d is None, f"the storage is opened with {show(k)}: {d}")

        ck.cell(f"storage from the {how}", f)

    for how in ("environment", ".env", "secrets"):
        storage(how)
