"""Properties of the schema registry: its storage and its HTTP interface."""
from __future__ import annotations

import ast

from .common import *
from .clients import bag, text

RS = "recap.storage.registry:RegistryStorage"

# Root paths as file systems give them: local, object stores, in-memory.
ROOTS = {
    "local": lambda C: text(C, "/", C.tname("home"), "/", C.tname("reg")),
    "bucket": lambda C: text(C, C.tname("bucket"), "/", C.tname("reg")),
    "memory": lambda C: text(C, "/", C.tname("reg")),
}


class Store:
    """A file system that is handed to the storage, with all that it holds."""

    def __init__(self, C, root=None, order=None, detail=None):
        self.C = C
        self.root = ROOTS[root or C.pick("file system", list(ROOTS))](C)
        self.order = order if order is not None else C.pick("order of listings", ["as made", "reversed"])
        self.detail = detail if detail is not None else (root or "") == "memory"
        self.dirs, self.files, self.ops = [], [], []
        self.fault = None
        self.tick = None
        self.urls = []
        C.I.hooks["fsspec.url_to_fs"] = self.url_to_fs
        self.fs = fake(C, {n[3:]: self.op(n[3:], getattr(self, n)) for n in dir(self) if n.startswith("fs_")}, {"sep": "/", "root_marker": ""})

    def url_to_fs(self, I, a, k):
        self.urls.append((a[0], k))
        return (self.fs, self.root)

    def op(self, name, m):
        def f(I, a, k):
            self.ops.append((name, a[0] if a else None))
            if self.tick:
                self.tick(I, name)
            if self.fault and self.fault(name):
                I.throw("OSError", f"{name} failed")
            return m(I, a, k)

        return f

    # ------------------------------------------------------------------ paths
    def segs(self, path):
        """The path as a file system resolves it: a list of names."""
        I = self.C.I
        p = I.norm(I.canon(path))
        if isinstance(p, Inst) or isinstance(p, Model):
            p = I.norm(I.canon(I.call(I.builtin("str"), [p], {})))
        parts = list(p.parts) if isinstance(p, SStr) else [p]
        out, cur = [], []

        def end():
            if cur:
                s = I.mkstr(list(cur)) if not (len(cur) == 1 and isinstance(cur[0], str)) else cur[0]
                if s == "..":
                    if out:
                        out.pop()
                elif s not in ("", "."):
                    out.append(s)
                cur.clear()

        for x in parts:
            x = I.canon(x)
            if isinstance(x, str):
                bits = x.split("/")
                for i, b in enumerate(bits):
                    if i:
                        end()
                    if b:
                        cur.append(b)
            elif I.kinds(x) is not None and I.kinds(x) <= {"int"} or getattr(x, "clean", False) or (isinstance(x, App) and x.op == "quote_plus") or (isinstance(x, App) and x.op == "quote" and x.args[1:] == ("",)):
                cur.append(x)
            elif isinstance(x, Sym):
                self.C.fail(f"the name {show(x)} is part of the path {show(p)} as it is: a name with a slash or dots leaves its directory", self.site())
            else:
                raise Undecided(f"path {show(p)}")
        end()
        return out

    def site(self):
        fr = next((f for f in reversed(self.C.I.frames) if f and not str(f.file).startswith("<")), None)
        return None if fr is None else (fr.file, getattr(fr, "line", 0), fr.name)

    def eq(self, a, b):
        return len(a) == len(b) and all(leaf_eq(self.C.I, x, y) for x, y in zip(a, b))

    def find(self, s):
        return next((f for f in self.files if self.eq(f[0], s)), None)

    def isdir(self, s):
        return not s or any(self.eq(d, s) for d in self.dirs) or any(self.eq(f[0][: len(s)], s) and len(f[0]) > len(s) for f in self.files)

    def full(self, s):
        r = self.C.I.norm(self.root)
        lead = "/" if self.starts(r) else ""
        ps = []
        for i, x in enumerate(s):
            ps += ([lead] if not i else ["/"]) + [x]
        return self.C.I.mkstr([p for p in ps if p != ""])

    def starts(self, r):
        return (r.parts[0] if isinstance(r, SStr) else r)[:1] == "/" if not isinstance(r, (Sym, App)) and not (isinstance(r, SStr) and not isinstance(r.parts[0], str)) else False

    # ------------------------------------------------------------------ operations
    def arg(self, a, k, i, name, default=None):
        return a[i] if len(a) > i else k.get(name, default)

    def fs_mkdirs(self, I, a, k):
        s = self.segs(a[0])
        if self.isdir(s):
            if not I.truth(self.arg(a, k, 1, "exist_ok", False)):
                I.throw("FileExistsError", "exists")
            return None
        for i in range(1, len(s) + 1):
            if not self.isdir(s[:i]):
                self.dirs.append(s[:i])

    fs_makedirs = fs_mkdirs

    def fs_mkdir(self, I, a, k):
        s = self.segs(a[0])
        if self.isdir(s):
            I.throw("FileExistsError", "exists")
        self.dirs.append(s)

    def names(self, s):
        out = []
        for x in [d for d in self.dirs] + [f[0] for f in self.files]:
            if len(x) > len(s) and self.eq(x[: len(s)], s) and not any(leaf_eq(self.C.I, x[len(s)], o) for o in out):
                out.append(x[len(s)])
        return out if self.order == "as made" else out[::-1]

    def fs_ls(self, I, a, k):
        s = self.segs(a[0])
        if self.find(s):
            names = [self.full(s)]
        elif not self.isdir(s):
            I.throw("FileNotFoundError", "no such directory")
        else:
            names = [self.full(s + [n]) for n in self.names(s)]
        d = self.arg(a, k, 1, "detail", self.detail)
        return [{"name": n, "size": 0, "type": "file" if self.find(self.segs(n)) else "directory"} for n in names] if I.truth(d) else names

    fs_listdir = fs_ls

    def fs_exists(self, I, a, k):
        s = self.segs(a[0])
        return bool(self.find(s)) or self.isdir(s)

    def fs_isfile(self, I, a, k):
        return bool(self.find(self.segs(a[0])))

    def fs_isdir(self, I, a, k):
        return self.isdir(self.segs(a[0]))

    def read(self, I, p):
        f = self.find(self.segs(p))
        if not f:
            I.throw("FileNotFoundError", "no such file")
        return f[1]

    def write(self, I, p, v):
        s = self.segs(p)
        if not self.isdir(s[:-1]):
            I.throw("FileNotFoundError", "no such directory")
        f = self.find(s)
        if f:
            f[1] = v
        else:
            self.files.append([s, v])

    def fs_open(self, I, a, k):
        mode = self.arg(a, k, 1, "mode", "rb")
        if not isinstance(mode, str):
            raise Undecided("mode")
        if "r" in mode and "+" not in mode:
            self.read(I, a[0])
            return fake(self.C, {"read": lambda J, b, kk: self.read(J, a[0]), "close": lambda J, b, kk: None}, managed=True)
        if "x" in mode and self.find(self.segs(a[0])):
            I.throw("FileExistsError", "exists")
        if "+" in mode:
            raise Undecided("mode " + mode)
        if "a" not in mode or not self.find(self.segs(a[0])):
            self.write(I, a[0], "")

        def w(J, b, kk):
            self.ops.append(("write", a[0]))
            if self.tick:
                self.tick(J, "write")
            if self.fault and self.fault("write"):
                J.throw("OSError", "write failed")
            old = self.read(J, a[0])
            if isinstance(b[0], JsonText):
                if isinstance(old, JsonText) and "a" in mode:
                    self.C.fail(f"a type is written after the one that {show(a[0])} has")
                if old != "":
                    raise Undecided("written in parts")
                self.write(J, a[0], b[0])
            else:
                self.write(J, a[0], J.mkstr([old, b[0]]) if old != "" else b[0])

        return fake(self.C, {"write": w, "close": lambda J, b, kk: None, "flush": lambda J, b, kk: None}, managed=True)

    def fs_read_text(self, I, a, k):
        return self.read(I, a[0])

    fs_cat_file = fs_cat = fs_read_bytes = fs_read_text

    def fs_write_text(self, I, a, k):
        self.write(I, a[0], a[1])

    fs_pipe_file = fs_pipe = fs_write_bytes = fs_write_text

    def fs_rm(self, I, a, k):
        s = self.segs(a[0])
        self.files = [f for f in self.files if not self.eq(f[0][: len(s)], s)]
        self.dirs = [d for d in self.dirs if not self.eq(d[: len(s)], s)]

    fs_rm_file = fs_delete = fs_rm

    def fs_mv(self, I, a, k):
        v = self.read(I, a[0])
        self.write(I, a[1], v)
        self.fs_rm(I, a[:1], k)

    fs_move = fs_rename = fs_mv

    # ------------------------------------------------------------------ inspection
    def state(self):
        return [(f[0], f[1]) for f in self.files]

    def confined(self, what):
        """Every path that was used lies in the root, one level for the name."""
        r = self.segs(self.root)
        for name, p in self.ops:
            if p is None:
                continue
            s = self.segs(p)
            self.C.require(self.eq(s[: len(r)], r), f"{what} reaches {show(p)}, outside {show(self.root)}")

    def unchanged(self, before, what, except_=None):
        now = self.state()
        for s, v in before:
            if except_ and self.eq(s, except_):
                continue
            n = next((x for x in now if self.eq(x[0], s)), None)
            self.C.require(n is not None, f"{what} removed {show(self.full(s))}")
            self.C.require(same_text(self.C.I, n[1], v), f"{what} changed {show(self.full(s))}")


def same_text(I, a, b):
    if isinstance(a, JsonText) and isinstance(b, JsonText):
        return diff(I, a.value, b.value) is None
    return a is b or leaf_eq(I, a, b)


def storage(C, store, **kw):
    o = C.run(RS, "file:///x", **kw)
    return C.ok_value(o, "opening the storage")


def sample(C, tag):
    """A type that is told apart by its documentation."""
    return X("struct", fields=[X("bool", name=C.tname("f"), doc=C.tname("doc" + tag))])


def is_sample(C, v, tag):
    return xdiff(C.I, as_x(C.I, v, True), as_x(C.I, build(C, sample(C, tag)), True)) is None


def got(C, o, tag, version, what):
    """get() returned this type and version."""
    v = C.I.canon(C.ok_value(o, what))
    C.require(v is not None, f"{what} is not found")
    C.require(isinstance(v, (tuple, list)) and len(v) == 2, f"{what} is {show(v)}")
    d = xdiff(C.I, as_x(C.I, v[0], True), as_x(C.I, build(C, sample(C, tag)), True)) if not isinstance(v[0], (dict, str, list)) else "not a type"
    C.require(d is None, lambda: f"{what} is another type: {d}")
    C.require(leaf_eq(C.I, v[1], version), f"{what} has version {show(v[1])} instead of {show(version)}")


# --------------------------------------------------------------------------- names
NAMES = ["a", "A", "a.b", "a/b", "/a", "a/", "../a", "..", ".", "...", "a%2Fb", "a%2fb", "%2E", "%2E%2E", "%2e", "a b", "a+b", "a%20b", "a%2Bb", " ", "+", "%", "a\\b", "1.json", "a:b", "ä", "a?b", "a#b", "~", "*", "a/versions/1", "a/1.json", "a\nb"]


def any_names(C):
    return [C.sym("n1", "str", nonempty=True), C.sym("n2", "str", nonempty=True)]


def names(ck):
    ck.rule("each name has a directory of its own directly beneath the root: what is stored under one name is found under it, is listed as it, and never under another name")

    def one(n, root):
        def f(C):
            st = Store(C, root)
            s = storage(C, st)
            name = any_names(C)[0] if n is None else n
            what = f"name {show(name)}"
            v = C.ok_value(C.meth(s, "put", name, build(C, sample(C, "1"))), f"storing the {what}")
            st.confined(what)
            r = st.segs(st.root)
            for p, _ in st.files:
                C.require(len(p) == len(r) + 2, f"{what} is stored as {show(st.full(p))}, not in a directory beneath the root")
            C.require(len(st.files) == 1, f"{what} is stored as {len(st.files)} files")
            got(C, C.meth(s, "get", name), "1", v, f"the type of the {what}")
            got(C, C.meth(s, "get", name, v), "1", v, f"version {show(v)} of the {what}")
            bag(C, C.ok_value(C.meth(s, "ls"), "listing"), [name], f"the list of names after storing the {what}")
            st.confined(what)

        ck.cell(f"name {'any' if n is None else n!r} / {root}", f)

    for r in ROOTS:
        for n in [None] + NAMES:
            one(n, r)

    def pair(a, b):
        def f(C):
            st = Store(C, "local", "as made")
            s = storage(C, st)
            na, nb = any_names(C) if a is None and b is None else (any_names(C)[0] if a is None else a, b)
            for n, t in ((na, "1"), (nb, "2")):
                C.ok_value(C.meth(s, "put", n, build(C, sample(C, t))), f"storing the name {show(n)}")
            if leaf_eq(C.I, na, nb):
                C.skip()
            for n, t in ((na, "1"), (nb, "2")):
                got(C, C.meth(s, "get", n), t, 1, f"after storing {show(na)} and {show(nb)}, {show(n)}")
            bag(C, C.ok_value(C.meth(s, "ls"), "listing"), [na, nb], "the list of names")

        ck.cell(f"names {'any' if a is None else repr(a)} and {'any' if b is None else repr(b)}", f)

    pair(None, None)
    for i, a in enumerate(NAMES):
        for b in NAMES[i + 1 :]:
            pair(a, b)

    def empty(C):
        st = Store(C)
        s = storage(C, st)
        C.ok_value(C.meth(s, "put", "a", build(C, sample(C, "1"))), "storing")
        before = st.state()
        o = C.meth(s, "put", "", build(C, sample(C, "2")))
        C.require(o.raised, f"the empty name is accepted, as version {show(o.value)}: {[show(st.full(p)) for p, _ in st.files]}")
        st.unchanged(before, "storing the empty name")
        C.require(len(st.files) == 1, "storing the empty name left a file")

    ck.cell("the empty name", empty)

    def nothing(C):
        st = Store(C)
        s = storage(C, st)
        bag(C, C.ok_value(C.meth(s, "ls"), "listing an empty registry"), [], "the list of an empty registry")

    ck.cell("empty registry", nothing)


# --------------------------------------------------------------------------- versions
SETS = [[1], [1, 2], [1, 2, 3], [9, 10], [2, 10, 100], [5], [99, 100, 101], [0], [7, 3], [10, 9, 8], [1, 12, 3]]


def fill(C, st, name, versions):
    """Versions that were stored before, each of its own type."""
    s = storage(C, st)
    for v in versions:
        C.ok_value(C.meth(s, "put", name, build(C, sample(C, str(v))), v), f"storing version {v}")
    return s


def versions(ck):
    ck.rule("a new version is one more than the greatest; versions are listed in ascending order of their numbers, the latest is the greatest, each is found under its own number only, and storing one changes no other")

    def one(vs):
        def f(C):
            st = Store(C, C.pick("file system", ["local", "memory"]))
            n, other = C.name("n"), C.pick("other name", [text(C, C.name("n"), C.name("x")), text(C, C.name("x"), C.name("n")), text(C, C.name("n"), ".", C.name("x"))])
            fill(C, st, other, [1, 500])
            s = fill(C, st, n, vs)
            fill(C, st, other, [501])
            before = st.state()
            m = max(vs)
            what = f"with versions {vs}, "
            v = C.ok_value(C.meth(s, "versions", n), "versions")
            C.require(isinstance(v, (list, tuple)) and [C.I.canon(x) for x in v] == sorted(vs), f"{what}versions are {show(v)}")
            C.require(C.I.canon(C.ok_value(C.meth(s, "latest", n), "latest")) == m, f"{what}the latest is {show(C.meth(s, 'latest', n).value)}")
            got(C, C.meth(s, "get", n), str(m), m, what + "the current type")
            for x in vs:
                got(C, C.meth(s, "get", n, x), str(x), x, what + f"version {x}")
            for x in (m + 1, m + 10, 8 if 8 not in vs else 4, 0 if 0 not in vs else 6):
                o = C.ok_value(C.meth(s, "get", n, x), "get")
                C.require(C.I.canon(o) is None, f"{what}version {x} is found")
            st.unchanged(before, "reading")
            w = C.ok_value(C.meth(s, "put", n, build(C, sample(C, "new"))), "storing a new version")
            C.require(C.I.canon(w) == m + 1, f"{what}the next version is {show(w)}")
            st.unchanged(before, "storing a new version")
            got(C, C.meth(s, "get", n), "new", m + 1, what + "the type stored last")
            got(C, C.meth(s, "get", n, m + 1), "new", m + 1, what + "the type stored last")
            got(C, C.meth(s, "get", n, m), str(m), m, what + f"version {m}, after storing another,")
            got(C, C.meth(s, "get", other), "501", 501, what + "the type of the other name")
            w = C.ok_value(C.meth(s, "put", n, build(C, sample(C, "newer"))), "storing a new version")
            C.require(C.I.canon(w) == m + 2, f"{what}the version after next is {show(w)}")

        ck.cell(f"versions {vs}", f)

    for vs in SETS:
        one(vs)

    def run_up(C):
        """Twelve versions in a row."""
        st = Store(C, "local")
        s = storage(C, st)
        n = C.name("n")
        for i in range(1, 13):
            w = C.ok_value(C.meth(s, "put", n, build(C, sample(C, str(i)))), f"storing version {i}")
            C.require(C.I.canon(w) == i, f"version {i} is numbered {show(w)}")
        for i in range(1, 13):
            got(C, C.meth(s, "get", n, i), str(i), i, f"version {i} of 12")
        got(C, C.meth(s, "get", n), "12", 12, "the current type after 12 versions")

    ck.cell("twelve in a row", run_up)

    def unknown(C):
        st = Store(C)
        s = fill(C, st, C.name("n"), [1])
        o = text(C, C.name("n"), C.name("x"))
        before = st.state()
        for m, a in (("get", ()), ("get", (1,)), ("versions", ()), ("latest", ())):
            v = C.I.canon(C.ok_value(C.meth(s, m, o, *a), f"{m} of an unknown name"))
            C.require(v is None or v == [], f"{m} of an unknown name is {show(v)}")
        st.unchanged(before, "reading an unknown name")
        bag(C, C.ok_value(C.meth(s, "ls"), "listing"), [C.name("n")], "the list of names after asking for another")

    ck.cell("unknown name", unknown)

    def explicit(C):
        """An explicit version is stored under that number."""
        st = Store(C)
        vs = C.pick("versions", [[], [1], [1, 2, 3], [7]])
        s = fill(C, st, C.name("n"), vs)
        x = C.pick("version", [4, 10, 0])
        before = st.state()
        w = C.ok_value(C.meth(s, "put", C.name("n"), build(C, sample(C, "new")), x), "storing")
        C.require(C.I.canon(w) == x, f"version {x} is stored as {show(w)}")
        st.unchanged(before, f"storing version {x}")
        got(C, C.meth(s, "get", C.name("n"), x), "new", x, f"version {x}")
        m = max(vs + [x])
        got(C, C.meth(s, "get", C.name("n")), "new" if m == x else str(m), m, f"with versions {vs + [x]}, the current type")

    ck.cell("explicit version", explicit)

    def sequence(C):
        """Storing again and again, by the same and by another storage object on the same files: each step sees all those before it."""
        st = Store(C, "local", "as made")
        two = [storage(C, st), storage(C, st)]
        n = C.name("n")
        now = {}
        steps = 4 if ck.thorough else 3
        for i in range(steps):
            who, x, same = C.pick(f"step {i + 1}", [(0, None, False), (0, 5, False), (1, None, False), (1, 9, False), (0, None, True)] if i < steps - 1 else [(0, None, False), (1, None, True)])
            tag = now[max(now)] if same and now else str(i)
            before = st.state()
            w = C.ok_value(C.meth(two[who], "put", n, build(C, sample(C, tag)), *([] if x is None else [x])), "storing")
            want = x if x is not None else max(now, default=0) + 1
            C.require(C.I.canon(w) == want, f"with versions {sorted(now)}, storing {'version ' + str(x) if x is not None else 'a new version'} is answered with {show(w)} instead of {want}")
            if want not in now:
                st.unchanged(before, f"storing version {want}")
            now[want] = tag
            for s in two:
                v = C.ok_value(C.meth(s, "versions", n), "versions")
                C.require([C.I.canon(e) for e in v] == sorted(now), f"after storing {sorted(now)}, the versions are {show(v)}")
                C.require(C.I.canon(C.ok_value(C.meth(s, "latest", n), "latest")) == max(now), f"after storing {sorted(now)}, the latest is {show(C.meth(s, 'latest', n).value)}")
                got(C, C.meth(s, "get", n), now[max(now)], max(now), f"after storing {sorted(now)}, the current type")
                got(C, C.meth(s, "get", n, want), tag, want, f"after storing it, version {want}")

    ck.cell("one after the other", sequence)


# --------------------------------------------------------------------------- contents
def contents(ck):
    ck.rule("what is read is the type that was stored, and a type that cannot be stored is refused without a trace")
    from .types import LEAVES, CTX, shape

    def one(leaf, attrs, ctx):
        def f(C):
            st = Store(C, "local", "as made")
            s = storage(C, st)
            t = build(C, shape(C, leaf, attrs, ctx))
            want = as_x(C.I, t, True)
            v = C.ok_value(C.meth(s, "put", "n", t), f"storing {show(t)}")
            # a registry of its own: nothing but the file is left of it
            back = C.I.canon(C.ok_value(C.meth(storage(C, st), "get", "n"), f"reading {show(t)}"))
            C.require(isinstance(back, tuple), f"{show(t)} is not found: {show(back)}")
            d = xdiff(C.I, as_x(C.I, back[0], True), want)
            C.require(d is None, lambda: f"{show(t)} is read back differently: {d}")
            d = xdiff(C.I, as_x(C.I, t, True), want)
            C.require(d is None, lambda: f"storing changed the type: {d}")

        ck.cell(f"{leaf} / {attrs} / {ctx}", f)

    for leaf in LEAVES:
        for ctx in CTX:
            for attrs in ("plain", "all") if ctx in ("alone", "struct field") or ck.thorough else ("all",):
                one(leaf, attrs, ctx)

    def refused(C):
        st = Store(C, C.pick("file system", ["local", "memory"]), "as made")
        vs = C.pick("versions", [[], [1], [1, 2]])
        s = fill(C, st, "n", vs)
        bad = C.pick("value", [lambda: b"x", lambda: C.new("environment:Object"), lambda: {1}])()
        where = C.pick("where", ["default", "extra", "nested"])
        t = {"default": lambda: X("struct", fields=[X("bool", default=bad)]), "extra": lambda: X("struct", fields=[], extra=bad), "nested": lambda: X("struct", fields=[X("list", values=X("bool", other=bad))])}[where]()
        before = st.state()
        x = C.pick("version", [(), (1,), (7,)])
        t = build(C, t)
        o = C.meth(s, "put", "n", t, *x)
        if not o.raised:
            back = C.I.canon(C.ok_value(C.meth(s, "get", "n", o.value), "reading it back"))
            C.require(isinstance(back, tuple), f"{show(t)} is not found: {show(back)}")
            d = xdiff(C.I, as_x(C.I, back[0], True), as_x(C.I, t, True))
            C.require(d is None, lambda: f"{show(t)} is accepted and read back differently: {d}")
            return
        st.unchanged(before, "storing a type that cannot be written")
        C.require(len(st.files) == len(before), f"a type that cannot be written left {[show(st.full(p)) for p, _ in st.files[len(before):]]}")
        v = C.ok_value(C.meth(s, "versions", "n"), "versions")
        C.require((v or []) == vs, f"versions are {show(v)} afterwards")

    ck.cell("types that cannot be written", refused)

    def replaced(C):
        """A version that is stored again, with more or with less to say, is what was stored last."""
        st = Store(C, "local", "as made")
        s = fill(C, st, "n", [1, 2])
        x = C.pick("version", [1, 2])
        w = C.ok_value(C.meth(s, "put", "n", build(C, sample(C, "new")), x), "storing")
        C.require(C.I.canon(w) == x, f"version {x} is stored as {show(w)}")
        got(C, C.meth(s, "get", "n", x), "new", x, f"version {x}, stored again,")
        got(C, C.meth(s, "get", "n", 3 - x), str(3 - x), 3 - x, f"version {3 - x}")

    ck.cell("stored again", replaced)

    def faults(C):
        """A storage that fails: the caller is told."""
        st = Store(C, "local", "as made")
        s = fill(C, st, "n", C.pick("versions", [[], [1, 2]]))
        op = C.pick("failing", ["mkdirs", "open", "write", "ls"])
        before = st.state()
        st.ops.clear()
        hit = []
        st.fault = lambda n: n == op and not hit.append(n)
        o = C.meth(s, "put", "n", build(C, sample(C, "new")), *C.pick("version", [(), (7,)]))
        st.fault = None
        if not hit:
            C.skip()
        C.require(o.raised, f"storing returns {show(o.value)} although {op} failed")
        st.unchanged(before, f"storing, when {op} fails,")

    ck.cell("failing storage", faults)


# --------------------------------------------------------------------------- HTTP
class Reply:
    def __init__(self, status, value=None, out=None):
        self.status, self.value, self.out = status, value, out

    def __repr__(self):
        return f"{self.status} {show(self.value)}" + (f" ({self.out!r})" if self.status == 500 else "")


def convert(kind, seg):
    if kind == "int":
        return int(seg) if isinstance(seg, str) and seg.isdigit() else None
    return seg


def match(C, pattern, segs):
    """The parameters, or None."""
    ps = pattern.strip("/").split("/")
    out = {}
    trail = pattern.endswith("/")
    segs = list(segs)
    for i, p in enumerate(ps):
        if p.startswith("{") and p.endswith("}"):
            n, _, kind = p[1:-1].partition(":")
            if kind == "path":
                rest = segs[i:]
                out[n] = C.I.mkstr([x for j, r in enumerate(rest) for x in (["/"] if j else []) + [r]]) if rest and not (len(rest) == 1 and isinstance(rest[0], str)) else (rest[0] if rest else "")
                return out
            if i >= len(segs) or segs[i] == "":
                return None
            v = convert(kind, segs[i])
            if v is None:
                return None
            out[n] = v
        elif i >= len(segs) or segs[i] != p:
            return None
    if len(segs) != len(ps) + (1 if trail else 0) or (trail and segs[-1] != ""):
        return None
    return out


def routes(C):
    r = C.I.canon(C.attr(C.get("recap.server.app:app"), "routes"))
    return [tuple(C.I.canon(x) for x in t) for t in r]


def annotated(C, fn, node):
    """Depends(...) in Annotated[...]"""
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Tuple):
        for e in node.slice.elts[1:]:
            if isinstance(e, ast.Call):
                v = C.I.ev(e, fn.env)
                if isinstance(v, Inst) and v.cls.name == "_Depends":
                    return v
    if isinstance(node, ast.Name) and isinstance(fn.env, object):
        pass
    return None


def call_endpoint(C, fn, params, request):
    I = C.I
    a = fn.node.args
    kwargs = {}
    pos = a.posonlyargs + a.args
    defaults = dict(zip([x.arg for x in pos[len(pos) - len(fn.defaults) :]], fn.defaults))
    defaults.update(fn.kwdefaults or {})
    for x in pos + a.kwonlyargs:
        if x.arg in params:
            kwargs[x.arg] = params[x.arg]
            continue
        d = defaults.get(x.arg)
        dep = d if isinstance(d, Inst) and d.cls.name == "_Depends" else annotated(C, fn, x.annotation)
        if dep is not None:
            f = I.canon(dep.attrs["dependency"])
            v = call_endpoint(C, f, params, request) if isinstance(f, Func) else I.call(f, [], {})
            kwargs[x.arg] = v
        elif x.annotation is not None and "Request" in ast.unparse(x.annotation):
            kwargs[x.arg] = request
        elif x.arg in defaults:
            kwargs[x.arg] = d.attrs["default"] if isinstance(d, Inst) and d.cls.name == "_Params" else d
        else:
            raise Undecided(f"parameter {x.arg} of {fn.name}")
    v = I.call(fn, [], kwargs)
    return C.aw(v) if isinstance(v, Coro) else v


def serve(C, method, segs, headers=None, body=b""):
    """The reply of the application to a request."""
    found = None
    for m, p, fn, kw in routes(C):
        if m == "EXC":
            raise Undecided("exception handlers")
        params = match(C, p, segs)
        if params is not None:
            if m == method:
                found = (fn, params, kw)
                break
            found = found or m
    if found is None:
        return Reply(404)
    if isinstance(found, str):
        return Reply(405)
    fn, params, kw = found
    if not isinstance(fn, Func):
        raise Undecided("endpoint")
    req = C.new("environment:HttpRequest", headers or {}, body)
    serve.fn = fn
    try:
        v = C.I.canon(call_endpoint(C, fn, params, req))
    except PyExc as e:
        if any(getattr(c, "name", "") == "HTTPException" for c in e.inst.cls.mro):
            return Reply(C.I.canon(e.inst.attrs["status_code"]), C.I.canon(e.inst.attrs.get("detail")))
        return Reply(500, None, Out(None, e.inst, e.site))
    if isinstance(v, Inst) and v.cls.name == "Response":
        return Reply(C.I.canon(v.attrs["status_code"]), C.I.canon(v.attrs["content"]))
    return Reply(kw.get("status_code", 200), v)


RECAP = {"content-type": "application/x-recap+json"}


def http_store(C, versions=(), name="n", root="local"):
    st = Store(C, root, "as made")
    if versions:
        fill(C, st, name, versions)
    st.ops.clear()
    return st


def body_of(C, tag):
    return JsonText({"type": "struct", "fields": [{"type": "bool", "name": C.tname("f"), "doc": C.tname("doc" + tag)}]})


def described(C, v, tag, what):
    """A reply that is the dictionary form of the sample."""
    o = C.run("recap.types:from_dict", v)
    C.require(not o.raised, f"{what}: {show(v)} is not a type: {o!r}")
    C.require(is_sample(C, o.value, tag), f"{what}: {show(v)} is another type")


def ok(C, r, what, status=(200, 201)):
    C.require(r.status in status, f"{what} is answered with {r!r}", r.out.site if r.out else None)
    return r.value


def http(ck):
    ck.rule("each request of the registry is answered from the storage: the type and version asked for, 404 for what is not there, 400 for what is not a type, 415 for other content types, 409 for a version that exists; a refused request changes nothing")

    def reading(C):
        vs = C.pick("versions", [[1], [1, 2], [2, 10, 9]])
        n = C.pick("name", [lambda: "n", lambda: C.tname("n"), lambda: "a b", lambda: text(C, C.tname("x"), ".", C.tname("y")), lambda: "versions", lambda: "1"])()
        st = http_store(C, vs, n)
        before = st.state()
        m = max(vs)

        def one(segs, tag, v):
            what = "GET /" + "/".join(map(show, segs))
            r = ok(C, serve(C, "GET", segs), what)
            C.require(isinstance(r, (tuple, list)) and len(r) == 2, f"{what} is answered with {show(r)}")
            described(C, r[0], tag, what)
            C.require(C.I.canon(r[1]) == v, f"{what} is answered with version {show(r[1])}")

        one(["registry", n], str(m), m)
        for v in vs:
            one(["registry", n, "versions", str(v)], str(v), v)
        r = ok(C, serve(C, "GET", ["registry", n, "versions"]), "the versions")
        C.require([C.I.canon(x) for x in r] == sorted(vs), f"the versions {vs} are answered as {show(r)}")
        r = ok(C, serve(C, "GET", ["registry", ""]), "the list of names")
        bag(C, r, [n], "the list of names")
        st.unchanged(before, "reading")
        C.require(len(st.files) == len(before), "reading stored something")

    ck.cell("reading", reading)

    def missing(C):
        st = http_store(C, [2, 3])
        before = st.state()
        segs = C.pick("request", [["registry", "m"], ["registry", "m", "versions"], ["registry", "m", "versions", "1"], ["registry", "n", "versions", "1"], ["registry", "n", "versions", "4"], ["registry", "n", "versions", "0"]])
        r = serve(C, "GET", segs)
        C.require(r.status == 404, f"GET /{'/'.join(segs)}, which does not exist, is answered with {r!r}")
        st.unchanged(before, "asking for what does not exist")
        r = ok(C, serve(C, "GET", ["registry", ""]), "the list of names")
        bag(C, r, ["n"], "the list of names")

    ck.cell("missing", missing)

    def abandoned(C):
        """A name whose first version could not be stored is not there."""
        st = http_store(C, [2])
        op = C.pick("failing", ["mkdirs", "open"])
        s = storage(C, st)
        st.fault = lambda n: n == op
        o = C.meth(s, "put", "m", build(C, sample(C, "new")))
        st.fault = None
        if not o.raised:
            C.skip()
        segs = C.pick("request", [["registry", "m"], ["registry", "m", "versions"], ["registry", "m", "versions", "1"]])
        r = serve(C, "GET", segs)
        C.require(r.status == 404, f"GET /{'/'.join(segs)}, of which nothing could be stored, is answered with {r!r}")
        r = ok(C, serve(C, "POST", ["registry", "m"], RECAP, body_of(C, "new")), "storing it again")
        C.require(C.I.canon(r) == 1, f"storing again what could not be stored is answered with {show(r)}")

    ck.cell("not stored", abandoned)

    def empty(C):
        http_store(C)
        r = ok(C, serve(C, "GET", ["registry", ""]), "the list of names")
        bag(C, r, [], "the list of names of an empty registry")

    ck.cell("empty registry", empty)

    def writing(C):
        vs = C.pick("versions", [[], [1], [2, 10, 9]])
        n = C.pick("name", [lambda: C.tname("n"), lambda: "a b"])()
        st = http_store(C, vs, n)
        before = st.state()
        h = C.pick("content type", [RECAP, {}, {"Content-Type": "application/x-recap+json"}, {"content-type": ""}])
        how, x = C.pick("request", [("POST", None), ("PUT", 4), ("PUT", 11), ("PUT", 0)])
        segs = ["registry", n] + ([] if x is None else ["versions", str(x)])
        what = f"{how} /{'/'.join(map(show, segs))} with versions {vs}"
        r = ok(C, serve(C, how, segs, h, body_of(C, "new")), what)
        want = max(vs, default=0) + 1 if x is None else x
        C.require(C.I.canon(r) == want, f"{what} is answered with {show(r)} instead of {want}")
        st.unchanged(before, what)
        r = ok(C, serve(C, "GET", ["registry", n, "versions", str(want)]), "reading what was stored")
        described(C, r[0], "new", "reading what was stored")
        r = ok(C, serve(C, "GET", ["registry", n, "versions"]), "the versions")
        C.require([C.I.canon(v) for v in r] == sorted(vs + [want]), f"{what}: the versions are {show(r)}")

    ck.cell("writing", writing)

    def aliases(C):
        st = http_store(C)
        b = C.pick("body", [b"int32", b'"int32"', JsonText("int32"), JsonText({"type": "int32"})])
        r = ok(C, serve(C, "POST", ["registry", "n"], RECAP, b), f"storing {show(b)}")
        C.require(C.I.canon(r) == 1, f"storing {show(b)} is answered with {show(r)}")
        r = ok(C, serve(C, "GET", ["registry", "n"]), "reading it")
        o = C.ok_value(C.run("recap.types:from_dict", r[0]), f"reading {show(r[0])}")
        d = xdiff(C.I, as_x(C.I, o, True), full(BUILTIN["int32"]))
        C.require(d is None, lambda: f"{show(b)} is stored as {show(r[0])}: {d}")

    ck.cell("names of types", aliases)

    def refused(C):
        vs = C.pick("versions", [[], [1]])
        st = http_store(C, vs)
        before = st.state()
        how, segs, taken = C.pick("request", [("POST", ["registry", "n"], False), ("PUT", ["registry", "n", "versions", "7"], False), ("PUT", ["registry", "n", "versions", "1"], bool(vs))])
        h, b, st_ = C.pick("fault", [
            (RECAP, b"\xff\xfe", 400),
            (RECAP, JsonText(None), 400),
            (RECAP, JsonText(7), 400),
            (RECAP, JsonText({"type": "int"}), 400),
            (RECAP, JsonText({"bits": 32}), 400),
            (RECAP, JsonText({"type": "struct", "fields": [{"type": "int"}]}), 400),
            ({"content-type": "application/json"}, None, 415),
            ({"content-type": "text/plain"}, None, 415),
            ({"content-type": "application/x-protobuf"}, None, 415),
            ({"Content-Type": "application/avro+json"}, None, 415),
            ({"content-type": C.tname("type")}, None, 415),
            ({"content-type": "application/x-recap+jsonl"}, None, 415),
            ({"content-type": "x-application/x-recap+json"}, None, 415),
            ({"content-type": "application/x-recap"}, None, 415),
        ])
        if b is None:
            b = body_of(C, "new")
        r = serve(C, how, segs, h, b)
        what = f"{how} /{'/'.join(segs)} with versions {vs} and {show(h)} {show(b)}"
        C.require(r.status in ((st_, 409) if taken else (st_,)), f"{what} is answered with {r!r} instead of {st_}", r.out.site if r.out else None)
        st.unchanged(before, what)
        C.require(len(st.files) == len(before), f"{what} stored something")

    ck.cell("refused", refused)

    def taken(C):
        vs = C.pick("versions", [[1], [1, 2, 3], [0], [10], list(range(1, 26))])
        st = http_store(C, vs)
        before = st.state()
        x = vs[{"first": 0, "last": -1, "middle": len(vs) // 2}[C.pick("version", ["first", "last", "middle"])]]
        same = C.pick("type", [True, False])
        r = serve(C, "PUT", ["registry", "n", "versions", str(x)], RECAP, body_of(C, str(x) if same else "new"))
        C.require(r.status == 409, f"storing version {x} of {vs} again is answered with {r!r}")
        st.unchanged(before, f"storing version {x} of {vs} again")

    ck.cell("existing version", taken)

    def sequence(C):
        """Requests one after the other: each sees what those before it stored, also if it stores the same type again."""
        http_store(C)
        now = {}
        for i in range(4):
            how, x, same = C.pick(f"step {i + 1}", [("POST", None, False), ("POST", None, True), ("PUT", 5, False), ("PUT", 2, True)] if i < 3 else [("POST", None, False), ("PUT", 5, False)])
            tag = now[max(now)] if same and now else str(i)
            segs = ["registry", "n"] + ([] if x is None else ["versions", str(x)])
            what = f"{how} /{'/'.join(segs)} with versions {sorted(now)}"
            r = serve(C, how, segs, RECAP, body_of(C, tag))
            if x in now:
                C.require(r.status == 409, f"{what} is answered with {r!r}")
            else:
                want = max(now, default=0) + 1 if x is None else x
                C.require(C.I.canon(ok(C, r, what)) == want, f"{what} is answered with {show(r.value)} instead of {want}")
                now[want] = tag
            r = ok(C, serve(C, "GET", ["registry", "n", "versions"]), "the versions")
            C.require([C.I.canon(v) for v in r] == sorted(now), f"after {what} the versions are {show(r)}")
            r = ok(C, serve(C, "GET", ["registry", "n"]), "the current type")
            described(C, r[0], now[max(now)], f"after {what}, the current type")
            C.require(C.I.canon(r[1]) == max(now), f"after {what}, the current version is {show(r[1])}")

    ck.cell("one request after the other", sequence)

    def configured(C):
        """The storage is the configured one."""
        st = Store(C, "local", "as made")
        url = text(C, C.tname("proto"), "://", C.tname("bucket"), "/", C.tname("dir"))
        args = C.pick("arguments", [{}, {"key": C.tname("key"), "anon": True}])
        for n, v in list(C.I.module("recap.server.registry").env.items()):
            if isinstance(v, Inst) and v.cls.name == "RecapSettings":
                C.I.setattr(v, "registry_storage_url", C.new("pydantic:AnyUrl", url))
                C.I.setattr(v, "registry_storage_url_args", args)
        ok(C, serve(C, "GET", ["registry", ""]), "the list of names")
        C.require(len(st.urls) >= 1, "no file system was opened")
        for u, k in st.urls:
            C.require(leaf_eq(C.I, C.I.norm(u), url), f"the storage is at {show(u)} instead of {show(url)}")
            d = diff(C.I, dict(k), args)
            C.require(d is None, f"the storage is opened with {show(k)}: {d}")

    ck.cell("configured storage", configured)


# --------------------------------------------------------------------------- races
def races(ck):
    ck.rule("requests that run at the same time never overwrite one another's version: whatever was stored and acknowledged stays, and two requests are never given the same version")

    def one(how, other):
        def f(C):
            vs = C.pick("versions", [[], [1, 2]])
            st = http_store(C, vs)
            mx = max(vs, default=0)
            target = {"POST": lambda: ("POST", ["registry", "n"]), "PUT": lambda: ("PUT", ["registry", "n", "versions", str(mx + 1)])}
            m, segs = target[how]()
            m2, segs2 = target[other]()
            before = st.state()
            replies = []
            state = {"inside": False, "threads": False}

            def rival(J, why):
                if state["inside"] or replies:
                    return
                if C.pick(f"another request at {why}", [False, True]):
                    state["inside"] = True
                    replies.append(serve(C, m2, segs2, RECAP, body_of(C, "rival")))
                    state["inside"] = False

            C.I.hooks["env.await"] = lambda J, a, k: rival(J, "await")
            C.I.hooks["env.thread"] = lambda J, a, k: state.update(threads=a[0])
            # endpoints that are not coroutines run in threads
            for rm, rp, fn, kw in routes(C):
                if rm == m and match(C, rp, segs) is not None:
                    state["threads"] = isinstance(fn, Func) and not fn.is_async
                    break
            st.tick = lambda J, op: rival(J, op) if state["threads"] else None
            mine = serve(C, m, segs, RECAP, body_of(C, "mine"))
            st.tick = None
            if not replies:
                C.skip()
            C.I.hooks["env.await"] = lambda J, a, k: None
            st.unchanged(before, "a request")
            good = [(t, C.I.canon(r.value)) for t, r in (("mine", mine), ("rival", replies[0])) if r.status in (200, 201)]
            C.require(good, f"both requests fail: {mine!r}, {replies[0]!r}")
            if len(good) == 2:
                C.require(good[0][1] != good[1][1], f"two requests at the same time ({how} and {other}) are both given version {show(good[0][1])}")
            for t, v in good:
                r = ok(C, serve(C, "GET", ["registry", "n", "versions", str(v)]), f"reading version {v}")
                described(C, r[0], t, f"version {v}, acknowledged to one request and overwritten by another")

        ck.cell(f"{how} and {other}", f)

    for a in ("PUT", "POST"):
        for b in ("PUT", "POST"):
            one(a, b)
