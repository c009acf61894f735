"""Properties of the clients: what they ask of databases, registries and file systems."""
from __future__ import annotations

from .common import *
from ..lib import enc
from .sql import row, MYSQL, PG, SNOW
from ..sqlmini import Query, Mismatch

BIG = {
    "MySQL": ("recap.clients.mysql:MysqlClient", "mysql.connect", True),
    "PostgreSQL": ("recap.clients.postgresql:PostgresqlClient", "psycopg2.connect", False),
    "Snowflake": ("recap.clients.snowflake:SnowflakeClient", "snowflake.connect", True),
    "SQLite": ("recap.clients.sqlite:SQLiteClient", "sqlite3.connect", False),
}
I64, BOOL, F64 = X("int", bits=64), X("bool"), X("float", bits=64)
# three column types per database and the Recap types they stand for
TYPES = {
    "MySQL": [("double", F64), ("bit", X("bytes", bytes_=8, variable=False)), ("year", X("int", bits=16, signed=False))],
    "PostgreSQL": [("boolean", BOOL), ("double precision", F64), ("bigint", I64)],
    "Snowflake": [("boolean", BOOL), ("float", F64), ("date", X("int", bits=32, logical="build.recap.Date", unit="day"))],
}


def names_of(C, how):
    if how == "any":
        return {k: C.sym(k, "str", nonempty=True) for k in ("cat", "sch", "tab", "cat2", "sch2", "tab2")}
    if how == "url":
        return {k: C.tname(k) for k in ("cat", "sch", "tab", "cat2", "sch2", "tab2")}
    # names that only differ in case, or match one another as patterns
    return {
        "case": dict(cat="Db", sch="Sales", tab="Orders", cat2="db", sch2="sales", tab2="orders"),
        "pattern": dict(cat="a_b", sch="c%d", tab="e_f", cat2="axb", sch2="cxxd", tab2="exf"),
        "quote": dict(cat="it's", sch="a''b", tab="x' OR '1'='1", cat2="its", sch2="a'b", tab2="x"),
        "prefix": dict(cat="ab", sch="cd", tab="ef", cat2="a", sch2="cde", tab2="e"),
    }[how]


class World:
    """A database server with the named table and others that share parts of its name."""

    def __init__(self, C, dialect, N):
        self.C, self.dialect, self.N = C, dialect, N
        self.sqls = []
        self.upper = (N["upper"] if "upper" in N else C.pick("column names are", ["upper", "lower"]) == "upper") if dialect != "SQLite" else False
        cat, sch, tab, cat2, sch2, tab2 = (N[k] for k in ("cat", "sch", "tab", "cat2", "sch2", "tab2"))
        if dialect == "MySQL":
            cat = "def"
        self.cat = cat
        self.functions = {}
        if dialect == "SQLite":
            self.sqlite(tab, tab2)
            return
        places = [(cat, sch, tab), (cat, sch, tab2), (cat, sch2, tab), (cat2, sch, tab)]
        k = N.get("col", "c")
        self.cols = [C.tname(k + "1"), C.tname(k + "2"), C.tname(k + "3")]
        T = TYPES[dialect]
        cols = []
        for n, (c, s, t) in enumerate(places):
            for o in (3, 1, 2):
                ty = T[o - 1 if n == 0 else (o + n) % 3][0]
                r = row(C, TABLE_CATALOG=c, TABLE_SCHEMA=s, TABLE_NAME=t, COLUMN_NAME=self.cols[o - 1] if n != 1 else C.tname(f"other{o}"), ORDINAL_POSITION=o, DATA_TYPE=ty, COLUMN_TYPE=ty,
                        NUMERIC_PRECISION=60, UDT_NAME=C.sym("udt"), IS_NULLABLE="YES" if o == 2 else "NO", COLUMN_DEFAULT=C.sym("dflt") if (o == 3) == (n == 0) else None)
                cols.append({k.lower(): v for k, v in r.items()})
        tables = [dict(table_catalog=c, table_schema=s, table_name=t, table_type="BASE TABLE") for c, s, t in places]
        seen, schemata = [], []
        for c, s, _ in places:
            if not any(C.I.same(c, a) and C.I.same(s, b) for a, b in seen):
                seen.append((c, s))
                schemata.append(dict(catalog_name=c, schema_name=s, default_character_set_name=None))
        self.tables = {
            "information_schema.columns": cols,
            "information_schema.tables": tables,
            "information_schema.schemata": schemata,
            "information_schema.catalogs": [dict(catalog_name=cat), dict(catalog_name=cat2)],
            "information_schema.databases": [dict(database_name=cat), dict(database_name=cat2)],
            "pg_database": [dict(oid=1, datname=cat), dict(oid=2, datname=cat2)],
        }
        w = []
        for o, (_, x) in enumerate(T, 1):
            if o == 2:
                x = X("union", types=[X("null"), x], default=None)
            if o == 3:
                x = x.but(default=C.sym("dflt"))
            w.append(x.but(name=self.cols[o - 1]))
        self.want = w
        if dialect == "PostgreSQL":
            self.pg(places, cols)
        if N.get("arranged"):
            # another version of the server: its views have their columns in another order
            cols[:] = [{"added_column": None, **dict(reversed(list(r.items())))} for r in cols]

    def pg(self, places, cols):
        """The catalogue: arrays, their dimensions, and enums."""
        C = self.C
        cat, sch, tab, cat2, sch2, tab2 = (self.N[k] for k in ("cat", "sch", "tab", "cat2", "sch2", "tab2"))
        self.cols += [C.tname("tags"), C.tname("mood")]
        attrs = []
        rel = {0: 101, 1: 102, 2: 103}
        base = dict(cols[0])
        for n, (c, s, t) in enumerate(places):
            extra = [(4, self.cols[3], "ARRAY", "_int4"), (5, self.cols[4], "USER-DEFINED", C.sym("udt"))]
            for o, nm, dt, u in extra:
                cols.append({**base, "table_catalog": c, "table_schema": s, "table_name": t, "column_name": nm, "ordinal_position": o, "data_type": dt, "udt_name": u, "is_nullable": "NO", "column_default": None})
        for n in (2, 1, 0):
            for nm in [r["column_name"] for r in cols if r["table_catalog"] is places[n][0] and r["table_schema"] is places[n][1] and r["table_name"] is places[n][2]]:
                k = [i for i, x in enumerate(self.cols) if x is nm]
                o = k[0] + 1 if k else 1
                attrs.append(dict(attrelid=rel[n], attname=nm, attndims=(2 if n == 0 else 1) if o == 4 else 0, atttypid=(201 if n == 0 else 203) if o == 5 else 202, attnum=o))
        A = [C.name("A"), C.name("B"), C.name("D")]
        self.tables |= {
            "pg_catalog.pg_namespace": [dict(oid=12, nspname=sch2), dict(oid=11, nspname=sch)],
            "pg_catalog.pg_class": [dict(oid=103, relname=tab, relnamespace=12), dict(oid=102, relname=tab2, relnamespace=11), dict(oid=101, relname=tab, relnamespace=11)],
            "pg_catalog.pg_attribute": attrs,
            "pg_catalog.pg_type": [dict(oid=203, typname=C.sym("e2"), typtype="e"), dict(oid=202, typname="int4", typtype="b"), dict(oid=201, typname=C.sym("e1"), typtype="e")],
            "pg_catalog.pg_enum": [
                dict(oid=1, enumtypid=201, enumsortorder=3, enumlabel=A[2]),
                dict(oid=2, enumtypid=203, enumsortorder=1, enumlabel=C.name("Z")),
                dict(oid=3, enumtypid=201, enumsortorder=1, enumlabel=A[0]),
                dict(oid=4, enumtypid=201, enumsortorder=2, enumlabel=A[1]),
            ],
        }
        nullable_int = X("union", types=[X("null"), X("int", bits=32)])
        self.want.append(X("list", values=X("list", values=nullable_int), name=self.cols[3]))
        self.want.append(X("enum", symbols=A, name=self.cols[4]))

    def sqlite(self, tab, tab2):
        C = self.C
        k = self.N.get("col", "c")
        self.cols = [C.tname(k + n) for n in "1234"]
        sch = [dict(type=ty, name=n, tbl_name=t, rootpage=p, sql=C.sym("sql")) for ty, n, t, p in (
            ("index", C.sym("idx", nonempty=True), tab, 3), ("table", tab2, tab2, 4), ("table", tab, tab, 2), ("view", C.sym("vw", nonempty=True), C.sym("vw", nonempty=True), 0), ("trigger", C.sym("trg", nonempty=True), tab, 0))]
        self.tables = {"sqlite_schema": sch, "sqlite_master": sch}
        dflt = C.sym("dflt")

        def info(t):
            t = C.I.canon(t)
            same = lambda a: C.I.same(a, t) or (isinstance(a, str) and isinstance(t, str) and a.lower() == t.lower())
            if C.I.same(tab, t) or (same(tab) and not C.I.same(tab2, t)):
                cs = [("INTEGER", 0, None, 1), ("VARCHAR(7)", 1, dflt, 0), ("DECIMAL(9, 2)", 0, None, 0), ("", 0, dflt, 0)]
            elif same(tab2):
                cs = [("BLOB", 0, None, 0)]
            else:
                return []
            return [dict(cid=i, name=self.cols[i], type=ty, notnull=nn, dflt_value=d, pk=pk) for i, (ty, nn, d, pk) in enumerate(cs)]

        self.functions = {"pragma_table_info": info, "pragma_table_xinfo": info}
        big = 2147483647
        self.want = [
            X("int", bits=64, name=self.cols[0]), X("string", bytes_=7, default=dflt, name=self.cols[1]),
            X("union", types=[X("null"), X("int", bits=64), X("float", bits=64), X("string", bytes_=big), X("bytes", bytes_=big)], default=None, name=self.cols[2]),
            X("union", types=[X("null"), X("bytes", bytes_=big)], default=dflt, name=self.cols[3]),
        ]

    # ------------------------------------------------------------------ queries
    def answer(self, sql, params):
        I = self.C.I
        sql = I.norm(I.canon(sql))
        params = I.canon(params)
        self.sqls.append((sql, params))
        if isinstance(sql, SStr) or I.is_abs(sql):
            raise Undecided(f"SQL text with unknown parts {show(sql)}")
        if not isinstance(sql, str):
            I.throw("TypeError", "SQL text expected")
        if isinstance(params, Iter):
            params = list(I.iterate(params))
        if params is not None and not isinstance(params, (list, tuple, dict)):
            I.throw("TypeError", "parameters expected")
        lite = self.dialect == "SQLite"
        q = Query(I, sql, params or (), self.tables, self.functions)
        for k, t in q.toks:
            if k == "ph" and (t.startswith("%") if lite else not t.startswith("%")):
                I.throw("RuntimeError", f"{self.dialect} does not know the placeholder {t}")
        try:
            names, rows = q.run()
        except Mismatch as e:
            I.throw("RuntimeError", f"{self.dialect}: {e}")
        return [n.upper() if self.upper else n for n in names], [tuple(r) for r in rows]

    def client(self):
        C = self.C
        path, _, closes = BIG[self.dialect]
        con = database(C, self.answer, closes)
        if self.dialect == "PostgreSQL":
            return C.new(path, con, C.new("recap.converters.postgresql:PostgresqlConverter", True))
        return C.new(path, con)

    def levels(self):
        """(arguments, children) of every listing."""
        N = self.N
        if self.dialect == "SQLite":
            return [((), [N["tab"], N["tab2"]])]
        out = [((self.cat,), [N["sch"], N["sch2"]]), ((self.cat, N["sch"]), [N["tab"], N["tab2"]]), ((self.cat, N["sch2"]), [N["tab"]])]
        if self.dialect == "MySQL":
            return [(a[1:], w) for a, w in out]
        return [((), [self.cat, N["cat2"]]), ((N["cat2"],), [N["sch"]]), ((N["cat2"], N["sch"]), [N["tab"]])] + out

    def address(self):
        N = self.N
        return {"SQLite": (N["tab"],), "MySQL": (N["sch"], N["tab"])}.get(self.dialect, (self.cat, N["sch"], N["tab"]))


def bag(C, got, want, what):
    """The same children, each once, in any order."""
    got = C.I.canon(got)
    if not isinstance(got, (list, tuple)):
        C.fail(f"{what} gives {show(got)}")
    rest = list(want)
    for g in got:
        m = [i for i, w in enumerate(rest) if leaf_eq(C.I, g, w)]
        if not m:
            C.fail(f"{what} lists {show(g)} which is not one of {show(want)}, or lists it twice")
        rest.pop(m[0])
    if rest:
        C.fail(f"{what} does not list {show(rest)}")


HOWS = ["any", "case", "pattern", "prefix", "quote"]


# ---------------------------------------------------------------- what is asked for
def addressed(ck):
    ck.rule("a listing has the children of the named object, each once, and no others; a table is described by its own columns in order, whatever else has a similar name")

    def relational(dialect, how):
        def ls(C):
            w = World(C, dialect, names_of(C, how))
            args, want = C.pick("listing", w.levels())
            o = C.meth(w.client(), "ls", *args)
            bag(C, C.ok_value(o, f"{dialect}: listing {show(args)}"), want, f"{dialect}: listing {show(args)}")

        ck.cell(f"{dialect} ls / {how} names", ls)

        def schema(C):
            w = World(C, dialect, names_of(C, how))
            v = C.ok_value(C.meth(w.client(), "schema", *w.address()), f"{dialect}: reading {show(w.address())}")
            d = diff(C.I, v, X("struct", fields=w.want))
            if d:
                C.fail(f"{dialect}: reading the table {show(w.address())}: {d}")

        ck.cell(f"{dialect} schema / {how} names", schema)

    for d in BIG:
        for h in HOWS:
            relational(d, h)

    def missing(C):
        w = World(C, "SQLite", names_of(C, C.pick("names", ["any", "quote"])))
        o = C.meth(w.client(), "schema", C.pick("table", [C.sym("absent", nonempty=True), C.sym("idx", nonempty=True), C.sym("trg", nonempty=True), "%", "_%", "x%", "X' or '1'='1", ""]))
        C.require(o.raised, f"SQLite: a table that does not exist is read as {show(o.value)}")

    ck.cell("SQLite missing table", missing)

    def absent(dialect):
        def f(C):
            w = World(C, dialect, names_of(C, "any"))
            a = list(w.address())
            k = C.pick("absent part", range(len(a)))
            a[k] = C.sym("absent", nonempty=True)
            o = C.meth(w.client(), "schema", *a)
            if not o.raised:
                fs = C.attr(o.value, "fields")
                C.require(len(fs) == 0, f"{dialect}: reading {show(a)}, which does not exist, gives the columns of another table")

        ck.cell(f"{dialect} absent table", f)

    for d in ("MySQL", "PostgreSQL", "Snowflake"):
        absent(d)
    for d in BIG:
        large(ck, d)
    big_query(ck)
    hive(ck)
    registry_ls(ck)
    files_ls(ck)


def large(ck, dialect):
    """Many children and many columns; none may be left out or change places."""
    n = 150 if dialect == "PostgreSQL" else 1100

    def world(C):
        w = World(C, dialect, dict(names_of(C, "case"), upper=True))
        N = w.N
        ty = TYPES[dialect][0] if dialect != "SQLite" else ("REAL", X("float", bits=64))
        names = [f"c{(i * 7) % n}" for i in range(n)]
        if dialect == "SQLite":
            w.functions = {k: lambda t: [dict(cid=i, name=c, type="REAL", notnull=1, dflt_value=None, pk=0) for i, c in enumerate(names)] for k in ("pragma_table_info", "pragma_table_xinfo")}
            w.tables = {k: [dict(type="table", name=c, tbl_name=c, rootpage=i, sql="") for i, c in enumerate([N["tab"], *names])] for k in ("sqlite_schema", "sqlite_master")}
            listing = ((), [N["tab"], *names])
        else:
            base = next(r for r in w.tables["information_schema.columns"] if r["ordinal_position"] == 1 and r["table_name"] == N["tab"] and r["table_schema"] == N["sch"] and r["table_catalog"] == w.cat)
            w.tables["information_schema.columns"] = [{**base, "column_name": c, "ordinal_position": i + 1, "is_nullable": "NO", "column_default": None} for i, c in list(enumerate(names))[::-1]]
            w.tables["information_schema.tables"] = [dict(table_catalog=w.cat, table_schema=N["sch"], table_name=c, table_type="BASE TABLE") for c in names]
            if dialect == "PostgreSQL":
                w.tables["pg_catalog.pg_attribute"] = [dict(attrelid=101, attname=c, attndims=0, atttypid=202, attnum=i + 1) for i, c in enumerate(names)]
            listing = ((w.cat, N["sch"])[dialect == "MySQL":], names)
        return w, listing, X("struct", fields=[ty[1].but(name=c) for c in names])

    def ls(C):
        w, (args, want), _ = world(C)
        bag(C, C.ok_value(C.meth(w.client(), "ls", *args), f"{dialect}: listing {show(args)}"), want, f"{dialect}: listing {show(args)}")

    def schema(C):
        w, _, want = world(C)
        d = diff(C.I, C.ok_value(C.meth(w.client(), "schema", *w.address()), f"{dialect}: reading {show(w.address())}"), want)
        if d:
            C.fail(f"{dialect}: reading a table with {n} columns: {d}")

    ck.cell(f"{dialect} ls / {n} children", ls)
    ck.cell(f"{dialect} schema / {n} columns", schema)


def bq_world(C, N):
    """BigQuery: references are made and used in any of the ways its client offers."""
    obj = lambda **a: fake(C, {}, a)

    def ref(I, a, k):
        ds = a[0] if a else k["dataset_id"]
        pr = a[1] if len(a) > 1 else k.get("project")
        return dsref(pr, ds)

    def dsref(pr, ds):
        pr = default if pr is None else pr
        return fake(C, {"table": lambda I, a, k: obj(project=pr, dataset_id=ds, table_id=a[0] if a else k["table_id"])}, dict(project=pr, dataset_id=ds))

    default = C.sym("own project")
    places = [(N["cat"], N["sch"], N["tab"]), (N["cat"], N["sch"], N["tab2"]), (N["cat"], N["sch2"], N["tab"]), (N["cat2"], N["sch"], N["tab"])]
    same = C.I.same

    def uniq(xs):
        out = []
        for x in xs:
            if not any(same(x, y) for y in out):
                out.append(x)
        return out

    def parts(v, n):
        """A reference object or a dotted text."""
        v = C.I.norm(C.I.canon(v))
        if isinstance(v, Inst):
            return [v.attrs.get(f) for f in ("project", "dataset_id", "table_id")][:n]
        if isinstance(v, SStr):
            ps, cur = [], []
            for p in v.parts:
                if isinstance(p, str):
                    if p.strip(".") != "":
                        raise Undecided("dotted reference")
                    for _ in p:
                        ps.append(cur)
                        cur = []
                else:
                    cur.append(p)
            ps.append(cur)
            if any(len(p) != 1 for p in ps):
                raise Undecided("dotted reference")
            return [p[0] for p in ps]
        if isinstance(v, str) and n > 1:
            return v.split(".")
        return [v]

    def whole(k):
        C.require(k.get("max_results") is None, f"BigQuery: only the first {show(k.get('max_results'))} children are listed")

    def projects(I, a, k):
        whole(k)
        return [obj(project_id=p, friendly_name=C.sym("fn"), numeric_id=C.sym("num")) for p in uniq(c for c, _, _ in places)]

    def datasets(I, a, k):
        p = I.canon(a[0] if a else k.get("project"))
        whole(k)
        return [obj(dataset_id=d, project=p) for d in uniq(s for c, s, _ in places if same(c, p))]

    def tables(I, a, k):
        pr = parts(a[0] if a else k["dataset"], 2)
        whole(k)
        if len(pr) != 2:
            I.throw("ValueError", "dataset reference expected")
        return [obj(table_id=t, dataset_id=pr[1], project=pr[0]) for c, s, t in places if same(c, pr[0]) and same(s, pr[1])]

    SF = "google.cloud.bigquery:SchemaField"

    def get_table(I, a, k):
        pr = parts(a[0] if a else k["table"], 3)
        if len(pr) != 3:
            I.throw("ValueError", "table reference expected")
        for n, (c, s, t) in enumerate(places):
            if same(c, pr[0]) and same(s, pr[1]) and same(t, pr[2]):
                return obj(schema=[C.new(SF, C.tname(N.get("col", "c") + "1"), "BOOLEAN", "REQUIRED"), C.new(SF, C.tname("c2"), "FLOAT", "REQUIRED")] if n == 0 else [C.new(SF, C.tname(f"x{n}"), "BOOLEAN", "REQUIRED")])
        I.throw("LookupError", "table not found")

    return fake(C, {
        "list_projects": projects,
        "list_datasets": datasets, "list_tables": tables, "get_table": get_table, "dataset": ref,
        "get_dataset": lambda I, a, k: dsref(*parts(a[0], 2)),
    }, managed=True), X("struct", fields=[X("bool", name=C.tname("c1")), X("float", bits=64, name=C.tname("c2"))])


def bq_levels(N):
    return [((), [N["cat"], N["cat2"]]), ((N["cat"],), [N["sch"], N["sch2"]]), ((N["cat"], N["sch"]), [N["tab"], N["tab2"]]), ((N["cat"], N["sch2"]), [N["tab"]]), ((N["cat2"],), [N["sch"]])]


def big_query(ck):
    def one(how):
        def ls(C):
            N = names_of(C, how)
            cl, want = bq_world(C, N)
            c = C.new("recap.clients.bigquery:BigQueryClient", cl)
            args, w = C.pick("listing", bq_levels(N))
            pad = C.pick("padding", [0, 3 - len(args)])
            bag(C, C.ok_value(C.meth(c, "ls", *args, *([None] * pad)), f"BigQuery: listing {show(args)}"), w, f"BigQuery: listing {show(args)}")

        ck.cell(f"BigQuery ls / {how} names", ls)

        def schema(C):
            N = names_of(C, how)
            cl, want = bq_world(C, N)
            c = C.new("recap.clients.bigquery:BigQueryClient", cl)
            v = C.ok_value(C.meth(c, "schema", N["cat"], N["sch"], N["tab"]), "BigQuery: reading a table")
            d = diff(C.I, v, want)
            if d:
                C.fail(f"BigQuery: reading {show([N['cat'], N['sch'], N['tab']])}: {d}")

        ck.cell(f"BigQuery schema / {how} names", schema)

    for h in ("any", "case"):
        one(h)


def hms_world(C, N):
    from .sql import htable, hv

    places = [(N["sch"], N["tab"]), (N["sch"], N["tab2"]), (N["sch2"], N["tab"])]
    same = C.I.same

    def tables(I, a, k):
        d = I.canon(a[0] if a else k["database_name"])
        return [t for s, t in places if same(s, d)]

    def get_table(I, a, k):
        s_, t_ = [I.canon(x) for x in list(a) + [k[n] for n in ("database_name", "table_name") if n in k]]
        for n, (s, t) in enumerate(places):
            if same(s, s_) and same(t, t_):
                cols = [C.new("pymetastore.metastore:HColumn", C.tname(c if n == 0 else c + "x"), hv(C, (ty,))) for c, ty in ((N.get("col", "c") + "1", "LONG"), ("c2", "BOOLEAN"))]
                return htable(C, cols, t)
        I.throw("LookupError", "table not found")

    nul = lambda x, n: X("union", types=[X("null"), x], default=None, name=n)
    return fake(C, {"list_databases": lambda I, a, k: [N["sch"], N["sch2"]], "list_tables": tables, "get_table": get_table, "get_table_stats": lambda I, a, k: []}, managed=True), \
        X("struct", fields=[nul(X("int", bits=64), C.tname("c1")), nul(X("bool"), C.tname("c2"))], name=N["tab"])


def hms_levels(N):
    return [((), [N["sch"], N["sch2"]]), ((N["sch"],), [N["tab"], N["tab2"]]), ((N["sch2"],), [N["tab"]]), ((N["sch"], N["tab"]), [N["tab"]])]


def hive(ck):
    def one(how):
        def ls(C):
            N = names_of(C, how)
            cl, _ = hms_world(C, N)
            args, w = C.pick("listing", hms_levels(N))
            bag(C, C.ok_value(C.meth(C.new("recap.clients.hive_metastore:HiveMetastoreClient", cl), "ls", *args), f"Hive: listing {show(args)}"), w, f"Hive: listing {show(args)}")

        ck.cell(f"Hive ls / {how} names", ls)

        def schema(C):
            N = names_of(C, how)
            cl, want = hms_world(C, N)
            v = C.ok_value(C.meth(C.new("recap.clients.hive_metastore:HiveMetastoreClient", cl), "schema", N["sch"], N["tab"]), "Hive: reading a table")
            d = diff(C.I, v, want)
            if d:
                C.fail(f"Hive: reading {show([N['sch'], N['tab']])}: {d}")

        ck.cell(f"Hive schema / {how} names", schema)

    for h in ("any", "case"):
        one(h)


def registry_ls(ck):
    def f(C):
        subs = [C.sym("s1"), C.sym("s2"), C.sym("s3")]
        cl = C.new("recap.clients.confluent_registry:ConfluentRegistryClient", fake(C, {"get_subjects": lambda I, a, k: list(subs)}))
        bag(C, C.ok_value(C.meth(cl, "ls"), "listing subjects"), subs, "listing subjects")

    ck.cell("Confluent registry ls", f)


def files(C, tree, texts=None):
    """Local and remote file systems: tree: directory -> names."""
    texts = texts or {}
    reads = []

    def norm(p):
        p = C.I.norm(C.I.canon(p))
        if isinstance(p, SStr):
            ps = list(p.parts)
            while isinstance(ps[-1], str) and ps[-1].endswith("/"):
                ps[-1] = ps[-1][:-1]
                if not ps[-1]:
                    ps.pop()
            return C.I.mkstr(ps)
        return (p.rstrip("/") or "/") if isinstance(p, str) else p

    def find(I, d, p):
        for k, v in d:
            if leaf_eq(I, norm(k), norm(p)):
                return v
        I.throw("FileNotFoundError", f"no such file: {show(p)}")

    def utf8(p, how):
        how = C.I.norm(C.I.canon(how))
        if how is not None and (not isinstance(how, str) or how.lower().replace("_", "-") not in ("utf-8", "utf8", "utf-8-sig")):
            C.fail(f"the document {show(p)} is read as {show(how)} text")

    def local(I, op, p, a, k):
        if op == "iterdir":
            return [I.call(C.get("pathlib:Path"), [I.mkstr([norm(p) if norm(p) != "/" else "", "/", n])], {}) for n in find(I, tree, p)]
        if op == "glob":
            import fnmatch

            pat = I.norm(I.canon(a[0]))
            if not isinstance(pat, str) or "/" in pat or "**" in pat:
                raise Undecided(f"Path.glob({show(pat)})")
            return [x for x in local(I, "iterdir", p, [], {}) if fnmatch.fnmatchcase(enc(I, I.getattr(x, "name")), pat)]
        if op in ("read_text", "read_bytes"):
            utf8(p, a[0] if a else k.get("encoding"))
            reads.append(p)
            return find(I, texts, p)
        if op == "open":
            utf8(p, k.get("encoding"))
            reads.append(p)
            t = find(I, texts, p)
            return fake(C, {"read": lambda J, a, k: t}, managed=True)
        if op in ("is_file", "is_dir", "exists"):
            for d, ns in tree:
                if leaf_eq(I, norm(d), norm(p)):
                    return op != "is_file"
                for i, n in enumerate(ns):
                    if leaf_eq(I, I.mkstr([norm(d) if norm(d) != "/" else "", "/", n]), norm(p)):
                        # every third one is a directory
                        return op == "exists" or (i % 3 == 2) == (op == "is_dir")
            return any(leaf_eq(I, norm(k), norm(p)) for k, _ in (texts.items() if isinstance(texts, dict) else texts)) and op != "is_dir"
        if op == "is_symlink":
            return False
        raise Undecided(f"Path.{op}")

    C.I.hooks["fs"] = local

    def remote(I, a, k):
        def ls(J, b, kk):
            p = norm(b[0])
            ns = [J.mkstr([p if p != "/" else "", "/", n]) for n in find(J, tree, p)]
            det = b[1] if len(b) > 1 else kk["detail"] if "detail" in kk else C.pick("detailed by default", [False, True])
            return [{"name": n, "size": 0, "type": "file"} for n in ns] if det else ns

        def rd(J, b, kk):
            reads.append(b[0])
            return find(J, texts, b[0])

        return fake(C, {"ls": ls, "read_text": rd, "cat_file": rd, "open": lambda J, b, kk: fake(C, {"read": lambda K, x, y: rd(J, b, kk)}, managed=True)})

    C.I.hooks["fsspec.filesystem"] = remote
    return reads


def files_ls(ck):
    def f(C):
        ns = [C.name("f1"), C.I.mkstr([C.name("f2"), ".json"]), C.name("f3"), ".hidden", ".hidden.avsc", "Mixed.Case.JSON", "a b", "a%20b", "größe", "~x"]
        d = C.I.mkstr(["/", C.name("dir"), "/", C.name("sub")])
        files(C, [(d, ns), (C.I.mkstr(["/", C.name("dir")]), [C.name("sub")]), ("/", [C.name("dir")])])
        cl = C.new("recap.clients.fs:FilesystemClient", C.pick("scheme", ["file", C.tname("s3")]))
        p, want = C.pick("directory", [(d, ns), ("/", [C.name("dir")]), (C.I.mkstr([d, "/"]), ns)])
        bag(C, C.ok_value(C.meth(cl, "ls", p), f"listing {show(p)}"), want, f"listing {show(p)}")

    ck.cell("files ls", f)


# ------------------------------------------------------------------------ injection
def parameters(ck):
    ck.rule("the text of a statement sent to a database is made by the program alone: nothing that a user or another database object named is part of it")

    def atoms(v):
        return [p for p in (v.parts if isinstance(v, SStr) else [v]) if not isinstance(p, str)]

    def one(dialect, op):
        def f(C):
            N = names_of(C, "any")
            w = World(C, dialect, N)
            bad = []
            real = w.answer

            def answer(sql, params):
                s = C.I.norm(C.I.canon(sql))
                if not isinstance(s, str):
                    bad.append((s, C.I.where()))
                    C.fail(f"{dialect} {op}: a value becomes part of the statement {show(s)}")
                return real(sql, params)

            w.answer = answer
            cl = w.client()
            if op == "ls":
                o = C.meth(cl, "ls", *C.pick("listing", w.levels())[0])
            else:
                o = C.meth(cl, "schema", *C.pick("table", [w.address(), tuple(C.sym("absent", nonempty=True) for _ in w.address())]))
            C.require(w.sqls, f"{dialect} {op}: no statement was sent")

        ck.cell(f"{dialect} {op}", f)

    for d in BIG:
        for op in ("ls", "schema"):
            one(d, op)


# ----------------------------------------------------------------------------- URLs
ENVS = {}


def text(C, *parts):
    return C.I.mkstr(list(parts))


class Far:
    """What the program connects to, and with which arguments."""

    def __init__(self, C, N):
        self.C, self.N = C, N
        self.calls = []
        self.open = []
        self.events = []
        self.world = None
        H = C.I.hooks
        for d, (_, h, closes) in BIG.items():
            H[h] = lambda I, a, k, d=d, h=h, closes=closes: self.sql(d, h, closes, a, k)
        H["bigquery.Client"] = lambda I, a, k: self.note("bigquery.Client", a, k, bq_world(C, N)[0])
        H["hms.create"] = lambda I, a, k: self.note("hms.create", a, k, hms_world(C, N)[0])
        H["csr.client"] = lambda I, a, k: self.note("csr.client", a, k, self.csr())
        H["env.event"] = self.event

    def event(self, I, a, k):
        self.events.append((a[0], id(a[1])))

    def note(self, name, a, k, obj):
        k = {kk: self.C.I.canon(v) for kk, v in k.items()}
        self.calls.append((name, [self.C.I.canon(x) for x in a], k))
        self.open.append(obj)
        return obj

    def sql(self, dialect, h, closes, a, k):
        self.world = World(self.C, dialect, self.N)
        return self.note(h, a, k, database(self.C, self.world.answer, closes))

    def csr(self):
        C = self.C

        def latest(I, a, k):
            s = I.norm(I.canon(a[0]))
            self.subject = s
            sch = fake(C, {}, dict(schema_str=JsonText({"type": "record", "name": "R", "fields": [{"name": self.N.get("col", "f"), "type": "boolean"}]}), schema_type="AVRO", references=[]))
            return fake(C, {}, dict(schema=sch, schema_id=C.sym("id", "int"), subject=s, version=C.sym("v", "int")))

        return fake(C, {"get_subjects": lambda I, a, k: [self.N["tab"], self.N["tab2"]], "get_latest_version": latest}, managed=True)


def call_url(C, op, url, **kw):
    if op == "ls":
        return C.run("recap.commands:ls", url, strict=False, **kw)
    return C.run("recap.commands:schema", url, strict=False, **kw)


AUTH = {
    "none": lambda C: ([], {}),
    "user": lambda C: ([C.tname("u"), "@"], {"user": C.tname("u")}),
    "user and password": lambda C: ([C.tname("u"), ":", C.tname("pw"), "@"], {"user": C.tname("u"), "password": C.tname("pw")}),
    "encoded": lambda C: (["us%40e+r:p%2Fw%3A%2541+@"], {"user": "us@e+r", "password": "p/w:%41+"}),
}


def authority(C, auth=None, port=None):
    """user:password@host:port and the arguments it stands for."""
    a, w = AUTH[auth or C.pick("credentials", list(AUTH))](C)
    w = dict(w)
    host = C.tname("host")
    parts = a + [host, ".example.com"]
    w["host"] = text(C, host, ".example.com")
    if port is None:
        port = C.pick("port", ["no", "yes"]) == "yes"
    if port:
        parts += [":", "4321"]
        w["port"] = 4321
    return parts, w


def path_of(args):
    out = []
    for a in args:
        out += ["/", a]
    return out


def tree_of(dialect, C, far):
    """Listings and the table by URL path: (path, children), and (path, type)."""
    N = far.N
    if dialect == "BigQuery":
        return bq_levels(N), (N["cat"], N["sch"], N["tab"])
    if dialect == "Hive":
        return hms_levels(N), (N["sch"], N["tab"])
    w = World.__new__(World)
    w.N, w.dialect, w.cat = N, dialect, "def" if dialect == "MySQL" else N["cat"]
    return w.levels(), w.address()


SCHEMES = {"MySQL": "mysql", "PostgreSQL": "postgresql", "Snowflake": "snowflake", "BigQuery": "bigquery", "Hive": "thrift+hms"}


def routed(ck):
    ck.rule("listing or reading a URL reaches the client of its scheme and the object that its path names")

    def one(dialect, op):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            levels, address = tree_of(dialect, C, far)
            if dialect == "BigQuery":
                au = C.pick("host", [[""], [C.tname("host")]])  # not used
            else:
                au, _ = authority(C, "user and password", True)
            slash = C.pick("trailing slash", ["", "/"])
            if op == "ls":
                args, want = C.pick("listing", levels)
            else:
                args = address
            pth = path_of(args)
            url = text(C, SCHEMES[dialect], "://", *au, *pth, slash)
            o = call_url(C, op, url)
            v = C.ok_value(o, f"{op} of {show(url)}")
            if op == "ls":
                bag(C, v, want, f"ls of {show(url)}")
            else:
                check_dict(C, v, far, dialect, url)
            C.require(len(far.calls) == 1, f"{op} of {show(url)} connects {len(far.calls)} times")
            C.require(far.calls[0][0] == HOOK[dialect], f"{op} of {show(url)} connects by {far.calls[0][0]}")

        ck.cell(f"{dialect} {op}", f)

    def nothing(dialect, op):
        """Paths that are too long or too short for any object of the kind."""

        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            levels, address = tree_of(dialect, C, far)
            more = [C.tname("p1"), C.tname("p2")]
            if op == "ls":
                # A table has no children, so whether its path may be listed is
                # up to the client; nothing lies below it.
                bad = [[*address, more[0]], [*address, *more]]
                if dialect in ("MySQL", "PostgreSQL", "Snowflake"):
                    bad.append(list(address))
            else:
                bad = [[*address, more[0]], [*address, *more], *[list(address)[:n] for n in range(len(address))]]
            args = C.pick("path", bad)
            au = [""] if dialect == "BigQuery" else authority(C, "none", False)[0]
            url = text(C, SCHEMES[dialect], "://", *au, *path_of(args))
            o = call_url(C, op, url)
            C.require(o.raised, f"{op} of {show(url)}, which names no {'listing' if op == 'ls' else 'table'}, gives {show(o.value)}")

        ck.cell(f"{dialect} {op} of no object", f)

    for d in SCHEMES:
        for op in ("ls", "schema"):
            one(d, op)
            nothing(d, op)
    sqlite_urls(ck)
    csr_urls(ck)
    file_urls(ck)

    def unknown(C):
        far = Far(C, names_of(C, "url"))
        url = text(C, C.pick("scheme", ["oracle", "csr", "http", "https", "mysqlx", "sqlite3", "mysql+x", "postgresql+psycopg2", "file+x", "bigquery+x", "thrift", "hms", "http+x", "hms+thrift", "my", "x+mysql", "x+file", "x+sqlite", "http+bigquery", "csr+http", "s+csr"]), "://", C.tname("host"), "/", C.tname("cat"))
        for op in ("ls", "schema"):
            o = call_url(C, op, url)
            C.require(o.raised, f"{op} of {show(url)} gives {show(o.value)}")
        C.require(not far.calls, f"{show(url)} connects to {far.calls}")

    ck.cell("unknown schemes", unknown)


HOOK = {"MySQL": "mysql.connect", "PostgreSQL": "psycopg2.connect", "Snowflake": "snowflake.connect", "BigQuery": "bigquery.Client", "Hive": "hms.create"}


def check_dict(C, v, far, dialect, url):
    """The names and order of the columns of the table that was read."""
    v = C.I.canon(v)
    C.require(isinstance(v, dict), f"{show(url)} is read as {show(v)}")
    fs = C.I.dget(v, "fields")
    names = [C.I.dget(f, "name")[0] if isinstance(f, dict) and C.I.dget(f, "name") else None for f in fs[0]] if fs else []
    want = far.world.cols[: len(far.world.want)] if far.world is not None else [C.tname("c1"), C.tname("c2")]
    ok = len(names) == len(want) and all(n is not None and leaf_eq(C.I, n, w) for n, w in zip(names, want))
    C.require(ok, f"{show(url)} is read as a table with the columns {show(names)} instead of {show(want)}")


def sqlite_urls(ck):
    def f(op):
        def g(C):
            N = names_of(C, "url")
            far = Far(C, N)
            file, db = C.pick("file", [
                (["/", C.tname("dir"), "/", C.tname("db"), ".sqlite"], [C.tname("dir"), "/", C.tname("db"), ".sqlite"]),
                (["/", C.tname("db")], [C.tname("db")]),
                (["//", C.tname("dir"), "/", C.tname("db"), ".sqlite"], ["/", C.tname("dir"), "/", C.tname("db"), ".sqlite"]),
            ])
            url = text(C, "sqlite://", *file, *(["/", N["tab"]] if op == "schema" else []))
            v = C.ok_value(call_url(C, op, url), f"{op} of {show(url)}")
            if op == "ls":
                bag(C, v, [N["tab"], N["tab2"]], f"ls of {show(url)}")
            else:
                check_dict(C, v, far, "SQLite", url)
            C.require(len(far.calls) == 1 and far.calls[0][0] == "sqlite3.connect", f"{show(url)} connects by {[c[0] for c in far.calls]}")
            _, a, k = far.calls[0]
            got = a[0] if a else k.get("database")
            C.require(leaf_eq(C.I, got, text(C, *db)), f"{op} of {show(url)} opens the file {show(got)} instead of {show(text(C, *db))}")

        return g

    for op in ("ls", "schema"):
        ck.cell(f"SQLite {op}", f(op))


def csr_urls(ck):
    def f(op):
        def g(C):
            N = names_of(C, "url")
            far = Far(C, N)
            au, _ = authority(C)
            sch = C.pick("scheme", ["http", "https"])
            base = C.pick("base path", [[], ["/", C.tname("base")], ["/my+csr/http+csr"], ["/", C.tname("base"), "/", C.tname("more"), "/api"]])
            url = text(C, sch, "+csr://", *au, *base, *(["/", N["tab"], "-key"] if op == "schema" else []))
            v = C.ok_value(call_url(C, op, url), f"{op} of {show(url)}")
            C.require(len(far.calls) == 1 and far.calls[0][0] == "csr.client", f"{show(url)} connects by {[c[0] for c in far.calls]}")
            conf = far.calls[0][1][0]
            u = C.I.dget(conf, "url")
            want = text(C, sch, "://", *au, *base)
            C.require(u and leaf_eq(C.I, u[0], want), f"{op} of {show(url)} asks the registry {show(conf)} instead of {show(want)}")
            if op == "ls":
                bag(C, v, [N["tab"], N["tab2"]], f"ls of {show(url)}")
            else:
                C.require(leaf_eq(C.I, far.subject, text(C, N["tab"], "-key")), f"{show(url)} reads the subject {show(far.subject)}")

        return g

    for op in ("ls", "schema"):
        ck.cell(f"Confluent registry {op}", f(op))


def file_urls(ck):
    def f(C):
        far = Far(C, names_of(C, "url"))
        d = [C.pick("directory", [C.tname("dir"), "MixedCase", "a:1"]), "/", C.tname("sub")]
        doc = JsonText({"type": "object", "properties": {"f": {"type": "boolean"}}, "required": ["f"]})
        reads = files(C, [(text(C, "/", *d), [C.tname("f1"), C.tname("f2")])], [(text(C, "/", *d, "/", C.tname("doc"), ".json"), doc)])
        pre = C.pick("form", ["file:///", "/"] + (["file://"] if d[0] != "a:1" else []))
        url = text(C, pre, *d)
        bag(C, C.ok_value(call_url(C, "ls", url), f"ls of {show(url)}"), [C.tname("f1"), C.tname("f2")], f"ls of {show(url)}")
        url = text(C, pre, *d, "/", C.tname("doc"), ".json")
        v = C.ok_value(call_url(C, "schema", url), f"schema of {show(url)}")
        C.require(len(reads) == 1, f"{show(url)} reads {show(reads)}")
        C.require(not far.calls, f"{show(url)} connects to {far.calls}")
        d_ = diff(C.I, v, {"type": "struct", "fields": [{"type": "bool", "name": "f"}]})
        if d_:
            C.fail(f"schema of {show(url)}: {d_}")

    ck.cell("files", f)


# ---------------------------------------------------------------------- connections
OPTION = {"MySQL": "charset", "PostgreSQL": "sslmode", "Snowflake": "warehouse"}


def options(C, dialect):
    """What a driver can be told besides what the other parts of a URL say."""
    if dialect == "Snowflake":
        return ["warehouse", "role", "authenticator", "client_session_keep_alive"]
    said = {"host", "port", "user", "password", "database", "dbname", "passwd", "db"}
    return sorted(n for n in ALLOWED[dialect](C) if n not in said)


DBARG = {"MySQL": "database", "PostgreSQL": "dbname", "Snowflake": "database"}
HOST = {"MySQL": "host", "PostgreSQL": "host", "Snowflake": "account"}


def mentions(C, v, atom):
    v = C.I.canon(v)
    if v is atom:
        return True
    if isinstance(v, SStr):
        return any(p is atom for p in v.parts)
    if isinstance(v, (list, tuple)):
        return any(mentions(C, x, atom) for x in v)
    if isinstance(v, dict):
        return any(mentions(C, x, atom) for x in v.values())
    return False


def connected(ck):
    ck.rule("the connection is made with the host, port, user, password and database of the URL; options of its query are passed on and never replace these")

    def one(dialect, op):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            levels, address = tree_of(dialect, C, far)
            au, want = authority(C)
            host = want.pop("host")
            want[HOST[dialect]] = host
            args = address if op == "schema" else C.pick("listing", [levels[0][0], levels[-1][0]])
            if args:
                want[DBARG[dialect]] = args[0]
            opt = C.tname("opt")
            evil = C.tname("evil")
            q = C.pick("query", ["none", "option", "hostile"] + (["options"] if op == "ls" else []))
            names = ["host", "hostname", "user", "username", "password", "port", "database", "dbname", "account", "netloc", "scheme", "paths", "path", "url"]
            if q == "hostile":
                # what the URL says itself
                said = {"host", "hostname", "netloc", "scheme", "path", "paths", "url", HOST[dialect]}
                said |= {"user", "username"} if "user" in want else set()
                said |= {"password"} if "password" in want else set()
                said |= {"port"} if "port" in want else set()
                said |= {DBARG[dialect]} if args else set()
                names = [n for n in names if n in said]
                if not args:
                    names.remove("path")  # an empty path
                h = C.pick("replaces", names)
                qs = ["?", h, "=", evil]
            else:
                qs = []
                if q == "options":
                    # several of them
                    for i, name in enumerate(options(C, dialect)[:3]):
                        qs += ["&" if i else "?", name, "=", C.tname(f"opt{i}")]
                        want[name] = C.tname(f"opt{i}")
                if q == "option":
                    plain = op == "ls" and not args and "user" not in want and "port" not in want
                    name = C.pick("option", options(C, dialect)) if plain or ck.tier == "thorough" else OPTION[dialect]
                    qs = ["?", name, "=", opt]
                    want[name] = opt
            url = text(C, SCHEMES[dialect], "://", *au, *path_of(args), *qs)
            o = call_url(C, op, url)
            if q != "hostile":
                C.ok_value(o, f"{op} of {show(url)}")
            elif o.raised and not far.calls:
                return  # refused
            _, a, k = far.calls[0]
            C.require(not a, f"{op} of {show(url)} connects with {show(a)}")
            for n, w in want.items():
                C.require(n in k and leaf_eq(C.I, k[n], w), f"{op} of {show(url)} connects with {n}={show(k.get(n))} instead of {show(w)}")
            for n in ("host", "account", "port", "user", "password", "database", "dbname"):
                if n not in want and k.get(n) is not None:
                    C.fail(f"{op} of {show(url)} connects with {n}={show(k[n])} which the URL does not have")
            if q == "hostile":
                C.require(not mentions(C, {n: k[n] for n in k if n in want}, evil), f"{op} of {show(url)}: {h} of the query is used: {show(k)}")
            if dialect != "Snowflake":
                for n in k:
                    C.require(n in ALLOWED[dialect](C), f"{op} of {show(url)} passes {n}, which the {dialect} driver does not know")
            if dialect != "PostgreSQL" and "port" not in want:
                C.require("port" not in k, f"{op} of {show(url)} passes port={show(k.get('port'))}, which the {dialect} driver refuses")

        ck.cell(f"{dialect} {op}", f)

    for d in HOST:
        for op in ("ls", "schema"):
            one(d, op)

    def hive(C):
        N = names_of(C, "url")
        far = Far(C, N)
        au, want = authority(C)
        op, args = C.pick("call", [("ls", ()), ("ls", (N["sch"],)), ("schema", (N["sch"], N["tab"]))])
        q = C.pick("query", [[], ["?include_stats=true"], ["?host=", C.tname("evil")]])
        url = text(C, "thrift+hms://", *au, *path_of(args), *q)
        C.ok_value(call_url(C, op, url), f"{op} of {show(url)}")
        _, a, k = far.calls[0]
        a = list(a) + [k[n] for n in ("host", "port") if n in k]
        C.require(leaf_eq(C.I, a[0], want["host"]), f"{op} of {show(url)} connects to {show(a)}")
        C.require(len(a) == 1 and "port" not in want or leaf_eq(C.I, a[1], want.get("port", 9083)), f"{op} of {show(url)} connects to {show(a)}")

    ck.cell("Hive", hive)

    def addresses(C):
        """Hosts, ports and credentials of every form."""
        N = names_of(C, "url")
        far = Far(C, N)
        d = C.pick("system", [*HOST, "Hive"])
        hosts = [("[::1]", "::1"), ("[2001:db8::7]", "2001:db8::7"), ("10.0.0.1", "10.0.0.1"), ("localhost", "localhost"), ("a-b_c.d", "a-b_c.d")]
        ports = ["", ":1", ":443", ":3306", ":5432", ":9083", ":65535"]
        creds = [("", None, None), ("u@corp:c:d@", "u@corp", "c:d"), ("u%3Av:%23%3F%25@", "u:v", "#?%"), ("%C3%BC:%C3%9F@", "ü", "ß"), ("123:456@", "123", "456")]
        combos = [(h, p, creds[(i + j) % len(creds)]) for i, h in enumerate(hosts) for j, p in enumerate(ports[: 2 if i else None])] + [(hosts[3], "", c) for c in creds]
        (au, host), port, (cred, user, pw) = C.pick("address", combos)
        op, args = C.pick("call", [("ls", ()), ("schema", tree_of(d, C, far)[1])])
        url = text(C, SCHEMES[d], "://", cred, au, port, *path_of(args))
        C.ok_value(call_url(C, op, url), f"{op} of {show(url)}")
        _, a, k = far.calls[0]
        if d == "Hive":
            a = list(a) + [k[n] for n in ("host", "port") if n in k]
            got = (a[0], a[1] if len(a) > 1 else 9083, None, None)
            want = (host, int(port[1:] or 9083), None, None)
        else:
            got = (k.get(HOST[d]), k.get("port"), k.get("user"), k.get("password"))
            want = (host, int(port[1:]) if port else None, user, pw)
        C.require(all(g is w or leaf_eq(C.I, g, w) for g, w in zip(got, want)), f"{op} of {show(url)} connects to {show(got)} instead of {show(want)}")

    ck.cell("addresses of every form", addresses)

    def deeper(C):
        """A client for a URL that names more than a database."""
        N = names_of(C, "url")
        far = Far(C, N)
        d = C.pick("system", list(HOST))
        args = C.pick("path", [[N["cat"]], [N["cat"], N["sch"]]])
        url = text(C, SCHEMES[d], "://", C.tname("host"), *path_of(args))
        C.I.hooks["block"] = lambda I, a, k: None
        C.ok_value(C.run("environment:use", C.get("recap.clients:create_client"), url), f"a client of {show(url)}")
        _, a, k = far.calls[0]
        C.require(leaf_eq(C.I, k.get(DBARG[d]), args[0]), f"a client of {show(url)} connects to the database {show(k.get(DBARG[d]))}")
        if d == "Snowflake" and len(args) > 1:
            C.require(leaf_eq(C.I, k.get("schema"), args[1]), f"a client of {show(url)} connects to the schema {show(k.get('schema'))}")

    ck.cell("clients of deeper URLs", deeper)

    def repeated(C):
        """An option that is given more than once has all of its values."""
        far = Far(C, names_of(C, "url"))
        url = text(C, "snowflake://", C.tname("host"), "?role=", C.tname("r1"), "&warehouse=", C.tname("w"), "&role=", C.tname("r2"))
        C.ok_value(call_url(C, "ls", url), f"ls of {show(url)}")
        k = far.calls[0][2]
        C.require(mentions(C, k.get("role"), C.tname("r1")) and mentions(C, k.get("role"), C.tname("r2")) and leaf_eq(C.I, k.get("warehouse"), C.tname("w")), f"ls of {show(url)} connects with {show(k)}")

    ck.cell("repeated options", repeated)

    def sqlite_uri(C):
        """A database given as a URI keeps its own query."""
        far = Far(C, names_of(C, "url"))
        f = C.pick("URI", ["file:/data/x.db?mode=ro&uri=true", "file:x.db?uri=true", "file:x.db?mode=ro&cache=shared&uri=true"])
        C.I.hooks["block"] = lambda I, a, k: None
        C.ok_value(C.run("environment:use", C.get("recap.clients:create_client"), "sqlite:///" + f), f"a client of sqlite:///{f}")
        _, a, k = far.calls[0]
        got = a[0] if a else k.get("database")
        C.require(got == f and k.get("uri"), f"a client of sqlite:///{f} opens {show(got)} with {show(k)}")

    ck.cell("SQLite URIs", sqlite_uri)

    def csr(C):
        far = Far(C, names_of(C, "url"))
        au, want = authority(C, "user and password", True)
        opt = C.pick("option", ["basic.auth.user.info", "ssl.ca.location", "ssl.key.location", "ssl.certificate.location", "url", "other", "user"])
        url = text(C, "https+csr://", *au, "?", opt, "=", C.tname("opt"))
        C.ok_value(call_url(C, "ls", url), f"ls of {show(url)}")
        conf = far.calls[0][1][0]
        if opt in ("url", "other", "user"):
            C.require(not any(leaf_eq(C.I, v, C.tname("opt")) for v in conf.values()), f"ls of {show(url)} asks the registry with {show(conf)}")
        else:
            h = C.I.dget(conf, opt)
            C.require(h and leaf_eq(C.I, h[0], C.tname("opt")), f"ls of {show(url)} asks the registry with {show(conf)}")
        for n in conf:
            C.require(n in ("url", "basic.auth.user.info", "ssl.ca.location", "ssl.key.location", "ssl.certificate.location"), f"ls of {show(url)} configures {show(n)}")

    ck.cell("Confluent registry", csr)


def _mysql_args(C):
    return C.get("mysql.connector.constants:DEFAULT_CONFIGURATION")


PGARGS = set("host hostaddr port dbname user password passfile channel_binding connect_timeout client_encoding options application_name fallback_application_name keepalives keepalives_idle keepalives_interval keepalives_count tcp_user_timeout replication gssencmode sslmode requiressl sslcompression sslcert sslkey sslpassword sslrootcert sslcrl sslcrldir sslsni requirepeer ssl_min_protocol_version ssl_max_protocol_version krbsrvname gsslib service target_session_attrs database".split())
ALLOWED = {"MySQL": _mysql_args, "PostgreSQL": lambda C: PGARGS}


# -------------------------------------------------------------------------- closing
def closed(ck):
    ck.rule("whatever a command connects to is closed when it ends, also by an error, and is not used afterwards; the error is not lost")

    def one(dialect, op, fault):
        def f(C):
            N = names_of(C, "url")
            far = Far(C, N)
            H = C.I.hooks
            used = []
            if dialect == "SQLite":
                url = text(C, "sqlite:///", C.tname("db"), *(["/", N["tab"]] if op == "schema" else []))
            elif dialect == "Confluent registry":
                url = text(C, "http+csr://", C.tname("host"), *(["/", N["tab"]] if op == "schema" else []))
            else:
                levels, address = tree_of(dialect, C, far)
                args = address if op == "schema" else C.pick("listing", [levels[0][0], levels[1][0]])
                url = text(C, SCHEMES[dialect], "://", C.tname("host"), *path_of(args))
            boom = fault == "error"

            def guard(fn):
                def g(I, a, k):
                    used.append(len(far.events))
                    if boom:
                        I.throw("OSError", "connection lost")
                    return fn(I, a, k)
                return g

            real_note = far.note

            def note(name, a, k, obj):
                obj = real_note(name, a, k, obj)
                for n, m in list(obj.attrs.items()):
                    if isinstance(m, Native):
                        obj.attrs[n] = Native(n, guard(m.fn))
                if "env.execute" in H and far.world is not None:
                    H["env.execute"] = guard(H["env.execute"])
                return obj

            far.note = note
            o = call_url(C, op, url)
            if boom:
                C.require(o.raised, f"{op} of {show(url)}: the connection is lost, the command gives {show(o.value)}")
            else:
                v = C.ok_value(o, f"{op} of {show(url)}")
                v = C.I.canon(v)
                if isinstance(v, Iter):
                    v = list(C.I.iterate(v))
            C.require(len(far.open) == 1, f"{op} of {show(url)} opens {len(far.open)} connections")
            at = [i for i, (e, x) in enumerate(far.events) if e == "close" and x == id(far.open[0])]
            C.require(at, f"{op} of {show(url)}: the connection is not closed" + (" after an error" if boom else ""))
            C.require(not used or max(used) <= at[0], f"{op} of {show(url)}: the connection is used after it was closed")

        ck.cell(f"{dialect} {op} / {'connection lost' if fault == 'error' else 'normal'}", f)

    for d in list(BIG) + ["BigQuery", "Hive", "Confluent registry"]:
        for op in ("ls", "schema"):
            for fault in ("none", "error"):
                one(d, op, fault)

    def body(C):
        """The client used directly: the block ends in each way."""
        N = names_of(C, "url")
        far = Far(C, N)
        d = C.pick("client", list(BIG) + ["BigQuery", "Hive", "Confluent registry"])
        url = {"SQLite": text(C, "sqlite:///", C.tname("db")), "Confluent registry": text(C, "http+csr://", C.tname("host"))}.get(d) or text(C, SCHEMES[d], "://", C.tname("host"))
        how = C.pick("block", ["ends", "raises"])
        C.I.hooks["block"] = lambda I, a, k: used.append(len(far.events)) or (I.throw("KeyError", "in the block") if how == "raises" else None)
        used = []
        o = C.run("environment:use", C.get("recap.clients:create_client"), url)
        C.require(used, f"create_client of {show(url)}: {o!r}")
        C.require(o.raised == (how == "raises") and (how != "raises" or o.is_a("KeyError")), f"create_client of {show(url)}: the block {how}, then {o!r}")
        at = [i for i, (e, x) in enumerate(far.events) if e == "close" and x == id(far.open[0])]
        C.require(at and at[0] >= used[0], f"create_client of {show(url)}: " + ("closed before the block" if at else f"not closed when the block {how}"))

    ck.cell("create_client", body)


# ------------------------------------------------------------------------- dispatch
DOC = {
    "avro": lambda C: JsonText({"type": "record", "name": "R", "fields": [{"name": C.tname("f"), "type": "boolean"}]}),
    "json": lambda C: JsonText({"type": "object", "properties": {C.tname("f"): {"type": "boolean"}}, "required": [C.tname("f")]}),
}
CONV = {
    "avro": "recap.converters.avro:AvroConverter",
    "json": "recap.converters.json_schema:JSONSchemaConverter",
    "protobuf": "recap.converters.protobuf:ProtobufConverter",
}


def proto_file(C):
    A = "proto_schema_parser.ast:"
    fl = C.new(A + "Field", name=C.tname("f"), number=1, type="bool", cardinality=C.get(A + "FieldCardinality.REQUIRED"))
    return C.new(A + "File", syntax="proto2", file_elements=[C.new(A + "Message", name=C.tname("M"), elements=[fl])])


def document(C, kind):
    """The text of a schema with one boolean field, and what it is read as."""
    if kind == "protobuf":
        t = C.sym("proto text", nonempty=True)
        C.I.hooks["proto.parse"] = lambda I, a, k: proto_file(C) if I.same(I.canon(a[0]), t) else I.throw("ValueError", "syntax error")
        return t
    C.I.hooks["proto.parse"] = lambda I, a, k: I.throw("ValueError", "syntax error")
    return DOC[kind](C)


def dispatched(ck):
    ck.rule("a schema is read by the converter of its format: by the type that the registry states, or by the suffix of the file in any letter case")

    def is_bool(C, v, what):
        fs = C.attr(v, "fields")
        C.require(len(fs) == 1, f"{what} is read as {show(v)}")
        C.require(leaf_eq(C.I, C.attr(fs[0], "extra_attrs").get("name"), C.tname("f")) if C.attr(fs[0], "extra_attrs").get("name") is not None else False, f"{what}: the field is {show(fs[0])}")
        C.require(C.attr(fs[0], "type_") == "bool", f"{what}: the field is {show(fs[0])}")

    def csr(C):
        kind = C.pick("type", ["avro", "json", "protobuf"])
        doc = document(C, kind)
        asked = []
        t = C.tname("topic")
        given, want = C.pick("subject", [
            (t, text(C, t, "-value")), (text(C, t, "-key"), text(C, t, "-key")), (text(C, t, "-value"), text(C, t, "-value")), (text(C, t, "-values"), text(C, t, "-values-value")),
            ("MyTopic-KEY", "MyTopic-KEY-value"), ("Orders.V1", "Orders.V1-value"), (text(C, "key-", t), text(C, "key-", t, "-value")), (text(C, t, "key"), text(C, t, "key-value")), (text(C, t, "-key-", t), text(C, t, "-key-", t, "-value")),
        ])

        def latest(I, a, k):
            asked.append(I.norm(I.canon(a[0] if a else k["subject_name"])))
            return fake(C, {}, dict(schema=fake(C, {}, dict(schema_str=doc, schema_type=kind.upper(), references=[])), version=1, schema_id=1, subject=asked[-1]))

        cl = C.new("recap.clients.confluent_registry:ConfluentRegistryClient", fake(C, {"get_latest_version": latest}))
        v = C.ok_value(C.meth(cl, "schema", given), f"reading the {kind} schema of {show(given)}")
        C.require(len(asked) == 1 and leaf_eq(C.I, asked[0], want), f"the schema of {show(given)} is taken from {show(asked)} instead of {show(want)}")
        is_bool(C, v, f"the {kind} schema of {show(given)}")

    ck.cell("Confluent registry", csr)

    def unknown_type(C):
        cl = C.new("recap.clients.confluent_registry:ConfluentRegistryClient", fake(C, {"get_latest_version": lambda I, a, k: fake(C, {}, dict(schema=fake(C, {}, dict(schema_str=document(C, "avro"), schema_type=C.tname("strange")))))}))
        o = C.meth(cl, "schema", C.tname("topic"))
        C.require(o.raised, f"a schema of an unknown type is read as {show(o.value)}")

    ck.cell("Confluent registry, unknown type", unknown_type)

    SUF = {"avro": ("avsc", "avro", "avdl", "avpr"), "json": ("json", "jsonschema", "jsons"), "protobuf": ("proto", "protobuf", "protos", "proto3", "proto2")}

    def fs(kind, suf):
        def f(C):
            doc = document(C, kind)
            s = C.pick("case", [suf, suf.upper(), suf.capitalize()])
            p = text(C, "/", C.tname("dir"), "/", C.tname("doc"), *C.pick("dots", [[], [".v1"], [".json"], [".avsc"], [".proto"]]), ".", s)
            reads = files(C, [], [(p, doc)])
            cl = C.new("recap.clients.fs:FilesystemClient", C.pick("scheme", ["file", C.tname("s3")]))
            v = C.ok_value(C.meth(cl, "schema", text(C, p, C.pick("slash", ["", "/"]))), f"reading {show(p)}")
            is_bool(C, v, show(p))

        ck.cell(f"file .{suf}", f)

    for kind, ss in SUF.items():
        for s in ss:
            fs(kind, s)

    def fs_unknown(C):
        doc = document(C, "json")
        p = C.pick("file", [text(C, "/", C.tname("dir"), ".json/", C.tname("doc"), *s) for s in ([], [".", C.tname("strange")], [".json.bak"], [".txt"])] + ["/json", "/avsc", "/dir/json", "/dir/xjson", "/dir/x.jsonx"])
        files(C, [], [(p, doc)])
        o = C.meth(C.new("recap.clients.fs:FilesystemClient", "file"), "schema", p)
        C.require(o.raised, f"{show(p)} is read as {show(o.value)}")

    ck.cell("file, unknown suffix", fs_unknown)
