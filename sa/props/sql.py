"""Properties of the converters of SQL databases, BigQuery and Hive."""
from __future__ import annotations

from .common import *

TS = "build.recap.Timestamp"
DEC = "build.recap.Decimal"
MAXPG = 1073741824


class Refused(Exception):
    pass


def unit_of(C, p, default):
    """The unit of a fractional-seconds precision: 0, 1-3, 4-6 digits; more or none: the default."""
    if p is None:
        return default
    if le_(C, p, 0):
        return "second"
    if le_(C, p, 3):
        return "millisecond"
    if le_(C, p, 6):
        return "microsecond"
    return default


def le_(C, a, b):
    """a <= b on this path; splits the path if it is open."""
    from .writers import le

    return le(C, a, b)


def none_(C, a):
    a = C.I.canon(a)
    return a is None or (C.I.is_abs(a) and C.I.ask_kind(a, "NoneType"))


def falsy(C, a):
    return not C.I.truth(C.I.canon(a))


def row(C, **kw):
    r = {
        "TABLE_CATALOG": C.sym("cat"), "TABLE_SCHEMA": C.sym("sch"), "TABLE_NAME": C.sym("tab"), "COLUMN_NAME": C.tname("col"), "ORDINAL_POSITION": C.sym("pos", "int", lo=1),
        "COLUMN_DEFAULT": None, "IS_NULLABLE": "NO", "DATA_TYPE": None, "CHARACTER_MAXIMUM_LENGTH": None, "CHARACTER_OCTET_LENGTH": None,
        "NUMERIC_PRECISION": None, "NUMERIC_SCALE": None, "DATETIME_PRECISION": None,
    }
    r.update(kw)
    return r


def num(C, n, lo=1, none=False, hi=None):
    return C.sym(n + ("?" if none else ""), ("int", "NoneType") if none else "int", lo=lo, **({"hi": hi} if hi is not None else {}))


# ------------------------------------------------------------------------- MySQL
MYSQL = {}
for _t, _b in (("bigint", 64), ("int", 32), ("integer", 32), ("mediumint", 24), ("smallint", 16), ("tinyint", 8)):
    MYSQL[_t] = ("int", _b)
for _t in ("varchar", "text", "json", "mediumtext", "longtext", "tinytext"):
    MYSQL[_t] = ("string", True)
for _t in ("char", "enum", "set"):
    MYSQL[_t] = ("string", False)
for _t in ("varbinary", "blob", "mediumblob", "longblob", "tinyblob"):
    MYSQL[_t] = ("bytes", True)
MYSQL |= {"binary": ("bytes", False), "bit": ("bit",), "timestamp": ("ts",), "datetime": ("ts",), "decimal": ("dec",), "numeric": ("dec",), "dec": ("dec",), "year": ("year",), "double": ("double",), "float": ("float",)}


def mysql_case(C, t):
    """A column of this type and the Recap type it stands for (computed after the run)."""
    k, *a = MYSQL[t]
    if k == "int":
        ct, s = C.pick("column type", [(t, True), (t + "(11)", True), (t + "(10) unsigned", False), (t + " unsigned zerofill", False), (t.upper() + " UNSIGNED", False)])
        r = row(C, DATA_TYPE=t, COLUMN_TYPE=ct, NUMERIC_PRECISION=num(C, "p"), NUMERIC_SCALE=0)
        return r, lambda: X("int", bits=a[0], signed=s)
    if k in ("string", "bytes"):
        n = num(C, "octets", none=True)
        return row(C, DATA_TYPE=t, COLUMN_TYPE=t, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=num(C, "chars", none=True)), lambda: X(k, bytes_=n, variable=a[0])
    if k == "bit":
        return row(C, DATA_TYPE=t, COLUMN_TYPE="bit(5)", NUMERIC_PRECISION=num(C, "p")), lambda: X("bytes", bytes_=8, variable=False)
    if k == "ts":
        p = num(C, "frac", lo=0, hi=6, none=True)
        return row(C, DATA_TYPE=t, COLUMN_TYPE=t, DATETIME_PRECISION=p), lambda: X("int", bits=64, logical=TS, unit="microsecond" if none_(C, p) else unit_of(C, p, "microsecond"))
    if k == "dec":
        p, s = num(C, "p"), num(C, "s", lo=0)
        ct = C.pick("column type", [t, t + "(9,2) unsigned"])
        return row(C, DATA_TYPE=t, COLUMN_TYPE=ct, NUMERIC_PRECISION=p, NUMERIC_SCALE=s), lambda: X("bytes", logical=DEC, bytes_=32, variable=False, precision=p, scale=s)
    if k == "year":
        return row(C, DATA_TYPE=t, COLUMN_TYPE="year"), lambda: X("int", bits=16, signed=False)
    if k == "double":
        return row(C, DATA_TYPE=t, COLUMN_TYPE=t, NUMERIC_PRECISION=num(C, "p")), lambda: X("float", bits=64)
    p = num(C, "p")
    return row(C, DATA_TYPE=t, COLUMN_TYPE=t, NUMERIC_PRECISION=p), lambda: X("float", bits=32 if le_(C, p, 23) else 64)


# -------------------------------------------------------------------- PostgreSQL
PG = {}
for _t in ("bigint", "int8", "bigserial", "serial8"):
    PG[_t] = X("int", bits=64)
for _t in ("integer", "int", "int4", "serial", "serial4"):
    PG[_t] = X("int", bits=32)
for _t in ("smallint", "smallserial", "serial2"):
    PG[_t] = X("int", bits=16)
for _t in ("double precision", "float8"):
    PG[_t] = X("float", bits=64)
for _t in ("real", "float4"):
    PG[_t] = X("float", bits=32)
PG |= {"boolean": X("bool"), "uuid": X("string", logical="build.recap.UUID", bytes_=36, variable=False), "bytea": X("bytes", bytes_=MAXPG), "bit varying": X("bytes", bytes_=MAXPG)}
PG |= {t: "string" for t in ("text", "json", "jsonb", "character varying", "varchar")}
PG |= {t: "char" for t in ("char", "character")}
PG |= {"bit": "bit", "user-defined": "enum", "numeric": "dec", "decimal": "dec"}
PG |= {t: "ts" for t in ("timestamp", "timestamp without time zone", "timestamp with time zone", "timestamptz")}
# element types of arrays, by the name that the catalogue gives them
PGARR = {
    "_int8": X("int", bits=64), "_int4": X("int", bits=32), "_int2": X("int", bits=16), "_float8": X("float", bits=64), "_float4": X("float", bits=32), "_bool": X("bool"),
    "_text": X("string", bytes_=MAXPG), "_varchar": X("string", bytes_=MAXPG), "_json": X("string", bytes_=MAXPG), "_jsonb": X("string", bytes_=MAXPG),
    "_uuid": X("string", logical="build.recap.UUID", bytes_=36, variable=False), "_bytea": X("bytes", bytes_=MAXPG),
    "_timestamp": X("int", bits=64, logical=TS, unit="microsecond"), "_timestamptz": X("int", bits=64, logical=TS, unit="microsecond"),
    "_bit": X("bytes", bytes_=MAXPG, variable=False),
    "_numeric": X("bytes", logical=DEC, bytes_=32, variable=False, precision=None, scale=None),
}


def pg_row(C, t, **kw):
    return row(C, DATA_TYPE=t, **{"UDT_NAME": kw.pop("UDT_NAME", C.sym("udt")), "ATTNDIMS": kw.pop("ATTNDIMS", 0), "ENUM_VALUES": kw.pop("ENUM_VALUES", None), **kw})


def pg_case(C, t):
    k = PG[t]
    if isinstance(k, X):
        return pg_row(C, t), lambda: k
    if k in ("string", "char"):
        n = num(C, "octets", none=True)
        return pg_row(C, t, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=num(C, "chars", none=True)), lambda: X("string", bytes_=n, variable=k == "string")
    if k == "bit":
        n = C.pick("length", [1, 7, 8, 9, 16, 17, 64, 65, 1000])
        return pg_row(C, t, CHARACTER_MAXIMUM_LENGTH=n), lambda: X("bytes", bytes_=-(-n // 8), variable=False)
    if k == "enum":
        sy = C.pick("labels", [[C.name("A"), C.name("B"), C.name("D")], ["sad", "Ok", "VERY happy", "_x_", "1", " ", "größe", "ok"], ["b", "a"], ["only"]])
        return pg_row(C, C.pick("case", ["USER-DEFINED", "user-defined"]), ENUM_VALUES=list(sy)), lambda: X("enum", symbols=sy)
    if k == "ts":
        p = num(C, "frac", lo=0, hi=6, none=True)
        return pg_row(C, t, DATETIME_PRECISION=p), lambda: X("int", bits=64, logical=TS, unit="microsecond" if none_(C, p) else unit_of(C, p, "microsecond"))
    p, s = num(C, "p", none=True), num(C, "s", lo=0, none=True)
    return pg_row(C, t, NUMERIC_PRECISION=p, NUMERIC_SCALE=s), lambda: X("bytes", logical=DEC, bytes_=32, variable=False, precision=p, scale=s)


# --------------------------------------------------------------------- Snowflake
SNOW = {}
for _t in ("float", "float4", "float8", "double", "double precision", "real"):
    SNOW[_t] = X("float", bits=64)
SNOW["boolean"] = X("bool")
for _t in ("number", "decimal", "numeric", "int", "integer", "bigint", "smallint", "tinyint", "byteint", "number(38,0)", "decimal(10,2)", "numeric(5)"):
    SNOW[_t] = "dec"
for _t in ("varchar", "varchar(16)", "string", "text", "nvarchar", "nvarchar2", "char varying", "nchar varying", "char varying(10)", "nchar varying(10)", "string(5)", "text(100)", "nvarchar(16777216)", "nvarchar2(7)"):
    SNOW[_t] = ("string", 16_777_216)
for _t in ("char", "char(1)", "nchar", "character", "char(10)", "nchar(25)", "character(3)"):
    SNOW[_t] = ("string", 1)
for _t in ("binary", "varbinary", "blob"):
    SNOW[_t] = ("bytes", 8_388_608)
SNOW["date"] = X("int", bits=32, logical="build.recap.Date", unit="day")
for _t in ("timestamp", "timestamp_ntz", "timestamp_ltz", "timestamp_tz", "datetime"):
    SNOW[_t] = ("ts", 64, TS)
SNOW["time"] = ("ts", 32, "build.recap.Time")


def snow_case(C, t):
    k = SNOW[t]
    if isinstance(k, X):
        return row(C, DATA_TYPE=t), lambda: k
    if k == "dec":
        p, s = num(C, "p", none=True), num(C, "s", lo=0, none=True)
        return row(C, DATA_TYPE=t, NUMERIC_PRECISION=p, NUMERIC_SCALE=s), lambda: X("bytes", logical=DEC, bytes_=16, variable=False, precision=38 if none_(C, p) else p, scale=0 if falsy(C, s) else s)
    if k[0] in ("string", "bytes"):
        n = num(C, "octets", none=True)
        return row(C, DATA_TYPE=t, CHARACTER_OCTET_LENGTH=n), lambda: X(k[0], bytes_=k[1] if none_(C, n) else n)
    p = C.pick("precision", [None] + list(range(10)))
    d = t if p is None else f"{t}({p})"
    return row(C, DATA_TYPE=d), lambda: X("int", bits=k[1], logical=k[2], unit="nanosecond" if p is None else unit_of(C, p, "nanosecond"))


# ------------------------------------------------------------------------ SQLite
SLMAX = 2147483647
SLNUM = X("union", types=[X("null"), X("int", bits=64), X("float", bits=64), X("string", bytes_=SLMAX), X("bytes", bytes_=SLMAX)])
SQLITE = {}
for _k, _ts in {
    "INTEGER": ("INT", "INTEGER", "TINYINT", "SMALLINT", "MEDIUMINT", "BIGINT", "UNSIGNED BIG INT", "INT2", "INT8", "FLOATING POINT", "CHARINT", "POINT", "BLOBINT"),
    "TEXT": ("CHARACTER", "CHARACTER VARYING", "LONG VARCHAR", "VARCHAR", "VARYING CHARACTER", "NCHAR", "NATIVE CHARACTER", "NVARCHAR", "TEXT", "CLOB", "TEXTBLOB", "BLOBCHAR", "REALTEXT"),
    "BLOB": ("BLOB", "", "REALBLOB", "BLOBDOUB"),
    "REAL": ("REAL", "DOUBLE", "DOUBLE PRECISION", "FLOAT", "FLOATREAL"),
    "NUMERIC": ("NUMERIC", "DECIMAL", "BOOLEAN", "DATE", "DATETIME", "STRING", "JSON"),
}.items():
    for _t in _ts:
        SQLITE[_t] = _k


def sqlite_x(C, k, n, p):
    if k == "INTEGER":
        return X("int", bits=64)
    if k == "REAL":
        return X("float", bits=64 if falsy(C, p) or not le_(C, p, 23) else 32)
    if k == "NUMERIC":
        return SLNUM
    return X("string" if k == "TEXT" else "bytes", bytes_=SLMAX if falsy(C, n) else n)


def sqlite_case(C, t):
    n, p = num(C, "octets", none=True), num(C, "p", none=True)
    cased = C.pick("case", [t, t.lower()])
    if t == "":
        cased = C.pick("absent", ["", None])
    return row(C, DATA_TYPE=None, TYPE=cased, CHARACTER_OCTET_LENGTH=n, NUMERIC_PRECISION=p), lambda: sqlite_x(C, SQLITE[t], n, p)


DIALECTS = {
    "MySQL": ("recap.converters.mysql:MysqlConverter", MYSQL, mysql_case),
    "PostgreSQL": ("recap.converters.postgresql:PostgresqlConverter", PG, pg_case),
    "Snowflake": ("recap.converters.snowflake:SnowflakeConverter", SNOW, snow_case),
    "SQLite": ("recap.converters.sqlite:SQLiteConverter", SQLITE, sqlite_case),
}


def col_x(x, nullable, default, name):
    """A column: nullability, default and name."""
    if nullable:
        if x.type_ == "union":
            return x.but(default=default, name=name)
        return X("union", types=[X("null"), x], default=default, name=name)
    x = x.but(name=name)
    return x.but(default=default) if default is not None else x


def table(C, conv, rows):
    return C.meth(conv, "to_recap", rows)


def types_of(ck, dialect):
    path, tab, case = DIALECTS[dialect]
    ck.rule(f"a {dialect} column of each type is read as the Recap type of the table, with its length, precision, scale, unit and sign")

    def one(t):
        def f(C):
            r, want = case(C, t)
            if isinstance(r["DATA_TYPE"], str) and dialect != "SQLite":
                r["DATA_TYPE"] = C.pick("letters", [r["DATA_TYPE"], r["DATA_TYPE"].upper()])
            o = table(C, C.new(path), [r])
            v = C.ok_value(o, f"reading a {dialect} column of type {t!r}")
            w = X("struct", fields=[want().but(name=C.tname("col"))])
            d = diff(C.I, v, w)
            if d:
                C.fail(f"{dialect} column of type {t!r}: {d}")

        ck.cell(f"{dialect} {t!r}", f)

    for t in tab:
        one(t)

    if dialect != "SQLite":
        def unknown(C):
            r, _ = case(C, next(iter(tab)))
            r["DATA_TYPE"] = C.tname("strange")
            o = table(C, C.new(path), [r])
            C.require(o.raised, f"{dialect} column of an unknown type is read as {show(o.value)}")

        ck.cell(f"{dialect} unknown type", unknown)


def mysql(ck):
    types_of(ck, "MySQL")


def snowflake(ck):
    types_of(ck, "Snowflake")


def sqlite(ck):
    types_of(ck, "SQLite")
    ck.rule("a SQLite column declared with lengths or precisions, read through the client, has them")
    decl = []
    for t, k in SQLITE.items():
        if not t:
            continue
        decl.append((t, k, None, None))
        for a in (1, 7, 23, 24, 53, 255, 4000):
            decl.append((f"{t}({a})", k, a, None))
        for a, b in ((10, 2), (24, 0), (23, 5)):
            decl.append((f"{t}({a},{b})", k, a, b))
            decl.append((f"{t}({a}, {b})", k, a, b))
        for g in (f"{t} (10)", f"{t}( 10 )", f"{t} (10 , 2)"):
            decl.append((g, k, 10, None))
    # the words of a type count wherever they stand
    decl += [
        ("DECIMAL(10) INT", "INTEGER", None, None), ("BIG(10) INTEGER", "INTEGER", None, None), ("NUMBER(5) TEXT", "TEXT", 5, None), ("NATIONAL(20) CHARACTER", "TEXT", 20, None), ("LONG(9) BLOB", "BLOB", 9, None),
        ("BIG(10) DOUBLE", "REAL", 10, None), ("VARCHAR(20) POINT", "INTEGER", None, None), ("BIG DECIMAL(10) REAL", "REAL", 10, None), ("VARCHAR(255) COLLATION", "TEXT", 255, None),
    ]

    def one(txt, k, a, b):
        def f(C):
            nm = C.tname("col")
            nn = C.pick("not null", [0, 1])
            pk = C.pick("primary key", [0, 1, 2])
            df = C.pick("default", [None, C.sym("dflt")])
            conn = database(C, lambda sql, params: (["cid", "name", "type", "notnull", "dflt_value", "pk"], [(0, nm, txt, nn, df, pk)]) if "table_info" in show(sql) else (["name"], [(C.sym("t"),)]))
            cl = C.new("recap.clients.sqlite:SQLiteClient", conn)
            v = C.ok_value(C.meth(cl, "schema", C.sym("t")), f"reading a SQLite table with a column of type {txt!r}")
            x = sqlite_x(C, k, a if k in ("TEXT", "BLOB") else None, a if k == "REAL" else None)
            w = X("struct", fields=[col_x(x, not nn and not pk, df, nm)])
            d = diff(C.I, v, w)
            if d:
                C.fail(f"SQLite column {txt!r}, notnull={nn}, pk={pk}, default {show(df)}: {d}")

        ck.cell(f"SQLite declared {txt!r}", f)

    for d in decl:
        one(*d)


def postgresql(ck):
    types_of(ck, "PostgreSQL")
    ck.rule("a PostgreSQL array is a list of its element type: nested as deep as declared if dimensions are enforced, else of any depth")
    CONV = DIALECTS["PostgreSQL"][0]

    def arr(u, enforce):
        def f(C):
            nd = C.pick("dimensions", [1, 2, 3, 4, 6, 9] if enforce else [1, 2, 3])
            nm = C.tname("col")
            r = pg_row(C, "ARRAY", UDT_NAME=u, ATTNDIMS=nd, COLUMN_NAME=nm)
            ns = C.pick("namespace", ["_root", "given"])
            kw = {"namespace": C.tname("ns")} if ns == "given" else {}
            conv = C.new(CONV, enforce, **kw) if enforce else C.new(CONV, **kw)
            v = C.ok_value(table(C, conv, [r]), f"reading a PostgreSQL array of {u}")
            e = PGARR[u]
            if enforce:
                x = X("union", types=[X("null"), e])
                for _ in range(nd):
                    x = X("list", values=x)
            else:
                al = C.I.mkstr([C.tname("ns") if kw else "_root", ".", nm])
                x = X("list", values=X("union", types=[e, X("proxy", alias=al)]), alias=al)
            d = diff(C.I, v, X("struct", fields=[x.but(name=nm)]))
            if d:
                C.fail(f"PostgreSQL array of {u}, {nd} dimensions, {'enforced' if enforce else 'any'}: {d}")
            if not enforce:
                # the reference inside leads to the list itself
                px = C.attr(C.attr(C.attr(C.attr(v, "fields")[0], "values"), "types")[1], "resolve")
                g = C.ok_value(C.run(px), "resolving the reference in an array")
                d = diff(C.I, g, x.but(alias=None))
                if d:
                    C.fail(f"the reference in a PostgreSQL array of {u}: {d}")

        ck.cell(f"array of {u} / {'enforced' if enforce else 'any depth'}", f)

    for u in PGARR:
        for e in (False, True):
            arr(u, e)

    def names(C):
        """Arrays in columns with unusual names, and several arrays in one table."""
        names = C.pick("names", [["a.b"], ["my tags"], ["1st"], ["tags-2"], ["größe"], ["a", "b"], ["a.b", "a_b"], ["x y", "x.y", "x_y"], ["!!"], ["日本"], ["9"], ["!", "?", "_"], ["größe", "gr_ße"], ["Tags", "tags"], ["a!", "a?", "a_", "a__"], ["_"]])
        rows = [pg_row(C, "ARRAY", UDT_NAME="_int4", ATTNDIMS=1, COLUMN_NAME=n) for n in names]
        v = C.ok_value(table(C, C.new(CONV), rows), f"reading a PostgreSQL table with array columns {names}")
        fs = C.attr(v, "fields")
        C.require(len(fs) == len(names), "number of columns")
        als = []
        for n, f_ in zip(names, fs):
            C.require(C.attr(f_, "extra_attrs").get("name") == n, f"column {n} is named {show(C.attr(f_, 'extra_attrs'))}")
            al = C.attr(f_, "alias")
            u = C.attr(C.attr(f_, "values"), "types")
            C.require(C.attr(u[1], "alias") == al, f"column {n}: reference to {show(C.attr(u[1], 'alias'))} in the list {show(al)}")
            als.append(al)
            g = C.ok_value(C.meth(u[1], "resolve"), f"resolving the reference in column {n}")
            d = diff(C.I, C.attr(g, "values"), X("union", types=[X("int", bits=32), X("proxy", alias=al)]))
            if d:
                C.fail(f"column {n}: {d}")
        C.require(len(set(als)) == len(als), f"columns {names} share the aliases {als}")

    ck.cell("names of array columns", names)

    def noenum(C):
        o = table(C, C.new(CONV), [pg_row(C, "USER-DEFINED", ENUM_VALUES=None)])
        C.require(o.raised, f"a user-defined type that is no enum is read as {show(o.value)}")

    ck.cell("user-defined type that is no enum", noenum)


# ------------------------------------------------------------- columns of a table
def columns(ck):
    ck.rule("every column becomes one field, in order, with the column's name; nullable exactly when the column is; the default is the column's, and null for nullable columns without one")

    for dialect, (path, tab, case) in DIALECTS.items():
        def one(t, path=path, case=case, dialect=dialect):
            def f(C):
                rows, wants = [], []
                r0, w0 = case(C, first[dialect])
                nl = C.pick("nullable", ["YES", "NO", "yes", "no"])
                df = C.pick("default", ["none", "some"])
                df = None if df == "none" else C.sym("dflt", ("str", "int", "bool"))
                r1, w1 = case(C, t)
                r1 = {**r1, "IS_NULLABLE": nl, "COLUMN_DEFAULT": df, "COLUMN_NAME": C.tname("c1")}
                r0 = {**r0, "IS_NULLABLE": "NO", "COLUMN_NAME": C.tname("c0")}
                r2 = {**r0, "IS_NULLABLE": "YES", "COLUMN_NAME": C.tname("c2"), "COLUMN_DEFAULT": C.sym("d2")}
                v = C.ok_value(table(C, C.new(path), [r0, r1, r2]), f"reading a {dialect} table")
                w = X("struct", fields=[col_x(w0(), False, None, C.tname("c0")), col_x(w1(), nl.upper() == "YES", df, C.tname("c1")), col_x(w0(), True, C.sym("d2"), C.tname("c2"))])
                d = diff(C.I, v, w)
                if d:
                    C.fail(f"{dialect} columns, the second of type {t!r}, nullable={nl}, default {show(df)}: {d}")

            ck.cell(f"{dialect} {t!r}", f)

        first = {"MySQL": "double", "PostgreSQL": "boolean", "Snowflake": "boolean", "SQLite": "INT"}
        for t in tab:
            one(t)

        def empty(C, path=path):
            v = C.ok_value(table(C, C.new(path), []), "reading a table without columns")
            d = diff(C.I, v, X("struct", fields=[]))
            if d:
                C.fail(d)

        ck.cell(f"{dialect} no columns", empty)

        def odd(C, path=path, case=case, dialect=dialect):
            """Names and defaults are taken as they are."""
            names = ["MixedCase", "mixedcase", " padded ", "a.b", "1st", "größe", "name", "doc", "default", "type", "select", "日本", "a" * 80]
            dfs = ["0", " x ", "NULL", "'quoted'", "now()", "nextval('s'::regclass)", "", "True", "1.50", "{}", 0, False]
            r0, w0 = case(C, first[dialect])
            nl = C.pick("nullable", ["YES", "NO"])
            rows = [{**r0, "COLUMN_NAME": n, "IS_NULLABLE": nl, "COLUMN_DEFAULT": dfs[i % len(dfs)]} for i, n in enumerate(names)]
            v = C.ok_value(table(C, C.new(path), rows), f"reading a {dialect} table")
            d = diff(C.I, v, X("struct", fields=[col_x(w0(), nl == "YES", dfs[i % len(dfs)], n) for i, n in enumerate(names)]))
            if d:
                C.fail(f"{dialect} columns of unusual names or defaults, nullable={nl}: {d}")

        ck.cell(f"{dialect} unusual names and defaults", odd)

    def lite(C):
        """Columns as SQLite itself describes them: a column of the primary key, whichever part of it, is never null."""
        rows, fs = [], []
        for i, (nn, pk, df) in enumerate(C.pick("columns", [
            [(0, 1, None), (0, 0, None), (1, 0, None), (0, 0, C.sym("d1")), (1, 0, C.sym("d2"))], [(0, 2, None), (0, 0, None), (0, 1, None), (0, 3, C.sym("d1"))],
            [(1, 1, C.sym("d1")), (1, 2, None)], [(0, 0, ""), (1, 0, "''"), (0, 0, "NULL")], [(0, 0, None)] * 4,
        ])):
            rows.append((i, C.tname(f"c{i}"), "REAL", nn, df, pk))
            fs.append(col_x(X("float", bits=64), not nn and not pk, df, C.tname(f"c{i}")))
        conn = database(C, lambda sql, params: (["cid", "name", "type", "notnull", "dflt_value", "pk"], rows) if "table_" in show(sql) and "info" in show(sql) else (["name"], [(C.sym("t"),)]))
        v = C.ok_value(C.meth(C.new("recap.clients.sqlite:SQLiteClient", conn), "schema", C.sym("t")), "reading a SQLite table")
        d = diff(C.I, v, X("struct", fields=fs))
        if d:
            C.fail(f"SQLite columns (number, name, type, not null, default, key) {show(rows)}: {d}")

    ck.cell("SQLite's own description", lite)

    def pgarr(C):
        nl = C.pick("nullable", ["YES", "NO"])
        df = C.pick("default", [None, C.sym("dflt")])
        nm = C.tname("c1")
        r = pg_row(C, "ARRAY", UDT_NAME="_int4", ATTNDIMS=1, COLUMN_NAME=nm, IS_NULLABLE=nl, COLUMN_DEFAULT=df)
        v = C.ok_value(table(C, C.new(DIALECTS["PostgreSQL"][0]), [r]), "reading an array column")
        al = C.I.mkstr(["_root.", nm])
        x = X("list", values=X("union", types=[X("int", bits=32), X("proxy", alias=al)]), alias=al)
        d = diff(C.I, v, X("struct", fields=[col_x(x, nl == "YES", df, nm)]))
        if d:
            C.fail(f"PostgreSQL array column, nullable={nl}: {d}")

    ck.cell("PostgreSQL array", pgarr)


# ------------------------------------------------------------------ history (C24)
def history(ck):
    ck.rule("what a converter returns for a table does not depend on the tables it read before, and does not change when it reads another")

    def pair(label, path, mka, mkb, args=()):
        def f(C):
            from .history import fresh

            a, b = mka(C), mkb(C)
            used = C.new(path, *args)
            o1 = C.meth(used, "to_recap", a)
            before = as_x(C.I, o1.value, expand=False) if not o1.raised else None
            o2 = C.meth(used, "to_recap", b)
            o3 = fresh(C, lambda: C.meth(C.new(path, *args), "to_recap", b))
            if o3.raised:
                C.require(o2.raised, "a refused table is accepted after another one")
                return
            C.require(not o2.raised, f"{label}: after another table, reading {o2!r}", o2.site)
            d = xdiff(C.I, as_x(C.I, o2.value, expand=False), as_x(C.I, o3.value, expand=False))
            if d:
                C.fail(f"{label}: after another table, {d}")
            if before is not None:
                d = xdiff(C.I, as_x(C.I, o1.value, expand=False), before)
                if d:
                    C.fail(f"{label}: the type read first changed: {d}")

        ck.cell(label, f)

    for dialect, (path, tab, case) in DIALECTS.items():
        for t in tab:
            def again(C, case=case, t=t):
                r, _ = case(C, t)
                return [{**r, "IS_NULLABLE": C.pick("nullable", ["YES", "NO"])}]

            def other(C, case=case, t=t):
                r, _ = case(C, t)
                if C.pick("second", ["same name", "other name"]) == "other name":
                    return [{**r, "IS_NULLABLE": C.pick("second nullable", ["YES", "NO"]), "COLUMN_NAME": C.tname("c9")}]
                return [{**r, "IS_NULLABLE": "YES", "COLUMN_DEFAULT": C.sym("d9")}]

            pair(f"{dialect} {t!r} twice", path, again, other)
    arr = lambda u, n: lambda C: [pg_row(C, "ARRAY", UDT_NAME=u, ATTNDIMS=n, COLUMN_NAME=C.tname("col"))]
    P = DIALECTS["PostgreSQL"][0]
    pair("PostgreSQL arrays of the same name", P, arr("_int4", 1), arr("_int4", 1))
    pair("PostgreSQL arrays of the same name and other types", P, arr("_int4", 1), arr("_text", 2))
    pair("PostgreSQL arrays, dimensions enforced", P, arr("_int4", 1), arr("_text", 2), (True,))

    def bad(C):
        return [pg_row(C, "ARRAY", UDT_NAME="_int4", ATTNDIMS=1, COLUMN_NAME=C.tname("col")), pg_row(C, C.tname("strange"))]

    pair("PostgreSQL table after a failure", P, bad, arr("_int4", 1))

    def bq(C):
        return [C.new("google.cloud.bigquery:SchemaField", C.name("a"), "RECORD", fields=[C.new("google.cloud.bigquery:SchemaField", C.name("b"), "STRING")])]

    pair("BigQuery", "recap.converters.bigquery:BigQueryConverter", bq, bq)

    def refs_kept(C):
        """References of the first table still lead to its own definitions."""
        conv = C.new(P)
        v1 = C.ok_value(C.meth(conv, "to_recap", arr("_int4", 1)(C)))
        C.meth(conv, "to_recap", arr("_text", 1)(C))
        px = C.attr(C.attr(C.attr(v1, "fields")[0], "values"), "types")[1]
        g = C.ok_value(C.meth(px, "resolve"), "resolving a reference of the first table")
        d = diff(C.I, C.attr(C.attr(g, "values"), "types")[0], X("int", bits=32))
        if d:
            C.fail(f"a reference of the first table leads to the second table's definition: {d}")

    ck.cell("references of a table read before", refs_kept)


# --------------------------------------------------------------------- BigQuery
def bq_types(C, t):
    n = num(C, "len", none=True)
    p, s = num(C, "p", none=True), num(C, "s", none=True, lo=0)
    if t in ("STRING", "JSON"):
        return {"max_length": n}, lambda: X("string", bytes_=n)
    if t == "BYTES":
        return {"max_length": n}, lambda: X("bytes", bytes_=n)
    if t in ("INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT"):
        return {}, lambda: X("int", bits=64)
    if t in ("FLOAT", "FLOAT64"):
        return {}, lambda: X("float", bits=64)
    if t == "BOOLEAN":
        return {}, lambda: X("bool")
    if t in ("TIMESTAMP", "DATETIME"):
        return {}, lambda: X("int", bits=64, logical=TS, unit="microsecond")
    if t == "TIME":
        return {}, lambda: X("int", bits=32, logical="build.recap.Time", unit="microsecond")
    if t == "DATE":
        return {}, lambda: X("int", bits=32, logical="build.recap.Date", unit="day")
    b, m = {"NUMERIC": (16, 38), "DECIMAL": (16, 38), "BIGNUMERIC": (32, 76), "BIGDECIMAL": (32, 76)}[t]
    return {"precision": p, "scale": s}, lambda: X("bytes", logical=DEC, bytes_=b, variable=False, precision=m if none_(C, p) else p, scale=0 if falsy(C, s) else s)


BQ = ["STRING", "JSON", "BYTES", "INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT", "FLOAT", "FLOAT64", "BOOLEAN", "TIMESTAMP", "DATETIME", "TIME", "DATE", "NUMERIC", "DECIMAL", "BIGNUMERIC", "BIGDECIMAL"]


def bigquery(ck):
    ck.rule("a BigQuery field of each type is read with its length, precision and scale; repeated fields are lists, nullable ones nullable, at every nesting; name, description and default kept")
    SF = "google.cloud.bigquery:SchemaField"

    def mode(C, x, m, name, doc, df):
        if m == "REPEATED":
            x = X("list", values=x)
        if m == "NULLABLE":
            x = X("union", types=[X("null"), x], default=None)
        x = x.but(name=name)
        if doc is not None:
            x = x.but(doc=doc)
        if df is not None:
            x = x.but(default=df)
        return x

    def one(t, nest):
        def f(C):
            m = C.pick("mode", ["NULLABLE", "REQUIRED", "REPEATED"])
            doc = C.pick("description", [None, C.sym("doc", nonempty=True)])
            df = C.pick("default", [None, C.sym("dflt", nonempty=True)])
            kw, want = bq_types(C, t)
            mk_ = lambda n, m, **k: C.new(SF, n, t, m, **{**kw, **k})
            fs = [C.new(SF, C.name("f0"), "BOOLEAN", "REQUIRED"), mk_(C.name("f1"), m, description=doc, default_value_expression=df), C.new(SF, C.name("f2"), "DATE", "NULLABLE")]
            if nest:
                rm = C.pick("record mode", ["NULLABLE", "REQUIRED", "REPEATED"])
                rd = C.pick("record description", [None, C.sym("rdoc", nonempty=True)])
                rt = C.pick("record type", ["RECORD", "STRUCT"])
                fs = [C.new(SF, C.name("r"), rt, rm, description=rd, fields=fs), C.new(SF, C.name("z"), "BOOLEAN", "NULLABLE")]
            conv = C.new("recap.converters.bigquery:BigQueryConverter")
            v = C.ok_value(C.meth(conv, "to_recap", fs), f"reading a BigQuery field of type {t}")
            x = X("struct", fields=[X("bool", name=C.name("f0")), mode(C, want(), m, C.name("f1"), doc, df), mode(C, X("int", bits=32, logical="build.recap.Date", unit="day"), "NULLABLE", C.name("f2"), None, None)])
            if nest:
                x = X("struct", fields=[mode(C, x, rm, C.name("r"), rd, None), mode(C, X("bool"), "NULLABLE", C.name("z"), None, None)])
            d = diff(C.I, v, x)
            if d:
                C.fail(f"BigQuery field of type {t}, mode {m}: {d}")

        ck.cell(f"{t} / {'in a record' if nest else 'column'}", f)

    for t in BQ:
        one(t, False)
        one(t, True)

    def unknown(C):
        o = C.meth(C.new("recap.converters.bigquery:BigQueryConverter"), "to_recap", [C.new(SF, C.name("a"), C.tname("strange"))])
        C.require(o.raised, f"a BigQuery field of an unknown type is read as {show(o.value)}")

    ck.cell("unknown type", unknown)


# --------------------------------------------------------------------------- Hive
HP = {
    "BOOLEAN": X("bool"), "BYTE": X("int", bits=8), "SHORT": X("int", bits=16), "INT": X("int", bits=32), "LONG": X("int", bits=64),
    "FLOAT": X("float", bits=32), "DOUBLE": X("float", bits=64), "VOID": X("null"), "STRING": X("string"), "BINARY": X("bytes", bytes_=2_147_483_647),
    "DATE": X("int", bits=32, logical="build.recap.Date", unit="day"), "TIMESTAMP": X("int", bits=64, logical=TS, unit="nanosecond", timezone="UTC"),
    "TIMESTAMPLOCALTZ": X("int", bits=64, logical=TS, unit="nanosecond", timezone=None),
    "INTERVAL_YEAR_MONTH": X("bytes", logical="build.recap.Interval", bytes_=12, signed=True, unit="month"),
    "INTERVAL_DAY_TIME": X("bytes", logical="build.recap.Interval", bytes_=12, signed=True, unit="second"),
}
HL = list(HP) + ["DECIMAL", "VARCHAR", "CHAR"]
HCTX = ["column", "list", "map value", "map key", "struct field", "list of lists", "list of structs", "map of lists", "union first", "union last", "union in union", "union of list", "union of struct", "list of union", "struct with union", "union twice", "union of two lists", "union of two structs", "union of two maps"]


def hv(C, d):
    """Build the Hive type that a description stands for."""
    H = "pymetastore.htypes:"
    k = d[0]
    if k in HP:
        return C.new(H + "HPrimitiveType", C.get(H + "PrimitiveCategory." + k))
    if k == "DECIMAL":
        return C.new(H + "HDecimalType", d[1], d[2])
    if k == "VARCHAR":
        return C.new(H + "HVarcharType", d[1])
    if k == "CHAR":
        return C.new(H + "HCharType", d[1])
    if k == "list":
        return C.new(H + "HListType", hv(C, d[1]))
    if k == "map":
        return C.new(H + "HMapType", hv(C, d[1]), hv(C, d[2]))
    if k == "union":
        return C.new(H + "HUnionType", [hv(C, t) for t in d[1]])
    return C.new(H + "HStructType", [n for n, _ in d[1]], [hv(C, t) for _, t in d[1]])


def hx(C, d):
    """The Recap type: null is always allowed, at every level."""
    k = d[0]
    if k == "VOID":
        return X("null")
    if k == "union":
        flat = [X("null")]
        for t in d[1]:
            x = hx(C, t)
            for e in x.attrs["types"] if x.type_ == "union" else [x]:
                if not any(xsame(C, e, g) for g in flat):
                    flat.append(e)
        return X("union", types=flat, default=None)
    if k in HP:
        x = HP[k]
    elif k == "DECIMAL":
        x = X("bytes", logical=DEC, bytes_=16, variable=False, precision=d[1], scale=d[2])
    elif k == "VARCHAR":
        x = X("string", bytes_=d[1])
    elif k == "CHAR":
        x = X("string", bytes_=d[1], variable=False)
    elif k == "list":
        x = X("list", values=hx(C, d[1]))
    elif k == "map":
        x = X("map", keys=hx(C, d[1]), values=hx(C, d[2]))
    else:
        x = X("struct", fields=[hx(C, t).but(name=n) for n, t in d[1]])
    return X("union", types=[X("null"), x], default=None)


def xsame(C, a, b):
    return xdiff(C.I, full(a), full(b)) is None


def hive_leaf(C, t, tag=""):
    if t == "DECIMAL":
        return ("DECIMAL", C.sym("p" + tag, "int", lo=1, hi=38), C.sym("s" + tag, "int", lo=0, hi=38))
    if t == "VARCHAR":
        return ("VARCHAR", C.sym("len" + tag, "int", lo=1, hi=65535))
    if t == "CHAR":
        return ("CHAR", C.sym("len" + tag, "int", lo=1, hi=255))
    return (t,)


def hive_ctx(C, l):
    s = ("STRING",)
    return {
        "column": l,
        "list": ("list", l),
        "map value": ("map", s, l),
        "map key": ("map", l, s),
        "struct field": ("struct", [(C.name("a"), ("BOOLEAN",)), (C.name("b"), l)]),
        "list of lists": ("list", ("list", l)),
        "list of structs": ("list", ("struct", [(C.name("a"), l), (C.name("b"), ("INT",))])),
        "map of lists": ("map", s, ("list", l)),
        "union first": ("union", [l, ("SHORT",)]),
        "union last": ("union", [("SHORT",), ("STRING",), l]),
        "union in union": ("union", [("SHORT",), ("union", [l, ("BOOLEAN",)])]),
        "union of list": ("union", [("list", l), ("BOOLEAN",)]),
        "union of struct": ("union", [("struct", [(C.name("a"), l), (C.name("b"), ("INT",))]), ("map", s, l)]),
        "list of union": ("list", ("union", [l, ("SHORT",)])),
        "struct with union": ("struct", [(C.name("a"), ("union", [l, ("FLOAT",)])), (C.name("b"), l)]),
        "union of two lists": ("union", [("list", l), ("list", ("DATE",)), ("list", ("list", l))]),
        "union of two structs": ("union", [("struct", [(C.name("a"), l)]), ("struct", [(C.name("b"), l)]), ("struct", [(C.name("a"), ("DATE",))])]),
        "union of two maps": ("union", [("map", s, l), ("map", s, ("DATE",)), ("map", l, ("DATE",))]),
        "union twice": ("union", [("FLOAT",), ("BOOLEAN",), ("FLOAT",), l]),
    }


def htable(C, cols, name):
    return C.new("pymetastore.metastore:HTable", C.sym("db"), name, "MANAGED_TABLE", cols, [], None, {})


def hive(ck):
    ck.rule("a Hive table is a struct of its columns, in order, with their names and comments; every column and every nested value may be null; unions are flattened")

    def one(t, ctx):
        def f(C):
            d = hive_ctx(C, hive_leaf(C, t))[ctx]
            cm = C.pick("comment", [None, C.sym("comment", nonempty=True)])
            col = lambda n, t_, c=None: C.new("pymetastore.metastore:HColumn", n, hv(C, t_), c)
            tb = htable(C, [col(C.name("c0"), ("BOOLEAN",)), col(C.name("c1"), d, cm), col(C.name("c2"), ("LONG",), C.sym("c2doc", nonempty=True))], C.name("table"))
            o = C.meth(C.new("recap.converters.hive_metastore:HiveMetastoreConverter"), "to_recap", tb)
            v = C.ok_value(o, f"reading a Hive column of type {show(d)}")
            x1 = hx(C, d).but(name=C.name("c1"))
            if cm is not None:
                x1 = x1.but(doc=cm)
            w = X("struct", fields=[hx(C, ("BOOLEAN",)).but(name=C.name("c0")), x1, hx(C, ("LONG",)).but(name=C.name("c2"), doc=C.sym("c2doc", nonempty=True))], name=C.name("table"))
            df = diff(C.I, v, w)
            if df:
                C.fail(f"Hive column of type {show(d)}: {df}")

        ck.cell(f"{t} / {ctx}", f)

    for t in HL:
        for ctx in HCTX:
            one(t, ctx)

    def odd(C):
        """Names and comments are taken as they are."""
        names = ["MixedCase", "mixedcase", " padded ", "a.b", "1st", "größe", "name", "doc", "type", "null"]
        col = lambda n, t_, c=None: C.new("pymetastore.metastore:HColumn", n, hv(C, t_), c)
        tn = C.pick("table", ["MixedCase", "a.b", "t_1"])
        cm = C.pick("comment", [" text ", "Text with 'quotes'", " "])
        tb = htable(C, [col(n, ("STRUCT", [(m, ("LONG",)) for m in names]) if i == 1 else ("LONG",), cm) for i, n in enumerate(names)], tn)
        v = C.ok_value(C.meth(C.new("recap.converters.hive_metastore:HiveMetastoreConverter"), "to_recap", tb), "reading a Hive table")
        x = lambda n, i: hx(C, ("STRUCT", [(m, ("LONG",)) for m in names]) if i == 1 else ("LONG",)).but(name=n, doc=cm)
        d = diff(C.I, v, X("struct", fields=[x(n, i) for i, n in enumerate(names)], name=tn))
        if d:
            C.fail(f"Hive columns of unusual names: {d}")

    ck.cell("unusual names", odd)

    def unknown(C):
        tb = htable(C, [C.new("pymetastore.metastore:HColumn", C.name("c"), C.new("pymetastore.htypes:HPrimitiveType", C.get("pymetastore.htypes:PrimitiveCategory.UNKNOWN")))], C.name("t"))
        o = C.meth(C.new("recap.converters.hive_metastore:HiveMetastoreConverter"), "to_recap", tb)
        C.require(o.raised, f"a Hive column of an unknown type is read as {show(o.value)}")

    ck.cell("unknown type", unknown)


def hive_stats(ck):
    ck.rule("with statistics, each column's statistics are on that column's field and nowhere else, all else is as without")
    S = "pymetastore.stats:"
    num_ = lambda C, n: C.sym(n, ("int",), lo=0)
    lohi = lambda C, x="": (C.sym("low" + x, ("int", "NoneType")), C.sym("high" + x, ("int", "NoneType")))

    def wrapped(C, n, cls):
        """A value object (thrift Date) or nothing."""
        if C.pick(n, ["some", "none"]) == "none":
            return None, None
        v = C.sym(n + " days", "int")
        return C.new("pymetastore.hive_metastore.ttypes:" + cls, v), v

    def stat(C, k, x=""):
        c, nn = num_(C, "card" + x), num_(C, "nulls" + x)
        if k in ("Long", "Double"):
            lo, hi = lohi(C, x)
            return C.new(S + k + "TypeStats", cardinality=c, numNulls=nn, lowValue=lo, highValue=hi), {"low": lo, "high": hi, "cardinality": c, "null_count": nn}
        if k == "Date":
            lo, lv = wrapped(C, "low" + x, "Date")
            hi, hv_ = wrapped(C, "high" + x, "Date")
            w = {"cardinality": c, "null_count": nn}
            if lo is not None:
                w["low"] = lv
            if hi is not None:
                w["high"] = hv_
            return C.new(S + "DateTypeStats", cardinality=c, numNulls=nn, lowValue=lo, highValue=hi), w
        if k == "Decimal":
            lo = C.pick("low" + x, [None, C.sym("lowdec" + x, "int")])
            hi = C.pick("high" + x, [None, C.sym("highdec" + x, "int")])
            w = {"cardinality": c, "null_count": nn}
            if lo is not None:
                w["low"] = lo
            if hi is not None:
                w["high"] = hi
            return C.new(S + "DecimalTypeStats", cardinality=c, numNulls=nn, lowValue=lo, highValue=hi), w
        if k == "String":
            a, m = C.sym("avg" + x, ("int", "float")), num_(C, "max" + x)
            return C.new(S + "StringTypeStats", maxColLen=m, avgColLen=a, cardinality=c, numNulls=nn), {"average_length": a, "max_length": m, "cardinality": c, "null_count": nn}
        if k == "Binary":
            a, m = C.sym("avg" + x, ("int", "float")), num_(C, "max" + x)
            return C.new(S + "BinaryTypeStats", maxColLen=m, avgColLen=a, numNulls=nn), {"average_length": a, "max_length": m, "null_count": nn}
        t_, f_ = num_(C, "trues" + x), num_(C, "falses" + x)
        return C.new(S + "BooleanTypeStats", numTrues=t_, numFalses=f_, numNulls=nn), {"true_count": t_, "false_count": f_, "null_count": nn}

    KT = {"Long": "LONG", "Double": "DOUBLE", "Date": "DATE", "Decimal": "DECIMAL", "String": "STRING", "Binary": "BINARY", "Boolean": "BOOLEAN"}

    def one(k):
        def f(C):
            d = hive_leaf(C, KT[k])
            cols = [C.new("pymetastore.metastore:HColumn", C.name(n), hv(C, t)) for n, t in (("c0", ("LONG",)), ("c1", d), ("c2", ("STRING",)))]
            tb = htable(C, cols, C.name("t"))
            st, w = stat(C, k)
            cs = lambda n, s: C.new(S + "ColumnStats", isTblLevel=True, dbName=C.name("db"), tableName=C.name("t"), columnName=n, columnType=C.sym("ct"), stats=s)
            lst = C.pick("statistics", ["this", "with missing", "reversed"])
            nn2 = C.sym("nulls2", "int", lo=0)
            bst = C.new(S + "BinaryTypeStats", maxColLen=C.sym("m2", "int"), avgColLen=C.sym("a2", "int"), numNulls=nn2)
            all_ = {"this": [cs(C.name("c1"), st)], "with missing": [cs(C.name("c0"), None), cs(C.name("c1"), st)], "reversed": [cs(C.name("c2"), bst), cs(C.name("c1"), st)]}[lst]
            seen = []

            def tables(I, a, k_):
                seen.append(("table", tuple(a)))
                return tb

            def stats(I, a, k_):
                seen.append(("stats", tuple(a)))
                only = C.I.canon(a[1] if len(a) > 1 else k_.get("columns"))
                # no columns stand for all of them
                return [s for s in all_ if not only or any(leaf_eq(C.I, C.attr(s, "columnName"), n) for n in only)]

            cl = C.new("recap.clients.hive_metastore:HiveMetastoreClient", fake(C, {"get_table": tables, "get_table_stats": stats}))
            inc = C.pick("include", [True, False])
            o = C.meth(cl, "schema", C.name("db"), C.name("t"), inc)
            v = C.ok_value(o, "reading a Hive table with statistics")
            C.require(leaf_eq(C.I, seen[0][1][0], C.name("db")) and leaf_eq(C.I, seen[0][1][1], C.name("t")), f"asks for the table {show(seen[0][1])}")
            f0, f1, f2 = (hx(C, t).but(name=C.name(n)) for n, t in (("c0", ("LONG",)), ("c1", d), ("c2", ("STRING",))))
            if inc:
                f1 = f1.but(**w)
                if lst == "reversed":
                    f2 = f2.but(average_length=C.sym("a2", "int"), max_length=C.sym("m2", "int"), null_count=nn2)
            else:
                C.require(not any(s[0] == "stats" for s in seen), "asks for statistics that were not requested")
            dd = diff(C.I, v, X("struct", fields=[f0, f1, f2], name=C.name("t")))
            if dd:
                C.fail(f"{k} statistics ({lst}, include={inc}): {dd}")

        ck.cell(f"{k} statistics", f)

    for k in KT:
        one(k)

    def two(k1, k2):
        """Two columns of one table, or two tables read one after the other."""

        def f(C):
            d1, d2 = hive_leaf(C, KT[k1]), hive_leaf(C, KT[k2])
            how = C.pick("columns", ["of one table", "of two tables, one client", "of two tables, two clients"])
            cs = lambda n, s: C.new(S + "ColumnStats", isTblLevel=True, dbName=C.name("db"), tableName=C.name("t"), columnName=n, columnType=C.sym("ct"), stats=s)
            (s1, w1), (s2, w2) = stat(C, k1), stat(C, k2, "'")
            n1, n2 = C.name("c1"), C.name("c1" if how != "of one table" and C.pick("second name", ["same", "other"]) == "same" else "c2")
            x1, x2 = hx(C, d1).but(name=n1, **w1), hx(C, d2).but(name=n2, **w2)
            col = lambda n, t: C.new("pymetastore.metastore:HColumn", n, hv(C, t))
            if how == "of one table":
                tabs = [(C.name("t"), [col(n1, d1), col(n2, d2)], [cs(n2, s2), cs(n1, s1)] if C.pick("reversed", [False, True]) else [cs(n1, s1), cs(n2, s2)], [x1, x2])]
            else:
                tabs = [(C.name("t"), [col(n1, d1)], [cs(n1, s1)], [x1]), (C.name("u"), [col(n2, d2)], [cs(n2, s2)], [x2])]
                if C.pick("then", ["nothing", "again without"]) != "nothing":
                    tabs.append((C.name("t"), [col(n1, d1)], None, [hx(C, d1).but(name=n1)]))

            def client():
                return C.new(
                    "recap.clients.hive_metastore:HiveMetastoreClient",
                    fake(C, {
                        "get_table": lambda I, a, k_: next(htable(C, cols, t) for t, cols, _, _ in tabs if leaf_eq(I, a[1], t)),
                        "get_table_stats": lambda I, a, k_: list(now[0]),
                    }),
                )

            now, got, cl = [None], [], client()
            for t, cols, st, want in tabs:
                now[0] = st or []
                if how.endswith("two clients"):
                    cl = client()
                v = C.ok_value(C.meth(cl, "schema", C.name("db"), t, st is not None), f"reading the Hive table {show(t)}")
                got.append((t, v, want))
            for t, v, want in got:
                dd = diff(C.I, v, X("struct", fields=want, name=t))
                if dd:
                    C.fail(f"{k1} and {k2} statistics {how}: table {show(t)}: {dd}")

        ck.cell(f"{k1} and {k2} statistics", f)

    pairs = [(k, k) for k in KT] + [("Date", "Decimal"), ("String", "Binary"), ("Decimal", "Date"), ("Boolean", "Long")]
    for a, b in pairs if not ck.thorough else [(a, b) for a in KT for b in KT]:
        two(a, b)

    def by_url(C):
        """Statistics are asked for by the URL."""
        from .clients import Far, names_of, call_url, text

        N = names_of(C, "url")
        far = Far(C, N)
        asked = []
        inner = C.I.hooks["hms.create"]

        def create(I, a, k):
            o = inner(I, a, k)
            o.attrs["get_table_stats"] = Native("get_table_stats", lambda J, b, kk: asked.append(b) or [])
            return o

        C.I.hooks["hms.create"] = create
        q = C.pick("query", ["", "?include_stats=true", "?include_stats=1", "?other=1"])
        url = text(C, "thrift+hms://", C.tname("host"), ":9083/", N["sch"], "/", N["tab"], q)
        C.ok_value(call_url(C, "schema", url), f"schema of {show(url)}")
        C.require(bool(asked) == ("include_stats" in q), f"schema of {show(url)} " + ("asks" if asked else "does not ask") + " for statistics")

    ck.cell("statistics by URL", by_url)


