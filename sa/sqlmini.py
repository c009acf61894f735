"""A small relational evaluator: what the text of a query selects from given relations.

Relations are lists of rows (dicts) whose values may be atoms.  Different atoms
are different values.  Queries outside the grammar are undecided.
"""
from __future__ import annotations

import re

from .values import Undecided, SStr, App, show

TOK = re.compile(
    r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])|(?P<ph>%s|\?|%\(\w+\)s|:\w+)|(?P<num>\d+(?:\.\d+)?)"""
    r"""|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op><>|!=|<=|>=|\|\||::|[=<>(),.*;+\-/%])""",
    re.S,
)
KW = {"select", "from", "where", "and", "or", "not", "join", "inner", "left", "outer", "on", "group", "by", "order", "asc", "desc", "as", "is", "null", "in", "like", "ilike", "distinct", "limit", "pragma", "using", "cross", "exists", "between", "case", "collate", "having", "union", "with"}


class Col:
    def __init__(self, parts):
        self.parts = parts


class Query:
    def __init__(self, I, sql, params, tables, functions=None):
        self.I = I
        self.tables = tables
        self.functions = functions or {}
        self.params = params
        self.used = 0
        self.toks = []
        pos = 0
        while pos < len(sql):
            m = TOK.match(sql, pos)
            if not m:
                raise Undecided(f"SQL text at {sql[pos:pos + 20]!r}")
            pos = m.end()
            k = m.lastgroup
            if k is None:
                continue
            t = m.group()
            if k == "id" and t.lower() in KW:
                k, t = "kw", t.lower()
            elif k == "str":
                t = t[1:-1].replace("''", "'")
            elif k == "qid":
                k, t = "id", t[1:-1]
            self.toks.append((k, t))
        self.i = 0

    # ------------------------------------------------------------------ tokens
    def peek(self, n=0):
        return self.toks[self.i + n] if self.i + n < len(self.toks) else (None, None)

    def at(self, *words):
        return all(self.peek(n) == ("kw", w) or self.peek(n) == ("op", w) for n, w in enumerate(words))

    def eat(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.eat(*words):
            raise Undecided(f"SQL: expected {' '.join(words)} at {self.peek()}")

    # ------------------------------------------------------------------ statements
    def run(self):
        if self.eat("pragma"):
            k, n = self.peek()
            if k != "id" or n.lower() not in ("table_info", "table_xinfo"):
                raise Undecided("SQL: pragma " + str(n))
            self.i += 1
            if self.eat("("):
                a = self.operand()
                self.need(")")
            else:
                self.need("=")
                a = self.operand()
            rows = self.function("pragma_table_info", [self.value(a, {})])
            names = list(rows[0]) if rows else []
            return names, [tuple(r.values()) for r in rows]
        if self.eat("with"):
            self.tables = dict(self.tables)
            while True:
                n = self.peek()[1].lower()
                self.i += 1
                self.need("as")
                self.need("(")
                ns, rs = self.select()
                self.need(")")
                self.tables[n] = Rel(dict(zip([x.lower() for x in ns], r)) for r in rs)
                if not self.eat(","):
                    break
        names, rows = self.select()
        self.eat(";")
        if self.peek()[0] is not None:
            raise Undecided(f"SQL: {self.peek()}")
        if not isinstance(self.params, dict) and self.used != len(list(self.params or ())):
            raise Mismatch(f"{self.used} placeholders for {len(list(self.params or ()))} parameters")
        return names, rows

    def select(self):
        self.need("select")
        distinct = self.eat("distinct")
        items = []
        while True:
            items.append(self.item())
            if not self.eat(","):
                break
        self.need("from")
        env = self.source()
        while True:
            left = False
            if self.eat(",") or self.eat("cross", "join"):
                right = self.source()
                env = [r + s for r in env for s in right]
                continue
            if self.eat("left", "outer", "join") or self.eat("left", "join"):
                left = True
            elif not (self.eat("inner", "join") or self.eat("join")):
                break
            right = self.source()
            start = self.i
            if self.eat("using"):
                self.need("(")
                cols = []
                while not self.eat(")"):
                    cols.append(self.operand())
                    self.eat(",")
                test = lambda r, s: all(self.eq(self.value(c, r), self.value(c, s)) for c in cols)
            else:
                self.need("on")
                cond = self.expr()
                test = lambda r, s: self.truth(cond, r + s)
            out = []
            for r in env:
                hit = False
                for s in right:
                    if test(r, s):
                        out.append(r + s)
                        hit = True
                if left and not hit:
                    out.append(r + [(n, {k: None for k in row}, ks) for n, row, ks in (right[0] if right else self.empty_like(start))])
            env = out
        if self.eat("where"):
            w = self.expr()
            env = [r for r in env if self.truth(w, r)]
        if self.eat("group", "by"):
            keys = [self.operand()]
            while self.eat(","):
                keys.append(self.operand())
            groups = {}
            for r in env:
                groups.setdefault(tuple(repr(self.value(k, r)) for k in keys), []).append(r)
            rows = list(groups.values())
        elif any(isinstance(e, tuple) and e[0] == "agg" for e, _ in items):
            rows = [env]
        else:
            rows = [[r] for r in env]
        order = None
        if self.eat("order", "by"):
            order = []
            while True:
                e = self.operand()
                d = self.eat("desc")
                if not d:
                    self.eat("asc")
                order.append((e, d))
                if not self.eat(","):
                    break
        if order:
            for e, d in reversed(order):
                ks = [self.value(e, g[0]) for g in rows]
                if all(isinstance(k, int) for k in ks) or all(isinstance(k, str) for k in ks):
                    rows = [g for _, _, g in sorted(((k, n, g) for n, (k, g) in enumerate(zip(ks, rows))), key=lambda t: (t[0], t[1]), reverse=bool(d))]
        if self.eat("limit"):
            n = self.value(self.operand(), [])
            if not isinstance(n, int):
                raise Undecided("SQL: limit")
            rows = rows[:n]
        names = None
        out = []
        for g in rows or [None]:
            ns, vs = [], []
            for e, alias in items:
                if isinstance(e, tuple) and e[0] == "*":
                    for n, row, ks in (g[0] if g else self.shape(env)):
                        if e[1] is None or n == e[1] or any(ks[-len(e[1]):] == e[1] for _ in (0,) if isinstance(e[1], tuple)):
                            ns += list(row)
                            vs += list(row.values())
                else:
                    ns.append(alias or (e.parts[-1] if isinstance(e, Col) else "?"))
                    vs.append(None if g is None else self.agg(e, g))
            names = ns
            if g is not None and not (distinct and any(same_row(self.I, tuple(vs), o) for o in out)):
                out.append(tuple(vs))
        return names, out

    def shape(self, env):
        return env[0] if env else []

    def empty_like(self, _):
        return []

    def item(self):
        if self.eat("*"):
            return (("*", None), None)
        # name.* / schema.table.*
        j = self.i
        parts = []
        while self.peek()[0] == "id":
            parts.append(self.peek()[1].lower())
            self.i += 1
            if not self.eat("."):
                break
            if self.eat("*"):
                return (("*", tuple(parts)), None)
        self.i = j
        e = self.operand()
        alias = None
        if self.eat("as"):
            alias = self.peek()[1]
            self.i += 1
        elif self.peek()[0] == "id":
            alias = self.peek()[1]
            self.i += 1
        return (e, alias)

    def source(self):
        """A list of environments: [(alias, row, full name)]."""
        if self.eat("("):
            names, rows = self.select()
            self.need(")")
            self.eat("as")
            al = None
            if self.peek()[0] == "id":
                al = self.peek()[1].lower()
                self.i += 1
            return [[(al, dict(zip([n.lower() for n in names], r)), (al,))] for r in rows]
        parts = []
        while True:
            k, t = self.peek()
            if k != "id":
                raise Undecided(f"SQL: table {t!r}")
            parts.append(t.lower())
            self.i += 1
            if not self.eat("."):
                break
        if self.eat("("):
            args = []
            while not self.eat(")"):
                args.append(self.value(self.operand(), []))
                self.eat(",")
            rows = self.function(parts[-1], args)
        else:
            full = ".".join(parts)
            rows = self.tables.get(full)
            if rows is None:
                m = [k for k in self.tables if k.split(".")[-1] == parts[-1] and len(parts) == 1]
                if len(m) != 1:
                    raise Undecided(f"SQL: relation {full}")
                rows = self.tables[m[0]]
        al = None
        self.eat("as")
        if self.peek()[0] == "id":
            al = self.peek()[1].lower()
            self.i += 1
        if not rows and not isinstance(rows, Rel):
            pass
        return [[(al or parts[-1], r, (al,) if al else tuple(parts))] for r in rows]

    def function(self, name, args):
        f = self.functions.get(name)
        if f is None:
            raise Undecided(f"SQL: {name}()")
        return f(*args)

    # ------------------------------------------------------------------ expressions
    def expr(self):
        e = self.conj()
        while self.eat("or"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.eat("and"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        if self.eat("not"):
            return ("not", self.neg())
        if self.at("("):
            j = self.i
            u = self.used
            try:
                self.i += 1
                e = self.expr()
                self.need(")")
                if self.peek() not in [("op", o) for o in ("=", "<>", "!=", "<", ">", "<=", ">=")] + [("kw", w) for w in ("in", "is", "like", "ilike", "not")]:
                    return e
            except Undecided:
                pass
            self.i = j
            self.used = u
        return self.comparison()

    def comparison(self):
        a = self.operand()
        for op in ("=", "<>", "!=", "<=", ">=", "<", ">"):
            if self.eat(op):
                return (op, a, self.operand())
        if self.eat("is", "not", "null"):
            return ("not", ("isnull", a))
        if self.eat("is", "null"):
            return ("isnull", a)
        neg = self.eat("not")
        if self.eat("like") or self.at("ilike"):
            ci = self.eat("ilike")
            e = ("like", a, self.operand(), ci)
            return ("not", e) if neg else e
        if self.eat("in"):
            self.need("(")
            vs = []
            if self.at("select"):
                _, rs = self.select()
                vs = [("lit", r[0]) if len(r) == 1 else ("tuple", [("lit", x) for x in r]) for r in rs]
                self.need(")")
            else:
                while not self.eat(")"):
                    vs.append(self.operand())
                    self.eat(",")
            e = ("in", a, vs)
            return ("not", e) if neg else e
        return ("bool", a)

    def operand(self):
        k, t = self.peek()
        if k == "op" and t == "(":
            self.i += 1
            e = self.operand()
            if self.at(","):
                es = [e]
                while self.eat(","):
                    es.append(self.operand())
                e = ("tuple", es)
            self.need(")")
            return e
        self.i += 1
        if k == "str":
            return ("lit", t)
        if k == "num":
            return ("lit", int(t) if t.isdigit() else float(t))
        if (k, t) == ("kw", "null"):
            return ("lit", None)
        if k == "ph":
            return ("lit", self.param(t))
        if k == "id":
            parts = [t.lower()]
            if self.at("("):
                self.i += 1
                args = []
                order = None
                while not self.eat(")"):
                    if self.eat("distinct"):
                        continue
                    if self.eat("*"):
                        args.append(("lit", 1))
                        continue
                    if self.eat("order", "by"):
                        order = self.operand()
                        if self.eat("desc"):
                            raise Undecided("SQL: order in an aggregate")
                        self.eat("asc")
                        continue
                    args.append(self.operand())
                    self.eat(",")
                if parts[0] in ("array_agg", "group_concat", "string_agg", "count", "max", "min"):
                    return ("agg", parts[0], args, order)
                return ("fn", parts[0], args)
            while self.eat("."):
                parts.append(self.peek()[1].lower())
                self.i += 1
            c = Col(tuple(parts))
            while self.eat("::"):
                self.i += 1
            return c
        raise Undecided(f"SQL: {t!r}")

    def param(self, t):
        if t in ("%s", "?"):
            ps = list(self.params or ()) if not isinstance(self.params, dict) else None
            if ps is None:
                raise Undecided("SQL: parameters")
            self.used += 1
            if self.used > len(ps):
                raise Mismatch("more placeholders than parameters")
            return ps[self.used - 1]
        n = t[2:-2] if t.startswith("%") else t[1:]
        if not isinstance(self.params, dict) or n not in self.params:
            raise Mismatch(f"no parameter {n}")
        return self.params[n]

    # ------------------------------------------------------------------ values
    def value(self, e, env):
        if isinstance(e, Col):
            return self.column(e.parts, env)
        if e[0] == "lit":
            return self.I.canon(e[1])
        if e[0] == "fn":
            vs = [self.value(a, env) for a in e[2]]
            if e[1] in ("lower", "upper") and len(vs) == 1:
                v = vs[0]
                return getattr(v, e[1])() if isinstance(v, str) else v if v is None else App(e[1], (v,), ("str",))
            if e[1] == "database" or e[1] == "current_database":
                raise Undecided("SQL: current database")
            if e[1] == "coalesce":
                return next((v for v in vs if v is not None), None)
            raise Undecided(f"SQL: {e[1]}()")
        if e[0] == "tuple":
            return [self.value(x, env) for x in e[1]]
        raise Undecided(f"SQL: {e[0]}")

    def agg(self, e, g):
        if isinstance(e, tuple) and e[0] == "agg":
            if e[3] is not None:
                ks = [self.value(e[3], r) for r in g]
                if all(isinstance(k, (int, float)) for k in ks):
                    g = [r for _, _, r in sorted((k, n, r) for n, (k, r) in enumerate(zip(ks, g)))]
            if e[1] == "array_agg":
                return [self.value(e[2][0], r) for r in g]
            if e[1] == "count":
                return len(g)
            raise Undecided(f"SQL: {e[1]}()")
        return self.value(e, g[0])

    def column(self, parts, env):
        hits = []
        for al, row, full in env:
            for k in row:
                if k.lower() == parts[-1]:
                    q = parts[:-1]
                    if not q or tuple(full[-len(q):]) == q or (len(q) == 1 and al == q[0]):
                        hits.append(row[k])
        if not hits:
            raise Undecided(f"SQL: column {'.'.join(parts)}")
        return self.I.canon(hits[0])

    def eq(self, a, b):
        if a is None or b is None:
            return False
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                raise Mismatch("rows of different lengths")
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)):
            return a == b
        return bool(self.I.same(a, b))

    def truth(self, e, env):
        op = e[0]
        if op == "and":
            return self.truth(e[1], env) and self.truth(e[2], env)
        if op == "or":
            return self.truth(e[1], env) or self.truth(e[2], env)
        if op == "not":
            return not self.truth(e[1], env)
        if op == "isnull":
            return self.value(e[1], env) is None
        if op == "in":
            a = self.value(e[1], env)
            return any(self.eq(a, self.value(x, env)) for x in e[2])
        if op == "bool":
            v = self.value(e[1], env)
            if isinstance(v, (bool, int)):
                return bool(v)
            raise Undecided("SQL: condition")
        if op == "=" and isinstance(e[2], tuple) and e[2][0] == "fn" and e[2][1] in ("any", "some"):
            a, b = self.value(e[1], env), self.value(e[2][2][0], env)
            if isinstance(b, (list, tuple)):
                return any(self.eq(a, self.I.canon(x)) for x in b)
            raise Undecided("SQL: any()")
        a, b = self.value(e[1], env), self.value(e[2], env)
        if op == "=":
            return self.eq(a, b)
        if op in ("<>", "!="):
            return a is not None and b is not None and not self.eq(a, b)
        if op == "like":
            if isinstance(a, str) and isinstance(b, str):
                return re.fullmatch("".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in b), a, re.S | (re.I if e[3] else 0)) is not None
            if a is None or b is None:
                return False
            return self.eq(a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        raise Undecided(f"SQL: {op}")


class Rel(list):
    pass


class Mismatch(Exception):
    """The database refuses the statement."""


def same_row(I, a, b):
    return all((x == y) if isinstance(x, (str, int, float, type(None))) and isinstance(y, (str, int, float, type(None))) else I.same(x, y) for x, y in zip(a, b))
