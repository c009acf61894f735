"""Behaviour-preserving rewrites of the whole tree: every check has to stay quiet on each.

usage: refactor.py [--jobs N] [--only C01,C02] [REWRITE ...]      (no rewrite named: all)

Each rewrite is applied at every place of recap/ in a scratch copy, the repository's stable tests are run there to
confirm that it kept the behaviour, and then the checks.
"""
import ast, concurrent.futures as cf, copy, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *a, **k):
    return ast.Call(name(f) if isinstance(f, str) else f, list(a), [ast.keyword(x, y) for x, y in k.items()])


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    return ast.UnaryOp(ast.Not(), e)


def assign(n, e):
    return ast.Assign([name(n, ast.Store())], e, lineno=0)


def stored(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def loaded(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def has(node, *types):
    nodes = node if isinstance(node, list) else [node]
    return any(isinstance(n, types) for b in nodes for n in ast.walk(b))


class T(ast.NodeTransformer):
    """Statement lists are rewritten by `block`, expressions by visit_*."""

    def __init__(self):
        self.n = 0

    def fresh(self, base="tmp"):
        self.n += 1
        return f"{base}_{self.n}"

    def block(self, stmts, owner):
        return stmts

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, node))
        return node


class Plain(T):
    pass


class InvertIf(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n


class TernaryToIf(T):
    def block(self, stmts, owner):
        if isinstance(owner, ast.ClassDef):
            return stmts
        out = []
        for s in stmts:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out += [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                t = s.targets
                out.append(ast.If(s.value.test, [ast.Assign(t, s.value.body, lineno=0)], [ast.Assign(copy.deepcopy(t), s.value.orelse, lineno=0)]))
            else:
                out.append(s)
        return out


class CompToLoop(T):
    """x = [e for ...] becomes a loop."""

    def block(self, stmts, owner):
        if isinstance(owner, (ast.ClassDef, ast.Module)):
            return stmts
        out = []
        for s in stmts:
            e = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
            wrap = None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sorted", "any", "all", "list") and e.args and isinstance(e.args[0], (ast.ListComp, ast.GeneratorExp)):
                wrap, e = e, e.args[0]
            if isinstance(e, (ast.ListComp, ast.DictComp)) or wrap is not None:
                if has(e, ast.NamedExpr):
                    out.append(s)
                    continue
                r = self.fresh("built")
                if isinstance(e, ast.DictComp):
                    inner = [ast.Assign([ast.Subscript(name(r), e.key, ast.Store())], e.value, lineno=0)]
                    init = ast.Dict([], [])
                else:
                    inner = [ast.Expr(call(ast.Attribute(name(r), "append", ast.Load()), e.elt))]
                    init = ast.List([], ast.Load())
                for g in reversed(e.generators):
                    for c in reversed(g.ifs):
                        inner = [ast.If(c, inner, [])]
                    inner = [ast.For(g.target, g.iter, inner, [], lineno=0)]
                out += [assign(r, init)] + inner
                v = name(r)
                if wrap is not None:
                    wrap.args[0] = v
                    v = wrap
                s.value = v
            out.append(s)
        return out


class CompToMap(T):
    """[f(x) for x in xs if c] becomes list(map(lambda, filter(lambda, xs)))."""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name) and not has(n, ast.NamedExpr, ast.Await):
            g = n.generators[0]
            a = lambda: ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
            it = g.iter
            for c in g.ifs:
                it = call("filter", ast.Lambda(a(), c), it)
            if not (isinstance(n.elt, ast.Name) and n.elt.id == g.target.id):
                it = call("map", ast.Lambda(a(), n.elt), it)
            return call("list", it)
        return n


class LoopToWhile(T):
    def block(self, stmts, owner):
        out = []
        for s in stmts:
            if isinstance(s, ast.For) and not s.orelse and not isinstance(owner, (ast.ClassDef, ast.Module)) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                xs, i = self.fresh("items"), self.fresh("i")
                out += [
                    assign(xs, call("list", s.iter)),
                    assign(i, ast.Constant(0)),
                    ast.While(
                        ast.Compare(name(i), [ast.Lt()], [call("len", name(xs))]),
                        [ast.Assign([s.target], ast.Subscript(name(xs), name(i), ast.Load()), lineno=0), ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body,
                        [],
                    ),
                ]
            else:
                out.append(s)
        return out


class LoopToEnumerate(T):
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = call("enumerate", n.iter)
        n.target = ast.Tuple([name("_index", ast.Store()), n.target], ast.Store())
        return n


class FStringFormat(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec or v.conversion not in (-1, None):
                    return n
                fmt += "{}"
                args.append(v.value)
        return call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), *args)


class FStringConcat(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        e = None
        for v in n.values:
            if isinstance(v, ast.Constant):
                x = v
            else:
                if v.format_spec or v.conversion not in (-1, None):
                    return n
                x = call("str", v.value)
            e = x if e is None else ast.BinOp(e, ast.Add(), x)
        return e or ast.Constant("")


class FStringJoin(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        xs = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                xs.append(v)
            elif v.format_spec or v.conversion not in (-1, None):
                return n
            else:
                xs.append(call("str", v.value))
        return call(ast.Attribute(ast.Constant(""), "join", ast.Load()), ast.List(xs, ast.Load()))


class FStringPercent(T):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fmt, xs = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("%", "%%")
            elif v.format_spec or v.conversion not in (-1, None):
                return n
            else:
                fmt += "%s"
                xs.append(v.value)
        return ast.BinOp(ast.Constant(fmt), ast.Mod(), ast.Tuple(xs, ast.Load()))


class WalrusOut(T):
    def block(self, stmts, owner):
        out = []
        for s in stmts:
            if isinstance(s, ast.If):
                t = s.test
                first = t.values[0] if isinstance(t, ast.BoolOp) else t
                host = None
                if isinstance(first, ast.Compare):
                    host, first = first, first.left
                if isinstance(first, ast.NamedExpr):
                    out.append(ast.Assign([first.target], first.value, lineno=0))
                    v = name(first.target.id)
                    if host is not None:
                        host.left = v
                    elif isinstance(t, ast.BoolOp):
                        t.values[0] = v
                    else:
                        s.test = v
            out.append(s)
        return out


class ReturnVar(T):
    def block(self, stmts, owner):
        out = []
        for s in stmts:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = self.fresh("result")
                out += [assign(v, s.value), ast.Return(name(v))]
            else:
                out.append(s)
        return out


class ArgVars(T):
    """The first argument of the call of a statement is named first."""

    def block(self, stmts, owner):
        if isinstance(owner, (ast.ClassDef, ast.Module)):
            return stmts
        out = []
        for s in stmts:
            e = getattr(s, "value", None) if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) else None
            if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and not has(e.func, ast.Call):
                if e.args and isinstance(e.args[0], (ast.Call, ast.JoinedStr, ast.Dict, ast.List)):
                    v = self.fresh("arg")
                    out.append(assign(v, e.args[0]))
                    e.args[0] = name(v)
                elif not e.args and e.keywords and e.keywords[0].arg and not isinstance(e.keywords[0].value, (ast.Name, ast.Constant)):
                    v = self.fresh("arg")
                    out.append(assign(v, e.keywords[0].value))
                    e.keywords[0].value = name(v)
            out.append(s)
        return out


def ends(b):
    s = b[-1]
    return isinstance(s, (ast.Return, ast.Raise)) or (isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse))


class ElseNest(T):
    """if c: return a; rest  becomes  if c: return a else: rest."""

    def block(self, stmts, owner):
        for i, s in enumerate(stmts[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and not isinstance(owner, ast.Module):
                s.orelse = self.block(stmts[i + 1 :], s)
                return stmts[: i + 1]
        return stmts


class ElseFlat(T):
    """if c: return a else: rest  becomes  if c: return a; rest."""

    def block(self, stmts, owner):
        out = []
        for s in stmts:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                r, s.orelse = s.orelse, []
                out += self.block(r, s)
        return out


class OneReturn(T):
    """if c: return a; return b  becomes  assignments and one return."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if has(n, ast.Yield, ast.YieldFrom):
            return n

        def conv(b, r):
            s = b[-1]
            if isinstance(s, ast.Return):
                return b[:-1] + [assign(r, s.value or ast.Constant(None))]
            if isinstance(s, ast.Raise):
                return b
            if isinstance(s, ast.If) and s.orelse:
                x, y = conv(s.body, r), conv(s.orelse, r)
                if x is None or y is None:
                    return None
                return b[:-1] + [ast.If(s.test, x, y)]
            return None

        body = ElseNest().block(copy.deepcopy(n.body), n)
        if len([x for x in ast.walk(ast.Module(body, [])) if isinstance(x, ast.Return)]) < 2:
            return n
        if any(isinstance(x, ast.Return) for s in body[:-1] for x in ast.walk(s)):
            return n
        # nested returns elsewhere than in the final if
        r = self.fresh("outcome")
        c = conv(copy.deepcopy(body), r)
        if c is None or has(c, ast.Return):
            return n
        n.body = c + [ast.Return(name(r))]
        return n


class RenameLocals(T):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if has(n, ast.Nonlocal, ast.Global):
            return n
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        inner = set()
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Import, ast.ImportFrom)):
                inner |= stored(x) | ({x.name} if hasattr(x, "name") else set())
                if hasattr(x, "args"):
                    inner |= {a.arg for a in x.args.args + x.args.kwonlyargs} | {a.arg for a in (x.args.vararg, x.args.kwarg) if a}
        names = {s for s in stored(ast.Module(n.body, [])) if s not in params and s not in inner and not s.startswith("__")}
        for x in ast.walk(ast.Module(n.body, [])):
            if isinstance(x, ast.Name) and x.id in names:
                x.id += "_r"
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name in names:
                x.name += "_r"
            elif isinstance(x, ast.ExceptHandler) and x.name in names:
                x.name += "_r"
            elif isinstance(x, ast.MatchMapping) and x.rest in names:
                x.rest += "_r"
        # a nested function was renamed already: undo double suffixes
        return n

    visit_AsyncFunctionDef = visit_FunctionDef


class MatchToIf(T):
    def cond(self, p, subj, binds):
        """Condition for pattern p; captures are appended to binds as (name, expr)."""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchAs):
            c = self.cond(p.pattern, subj, binds) if p.pattern else ast.Constant(True)
            if p.name:
                binds.append((p.name, subj))
            return c
        if isinstance(p, ast.MatchOr):
            if all(isinstance(x, ast.MatchValue) for x in p.patterns):
                return ast.Compare(subj, [ast.In()], [ast.Tuple([x.value for x in p.patterns], ast.Load())])
            b0 = len(binds)
            r = ast.BoolOp(ast.Or(), [self.cond(x, subj, binds) for x in p.patterns])
            if len(binds) != b0:
                raise ValueError
            return r
        if isinstance(p, ast.MatchClass):
            if p.patterns and not (isinstance(p.cls, ast.Name) and p.cls.id in ("str", "int", "list", "dict") and len(p.patterns) == 1):
                raise ValueError
            cs = [call("isinstance", subj, p.cls)]
            for x in p.patterns:
                c = self.cond(x, subj, binds)
                if not isinstance(c, ast.Constant):
                    cs.append(c)
            for a, x in zip(p.kwd_attrs, p.kwd_patterns):
                at = ast.Attribute(subj, a, ast.Load())
                c = self.cond(x, at, binds)
                cs.append(call("hasattr", subj, ast.Constant(a))) if isinstance(c, ast.Constant) else cs.append(c)
            return cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)
        if isinstance(p, ast.MatchMapping):
            if p.rest:
                raise ValueError
            cs = [call("isinstance", subj, name("dict"))]
            for k, x in zip(p.keys, p.patterns):
                cs.append(ast.Compare(k, [ast.In()], [subj]))
                c = self.cond(x, ast.Subscript(subj, k, ast.Load()), binds)
                if not isinstance(c, ast.Constant):
                    cs.append(c)
            return cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)
        raise ValueError

    def block(self, stmts, owner):
        out = []
        for s in stmts:
            if not isinstance(s, ast.Match):
                out.append(s)
                continue
            for c in s.cases:
                c.body = self.block(c.body, c)
            pre = []
            subj = s.subject
            if not isinstance(subj, ast.Name):
                v = self.fresh("subject")
                pre.append(assign(v, subj))
                subj = name(v)
            arms = []
            try:
                for c in s.cases:
                    binds = []
                    t = self.cond(c.pattern, subj, binds)
                    bs = [assign(n, e) for n, e in binds]
                    g = c.guard
                    if g is not None:
                        if binds:
                            sub = {n: e for n, e in binds}

                            class S(ast.NodeTransformer):
                                def visit_Name(self, x):
                                    return copy.deepcopy(sub[x.id]) if x.id in sub and isinstance(x.ctx, ast.Load) else x

                            g = S().visit(copy.deepcopy(g))
                        t = g if isinstance(t, ast.Constant) else ast.BoolOp(ast.And(), [t, g])
                    arms.append((t, bs + c.body))
            except ValueError:
                out.append(s)
                continue
            cur = []
            for t, b in reversed(arms):
                if isinstance(t, ast.Constant) and t.value is True:
                    cur = b
                else:
                    cur = [ast.If(t, b, cur)]
            out += pre + cur
        return out


class Elif(T):
    """isinstance(x, (A, B)) / in / De Morgan."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [call("isinstance", copy.deepcopy(n.args[0]), x) for x in n.args[1].elts])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and isinstance(n.left, (ast.Name, ast.Attribute)):
            r = ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts])
            return neg(r) if isinstance(n.ops[0], ast.NotIn) else r
        return n


class DeMorgan(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp) and not has(t, ast.NamedExpr):
            n.test = neg(ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [neg(v) for v in t.values]))
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
            n.test = ast.Compare(t.comparators[0], [ast.Eq()], [t.left])
        return n


class AndNest(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class OrTernary(T):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Or) and len(n.values) == 2 and not has(n, ast.NamedExpr, ast.Await):
            v = "either_" + str(len(ast.dump(n)))
            return ast.IfExp(ast.NamedExpr(name(v, ast.Store()), n.values[0]), name(v), n.values[1])
        return n

    def visit_If(self, n):
        n.test = n.test
        n.body = [self.visit(s) for s in n.body]
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.visit(s)
        return n

    def visit_ListComp(self, n):
        return n

    visit_GeneratorExp = visit_DictComp = visit_Lambda = visit_ListComp


class GetToIn(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "get" and isinstance(f.value, ast.Name) and n.args and isinstance(n.args[0], ast.Constant) and not n.keywords and f.value.id not in ("request", "storage", "fsspec", "httpx", "router", "app"):
            d = f.value
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [d]), ast.Subscript(copy.deepcopy(d), copy.deepcopy(n.args[0]), ast.Load()), n.args[1] if len(n.args) > 1 else ast.Constant(None))
        return n


class DictBuild(T):
    """x = {a: b, **c} becomes x = {}; x[a] = b; x.update(c)."""

    def block(self, stmts, owner):
        if isinstance(owner, (ast.ClassDef, ast.Module)):
            return stmts
        out = []
        for s in stmts:
            d = s.value if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign)) else None
            if isinstance(d, ast.Dict) and d.keys:
                v = self.fresh("mapping")
                out.append(assign(v, ast.Dict([], [])))
                for k, x in zip(d.keys, d.values):
                    if k is None:
                        out.append(ast.Expr(call(ast.Attribute(name(v), "update", ast.Load()), x)))
                    else:
                        out.append(ast.Assign([ast.Subscript(name(v), k, ast.Store())], x, lineno=0))
                s.value = name(v)
            out.append(s)
        return out


class HoistConstants(T):
    def run(self, tree):
        consts = {}
        T = self

        class H(ast.NodeTransformer):
            inside = 0

            def visit_FunctionDef(self, n):
                n.body = [s if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) else self.go(s) for i, s in enumerate(n.body)]
                return n

            visit_AsyncFunctionDef = visit_FunctionDef

            def go(self, s):
                self.inside += 1
                r = self.visit(s)
                self.inside -= 1
                return r

            def visit_JoinedStr(self, n):
                return n

            def visit_MatchValue(self, n):
                return n

            def visit_MatchMapping(self, n):
                return n

            def visit_AnnAssign(self, n):
                if n.value:
                    n.value = self.visit(n.value)
                return n

            def visit_Constant(self, n):
                if self.inside and isinstance(n.value, (str, int)) and not isinstance(n.value, bool):
                    k = consts.setdefault((type(n.value), n.value), f"_CONSTANT_{len(consts)}")
                    return name(k)
                return n

        H().visit(tree)
        i = 0
        while i < len(tree.body) and (isinstance(tree.body[i], (ast.Import, ast.ImportFrom)) or (isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant))):
            i += 1
        tree.body[i:i] = [assign(k, ast.Constant(v)) for (_, v), k in consts.items()]
        return tree


class Impl(T):
    """The body of each function moves into a function of its own."""

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith("__") and s.args.args and s.args.args[0].arg == "self" and not has(s.body, ast.Yield, ast.YieldFrom) and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = f"_do_{s.name}"
                a = s.args
                c = ast.Call(ast.Attribute(name("self"), h.name, ast.Load()), [name(x.arg) for x in a.args[1:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                s.body = doc + [ast.Return(c)]
                out += [h, s]
            else:
                out.append(s)
        n.body = out
        return n

    def visit_Module(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not has(s.body, ast.Yield, ast.YieldFrom):
                h = copy.deepcopy(s)
                h.name = f"_do_{s.name}"
                a = s.args
                c = ast.Call(name(h.name), [name(x.arg) for x in a.args] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                s.body = [ast.Return(c)]
                out += [h, s]
            else:
                out.append(s)
        n.body = out
        return n


class ExtractBranch(T):
    """Branches that end in return become functions."""

    def run(self, tree):
        helpers = []
        self_ = self

        def functions(body, cls):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    functions(s.body, s)
                elif isinstance(s, ast.FunctionDef):
                    fn(s)

        def fn(f):
            if has(f.body, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef):
                return
            params = [a.arg for a in f.args.args + f.args.kwonlyargs] + [a.arg for a in (f.args.vararg, f.args.kwarg) if a]
            local = set(params) | stored(ast.Module(f.body, []))

            def walk(b, known):
                known = set(known)
                for s in b:
                    if isinstance(s, ast.If):
                        t = known | stored(s.test)
                        s.body = arm(s.body, t)
                        s.orelse = arm(s.orelse, t) if s.orelse else []
                        known |= stored(s.test)
                    elif isinstance(s, ast.Match):
                        for c in s.cases:
                            c.body = arm(c.body, known | stored(c.pattern))
                    elif isinstance(s, ast.For):
                        s.body = walk(s.body, known | stored(s.target))
                    elif isinstance(s, (ast.With, ast.Try)):
                        pass
                    else:
                        known |= stored(s)
                return b

            def arm(b, known):
                if len(b) == 1 and isinstance(b[0], ast.If):
                    return walk(b, known)
                if not isinstance(b[-1], ast.Return) or has(b, ast.Break, ast.Continue, ast.Await) or any(isinstance(x, ast.Name) and x.id == "super" for y in b for x in ast.walk(y)):
                    return walk(b, known)
                m = ast.Module(b, [])
                free = [x for x in sorted(loaded(m)) if x in local and x in known]
                if any(x in local and x not in known and x not in stored(m) for x in loaded(m)):
                    return walk(b, known)
                h = self_.fresh(f"_{f.name.strip('_')}_branch")
                helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), b, [], lineno=0, type_params=[]))
                return [ast.Return(call(h, *[name(x) for x in free]))]

            f.body = walk(f.body, set(params))

        functions(tree.body, None)
        tree.body += helpers
        return tree


class Reverse(T):
    """Functions of a module and methods of a class in another order."""

    def visit_ClassDef(self, n):
        fs = [i for i, s in enumerate(n.body) if isinstance(s, ast.FunctionDef) and not s.decorator_list]
        vs = [n.body[i] for i in fs][::-1]
        for i, v in zip(fs, vs):
            n.body[i] = v
        return n


class Keywords(T):
    """Keyword arguments in another order."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and not has(n, ast.Await, ast.NamedExpr):
            n.keywords = n.keywords[::-1]
        return n


class SuperCall(T):
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        if len(n.bases) != 1:
            return n
        b = n.bases[0]

        class S(ast.NodeTransformer):
            def visit_Call(self, c):
                self.generic_visit(c)
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) and isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super":
                    c.func.value = copy.deepcopy(b)
                    c.args = [name("self")] + c.args
                return c

        return S().visit(n)


class WithTry(T):
    """with closing(x) as y: becomes try/finally."""

    def block(self, stmts, owner):
        out = []
        for s in stmts:
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
                c = s.items[0].context_expr
                if isinstance(c.func, ast.Name) and c.func.id == "closing":
                    v = s.items[0].optional_vars or name(self.fresh("thing"), ast.Store())
                    out += [ast.Assign([v], c.args[0], lineno=0), ast.Try(s.body, [], [], [ast.Expr(call(ast.Attribute(name(v.id), "close", ast.Load())))])]
                    continue
                # the protocol itself
                m, v = self.fresh("manager"), s.items[0].optional_vars
                ent = call(ast.Attribute(name(m), "__enter__", ast.Load()))
                if has(s.body, ast.Yield, ast.Return):
                    out.append(s)
                    continue
                none = lambda: [ast.Constant(None)] * 3
                out += [
                    assign(m, c),
                    ast.Assign([v], ent, lineno=0) if v else ast.Expr(ent),
                    ast.Try(
                        s.body,
                        [ast.ExceptHandler(name("BaseException"), "error", [ast.If(neg(call(ast.Attribute(name(m), "__exit__", ast.Load()), call("type", name("error")), name("error"), ast.Attribute(name("error"), "__traceback__", ast.Load()))), [ast.Raise()], [])])],
                        [ast.Expr(call(ast.Attribute(name(m), "__exit__", ast.Load()), *none()))],
                        [],
                    ),
                ]
                continue
            out.append(s)
        return out


class TypingCast(T):
    def block(self, stmts, owner):
        for s in stmts:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and not isinstance(owner, (ast.ClassDef, ast.Module)) and not has(s.value, ast.Await):
                s.value = call(ast.Attribute(name("_typing"), "cast", ast.Load()), ast.Constant("object"), s.value)
        return stmts

    def run(self, tree):
        tree = self.visit(tree)
        i = 0
        while i < len(tree.body) and (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__" or (isinstance(tree.body[i], ast.Expr) and isinstance(tree.body[i].value, ast.Constant))):
            i += 1
        tree.body.insert(i, ast.Import([ast.alias("typing", "_typing")]))
        return tree


class IsNone(T):
    """x is None -> None is x; not x is None; len(x) == 0 ..."""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            return neg(ast.Compare(n.left, [ast.Is()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq):
            return neg(ast.Compare(n.left, [ast.Eq()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.LtE) and isinstance(n.comparators[0], ast.Constant):
            return neg(ast.Compare(n.left, [ast.Gt()], n.comparators))
        if len(n.ops) == 2 and not has(n.comparators[0], ast.Call):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n


class TryElse(T):
    """Statements after the first in try move to else when they cannot be handled: x = f() ; return x."""

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.handlers and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Return) and isinstance(n.body[0].value, ast.Call):
            v = self.fresh("value")
            n.orelse = [ast.Return(name(v))]
            n.body = [assign(v, n.body[0].value)]
        return n


class Lambdas(T):
    """Conditions become local functions."""

    def block(self, stmts, owner):
        if isinstance(owner, (ast.ClassDef, ast.Module)):
            return stmts
        out = []
        for s in stmts:
            if isinstance(s, ast.If) and not has(s.test, ast.NamedExpr, ast.Await, ast.Yield):
                v = self.fresh("is_so")
                out.append(ast.FunctionDef(v, ast.arguments([], [], None, [], [], None, []), [ast.Return(s.test)], [], lineno=0, type_params=[]))
                s.test = call(v)
            out.append(s)
        return out


class KwargsDict(T):
    """f(a=1, b=2) becomes f(**{"a": 1, "b": 2})."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg for k in n.keywords) and not (isinstance(n.func, ast.Name) and n.func.id in ("field", "Field", "SettingsConfigDict")):
            n.keywords = [ast.keyword(None, call("dict", **{k.arg: k.value for k in n.keywords}))]
        return n


class StrMethods(T):
    """startswith -> slice, `in` -> find, split -> partition."""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("startswith", "endswith") and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            k = len(n.args[0].value)
            sl = ast.Slice(None, ast.Constant(k)) if f.attr == "startswith" else ast.Slice(ast.UnaryOp(ast.USub(), ast.Constant(k)), None)
            return ast.Compare(ast.Subscript(f.value, sl, ast.Load()), [ast.Eq()], [n.args[0]])
        return n


class Counters(T):
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            return assign(n.target.id, ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class SwapAssign(T):
    """Two neighbouring assignments that do not depend on one another change places."""

    def block(self, stmts, owner):
        if isinstance(owner, (ast.ClassDef, ast.Module)):
            return stmts
        out = list(stmts)
        i = 0

        def pure(s):
            return isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and not has(s.value, ast.Call, ast.Await, ast.Subscript, ast.NamedExpr)

        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and (pure(a) or pure(b)) and isinstance(a.targets[0], ast.Name) and isinstance(b.targets[0], ast.Name) and not stored(a) & (loaded(b) | stored(b)) and not stored(b) & loaded(a):
                out[i], out[i + 1] = b, a
                i += 1
            i += 1
        return out


REWRITES = {c.__name__: c for c in (Plain, InvertIf, TernaryToIf, CompToLoop, CompToMap, LoopToWhile, LoopToEnumerate, FStringFormat, FStringConcat, FStringJoin, FStringPercent, WalrusOut, ReturnVar, ArgVars, ElseNest, ElseFlat, OneReturn, RenameLocals, MatchToIf, Elif, DeMorgan, AndNest, OrTernary, GetToIn, DictBuild, HoistConstants, Impl, ExtractBranch, Reverse, Keywords, SuperCall, WithTry, TypingCast, IsNone, TryElse, Lambdas, KwargsDict, StrMethods, Counters, SwapAssign)}


def apply(cls, root):
    n = 0
    for d, _, fs in os.walk(root + "/recap"):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                before = ast.unparse(tree)
                t = cls()
                tree = t.run(tree) if hasattr(t, "run") else t.visit(tree)
                ast.fix_missing_locations(tree)
                src = ast.unparse(tree)
                if src != before or cls is Plain:
                    n += 1
                    open(p, "w").write(src + "\n")
    return n


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def tests(r, w, quick=False):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    # stops at the first failure of any test if quick; the unstable ones are few and fail on the unchanged tree too
    c = sh(f"/opt/venv/bin/python -m compileall -q recap && RECAP_HOME={w}/h PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q {'-x ' * quick}-p no:cacheprovider --timeout=300 --continue-on-collection-errors --basetemp={w}/b -o junit_family=xunit2 --junitxml={w}/j.xml tests/unit tests/integration/clients/test_fs.py; /opt/venv/bin/python /opt/vp/results.py {w}/o.json junit:{w}/j.xml", r)
    try:
        got = set(json.load(open(w + "/o.json"))["passed"])
    except Exception:
        return ["nothing ran: " + (c.stdout + c.stderr)[-300:]]
    return [b for b in base if b not in got]


def one(job):
    label, root, w, pid = job
    e = dict(os.environ, RECAP_ROOT=root, SA_EVIDENCE=w + "/ev", SA_VERBOSE="1")
    q = subprocess.run(["python3", HERE + "/check.py", pid], capture_output=True, text=True, env=e, cwd=HERE)
    return label, pid, q.returncode, q.stdout + q.stderr[-500:]


def main():
    args = sys.argv[1:]
    jobs = int(args[args.index("--jobs") + 1]) if "--jobs" in args else 7
    only = args[args.index("--only") + 1].split(",") if "--only" in args else None
    names = [a for i, a in enumerate(args) if not a.startswith("--") and (i == 0 or args[i - 1] not in ("--jobs", "--only"))] or list(REWRITES)
    from sa.props import PROPS

    todo, dirs = [], []
    top = tempfile.mkdtemp(prefix="refactor.")
    try:
        for n in names:
            w = f"{top}/{n}"
            r = w + "/repo"
            shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv", ".git"))
            k = apply(REWRITES[n], r)
            bad = tests(r, w)
            if bad:
                print(f"{n}: NOT BEHAVIOUR-PRESERVING ({len(bad)} tests: {bad[:3]})", flush=True)
                continue
            print(f"{n}: {k} files, tests pass", flush=True)
            todo += [(n, r, w, p) for p in (only or PROPS)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            for n, p, rc, out in ex.map(one, todo):
                head = out.splitlines()[0] if out else ""
                und = " 0 with undecided" not in head
                if rc or und:
                    print(f"{'ALARM' if rc == 1 else 'NO ANSWER' if rc else 'undecided'} {n} {p} (exit {rc}): {head}")
                    for l in [l for l in out.splitlines()[1:] if l.startswith("  ") and not l.startswith("      ")][:3]:
                        print("     ", l[:300], flush=True)
    finally:
        shutil.rmtree(top)
    print("done")


if __name__ == "__main__":
    main()
