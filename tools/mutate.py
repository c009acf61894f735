"""Systematic small changes of recap/: which of those that the stable tests miss do the checks miss as well?

usage: mutate.py tests OUT.json [PATH ...]     every mutant of the given files that the tests do not notice
       mutate.py checks IN.json OUT.json       which of them no check notices (the checks that reach the function)
"""
import ast, concurrent.futures as cf, copy, json, os, shutil, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + "/tools")
from refactor import tests, neg  # noqa

SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
PEEL = {"sorted", "list", "tuple", "set", "str", "int", "deepcopy", "copy", "dict", "unquote", "quote_plus", "unquote_plus", "abs", "ceil", "bool"}
PEEL_M = {"lower", "upper", "strip", "lstrip", "rstrip", "copy", "replace", "removeprefix", "removesuffix", "unicode_string", "removesuffix"}


def variants(n):
    """Replacements of one node (None: drop the statement)."""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in SWAP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n)
            m.ops = [o()]
            out.append(m)
        c = n.comparators[0]
        if isinstance(c, (ast.Tuple, ast.List, ast.Set)) and len(c.elts) > 1:
            for i in range(len(c.elts)):
                m = copy.deepcopy(n)
                del m.comparators[0].elts[i]
                out.append(m)
    elif isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for x in SWAP.get(type(o), []):
                m = copy.deepcopy(n)
                m.ops[i] = x()
                out.append(m)
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(m)
        for i in range(len(n.values)):
            v = [copy.deepcopy(x) for j, x in enumerate(n.values) if j != i]
            out.append(v[0] if len(v) == 1 else ast.BoolOp(copy.deepcopy(n.op), v))
    if isinstance(n, ast.IfExp):
        out += [copy.deepcopy(n.body), copy.deepcopy(n.orelse)]
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(copy.deepcopy(n.operand))
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            out.append(ast.Constant(not n.value))
        elif isinstance(n.value, int):
            out += [ast.Constant(n.value + 1), ast.Constant(n.value - 1)]
        elif isinstance(n.value, str) and n.value:
            out.append(ast.Constant(n.value + "x"))
    if isinstance(n, ast.Call):
        for i, k in enumerate(n.keywords):
            m = copy.deepcopy(n)
            del m.keywords[i]
            out.append(m)
        if len(n.args) == 2:
            m = copy.deepcopy(n)
            m.args = m.args[::-1]
            out.append(m)
        if len(n.args) > 1:
            m = copy.deepcopy(n)
            m.args = m.args[:-1]
            out.append(m)
        f = n.func
        if isinstance(f, ast.Name) and f.id in PEEL and len(n.args) == 1 or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "copy":
            out.append(copy.deepcopy(n.args[0]))
        if isinstance(f, ast.Attribute) and f.attr in PEEL_M:
            out.append(copy.deepcopy(f.value))
        if isinstance(f, ast.Attribute) and f.attr == "deepcopy":
            m = copy.deepcopy(n)
            m.func.attr = "copy"
            out.append(m)
    if isinstance(n, ast.Dict) and n.keys:
        for i in range(len(n.keys)):
            m = copy.deepcopy(n)
            del m.keys[i], m.values[i]
            out.append(m)
    if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
        for i in range(len(n.elts)):
            m = copy.deepcopy(n)
            del m.elts[i]
            out.append(m)
    if isinstance(n, ast.comprehension) and n.ifs:
        m = copy.deepcopy(n)
        m.ifs = []
        out.append(m)
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        out.append(copy.deepcopy(n.value))
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv)):
        out += [copy.deepcopy(n.left)]
        m = copy.deepcopy(n)
        m.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.FloorDiv, ast.FloorDiv: ast.Div}[type(n.op)]()
        out.append(m)
    if isinstance(n, ast.JoinedStr):
        for i, v in enumerate(n.values):
            if isinstance(v, ast.FormattedValue):
                m = copy.deepcopy(n)
                del m.values[i]
                out.append(m)
    if isinstance(n, ast.If):
        m = copy.deepcopy(n)
        m.test = neg(m.test)
        out.append(m)
        m = copy.deepcopy(n)
        m.test = ast.Constant(True)
        out.append(m)
        m = copy.deepcopy(n)
        m.test = ast.Constant(False)
        out.append(m)
    if isinstance(n, ast.Match):
        for i in range(len(n.cases)):
            if len(n.cases) > 1:
                m = copy.deepcopy(n)
                del m.cases[i]
                out.append(m)
            if n.cases[i].guard:
                m = copy.deepcopy(n)
                m.cases[i].guard = None
                out.append(m)
    if isinstance(n, ast.MatchOr):
        for i in range(len(n.patterns)):
            m = copy.deepcopy(n)
            del m.patterns[i]
            out.append(m.patterns[0] if len(m.patterns) == 1 else m)
    if isinstance(n, ast.Try):
        for i in range(len(n.handlers)):
            m = copy.deepcopy(n)
            m.handlers[i].type = ast.Name("Exception", ast.Load())
            out.append(m)
        if n.finalbody:
            m = copy.deepcopy(n)
            m.body += m.finalbody
            out.append(ast.If(ast.Constant(True), m.body, []))
        elif n.handlers:
            out.append(ast.If(ast.Constant(True), copy.deepcopy(n.body), []))
    if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
        out.append(ast.Return(ast.Constant(None)))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
        out.append(ast.Pass())
    if isinstance(n, ast.For):
        m = copy.deepcopy(n)
        m.body = [ast.Pass()]
        out.append(m)
    if isinstance(n, (ast.Break, ast.Continue)):
        out.append(ast.Pass())
    return out


def spots(tree):
    """(parent, field, index, node, function)"""
    def walk(n, fn):
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for i, c in enumerate(v) if isinstance(v, list) else [(None, v)]:
                if isinstance(c, ast.AST):
                    if isinstance(c, ast.Raise):
                        yield n, f, i, c, fn
                        continue
                    if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                        continue
                    yield n, f, i, c, fn
                    g = fn
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        g = (fn + "." if fn else "") + c.name
                    yield from walk(c, g)
    yield from walk(tree, "")


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for p, f, i, n, fn in list(spots(tree)):
        for v in variants(n):
            old = n
            if i is None:
                setattr(p, f, v)
            else:
                getattr(p, f)[i] = v
            try:
                s = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(s)
                compile(s, "x", "exec")
            except Exception:
                s = None
            if i is None:
                setattr(p, f, old)
            else:
                getattr(p, f)[i] = old
            if s and s not in seen:
                seen.add(s)
                try:
                    a, b = ast.unparse(n)[:120], ast.unparse(v)[:120]
                except Exception:
                    a = b = "?"
                yield {"fn": fn, "line": getattr(n, "lineno", getattr(p, "lineno", 0)), "old": a, "new": b, "src": s}


def cmd_tests(out, paths):
    jobs = []
    for p in paths:
        rel = os.path.relpath(p, "/repo")
        for m in mutants(p):
            m["file"] = rel
            jobs.append(m)
    print(len(jobs), "mutants", flush=True)
    top = tempfile.mkdtemp(prefix="mutate.")
    loc = threading.local()
    cnt = [0]
    lock = threading.Lock()

    def run(m):
        if not hasattr(loc, "d"):
            with lock:
                cnt[0] += 1
                loc.d = f"{top}/{cnt[0]}"
            shutil.copytree("/repo", loc.d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv", ".git"))
        f = f"{loc.d}/repo/{m['file']}"
        keep = open(f).read()
        try:
            open(f, "w").write(m["src"] + "\n")
            if os.path.exists(loc.d + "/o.json"):
                os.unlink(loc.d + "/o.json")
            return m if not tests(loc.d + "/repo", loc.d, quick=True) else None
        finally:
            open(f, "w").write(keep)

    try:
        with cf.ThreadPoolExecutor(8) as ex:
            live = [m for m in ex.map(run, jobs) if m]
    finally:
        shutil.rmtree(top)
    json.dump(live, open(out, "w"))
    print(len(live), "not noticed by the tests")


def reach():
    """property -> functions that its check reaches (from the evidence of the last runs)"""
    r = {}
    from sa.props import PROPS

    for p in PROPS:
        e = json.load(open(f"{HERE}/evidence/{p}.json"))
        r[p] = (set(e["coverage"]["functions_analysed"]), e["wall_s"])
    return r


SQL = "C23 C24 C31 "
NEAR = {  # the checks whose properties are about a file
    "types.py": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C13 C15",
    "converters/avro.py": "C08 C10 C11 C55",
    "converters/json_schema.py": "C08 C12 C13 C55",
    "converters/protobuf.py": "C06 C14 C15 C55",
    "converters/dbapi.py": SQL, "converters/mysql.py": SQL + "C16", "converters/postgresql.py": SQL + "C17", "converters/snowflake.py": SQL + "C18", "converters/sqlite.py": SQL + "C19",
    "converters/bigquery.py": "C20 C24 C31", "converters/hive_metastore.py": "C21 C22 C24 C31",
    "settings.py": "C40 C41 C42 C43 C44 C57",
    **{f"clients/{c}.py": "C30 C31 C32 C33 C34 C35 C42 C43 C57" for c in ("__init__", "bigquery", "confluent_registry", "dbapi", "fs", "hive_metastore", "mysql", "postgresql", "snowflake", "sqlite")},
    "clients/hive_metastore.py": "C22 C30 C31 C32 C33 C34 C35 C42 C43 C57",
    "clients/sqlite.py": "C19 C30 C31 C32 C33 C35 C42 C43 C57",
    "commands.py": "C33 C42 C43 C55 C56 C57", "cli.py": "C55 C56 C57",
    "server/gateway.py": "C42 C43 C55", "server/app.py": "C42 C53 C55 C56", "server/registry.py": "C44 C50 C51 C52 C53 C54", "storage/registry.py": "C50 C51 C52 C53 C54",
}


def cmd_checks(inp, out):
    live = json.load(open(inp))
    R = reach()
    top = tempfile.mkdtemp(prefix="mutate.")

    def run(im):
        i, m = im
        r = f"{top}/{i}/repo"
        shutil.copytree("/repo/recap", r + "/recap", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{r}/{m['file']}", "w").write(m["src"] + "\n")
        key = f"{m['file']}:{m['fn']}"
        ps = [p for p, (fs, w) in R.items() if key in fs] if m["fn"] else []
        ps = sorted(ps or [p for p, (fs, w) in R.items() if any(f.startswith(m["file"] + ":") for f in fs)], key=lambda p: R[p][1])
        near = NEAR.get(m["file"].removeprefix("recap/"))
        if near:
            ps = [p for p in ps if p in near.split()]
        res = {}
        for p in ps:
            e = dict(os.environ, RECAP_ROOT=r, SA_EVIDENCE=f"{top}/{i}/ev")
            try:
                q = subprocess.run(["python3", HERE + "/check.py", p], capture_output=True, text=True, env=e, cwd=HERE, timeout=300)
                res[p] = (q.returncode, q.stdout.splitlines()[0] if q.stdout else q.stderr[-200:])
            except subprocess.TimeoutExpired:
                res[p] = (9, "timeout")
            if res[p][0] == 1:
                break
        shutil.rmtree(f"{top}/{i}")
        m = {k: v for k, v in m.items()}
        m["checks"] = res
        m["caught"] = any(v[0] == 1 for v in res.values())
        if not m["caught"]:
            print(f"MISSED {m['file']}:{m['line']} {m['fn']}: {m['old'][:90]!r} -> {m['new'][:90]!r} {[p if not v[0] else (p, v[0]) for p, v in res.items()]}", flush=True)
        return m

    try:
        with cf.ThreadPoolExecutor(8) as ex:
            done = list(ex.map(run, enumerate(live)))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    json.dump(done, open(out, "w"))
    print(sum(m["caught"] for m in done), "of", len(done), "caught")


if __name__ == "__main__":
    if sys.argv[1] == "tests":
        ps = sys.argv[3:] or [os.path.join(d, f) for d, _, fs in os.walk("/repo/recap") for f in fs if f.endswith(".py")]
        cmd_tests(sys.argv[2], ps)
    else:
        cmd_checks(sys.argv[2], sys.argv[3])
