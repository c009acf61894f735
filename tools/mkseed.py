"""Validate planted bugs in a scratch copy of /repo and write them to seeded/.

usage: mkseed.py [--check] [ID ...]      (definitions: tools/seeds.py)
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from seeds import SEEDS

DEMO = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export RECAP_HOME="$w/home" SCRATCH="$w" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
/opt/venv/bin/python "$d/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only_check = "--check" in sys.argv
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    root = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[0]
    for s in SEEDS:
        if args and s["id"] not in args:
            continue
        w = tempfile.mkdtemp(prefix="seed.")
        try:
            r = w + "/repo"
            shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
            errs = []
            for f, old, new in s["edits"]:
                t = open(f"{r}/{f}").read()
                if t.count(old) != 1:
                    errs.append(f"{f}: {t.count(old)} matches of {old!r}")
                    continue
                open(f"{r}/{f}", "w").write(t.replace(old, new))
            diff = sh("git diff", r).stdout
            d = f"{HERE}/seeded/{s['id']}"
            if not only_check and not errs:
                # removed lines are lines of the original repository
                mine = []
                for f, *_ in s["edits"]:
                    bl = sh(f"git blame -s -l HEAD -- {f}", "/repo").stdout.splitlines()
                    for h in sh(f"git diff -U0 -- {f}", r).stdout.splitlines():
                        if h.startswith("@@"):
                            a = h.split()[1][1:].split(",")
                            for i in range(int(a[0]), int(a[0]) + (int(a[1]) if len(a) > 1 else 1)):
                                if i >= 1 and root not in bl[i - 1][:41] and not bl[i - 1].startswith("^"):
                                    mine.append(f"{f}:{i}")
                if mine:
                    print(s["id"], "note: changes lines of my commits:", mine)
                os.makedirs(d, exist_ok=True)
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.sh", "w").write(DEMO)
                os.chmod(d + "/demo.sh", 0o755)
                open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                c = sh(f"/opt/venv/bin/python -m compileall -q recap; RECAP_HOME={w}/h /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --basetemp={w}/b -o junit_family=xunit2 --junitxml={w}/j.xml tests/unit tests/integration/clients/test_fs.py; /opt/venv/bin/python /opt/vp/results.py {w}/o.json junit:{w}/j.xml", r)
                got = set(json.load(open(w + "/o.json"))["passed"])
                miss = [b for b in base if b not in got]
                if miss:
                    errs.append(f"{len(miss)} tests fail: {miss[:3]}")
                x = sh(f"bash {d}/demo.sh", r)
                if x.returncode == 0:
                    errs.append("the demo passes with the patch: " + x.stdout[-300:])
                y = sh(f"bash {d}/demo.sh", "/repo")
                if y.returncode != 0:
                    errs.append("the demo fails without the patch: " + (y.stdout + y.stderr)[-600:])
            env = dict(os.environ, RECAP_ROOT=r, SA_EVIDENCE=w + "/ev")
            z = sh(f"python3 check.py {s['property']} quick", HERE, env=env)
            caught = z.returncode == 1 and f"VIOLATION property={s['property']}" in z.stdout
            print(s["id"], s["property"], "CAUGHT" if caught else f"MISSED (exit {z.returncode})", *(["ERRORS " + "; ".join(errs)] if errs else []), flush=True)
            if not caught or "--show" in sys.argv:
                print((z.stdout + z.stderr)[-1500:])
        finally:
            shutil.rmtree(w)


main()
