#!/usr/bin/env python3
"""Decide one property of the tree in /repo: check.py <property> [quick|thorough]."""
import importlib
import json
import os
import resource
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(400_000)
threading.stack_size(512 * 1024 * 1024)
# code that never ends runs into this, and is undecided, before it takes the machine's memory
_hard = resource.getrlimit(resource.RLIMIT_AS)[1]
if _hard == resource.RLIM_INFINITY or _hard > 10 << 30:
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, _hard))

from sa.spec import Check  # noqa: E402

EV = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known-findings.jsonl")


def known(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            e = json.loads(line)
            if e["property"] == pid:
                out.append(e)
    return out


def main(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("RECAP_ROOT", "/repo")
    mod, fn = importlib.import_module("sa.props").PROPS[pid]
    run = getattr(importlib.import_module("sa.props." + mod), fn)
    t0 = time.time()
    ck = Check(pid, tier, seed, root)
    run(ck)
    held = sum(1 for c in ck.cells.values() if c["held"] and not c["violated"] and not c["undecided"])
    part = sum(1 for c in ck.cells.values() if c["undecided"] and not c["violated"])
    viol = sum(1 for c in ck.cells.values() if c["violated"])
    listed = known(pid)
    fresh, seen = [], []
    for v in ck.violations:
        # the very failure that is listed, not any failure of its cell
        m = [e for e in listed if e["cell"] == v["cell"] and e["message"] in v["message"]]
        if not m:
            fresh.append(v)
        elif m[0] not in seen:
            seen.append(m[0])
            print(f"KNOWN-FINDING: property={pid} {m[0]['what']}")
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    funcs = sorted(f for f in ck.I.cov_funcs if not f[0].startswith("<"))
    und = sorted(((len(v), k, sorted(set(v))[:4]) for k, v in ck.undecided.items()), reverse=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Trace-partitioned abstract interpretation of the source in /repo (never imported or executed). "
            "An obligation is a cell: an input shape whose open parts are atoms standing for every value of their kind. "
            "Every path of the code through a cell is followed over the abstract domain and its end state is compared with the rule. "
            "Counts are measured in this run.",
            "rules": ck.rules,
            "obligations": len(ck.cells),
            "held": held,
            "undecided": part,
            "violated": viol,
            "paths": ck.paths,
            "functions_analysed": [f"{f[0]}:{f[1]}" for f in funcs],
            "functions": len(funcs),
            "source_lines_reached": len([l for l in ck.I.cov_lines if not l[0].startswith("<")]),
            "call_sites": len([c for c in ck.I.cov_calls if not c[0].startswith("<")]),
            "undecided_because": [{"paths": n, "why": k, "cells": c} for n, k, c in und[:30]],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ck.notes
        + [
            "two different atoms stand for different values; where equal values matter a cell of its own uses one atom twice",
            "library behaviour is that of the models in sa/lib.py and stubs/",
        ],
        "known_findings": [e["what"] for e in seen],
        "violations": len(fresh),
    }
    rp = None
    if fresh:
        rp = os.path.join(EV, "replay", f"{pid}.txt")
        with open(rp, "w") as f:
            for v in fresh:
                f.write(f"cell: {v['cell']}\nviolation: {v['message']}\nconstruct: {v['site'] or (v['through'] or [None])[0]}\n")
                f.write("functions on the path:\n" + "".join(f"  {p}\n" for p in v["through"]))
                f.write("path:\n" + "".join(f"  {p}\n" for p in v["path"]))
                f.write("facts:\n" + "".join(f"  {p}\n" for p in v["facts"]) + "\n")
    with open(os.path.join(EV, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{pid}: {len(ck.cells)} obligations, {held} held, {part} with undecided paths, {viol} violated; "
        f"{ck.paths} paths, {len(funcs)} functions, {ev['coverage']['source_lines_reached']} lines, {ev['wall_s']} s"
    )
    if os.environ.get("SA_VERBOSE"):
        for n, k, c in und:
            print("  undecided", n, k, c)
    for v in fresh[:20]:
        print(f"  {v['cell']}: {v['message']}" + f" [{v['site'] or (v['through'] or ['?'])[0]}]")
        if os.environ.get("SA_VERBOSE"):
            print("     ", v["path"])
    if fresh:
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if ck.anchors:
        print("ANCHOR-MISSING: " + "; ".join(sorted(set(ck.anchors))))
    if not any(c["held"] for c in ck.cells.values()):
        print("NOTHING-DECIDED")
        return 2
    return 0


if __name__ == "__main__":
    rc = [3]

    def go():
        try:
            rc[0] = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
        except BaseException:
            traceback.print_exc()

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
