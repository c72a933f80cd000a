#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

    check.py PROPERTY [--only SUBSTR] [-v] [--tier quick|thorough]
    check.py all [-v]              every property, one summary line

Exit 0: no obligation of the property is refuted.  Exit 1: at least one is, with
a VIOLATION line.  Exit 2: the analysis itself is broken (an entry point the
obligations are about has vanished, the source does not parse, ...)."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    # same iteration orders, hence same analysis, on every run
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))

import argparse
import time
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import harness, contracts  # noqa

LIMIT = {"quick": 560, "thorough": 840}      # seconds for one property


def work(i, tier):
    sys.setrecursionlimit(20000)
    return i, harness.run_case(harness.REG[i], scale=1 if tier == "quick" else 4)


def show(r, v):
    if v or r["verdict"] != "proved":
        print(f"{r['verdict']:9s} {r['prop']} {r['name']}  {r['wall']}s  {r['why']} {r.get('witness', '')}")
        if v and "internal" in r:
            print(r["internal"])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    todo = [i for i, c in enumerate(harness.REG) if (a.prop == "all" or c.prop == a.prop) and a.only in c.name and
            (c.tier == "quick" or a.tier == "thorough")]
    if not todo:
        print(f"no obligations for {a.prop}")
        sys.exit(2)
    # the obligations known to be long first
    todo.sort(key=lambda i: -harness.REG[i].weight)
    res = {}
    ex = ProcessPoolExecutor(min(8, len(todo)))
    left = {ex.submit(work, i, a.tier) for i in todo}
    stop = ""
    limit = LIMIT.get(a.tier, 560) * (20 if a.prop == "all" else 1)
    while left and not stop:
        done, left = wait(left, timeout=max(0.1, t0 + limit - time.time()), return_when=FIRST_COMPLETED)
        for f in done:
            i, r = f.result()
            res[i] = r
            if a.v or a.prop == "all":
                show(r, a.v)
            if r["verdict"] == "violated" and a.prop != "all" and not a.all:
                stop = "a violation was found"
        if time.time() > t0 + limit:
            stop = "the time limit was reached"
    if stop:
        for f in left:
            f.cancel()
        procs = list(getattr(ex, "_processes", {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
    else:
        ex.shutdown()
    rs = []
    for i in sorted(todo):
        if i in res:
            rs.append(res[i])
        else:
            c = harness.REG[i]
            rs.append(dict(name=c.name, prop=c.prop, verdict="not run", why=stop, exits=0, functions=[], loops=0,
                           calls=0, wall=0.0))
    if a.prop == "all":
        n = {}
        for r in rs:
            n[r["verdict"]] = n.get(r["verdict"], 0) + 1
        print(n, round(time.time() - t0, 1), "s")
        code = 0
    else:
        from sa import report
        code = report.finish(a.prop, rs, a.tier, time.time() - t0, HERE, partial=bool(a.only))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
