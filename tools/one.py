#!/usr/bin/env python3
"""one.py HARNESS.cc FUNC [mode] k=v ... [--opt k=v]: run single task(s) on the current tree and print timing (development aid).
Several tasks: separate by ','."""
import os
import shutil
import sys
import tempfile
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import build
import check
import explore
import prog
import props


def main():
    work = tempfile.mkdtemp(prefix="vf-one-")
    try:
        tasks = []
        cur = []
        for a in sys.argv[2:] + [","]:
            if a == ",":
                cfg = {x.split("=")[0]: int(x.split("=")[1]) for x in cur if "=" in x}
                mode = "fp" if "fp" in cur[1:] else "real"
                if cur:
                    tasks.append(props.norm((sys.argv[1], cur[0], mode, cfg), os.environ.get("TIER", "quick")))
                cur = []
            else:
                cur.append(a)
        h = sys.argv[1]
        G = props.GROUPS[props.HARNESS.get(h, {}).get("group", "lib")]
        files = build.build_ir(work, [(os.path.join(build.VERIF, "harness", h), [])], G["sources"](build.repo_sources()), G.get("stubs", []), [], G.get("extra", []))
        P = prog.Program()
        explore.install_vf(P)
        root = None
        for f in files:
            m = P.add_module(f)
            if os.path.basename(f).startswith(h.replace(".", "_") + "_"):
                root = m
        for t, r in zip(tasks, check.run_tasks(P, {h: root}, tasks, time.time() + 900, lambda w: False)):
            print(t[1], t[3], "paths", r["paths"], "reached", r["reached"], r["ends"], "obl", r["stats"].get("obligations"), "q", r["stats"].get("queries"),
                  "solver %.1f" % r["stats"].get("solver_s", 0), "wall %.1f" % r["wall"], "ERR %s" % r["error"] if r["error"] else "",
                  "UNK %s" % r["unknowns"] if r["unknowns"] else "", "CAND %s" % [(c[0], c[3]) for c in r["candidates"]] if r["candidates"] else "")
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
