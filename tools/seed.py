#!/usr/bin/env python3
"""Writes seeded/<id>/ from a table of textual edits against /repo's HEAD (helper for authoring; no check reads seeded/).
usage: seed.py TABLE.py [id ...]"""
import json, os, subprocess, sys, tempfile, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it does not (or the demonstration does not build)
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/run"
%(build)s || exit 2
cd "$w/run" && timeout 120 "$w/demo"%(args)s
'''
LINK = 'g++ -std=c++14 -w -O1 -DBUILD_TESTS -I"$PWD/include" -I"$here" -o "$w/demo" "$here/demo.cc" -L"$PWD/_build" -lgals_cpu -lyaml-cpp -Wl,-rpath,"$PWD/_build"'
FULL = 'g++ -std=c++14 -w -O1 -DBUILD_TESTS -I"$PWD/include" -I"$here" -o "$w/demo" "$here/demo.cc" %s -L"$PWD/_build" -lgals_cpu -lyaml-cpp -Wl,-rpath,"$PWD/_build"'
t = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
for b in t["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) >= 1, (b["id"], f, old)
            n = b.get("count", 1)
            assert n == 0 or s.count(old) == n, (b["id"], f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(b["demo"].lstrip())
    extra = b.get("sources")
    open(d + "/demo.sh", "w").write(DEMO % dict(build=b["build"] if "build" in b else (FULL % extra) if extra else LINK, args=b.get("args", "")))
    os.chmod(d + "/demo.sh", 0o755)
    for n, c in b.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(c)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(b["id"], "written")
