#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current working tree.

Exit 0: every obligation discharged by the solver within the stated bounds.
Exit 1: a counterexample was found by the solver and reproduced on the real code.
Exit 2: no answer (build failure, unsupported construct, solver gave up, unreproduced counterexample).
"""
import concurrent.futures
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import props  # noqa: E402

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")
REPLAYS = os.path.join(VERIF, "replays")


def known_findings():
    """lines  known: property=C20 harness=app_far match=<text> -- description   suppress exactly that finding"""
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r'known: property=(\S+) harness=(\S+) match="([^"]*)" (.*)', line.strip())
        if m:
            out.append(m.groups())
    return out


def worker(conn, P, root, task):
    import explore
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    func, mode, cfg, opts = task[1:5]
    try:
        base = dict(func=func, mode=mode, cfg=cfg, paths=0, reached=0, ends={}, unknowns=[], error=None, stats={}, functions=[],
                    witnesses=[], wall=0, decisions=0, incomplete="stopped after a counterexample")
        r = explore.run_task(P, root, func, mode, cfg, opts, lambda cs: conn.send(dict(base, candidates=cs, partial=1)))
        d = dict(func=func, mode=mode, cfg=cfg, paths=r.paths, reached=r.reached, ends=r.ends, candidates=r.candidates,
                 unknowns=r.unknowns, error=r.error, stats=r.stats, functions=list(P.encoded), witnesses=r.witnesses, wall=r.wall, incomplete=r.incomplete,
                 decisions=getattr(r, "decisions", 0))
    except BaseException as e:  # noqa
        import traceback
        d = dict(func=func, mode=mode, cfg=cfg, paths=0, reached=0, ends={}, candidates=[], unknowns=[],
                 error="engine failure: %r %s" % (e, traceback.format_exc()[-1200:]), stats={}, functions=[], witnesses=[],
                 wall=0, decisions=0)
    conn.send(d)
    conn.close()


GRACE = 25   # seconds the other tasks get once a counterexample has been reproduced on the real code


def run_tasks(P, roots, tasks, t_end, confirm, jobs=8):
    """each task in a forked process of its own"""
    pending = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    ctx = multiprocessing.get_context("fork")
    waiting = []
    stopped = False
    while pending or running:
        while pending and len(running) < jobs:
            i, t = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, P, roots[t[0]], t))
            p.start()
            b.close()
            running[a] = (i, p, t, time.time())
        for c in multiprocessing.connection.wait(list(running), timeout=1.0):
            i, p, t, st = running[c]
            try:
                d = c.recv()
            except EOFError:
                d = results[i]
            if d and d.pop("partial", 0):  # a counterexample; the task goes on
                waiting.append((t, d))
                results[i] = dict(d, candidates=(results[i]["candidates"] if results[i] else []) + d["candidates"])
                continue
            results[i] = d
            running.pop(c)
            c.close()
            p.join()
            if results[i] and results[i]["candidates"]:
                waiting.append((t, results[i]))
        if waiting and not stopped and confirm(waiting):
            stopped = True
            pending = []
            t_end = min(t_end, time.time() + GRACE)
        now = time.time()
        if now > t_end:
            pending = []
        for c in list(running):
            i, p, t, st = running[c]
            if now - st > t[4].get("hard_s", 1e9) or now > t_end:
                p.kill()
                p.join()
                running.pop(c)
                c.close()
    for i, t in enumerate(tasks):
        if results[i] is None:
            results[i] = dict(func=t[1], mode=t[2], cfg=t[3], paths=0, reached=0, ends={}, candidates=[], unknowns=[],
                              error=None, incomplete="not explored: stopped (time or memory)", stats={}, functions=[], witnesses=[], wall=0,
                              decisions=0)
    return results


def demangle(names):
    try:
        p = subprocess.run(["/usr/bin/c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")[:len(names)]
    except OSError:
        return list(names)


ENV = dict(os.environ, ASAN_OPTIONS="max_malloc_fill_size=1000000000:malloc_fill_byte=65:exitcode=77:detect_leaks=0:"
                                    "detect_stack_use_after_return=1:allocator_may_return_null=1",
           UBSAN_OPTIONS="exitcode=78:print_stacktrace=1")


def replay(exe, func, cfg, model, workdir, name, timeout=60):
    fd, path = tempfile.mkstemp(prefix=name + "-", suffix=".in", dir=workdir)
    os.close(fd)
    with open(path, "w") as f:
        for k, v in cfg.items():
            f.write("cfg:%s\t%d\n" % (k, v))
        for k, v in model.items():
            f.write("%s\t%s\n" % (k, v))
    scratch = tempfile.mkdtemp(dir=workdir)
    try:
        p = subprocess.run([exe, func, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout,
                           cwd=scratch)
        rc, out = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, out = 124, "timeout\n" + (e.stdout or b"").decode("utf-8", "replace")
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, out, path


def reproduced(rc, kind):
    if rc in (0, 3, 4):
        return False
    if rc == 5:
        return kind == "event:exit"
    if rc == 124:
        return kind == "event:fuel"
    return True   # failed obligation (1), sanitizer report (77, 78), signal, uncaught exception


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = props.PROPS[pid]
    tasks = [props.norm(t, tier) for t in prop["tasks"](tier)]
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    rc = 2
    try:
        rc = decide(pid, tier, seed, prop, tasks, work, t0)
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


REFFN = re.compile(r"(hp|hermx|hermy|basepolynomial|gradbpx|gradbpy|locationAlgo|\w*_cuda|\w*_CUDA|update_\w+|devicetodevicecopy|Heuns_\w+|"
                   r"SuperConsistentScheme|gridnodes|fileprint|allocate_\w+|initialize|deriv\w+|Vel[xy]|grad[UV][xy]|\w*_main)\(")
TOTAL = 800  # seconds after which exploration ends


def decide(pid, tier, seed, prop, tasks, work, t0):
    import prog
    import explore
    hs = sorted(set(t[0] for t in tasks))
    groups = {}
    for h in hs:
        g = props.HARNESS.get(h, {})
        groups.setdefault(g.get("group", "lib"), []).append(h)
    exes = {}
    Ps = {}
    roots = {}
    # ---- intermediate representation of the current tree
    ir_s = time.time()
    for grp, ghs in groups.items():
        G = props.GROUPS[grp]
        srcs = G["sources"](build.repo_sources())
        hd = props.hdefs(G, os.path.join(work, "ir-" + grp))
        files = build.build_ir(os.path.join(work, "ir-" + grp), [(os.path.join(VERIF, "harness", h), hd)
                                                                 for h in ghs], srcs, G.get("stubs", []), G.get("defs", []),
                               G.get("extra", []), G.get("irflags", []))
        P = prog.Program()
        explore.install_vf(P)
        for f in files:
            m = P.add_module(f)
            for h in ghs:
                if os.path.basename(f).startswith(h.replace(".", "_") + "_"):
                    roots[h] = m
        Ps[grp] = P
        for h in ghs:
            exes[h] = None
    ir_s = time.time() - ir_s

    # ---- symbolic execution
    known = [k for k in known_findings() if k[0] == pid]
    results = []
    for grp, ghs in groups.items():
        tk = [t for t in tasks if t[0] in ghs]
        # native build runs next to the exploration (threads only wait for compilers)
        natp = {h: subprocess.Popen([sys.executable, os.path.abspath(__file__), "--native", grp, h,
                                     os.path.join(work, "nat-%s-%s" % (grp, h))], stdout=subprocess.PIPE,
                                    stderr=subprocess.STDOUT, text=True) for h in ghs}

        def confirm(waiting, grp=grp, natp=natp):
            """does one of the counterexamples found so far (not a known finding) fail on the real code?"""
            for w in list(waiting):
                t, r = w
                if natp[t[0]].poll() is None:
                    continue
                waiting.remove(w)
                exe = os.path.join(work, "nat-%s-%s" % (grp, t[0]), "replay")
                if natp[t[0]].returncode or not os.path.exists(exe):
                    continue
                for ci, (msg, kind, model, detail, alts) in enumerate(r["candidates"][:3]):
                    if model is None or kind == "event:race" or any(k[1] == r["func"] and k[2] in msg for k in known):
                        continue
                    rc, out, path = replay(exe, r["func"], r["cfg"], model, work, "early-%s-%d" % (r["func"], ci), 20)
                    if reproduced(rc, kind):
                        return True
            return False
        rs = run_tasks(Ps[grp], roots, tk, t0 + TOTAL, confirm)
        for t, r in zip(tk, rs):
            r["harness"] = t[0]
            results.append(r)
        for h, p in natp.items():
            out, _ = p.communicate()
            if p.returncode:
                raise build.BuildError("native build of %s: %s" % (h, out))
            exes[h] = os.path.join(work, "nat-%s-%s" % (grp, h), "replay")
    # ---- witnesses on the real code
    jobs = []
    for r in results:
        for i, w in enumerate(r["witnesses"]):
            jobs.append((r, i, w))
    validated = 0
    mismatches = []
    skipped = 0

    def wit(j):
        r, i, w = j
        n = "w-%s-%d-%s" % (r["func"], i, hashlib.md5(repr((r["cfg"], w)).encode()).hexdigest()[:8])
        return replay(exes[r["harness"]], r["func"], r["cfg"], w, work, n)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j, (rc, out, path) in zip(jobs, ex.map(wit, jobs)):
            ok_exit = 5 if j[0]["ends"].get("exit") else 0
            if rc == 0 or rc == ok_exit:
                validated += 1
            elif rc == 3:
                skipped += 1
            else:
                mismatches.append((j[0]["func"], j[0]["cfg"], rc, out[-600:]))
    # ---- candidates
    tsan = {}

    def race_exe(h):
        if h not in tsan:
            grp = props.HARNESS.get(h, {}).get("group", "lib")
            G = props.GROUPS[grp]
            tsan[h] = build.build_tsan(os.path.join(work, "tsan-" + h),
                                       [(os.path.join(VERIF, "harness", h), props.hdefs(G, os.path.join(work, "tsan-" + h)))],
                                       G.get("nstubs", G.get("stubs", [])), G.get("irflags", []))
        return tsan[h]
    violations = []
    knowns = {}
    unconfirmed = []
    for r in results:
        nconf = 0
        for ci, (msg, kind, model, detail, alts) in enumerate(r["candidates"]):
            kf = [k for k in known if k[1] == r["func"] and k[2] in msg]
            if nconf >= 2 and not kf:
                break
            done = False
            for mi, mod in enumerate([model] + list(alts)):
                if mod is None:
                    continue
                name = "%s-%s-%d-%d" % (pid, r["func"], ci, mi)
                exe = exes[r["harness"]]
                if kind == "event:race":
                    exe = race_exe(r["harness"])
                rc, out, path = replay(exe, r["func"], r["cfg"], mod, work, name, 60)
                if reproduced(rc, kind):
                    done = True
                    if kf:
                        knowns.setdefault(kf[0], msg)
                    else:
                        nconf += 1
                        violations.append((r, msg, kind, detail, mod, rc, out))
                    break
            if not done:
                unconfirmed.append((r["func"], r["cfg"], msg, kind, detail, rc, out[-300:]))
    # ---- verdict
    errors = [(r["func"], r["cfg"], r["error"]) for r in results if r["error"]]
    unknown = [(r["func"], r["cfg"], r["unknowns"]) for r in results if r["unknowns"]]
    incomplete = [(r["func"], r["cfg"], r["incomplete"]) for r in results if r.get("incomplete") and not r["error"]]
    vacuous = [(r["func"], r["cfg"]) for r in results if not r["error"] and not r.get("incomplete") and not r["reached"] and not r["candidates"]]
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    fns = sorted(set(x for r in results for x in r["functions"]))
    names = [n for n in demangle(fns) if "GALS::" in n or not n.startswith(("std::", "__gnu", "operator", "void std::"))]
    repo_fns = sorted(set(n for n in names if ("GALS::" in n or "galsfunctions::" in n or REFFN.match(n))
                          and not n.startswith(("std::", "void std::", "bool std::"))))
    paths = sum(r["paths"] for r in results)
    samples = []
    for r in results:
        if r["witnesses"]:
            samples.append(dict(harness=r["func"], mode=r["mode"], cfg=r["cfg"],
                                witness={k: r["witnesses"][0][k] for k in list(r["witnesses"][0])[:12]}))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=paths, transitions=sum(r["decisions"] for r in results),
            traces_validated_against_impl=validated,
            samples=samples[:6],
            states_meaning="feasible and infeasible symbolic paths explored to their end",
            transitions_meaning="symbolic branch and case decisions taken along these paths",
            paths_reaching_the_end=sum(r["reached"] for r in results),
            obligations=tot.get("obligations", 0),
            obligations_discharged=tot.get("obligations", 0) - tot.get("sat", 0) - tot.get("unknown", 0),
            obligations_within_rounding=tot.get("tolerated", 0),
            solver_queries=tot.get("queries", 0), solver_s=round(tot.get("solver_s", 0), 3),
            cvc5_confirmed=tot.get("cross", 0), cvc5_s=round(tot.get("cross_s", 0), 3),
            tasks=[dict(harness=r["func"], mode=r["mode"], cfg=r["cfg"], paths=r["paths"], reached=r["reached"], ends=r["ends"],
                        obligations=r["stats"].get("obligations", 0), queries=r["stats"].get("queries", 0),
                        wall_s=round(r["wall"], 2)) for r in results],
            bounds=prop["bounds"], outside_the_bounds=prop.get("outside", ""),
            functions_encoded=repo_fns[:200], functions_encoded_count=len(repo_fns), functions_total=len(fns),
            not_explored=["%s %s: %s" % x for x in incomplete],
            ir_build_s=round(ir_s, 2), witness_mismatches=len(mismatches), witnesses_out_of_assumption=skipped),
        assumptions=prop.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s %s: %d tasks, %d paths (%d to the end), %d obligations, %d queries, %.1fs solver, %d witnesses replayed, %.1fs" % (
        pid, tier, len(results), paths, ev["coverage"]["paths_reaching_the_end"], tot.get("obligations", 0),
        tot.get("queries", 0), tot.get("solver_s", 0), validated, time.time() - t0))
    for m in mismatches[:5]:
        print("  note: witness of %s %s behaves differently natively (rc %d): %s" % m)
    for k, msg in knowns.items():
        print("KNOWN-FINDING: property=%s %s (%s: %s)" % (pid, k[3], k[1], msg))
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        for n, (r, msg, kind, detail, mod, rc, out) in enumerate(violations[:10]):
            path = os.path.join(REPLAYS, "%s-%d.txt" % (pid, n))
            with open(path, "w") as f:
                f.write("# property %s, harness %s (%s), replay: harness/replay.sh %s\n" % (pid, r["func"], r["harness"], path))
                f.write("# %s\n# %s\n" % (msg.replace("\n", " "), detail.replace("\n", " ")))
                f.write("harness\t%s\nfile\t%s\n" % (r["func"], r["harness"]))
                for k, v in r["cfg"].items():
                    f.write("cfg:%s\t%d\n" % (k, v))
                for k, v in mod.items():
                    f.write("%s\t%s\n" % (k, v))
                f.write("# native run: exit status %d\n" % rc)
                for line in out.split("\n")[:40]:
                    f.write("# %s\n" % line)
            print("  %s %s: %s | %s" % (r["func"], r["cfg"], msg, " / ".join(
                x for x in out.split("\n") if "VF_FAIL" in x or "ERROR" in x or "runtime error" in x)[:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    bad = False
    for e in incomplete:
        print("  INCOMPLETE %s %s: %s" % e)
    if not any(r["reached"] for r in results):
        print("  NO ANSWER: nothing was explored to its end")
        bad = True
    for e in errors[:5]:
        print("  NO ANSWER %s %s: %s" % e)
        bad = True
    for e in unknown[:5]:
        print("  UNDECIDED %s %s: %s" % e)
        bad = True
    for e in unconfirmed[:5]:
        print("  UNCONFIRMED %s %s: %s (%s) %s rc=%s %s" % e)
        bad = True
    for e in vacuous[:5]:
        print("  VACUOUS %s %s: no path reaches the end" % e)
        bad = True
    return 2 if bad else 0


def native_main():
    grp, h, out = sys.argv[2:5]
    G = props.GROUPS[grp]
    try:
        build.build_native(out, [(os.path.join(VERIF, "harness", h), props.hdefs(G, out))],
                           G["sources"](build.repo_sources()), G.get("nstubs", G.get("stubs", [])), G.get("defs", []),
                           G.get("libs", ["-lyaml-cpp"]), G.get("extra", []))
    except build.BuildError as e:
        print(e)
        sys.exit(1)


if __name__ == "__main__":
    if sys.argv[1] == "--native":
        native_main()
    else:
        main()
