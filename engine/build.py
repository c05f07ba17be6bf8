"""Compile sources of /repo (and harnesses) to LLVM IR and to native replay binaries."""
import concurrent.futures
import hashlib
import os
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/lib/llvm-18/bin/clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
GXX = "/usr/bin/g++"
PASSES = ("elim-avail-extern,function(sroa,early-cse,simplifycfg),cgscc(inline),"
          "function(sroa,early-cse,simplifycfg,instsimplify),globaldce")
IRFLAGS = ["-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-math-errno", "-w",
           "-fno-strict-aliasing", "-fno-threadsafe-statics"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src", "cpu")):
        for f in fs:
            if f.endswith(".cc"):
                out.append(os.path.join(d, f))
    return sorted(out)


def includes(stubs):
    inc = []
    for s in stubs:
        inc += ["-I", os.path.join(VERIF, "stubs", s)]
    inc += ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "include")]
    return inc


def to_ir(src, out, flags, passes=PASSES):
    raw = out + ".raw.bc"
    run([CLANG] + IRFLAGS + flags + ["-c", "-emit-llvm", src, "-o", raw])
    run([OPT, "-S", "-passes=" + passes, raw, "-o", out])
    os.unlink(raw)
    return out


def obj_name(d, src, ext):
    h = hashlib.md5(src.encode()).hexdigest()[:6]
    return os.path.join(d, os.path.basename(src).replace(".", "_") + "_" + h + ext)


def build_ir(outdir, harness, repo_srcs, stubs, defs, extra=(), flags=()):
    os.makedirs(outdir, exist_ok=True)
    inc = includes(stubs)
    jobs = []
    for s in repo_srcs:
        jobs.append((s, obj_name(outdir, s, ".ll"), ["-DBUILD_TESTS"] + defs + inc))
    for s, d in extra:
        jobs.append((s, obj_name(outdir, s, ".ll"), ["-DBUILD_TESTS"] + d + inc))
    for s, d in harness:
        jobs.append((s, obj_name(outdir, s, ".ll"), ["-DVF_SYMBOLIC", "-DBUILD_TESTS"] + d + inc + list(flags)))
    jobs.append((os.path.join(VERIF, "harness", "lib_string.cc"), os.path.join(outdir, "lib_string.ll"), inc))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: to_ir(*j), jobs))


NATIVE = ["-std=c++14", "-O1", "-g", "-w", "-ffp-contract=off", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
          "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]


def build_native(outdir, harness, repo_srcs, stubs, defs, libs=(), extra=()):
    os.makedirs(outdir, exist_ok=True)
    inc = includes(stubs)
    jobs = []
    for s in repo_srcs:
        jobs.append((s, obj_name(outdir, s, ".o"), ["-DBUILD_TESTS"] + defs))
    for s, d in extra:
        jobs.append((s, obj_name(outdir, s, ".o"), ["-DBUILD_TESTS"] + d))
    for s, d in harness:
        jobs.append((s, obj_name(outdir, s, ".o"), ["-DBUILD_TESTS"] + d))
    s = os.path.join(VERIF, "harness", "vf_native.cc")
    jobs.append((s, obj_name(outdir, s, ".o"), []))

    def one(j):
        run([GXX] + NATIVE + j[2] + inc + ["-c", j[0], "-o", j[1]])
        return j[1]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(outdir, "replay")
    run([GXX] + NATIVE + objs + ["-o", exe] + list(libs))
    return exe


TSAN = ["-std=c++14", "-O1", "-g", "-w", "-ffp-contract=off", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DVF_THREADS"]


def build_tsan(outdir, harness, stubs, flags=()):
    """replay of data races: the harness on real threads under ThreadSanitizer"""
    os.makedirs(outdir, exist_ok=True)
    inc = includes(stubs)
    jobs = [(s, obj_name(outdir, s, ".o"), d + list(flags)) for s, d in harness]
    for n in ("vf_native.cc", "vf_threads.cc"):
        s = os.path.join(VERIF, "harness", n)
        jobs.append((s, obj_name(outdir, s, ".o"), []))
    for s, o, d in jobs:
        run([GXX] + TSAN + d + inc + ["-c", s, "-o", o])
    exe = os.path.join(outdir, "replay")
    run([GXX] + TSAN + [j[1] for j in jobs] + ["-o", exe, "-lpthread"])
    return exe
