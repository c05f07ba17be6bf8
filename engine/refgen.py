"""The reference programs with the settings a user is told to edit taken from the harness.

The programs have their settings compiled in ("UPDATE ALL THE FOLLOWING VALUES"), so the check does what a user does: it edits these values, in a copy.
Kernel launches k<<<g, b>>>(...) become calls of the thread model.  Nothing else changes."""
import os
import re
import shutil

from build import REPO

REF = os.path.join(REPO, "src", "reference")
NUM = ("xlim1", "xlim2", "ylim1", "ylim2", "nx", "ny", "dt", "Tfinal", "T_period", "option", "printstep", "TileSize")
TEXT = ("psischeme", "backtrace_scheme")


def settings(s):
    s = re.sub(r"//[^\n]*|/\*.*?\*/", "", s, flags=re.S)
    for n in NUM:
        s = re.sub(r"(\b%s\s*=)(?!=)[^;]*;" % n, r"\1 vf_set.%s;" % n, s, count=1)
    for n in TEXT:
        s = re.sub(r"\bchar\s+%s\s*\[[^\]]*\]\s*=\s*\"[^\"]*\"\s*;" % n, "char %s[32]; strcpy(%s, vf_set.%s);" % (n, n, n), s, count=1)
    return s


def main_settings(s):
    a = s.find("UPDATE ALL THE FOLLOWING VALUES")
    b = s.find("USER UPDATE OVER")
    if a >= 0 and b > a:
        return s[:a] + settings(s[a:b]) + s[b:]
    m = re.search(r"\bint\s+main\s*\(", s)
    return s[:m.start()] + settings(s[m.start():]) if m else s


def launches(s):
    while True:
        m = re.search(r"([\w:]+(?:<[^<>]*>)?)\s*<<<(.*?)>>>\s*\(", s, re.S)
        if not m:
            return s
        i, d = m.end(), 1
        while d:
            d += (s[i] == "(") - (s[i] == ")")
            i += 1
        g = m.group(2).split(",")
        s = s[:m.start()] + "vf_launch(%s, %s, [&]() { %s(%s); })" % (g[0], g[1] if len(g) > 1 else "1", m.group(1), s[m.end():i - 1]) + s[i:]


def make(sub, replaced=("VortexVelocity.h", "VortexVelocityCUDA.cu")):
    """a copy of src/reference/<sub>; the velocity field (and initial level set), which a user supplies, are supplied by the harness"""
    def gen(out):
        src = os.path.join(REF, sub)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in sorted(os.listdir(src)):
            if not os.path.isfile(os.path.join(src, f)) or not f.endswith((".h", ".cpp", ".cu", ".hpp", ".cuh", ".cc")):
                continue
            s = open(os.path.join(src, f), errors="replace").read()
            if f in replaced:
                s = "#pragma once\n" + ('#include "Constants.h"\n' if os.path.exists(os.path.join(src, "Constants.h")) else "")
            elif f == "Setting.h":
                s = settings(s)
            elif re.search(r"\bint\s+main\s*\(", s):
                s = main_settings(s)
            if sub == "CUDA":
                s = launches(s)
            with open(os.path.join(out, f), "w") as g:
                g.write(s)
        return ["-I", out]
    return gen
