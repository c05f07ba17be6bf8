"""setup_cmd: nothing is built ahead of time; verify that the tools the checks need are present."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import z3  # noqa: E402,F401

for t in (build.CLANG, build.OPT, build.GXX):
    subprocess.run([t, "--version"], stdout=subprocess.DEVNULL, check=True)
os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
print("setup ok: z3 %s" % z3.get_version_string())
