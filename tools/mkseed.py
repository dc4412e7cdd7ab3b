"""Write /verif/seeded/<id>/ from tools/seeds/*.py.  Each file there defines SEEDS: list of dicts
id, property, needs, breaks, edits=[(file, old, new)], demo (python text), uses=[vlib modules copied beside the demo]."""
import difflib
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SH = """#!/bin/bash
# run with cwd = the repository, after its build; exit 0: behaves as documented
here="$(cd "$(dirname "$0")" && pwd)"
w=$(mktemp -d /tmp/demo_XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
export HOME="$w" NUMBA_CACHE_DIR="$w" TMPDIR="$w" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0 %s
export PYTHONPATH="$PWD:$here"
timeout -k 5 280 /opt/venv/bin/python -B "$here/demo.py"
"""


def base_lines(f):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", f], capture_output=True, text=True, check=True).stdout
    return [l.startswith("^") for l in out.splitlines()]


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files, patch = {}, ""
    for f, old, new in s["edits"]:
        t = files.setdefault(f, [open(os.path.join(REPO, f)).read()] * 2)
        if t[1].count(old) != 1:
            sys.exit("%s: %d matches in %s of %r" % (s["id"], t[1].count(old), f, old))
        files[f] = [t[0], t[1].replace(old, new)]
    for f, (a, b) in files.items():
        orig = base_lines(f)
        A, B = a.splitlines(True), b.splitlines(True)
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, A, B, autojunk=False).get_opcodes():
            if tag != "equal" and not all(orig[i1:i2]):
                sys.exit("%s: touches a line of a fix commit: %s" % (s["id"], f))
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(A, B, "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(SH % s.get("env", ""))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    for m in s.get("uses", []):
        src = os.path.join(V, "vlib", m)
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(d, m), ignore=shutil.ignore_patterns("__pycache__"))
        else:
            shutil.copy(src, d)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")], check=True)
    print(s["id"], s["property"])


if __name__ == "__main__":
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for s in ns["SEEDS"]:
            if not want or s["id"] in want or os.path.basename(f) in want:
                write(s)
