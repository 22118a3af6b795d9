#!/usr/bin/env python3
"""build /verif/seeded/<id> from seedspecs/*.py, validating each planted bug

usage: mkseed.py [id-prefix] [--nocheck]
A spec module has SEEDS = [dict(id, property, edits=[(file, old, new)...],
demo=python source, needs, what)].  The patch is made against /repo's HEAD, the
demonstration is confirmed to pass without it and fail with it, and the stable
tests are confirmed to pass with it, all in a scratch copy.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
BASE = "1830847"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def load():
    out = []
    for f in sorted(glob.glob(here + "/seedspecs/*.py")):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def make(s):
    msgs = []
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = d + "/repo"
        sh(["git", "clone", "-q", "/repo", r], "/")
        for f, old, new in s["edits"]:
            p = f"{r}/dustgoggles/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], [f"BAD EDIT ({t.count(old)} matches) {old[:60]!r}"]
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base = ""
        for f, _, _ in s["edits"]:
            base += sh(["git", "show", f"{BASE}:dustgoggles/{f}"], r).stdout
        orig = [l for l in removed if l.strip() and l in base.splitlines()]
        if not orig:
            msgs.append("NO ORIGINAL LINE CHANGED")
        out = f"{verif}/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(out + "/meta.json", "w"), indent=1)
        if "--nocheck" in sys.argv:
            return s["id"], msgs
        a = sh(["bash", out + "/demo.sh"], "/repo")
        b = sh(["bash", out + "/demo.sh"], r)
        if a.returncode != 0:
            msgs.append(f"demo fails clean: {(a.stdout + a.stderr)[-400:]}")
        if b.returncode == 0:
            msgs.append("demo passes with the patch")
        elif "AssertionError" not in b.stderr:
            msgs.append("note: patched demo says " + b.stderr.strip().splitlines()[-1][:150] if b.stderr.strip() else f"rc {b.returncode}")
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300", "dustgoggles"], r,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"))
        if t.returncode != 0:
            msgs.append("TESTS FAIL " + t.stdout[-300:])
        return s["id"], msgs
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    pre = next((a for a in sys.argv[1:] if not a.startswith("-")), "")
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(make, [s for s in load() if s["id"].startswith(pre)]):
            print(i, "ok" if not m else m)
