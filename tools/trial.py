#!/usr/bin/env python3
"""run checks against textual edits of a scratch copy of the repository

usage: trial.py CORPUS.py [id-prefix]   CORPUS defines BUGS / SAME lists of
(id, property or list, file, old, new[, more (file, old, new)...])
"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("corpus", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
pre = sys.argv[2] if len(sys.argv) > 2 else ""
sys.path.insert(0, here)
from dgcheck.rules import RULES


def prepare(case):
    d = tempfile.mkdtemp(prefix="trial")
    shutil.copytree("/repo/dustgoggles", d + "/dustgoggles", ignore=shutil.ignore_patterns("__pycache__"))
    edits = [case[2:5]] + [tuple(e) for e in case[5:]]
    for f, old, new in edits:
        p = os.path.join(d, "dustgoggles", f)
        s = open(p).read()
        if s.count(old) < 1:
            shutil.rmtree(d)
            return None
        s = s.replace(old, new, 1)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            print("SYNTAX", case[0], e)
        open(p, "w").write(s)
    return d


def run(case, props):
    d = prepare(case)
    if d is None:
        return case[0], "BAD-EDIT", ""
    out = {}
    props = [p for p in props if p in RULES]
    env = dict(os.environ, DGCHECK_REPO=d, DGCHECK_EVIDENCE=d + "/ev")
    for p in props:
        try:
            r = subprocess.run([sys.executable, "-m", "dgcheck", p], cwd=here, env=env, capture_output=True, text=True, timeout=600)
            out[p] = (r.returncode, r.stdout + r.stderr)
        except subprocess.TimeoutExpired:
            out[p] = (99, "timeout")
    shutil.rmtree(d)
    return case[0], out


def main():
    bugs = [b for b in getattr(m, "BUGS", []) if b[0].startswith(pre)]
    same = [b for b in getattr(m, "SAME", []) if b[0].startswith(pre)]
    with ThreadPoolExecutor(8) as ex:
        fb = [(b, ex.submit(run, b, [b[1]] if isinstance(b[1], str) else b[1])) for b in bugs]
        fs = [(b, ex.submit(run, b, [b[1]] if isinstance(b[1], str) and b[1] != "*" else (
            list(RULES) if b[1] == "*" else b[1]))) for b in same]
        miss = noisy = 0
        for b, f in fb:
            r = f.result()
            if r[1] == "BAD-EDIT":
                print("BAD-EDIT", b[0]); continue
            hit = [p for p, (rc, o) in r[1].items() if rc == 1]
            err = [p for p, (rc, o) in r[1].items() if rc not in (0, 1)]
            if not hit or err:
                miss += 1
                print("MISSED" if not err else "ERROR", b[0], b[1])
                for p, (rc, o) in r[1].items():
                    print("   ", rc, o.strip()[-300:].replace("\n", "\n    "))
            elif "-v" in sys.argv:
                for p in hit:
                    print("caught", b[0], [l for l in r[1][p][1].splitlines() if l.startswith("  ")][:1])
        for b, f in fs:
            r = f.result()
            if r[1] == "BAD-EDIT":
                print("BAD-EDIT", b[0]); continue
            for p, (rc, o) in r[1].items():
                if rc:
                    noisy += 1
                    print("FALSE ALARM", b[0], p, rc, o.strip()[-300:])
                elif "UNDECIDED" in o:
                    print("  undecided", b[0], [l[:200] for l in o.splitlines() if l.startswith("UNDEC")][:2])
    print(f"{len(bugs)} bugs, {miss} missed; {len(same)} refactorings, {noisy} alarms")


main()
