#!/usr/bin/env python3
"""run every check against rewritten functions of a scratch copy of the repository

usage: rewrite.py CORPUS.py [prefix] [-t]     CORPUS defines CASES, a list of dicts
  id, kind ("same" or "bug"), file, defs {qualified name: new source}, [add] text
  put after the imports, [props] ("*" by default; a bug names its property)
-t also runs the stable tests on each case
"""
import ast, importlib.util, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("corpus", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
args = [a for a in sys.argv[2:] if not a.startswith("-")]
pre = args[0] if args else ""
sys.path.insert(0, here)
from dgcheck.rules import RULES


def find(tree, qual):
    body, node = tree.body, None
    for part in qual.split("."):
        node = next(n for n in body if getattr(n, "name", None) == part and isinstance(
            n, (ast.FunctionDef, ast.ClassDef)) )
        body = node.body
    return node


def rewrite(src, defs, add=""):
    for qual, new in defs.items():
        node = find(ast.parse(src), qual)
        lines = src.splitlines(keepends=True)
        start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
        new = textwrap.indent(textwrap.dedent(new).strip("\n"), " " * node.col_offset) + "\n"
        src = "".join(lines[:start]) + new + "".join(lines[node.end_lineno:])
    if add:
        tree = ast.parse(src)
        last = max([n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))], default=0)
        lines = src.splitlines(keepends=True)
        src = "".join(lines[:last]) + textwrap.dedent(add).strip("\n") + "\n" + "".join(lines[last:])
    return src


def prepare(case):
    d = tempfile.mkdtemp(prefix="rw")
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__", ".git"), dirs_exist_ok=True)
    p = os.path.join(d, "dustgoggles", case["file"])
    s = rewrite(open(p).read(), case["defs"], case.get("add", ""))
    compile(s, p, "exec")
    open(p, "w").write(s)
    return d


def run(case):
    d = prepare(case)
    out = {}
    props = case.get("props", "*")
    props = [p for p in sorted(RULES) if not os.environ.get("ONLY") or p[0] in os.environ["ONLY"]] if props == "*" else [props] if isinstance(props, str) else props
    env = dict(os.environ, DGCHECK_REPO=d, DGCHECK_EVIDENCE=d + "/ev")
    if "-t" in sys.argv:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "dustgoggles/tests"],
                           cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True)
        out["tests"] = (0 if " passed" in r.stdout and "failed" not in r.stdout and "error" not in r.stdout else 98, r.stdout[-600:])
    for p in props:
        try:
            r = subprocess.run([sys.executable, "-m", "dgcheck", p], cwd=here, env=env, capture_output=True, text=True, timeout=900)
            out[p] = (r.returncode, r.stdout + r.stderr)
        except subprocess.TimeoutExpired:
            out[p] = (99, "timeout")
    if "-k" in sys.argv:
        shutil.rmtree("/tmp/w/kept", ignore_errors=True)
        shutil.move(d, "/tmp/w/kept")
    else:
        shutil.rmtree(d)
    return out


def main():
    cases = [c for c in m.CASES if c["id"].startswith(pre)]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for c, f in [(c, ex.submit(run, c)) for c in cases]:
            try:
                out = f.result()
            except Exception as e:
                print("BROKEN CASE", c["id"], type(e).__name__, e); continue
            hits = [p for p, (rc, o) in out.items() if rc == 1]
            errs = [p for p, (rc, o) in out.items() if rc not in (0, 1)]
            if errs:
                print("ERROR", c["id"], [(p, out[p][1].strip()[-300:]) for p in errs])
            if c["kind"] == "bug":
                if not hits:
                    bad += 1
                    print("MISSED", c["id"], c.get("props"), [o.splitlines()[-1][:160] for p, (rc, o) in out.items() if p != "tests"])
                elif "-v" in sys.argv:
                    print("caught", c["id"], hits)
            else:
                for p in hits:
                    bad += 1
                    print("FALSE ALARM", c["id"], p, [l[:260] for l in out[p][1].splitlines() if l.startswith(("  ", "VIOL"))][:2])
            und = {p: o.splitlines()[-1].split(" undecided")[0].split(",")[-1].strip() for p, (rc, o) in out.items()
                   if p != "tests" and rc == 0 and " undecided" in o and " 0 undecided" not in o and (p != "V01" or " 1 undecided" not in o)}
            if und:
                print("  undecided", c["id"], und)
            sys.stdout.flush()
    print(len(cases), "cases,", bad, "to look at")


main()
