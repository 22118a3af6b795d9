#!/usr/bin/env python3
"""which single-site edits of the package no check reports: mutate.py OUT.jsonl [module-prefix] [-t]

Each edit of each function is written to a scratch copy, the checks that analysed the function (from
the last evidence) are run, cheapest first, until one reports; with -t the stable tests are run on
the edits no check reports."""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor, as_completed
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from dgcheck import mutants
args = [a for a in sys.argv[1:] if not a.startswith("-")]
pre = args[1] if len(args) > 1 else ""
SKIP = set(os.environ.get("SKIP", "S01,C02").split(","))


def prepare():
    ev = {}
    for f in glob.glob(os.path.join(here, "evidence", "*.json")):
        d = json.load(open(f))
        if "coverage" in d:
            ev[d["property"]] = (d["wall_s"], d["coverage"]["functions_analysed"])
    cases = []
    for p in sorted(glob.glob("/repo/dustgoggles/**/*.py", recursive=True)):
        rel = p[len("/repo/dustgoggles/"):]
        if "tests" in rel or not rel.startswith(pre):
            continue
        tree = ast.parse(open(p).read())
        nodes = list(ast.walk(tree))
        mod = rel[:-3].replace("/", ".")

        def visit(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    visit(ch, f"{qual}.{ch.name}")
                elif isinstance(ch, ast.FunctionDef):
                    q = f"{qual}.{ch.name}"
                    pos = next(i for i, x in enumerate(nodes) if x is ch)
                    ids = sorted((w, i) for i, (w, fs) in ev.items() if i not in SKIP and any(
                        f == q or f.startswith(q + ".") for f in fs) or i in ("F02", "R03"))
                    for k, e in enumerate(mutants.edits(ch)):
                        cases.append((p, rel, q, pos, k, e[0], e[1], [i for _, i in ids]))
                else:
                    visit(ch, qual)
        visit(tree, mod)
    return cases


def run(case):
    p, rel, q, pos, k, what, line, ids = case
    tree = ast.parse(open(p).read())
    fn = list(ast.walk(tree))[pos]
    e = mutants.edits(fn)[k]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        try:
            src = ast.unparse(mutants.mutate(tree, pos, e))
            compile(src, p, "exec")
        except Exception as x:
            return dict(fn=q, line=line, what=what, result="invalid " + str(x)[:50])
        shutil.copytree("/repo/dustgoggles", d + "/dustgoggles", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/dustgoggles/" + rel, "w").write(src)
        env = dict(os.environ, DGCHECK_REPO=d, DGCHECK_EVIDENCE=d + "/ev")
        und = []
        for i in ids:
            try:
                r = subprocess.run([sys.executable, "-m", "dgcheck", i], cwd=here, env=env, capture_output=True,
                                   text=True, timeout=300)
            except subprocess.TimeoutExpired:
                und.append(i + "-timeout")
                continue
            if r.returncode == 1:
                return dict(fn=q, line=line, what=what, result="caught", by=i)
            n = r.stdout.count("UNDECIDED")
            if i == "V01":
                n -= 1
            if n > 0 or r.returncode not in (0, 1):
                und.append(i + (f"!{r.returncode}" if r.returncode else ""))
        res = dict(fn=q, line=line, what=what, result="missed", undecided=und, ids=len(ids))
        if "-t" in sys.argv:
            shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
            open(d + "/r/dustgoggles/" + rel, "w").write(src)
            t = subprocess.run(["bash", "-c", "ulimit -v 6000000; exec timeout 25 \"$@\"", "t", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider"],
                               cwd=d + "/r", env=dict(os.environ, PYTHONPATH=d + "/r"), capture_output=True, text=True, timeout=120)
            res["tests"] = t.returncode
        return res
    except Exception as x:
        return dict(fn=q, line=line, what=what, result="error " + repr(x)[:100])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cases = prepare()
    if os.environ.get("AGAIN"):  # only the edits an earlier run missed
        old = [json.loads(x) for x in open(os.environ["AGAIN"])]
        want = {(r["fn"], r["line"], r["what"]) for r in old if r["result"] == "missed" and r.get("tests", 0) == 0}
        cases = [x for x in cases if (x[2], x[6], x[5]) in want]
    if os.environ.get("ONLY"):
        cases = [x[:7] + (os.environ["ONLY"].split(","),) for x in cases]
    print(len(cases), "edits", flush=True)
    n = {}
    with ProcessPoolExecutor(7) as ex, open(args[0], "w") as f:
        for r in (x.result() for x in as_completed([ex.submit(run, y) for y in cases])):
            k = r["result"].split()[0]
            n[k] = n.get(k, 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
    print(n)
