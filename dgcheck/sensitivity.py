"""Thorough tier: how sensitive the rule is.

The property is decided again on copies of the package with one syntactic edit each in a function the rule
analysed. The counts go to the evidence and never change the verdict: an edit may well keep the property."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import mutants
from .repo import ROOT

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = 540        # seconds for all edits of one property
EACH = 120          # seconds for one edit


def functions(tree, mod):
    """(qualified name, position in ast.walk) of the outermost functions and methods"""
    pos = {id(n): i for i, n in enumerate(ast.walk(tree))}

    def visit(node, q):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                yield from visit(ch, f"{q}.{ch.name}")
            elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield f"{q}.{ch.name}", pos[id(ch)], ch
            else:
                yield from visit(ch, q)
    yield from visit(tree, mod)


def edits_of(names):
    pkg = os.path.join(ROOT, "dustgoggles")
    for d, _, files in sorted(os.walk(pkg)):
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, pkg)
            if not f.endswith(".py") or rel.startswith("tests"):
                continue
            tree = ast.parse(open(p, encoding="utf-8").read())
            for q, pos, fn in functions(tree, rel[:-3].replace(os.sep, ".")):
                if any(n == q or n.startswith(q + ".") for n in names):
                    for e in mutants.edits(fn):
                        yield rel, q, tree, pos, e


def decide(pid, rel, src):
    d = tempfile.mkdtemp(prefix="dgsens")
    try:
        shutil.copytree(os.path.join(ROOT, "dustgoggles"), os.path.join(d, "dustgoggles"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "dustgoggles", rel), "w", encoding="utf-8") as f:
            f.write(src)
        env = dict(os.environ, DGCHECK_REPO=d, DGCHECK_EVIDENCE=os.path.join(d, "ev"), VERIF_TIER="quick")
        try:
            r = subprocess.run([sys.executable, "-m", "dgcheck", pid], cwd=HERE, env=env, capture_output=True,
                               text=True, timeout=EACH)
        except subprocess.TimeoutExpired:
            return "no answer"
        if r.returncode == 1:
            return "reported"
        if r.returncode:
            return "no answer"
        return r.stdout.count("UNDECIDED")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def measure(pid, check):
    t0 = time.time()
    names = {f.split("dustgoggles.", 1)[-1] for f in check.functions}
    base = sum(1 for o in check.obligations if o[1] == "undecided")
    todo = list(edits_of(names))
    total = len(todo)
    random.Random(int(os.environ.get("VERIF_SEED", "1") or 1)).shuffle(todo)
    per = {}
    missed = []
    count = {"reported": 0, "undecided": 0, "passed over": 0, "no answer": 0, "not valid": 0}

    def one(case):
        rel, q, tree, pos, e = case
        if time.time() - t0 > BUDGET:
            return case, None
        try:
            src = ast.unparse(mutants.mutate(tree, pos, e))
            compile(src, rel, "exec")
        except Exception:
            return case, "not valid"
        r = decide(pid, rel, src)
        if isinstance(r, int):
            r = "undecided" if r > base else "passed over"
        return case, r
    with ThreadPoolExecutor(os.cpu_count() or 2) as ex:
        for (rel, q, tree, pos, e), r in ex.map(one, todo):
            if r is None:
                continue
            count[r] += 1
            p = per.setdefault(q, {})
            p[r] = p.get(r, 0) + 1
            if r == "passed over":
                missed.append(f"{q}:{e[1]} {e[0]}")
    return {"sensitivity": {
        "edits_possible": total, "edits_tried": sum(count.values()), **{k.replace(" ", "_"): v for k, v in count.items()},
        "by_function": per, "passed_over_edits": sorted(missed)[:200],
        "wall_s": round(time.time() - t0, 1)}}
