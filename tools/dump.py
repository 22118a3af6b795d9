#!/usr/bin/env python3
"""debugging aid: print the abstract outcomes of one function"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dgcheck.repo import Repo
from dgcheck.interp import Interp, Unsupported
from dgcheck.terms import *
from dgcheck.state import St


def sh_ev(e, ind, I):
    p = "  " * ind
    if e[0] == "loop":
        print(f"{p}LOOP{e[1]} over {show(e[2])} @{e[4][1]}")
        for k, conds, seg, ups, val in e[3]:
            print(f"{p} body->{k} {show(val) if val else ''} if " + " & ".join(
                ("" if v else "!") + "(" + show(a) + ")" for a, v in conds))
            for x in seg:
                sh_ev(x, ind + 2, I)
            for nm, v in ups:
                print(f"{p}    {nm} := {show(v) if v else v}")
        for t, i in I.loops[e[1]]["phi"].items():
            print(f"{p}  phi {show(t)}: init {show(i['init']) if i['init'] else None}")
    elif e[0] == "last":
        print(f"{p}(last)")
    else:
        print(p + e[0], *[show(x) if isinstance(x, tuple) else x for x in e[1:]])


def show_outs(outs, I):
    for k, v, s in outs:
        print("====", k, show(I.freeze(v, s)))
        print("  facts:", "; ".join(("" if x else "!") + "(" + show(a) + ")" for a, x in s.facts.items()))
        for e in s.events():
            sh_ev(e, 1, I)
        for a, seg in s.shm.items():
            print("  cell", show(a), seg.exists, show(seg.size) if seg.size else None,
                  show(seg.content) if seg.content else None)


if __name__ == "__main__":
    repo = Repo()
    q = sys.argv[1]
    f = repo.func(q)
    I = Interp(repo)
    args = [S(p) for p in f.params()]
    t = time.time()
    for a in sys.argv[2:]:
        nm, v = a.split("=")
        i = f.params().index(nm)
        args[i] = C(eval(v))
    outs = I.run_consume(I.fnterm(f.qual), args)
    show_outs(outs, I)
    print(len(outs), "outcomes", time.time() - t, "s; loops", len(I.loops))
