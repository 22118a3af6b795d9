#!/usr/bin/env python3
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dgcheck.repo import Repo
from dgcheck.interp import Interp, Unsupported
from dgcheck.terms import *
repo = Repo()
tot = 0
for q, f in repo.funcs.items():
    if "<l" in q: continue
    if len(sys.argv) > 1 and sys.argv[1] not in q: continue
    I = Interp(repo, raises=(lambda k, fv: ("E",)) if "-r" in sys.argv else None)
    t = time.time()
    try:
        outs = I.run_consume(I.fnterm(q), [S(p) for p in f.params()])
        r = f"{len(outs)} outcomes"
    except Unsupported as e:
        r = f"UNSUPPORTED {e!r} at {getattr(I.node,'lineno',0)}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        r = f"CRASH {type(e).__name__} {e} at src line {getattr(I.node,'lineno',0)}: " + " <- ".join(f"{x.name}:{x.lineno}" for x in tb[::-1][:5])
    dt = time.time() - t
    print(f"{dt:6.2f} {q}: {r}")
