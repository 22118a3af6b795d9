"""Check runner: obligations, violations, evidence, command line."""
import contextlib
import importlib
import json
import os
import re
import sys
import time
import traceback

from .repo import Repo, AnalysisBroken
from .interp import Interp, Unsupported, flat
from .state import St
from .terms import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("DGCHECK_EVIDENCE", os.path.join(HERE, "evidence"))


class Check:
    """one property being decided on one source tree"""

    def __init__(self, pid, repo, tier="quick"):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.obligations = []        # (name, status, detail)
        self.violations = []         # dicts
        self.functions, self.paths, self.events = set(), 0, 0
        self.loops, self.sites = 0, 0
        self.rules = {}
        self.interps = []
        self.assumptions = []
        self.group_name = ""
        self.notes = []

    # -------------------------------------------------------- interpreter
    def interp(self, **kw):
        I = Interp(self.repo, **kw)
        self.interps.append(I)
        return I

    def count(self, outs):
        self.paths += len(outs)
        for _, _, s in outs:
            self.events += sum(1 for _ in flat(s.events()))
        return outs

    def run(self, I, qual, args, kws=(), st=None, consume=False):
        f = self.repo.func(qual)
        fv = I.modglobal(f.mod, f.name) if f.cls is None and f.parent is None \
            else I.fnterm(f.qual)
        self.functions.add(f.qual)
        I.nid = max([I.nid] + [x.nid for x in self.interps])   # no object is named twice
        r = (I.run_consume if consume else I.run)(fv, args, kws, st)
        if not r:
            raise Undecided(qual, "no path through it was found")
        return self.count(r)

    def runv(self, I, fv, args, kws=(), st=None, consume=False):
        I.nid = max([I.nid] + [x.nid for x in self.interps])   # no object is named twice
        r = (I.run_consume if consume else I.run)(fv, args, kws, st)
        if not r:
            raise Undecided(show(fv)[:60], "no path through it was found")
        return self.count(r)

    # -------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    @contextlib.contextmanager
    def group(self, name):
        """obligations decided together; a construct outside the analysed
        language leaves them undecided, never violated"""
        prev, self.group_name = self.group_name, name
        nv = len(self.violations)
        no = len(self.obligations)
        try:
            yield
            if len(self.obligations) == no:
                self.und("nothing recognised", "no obligation arose")
        except AnalysisBroken:
            raise
        except Undecided as e:
            self.und(e.what, e.why)
        except Unsupported as e:
            line = getattr(self.interps[-1].node, "lineno", "?") if self.interps else "?"
            self.und("analysis", f"{type(e).__name__}: {e} (near line {line})")
        except RecursionError:
            self.und("analysis", "recursion limit")
        except Exception as e:
            del self.violations[nv:]
            tb = traceback.extract_tb(e.__traceback__)
            self.und("analysis", f"internal {type(e).__name__}: {e} at "
                     + " <- ".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb[::-1][:4]))
            if os.environ.pop("DGCHECK_DEBUG", None):
                traceback.print_exc()
        finally:
            self.group_name = prev

    def _n(self, name):
        return f"{self.group_name}: {name}" if self.group_name else name

    def ok(self, name, detail=""):
        self.obligations.append((self._n(name), "held", detail))

    def und(self, name, why):
        self.obligations.append((self._n(name), "undecided", why))

    def bad(self, name, rule, loc, msg, trace=()):
        self.obligations.append((self._n(name), "violated", msg))
        fn = loc[2] if loc and len(loc) > 2 else str(loc)
        where = f"{loc[0]}:{loc[1]}" if loc and len(loc) > 1 else str(loc)
        v = dict(rule=rule, function=fn, where=where, obligation=self._n(name), message=msg,
                 path=[ev_text(e) for e in trace][:60],
                 key=f"{rule}|{fn}|{slug(msg)}")
        if v["key"] not in [x["key"] for x in self.violations]:
            self.violations.append(v)

    def must(self, cond, name, rule, loc, msg, trace=()):
        """cond True -> held, False -> violated, None -> undecided"""
        if cond is None:
            self.und(name, msg)
        elif cond:
            self.ok(name)
        else:
            self.bad(name, rule, loc, msg, trace)
        return bool(cond)


class Undecided(Exception):
    def __init__(self, what, why=""):
        self.what, self.why = what, why


def slug(s):
    return re.sub(r"[^a-z0-9]+", "-", re.sub(r"\b\d+\b", "", s.lower())).strip("-")[:90]


def ev_text(e):
    if e[0] == "loop":
        return f"loop over {show(e[2])} at {e[4][0]}:{e[4][1]}"
    loc = next((x for x in reversed(e) if isinstance(x, tuple) and len(x) == 3
                and isinstance(x[0], str) and x[0].endswith(".py")), None)
    args = [show(x) if isinstance(x, tuple) else str(x) for x in e[1:] if x is not loc]
    if e[0] == "call":
        args = [show(e[4])] if len(e) > 4 else args
    return f"{e[0]} {' '.join(args)[:200]}" + (f" at {loc[0]}:{loc[1]}" if loc else "")


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def decide_property(pid, root=None, tier="quick"):
    from . import rules
    fn, explanation = rules.RULES[pid]
    repo = Repo(root) if not isinstance(root, Repo) else root
    c = Check(pid, repo, tier)
    fn(c)
    for I in c.interps:
        c.functions |= I.inlined
        c.loops += len(I.loops)
    if not c.obligations:
        raise AnalysisBroken("no obligation was attempted")
    return c, explanation


def main(argv):
    pid = argv[0]
    if pid == "--selftest":
        from . import rules
        r = Repo()
        print(f"{len(rules.RULES)} rules; parsed {len(r.modules)} modules, {len(r.funcs)} functions")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        c, explanation = decide_property(pid, None, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    known = known_findings(pid)
    fresh = [v for v in c.violations if v["key"] not in known]
    listed = [v for v in c.violations if v["key"] in known]
    os.makedirs(EVIDENCE, exist_ok=True)
    held = sum(1 for o in c.obligations if o[1] == "held")
    und = [o for o in c.obligations if o[1] == "undecided"]
    extra = {}
    if tier == "thorough":
        from . import sensitivity
        extra = sensitivity.measure(pid, c)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "source_digest": c.repo.digest.hexdigest()[:16],
            "modules_parsed": len(c.repo.modules),
            "functions_analysed": sorted(f.split("dustgoggles.", 1)[-1] for f in c.functions),
            "abstract_paths": c.paths, "events_on_paths": c.events,
            "loops_summarised": c.loops, "sites": c.sites,
            "obligations": len(c.obligations), "discharged": held,
            "undecided": [dict(obligation=o[0], why=o[2]) for o in und],
            "rules": c.rules,
            "samples": [dict(obligation=o[0], status=o[1]) for o in c.obligations[:40]],
            **extra,
        },
        "assumptions": c.assumptions, "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    rep = os.path.join(EVIDENCE, f"{pid}.violations.json")
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in listed:
        print(f"KNOWN-FINDING: property={pid} {known[v['key']]}")
    for o in und:
        print(f"UNDECIDED property={pid} {o[0]}: {o[2]}")
    print(f"{pid}: {held} of {len(c.obligations)} obligations held, {len(und)} undecided, "
          f"{len(fresh)} violated; {len(c.functions)} functions, {c.paths} abstract paths, "
          f"{ev['wall_s']} s")
    if fresh:
        with open(rep, "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh:
            print(f"  {v['where']} [{v['rule']}] in {v['function']}: {v['message']}")
            for line in v["path"][:25]:
                print(f"      {line}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    return 0
