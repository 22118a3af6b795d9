#!/usr/bin/env python3
"""writes DESIGN.md: tools/design/head.md, one entry per property, tools/design/tail.md"""
import json, os, sys, textwrap
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from dgcheck.rules import RULES
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = json.load(open(os.path.join(here, "tools", "matrix.json")))
notes = json.load(open(os.path.join(here, "tools", "design", "notes.json")))
seeds = sorted(os.listdir(os.path.join(here, "seeded")))


def wrap(s, first="", rest="  "):
    return textwrap.fill(" ".join(s.split()), 120, initial_indent=first, subsequent_indent=rest,
                         break_long_words=False, break_on_hyphens=False)


out = [open(os.path.join(here, "tools/design/head.md")).read()]
for p in props:
    i = p["id"]
    if i not in RULES:
        continue
    out.append(f"### {i}  {p['title']}\n")
    out.append(wrap("Why not tests: " + p["why_tests_cant"], "* ") )
    out.append(wrap("Method: " + RULES[i][1], "* "))
    try:
        ev = json.load(open(os.path.join(here, "evidence", i + ".json")))["coverage"]
    except OSError:
        ev = None
    if ev:
        for r, t in ev["rules"].items():
            out.append(wrap(f"rule *{r}*: {t}", "  * ", "    "))
        n = sum(1 for f in ev["functions_analysed"])
        out.append(wrap(f"Size: about {n} functions, {ev['abstract_paths']} abstract paths, {ev['obligations']} obligations"
                        + (f", {len(ev['undecided'])} undecided ({ev['undecided'][0]['obligation']}: "
                           f"{ev['undecided'][0]['why'][:140]})" if ev["undecided"] else "") + ".", "* "))
    own = [s for s in seeds if s.startswith(i + "-")]
    other = [s for s in seeds if not s.startswith(i + "-") and i in m.get(s, [])]
    out.append(wrap("Planted bugs reported: " + ", ".join([f"**{s}**" for s in own] + other) + ".", "* "))
    if i in notes:
        out.append(wrap(notes[i], "* "))
    out.append("")
out.append(open(os.path.join(here, "tools/design/tail.md")).read())
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
