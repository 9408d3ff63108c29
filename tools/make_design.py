"""Writes /verif/DESIGN.md: hand-written design text, and per property the rule, bounds and assumptions taken from the check itself, and the catch matrix from tools/bugs_*.py."""
import importlib, importlib.util, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
NOTES = {}
for part in open(os.path.join(V, "tools", "design_notes.md")).read().split("\n## ")[1:]:
    k, body = part.split("\n", 1)
    NOTES[k.strip()] = body.strip()
bugs = []
for f in sorted(glob.glob(V + "/tools/bugs_*.py")):
    s = importlib.util.spec_from_file_location("b", f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    bugs += m.BUGS
out = [HEAD.rstrip(), "", "## Properties", ""]
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    P = importlib.import_module("prn.props." + d["id"].lower()).PROP
    out += [f"### {d['id']} {d['title']}", "", NOTES[d["id"]], "",
            f"*Workload.* {P.rule[0].upper() + P.rule[1:]}.",
            f"*Bounds.* {P.cases['quick']} generated cases (quick), {P.cases['thorough']} (thorough)" + (f", plus {len(P.fixed())} fixed large or special ones" if P.fixed() else "")
            + f"; a run is inconclusive (exit 2) unless the monitor saw at least: {', '.join(f'{k} {n}' for k, n in P.need.items())}.",
            *([f"*Assumes.* {'; '.join(P.assumptions)}."] if P.assumptions else []), ""]
out += ["## Planted bugs and what catches them", "",
        "Every one passes the repository's stable tests, has a demonstration, and is caught by the quick check of its own property (confirmed with `tools/plant.py --check`).", "",
        "| bug | caught by | needs |", "|---|---|---|"]
for b in sorted(bugs, key=lambda b: b["id"]):
    out.append(f"| {b['id']} | {b['property']} | {b['needs']} |")
out += ["", TAIL.rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
