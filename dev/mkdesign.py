#!/usr/bin/env python3
"""Assemble DESIGN.md from dev/design_head.md, the checks' META, lib/na.py, seeded/*/meta.json and KNOWN_FINDINGS.txt."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
import na
out = [open(V + "/dev/design_head.md").read().rstrip(), "", "## Properties", ""]
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((f.split("/")[-2], m))
for f in sorted(glob.glob(V + "/checks/c[0-9]*.py")):
    n = os.path.basename(f)[:-3]
    M = importlib.import_module(n)
    m = M.META
    pid = n.upper()
    out += [f"### {pid} {m['title']}", "", m["statement"], ""]
    out += [f"*Decided by* {m['technique']}.", "", f"*What is quantified:* {m['quant']}.", "", f"*Bounds, oracle, assumptions:* {m['note']}", "", f"*Beyond the tests:* {m['why']}", ""]
    if m.get("design"):
        out += [m["design"], ""]
    ex = [k for k in dir(M) if k.isupper() and isinstance(getattr(M, k), dict) and k in ("EXEMPT", "NOTPAIR", "ALLOW") and getattr(M, k)]
    for k in ex:
        out += [f"Exempt constructs with their reasons: `{k}` in checks/{n}.py ({len(getattr(M, k))} entries).", ""]
    if pid in seeds:
        out += ["Planted bugs (each caught by this check unless noted):", ""]
        for i, s in seeds[pid]:
            out.append(f"* `{i}`: {s['what_it_breaks']} (needs {s['needs']})" + (f" – **missed**: {s['missed']}" if s.get("missed") else ""))
        out.append("")
out += ["## Not applicable", ""]
for i, p, why in na.NA:
    out.append(f"* **{i} {p['title']}** – {why}")
if not na.NA:
    out.append("(none yet)")
out += ["", "## Defects found in libfirm", "", "Repaired in /repo (`fix:` commits); each check reports the defect again if it returns:", ""]
for l in open(V + "/KNOWN_FINDINGS.txt"):
    if l.startswith("fixed:"):
        out.append("* " + l[6:].strip())
k = [l for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith("known:")]
if k:
    out += ["", "Recorded, not repaired:", ""] + ["* " + l[6:].strip() for l in k]
tail = V + "/dev/design_tail.md"
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
