"""Regenerates properties.jsonl and MANIFEST.json from the META of every check and na.py."""
import glob, importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [f"{V}/lib", f"{V}/checks"]


def load(p):
    spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def prop(pid, M):
    return {"id": pid, "title": M["title"], "statement": M["statement"], "quantifier": {"over": M["over"], "text": M["quant"]},
            "why_tests_cant": M["why"], "anchors": {"files": M["files"], "mechanism": [{"name": a, "where": b} for a, b in M["mech"]]}}


props, checks, na = [], [], []
for p in sorted(glob.glob(f"{V}/checks/c[0-9]*.py")):
    M = load(p).META
    pid = os.path.basename(p)[:-3].upper()
    assert len(M["title"]) <= 80, (pid, len(M["title"]))
    props.append(prop(pid, M))
    checks.append({"property": pid, "quick_cmd": f"python3 checks/{pid.lower()}.py", "thorough_cmd": f"python3 checks/{pid.lower()}.py",
                   "technique": M["technique"], "level": "other", "level_note": M["note"]})
for pid, M, why in load(f"{V}/lib/na.py").NA:
    assert len(M["title"]) <= 80, pid
    props.append(prop(pid, M))
    na.append({"property": pid, "reason": why})
with open(f"{V}/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks read the facts of /repo's current sources (clang AST of every C file including the generated ones, regenerated on each run)."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    for l in open(f"{V}/properties.jsonl"):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(f"{V}/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("(no schema validation: run with python3-vt)")
print(len(checks), "checks,", len(na), "not applicable")
