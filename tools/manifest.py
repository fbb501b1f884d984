"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks as C
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = dict(C.NOT_APPLICABLE) if hasattr(C, "NOT_APPLICABLE") else {}
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[],
         notes="All checks: python3 run.py check ID [--tier quick|thorough]; a reported case is re-run with python3 run.py replay FILE. "
               "The checks need no hooks in /repo: they compile its sources as they are. See DESIGN.md.")
for p in props:
    if p in C.CHECKS:
        c = C.CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"python3 run.py check {p} --tier quick",
            thorough_cmd=f"python3 run.py check {p} --tier thorough", technique=c["tech"], level=c["level"],
            level_note=c["note"], evidence_file=f"evidence/{p}.json"))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "No check built yet.")))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(m["checks"]), len(m["not_applicable"]))
except ImportError: print("not validated")
