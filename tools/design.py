"""Writes DESIGN.md from design_head.md, checks.py, properties.jsonl, known_findings.json, seeded/ and design_tail.md."""
import sys, os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks as C
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
out = open(f"{V}/tools/design_head.md").read().rstrip() + "\n\n"
extra = json.load(open(f"{V}/tools/design_extra.json")) if os.path.exists(f"{V}/tools/design_extra.json") else {}
for p in P:
    out += f"### {p['id']} - {p['title']}\n\n"
    if p["id"] in C.CHECKS:
        c = C.CHECKS[p["id"]]
        parts = ", ".join(sorted({C.BINARIES[b]["srcs"][0] + f" `{m}`" for b, m in c["parts"]}))
        fl = sorted({C.BINARIES[b]["fl"] for b, _ in c["parts"]}); tf = sorted({C.BINARIES[b]["fl"] for b, _ in c.get("thorough_parts", [])})
        out += f"*Specified:* {p['statement']}\n\n"
        out += f"*Technique:* {c['tech']}.\n\n*Enumerated:* {c['bound']}.\n\n*Oracle:* {c['note']}\n\n"
        out += f"*Why tests cannot settle it:* {p['why_tests_cant']}\n\n"
        if p["id"] in extra: out += f"*Remarks:* {extra[p['id']]}\n\n"
        out += f"*Runs as:* {parts}; builds {', '.join(fl)}" + (f" (thorough also {', '.join(tf)})" if tf else "") + ".\n\n"
    else: out += "Not claimed; see below.\n\n"
tail = open(f"{V}/tools/design_tail.md").read()
k = json.load(open(f"{V}/known_findings.json"))
fx = "| property | commit | what failed |\n|---|---|---|\n"
for l in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l); fx += f"| {m[1]} | {m[2]} | {m[3]} |\n"
rs = json.load(open(f"{V}/tools/seed_results.json")) if os.path.exists(f"{V}/tools/seed_results.json") else {}
sd = "| change | what it breaks | needs | caught by | missed by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); r = rs.get(i, {})
    sd += f"| {i} ({m['property']}) | {m['what_it_breaks']} | {m['needs']} | {' '.join(x for x in r if r[x]==1) or '-'} | {' '.join(x for x in r if r[x]==0) or '-'} |\n"
mu = open(f"{V}/tools/design_mutants.md").read() if os.path.exists(f"{V}/tools/design_mutants.md") else ""
out += tail.replace("@@FIXES@@", fx.rstrip()).replace("@@SEEDS@@", sd.rstrip()).replace("@@MUTANTS@@", mu.rstrip())
open(f"{V}/DESIGN.md", "w").write(out.rstrip() + "\n")
