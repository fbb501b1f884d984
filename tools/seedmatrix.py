#!/usr/bin/env python3
"""Runs checks against planted bugs: seedmatrix.py [SEED-ID[:P01,P02]...] (default: every seed against its own property's check).
Results are merged into tools/seed_results.json (1 caught, 0 missed)."""
import sys, os, json, glob, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT", "/tmp/vpseeds"); RES = f"{V}/tools/seed_results.json"
todo = sys.argv[1:] or [os.path.basename(os.path.dirname(d)) for d in sorted(glob.glob(f"{V}/seeded/*/meta.json"))]
for t in todo:
    i, _, ps = t.partition(":")
    ps = ps.split(",") if ps else [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
    shutil.rmtree(f"{BASE}/repo", ignore_errors=True); os.makedirs(f"{BASE}/repo")
    subprocess.run(f"git -C /repo archive HEAD dpf dcf pir | tar -x -C {BASE}/repo && cd {BASE}/repo && patch -s -p1 < {V}/seeded/{i}/patch.diff", shell=True, check=True)
    env = dict(os.environ, VP_REPO=f"{BASE}/repo", VP_BUILD=f"{BASE}/build", VP_EVIDENCE=f"{BASE}/evidence")
    for p in ps:
        r = subprocess.run(["python3", f"{V}/run.py", "check", p], capture_output=True, text=True, env=env)
        print(i, p, r.returncode, "VIOLATION" in r.stdout, flush=True)
        if r.returncode in (0, 1):
            d = json.load(open(RES)) if os.path.exists(RES) else {}
            d.setdefault(i, {})[p] = r.returncode
            json.dump(d, open(RES, "w"), indent=1, sort_keys=True)
        else: print(r.stdout[-600:])
