#!/usr/bin/env python3
"""bug.py ID PROPERTY: reads /tmp/sb/ID.edit (blocks: '@@ file', '<<<', old, '===', new, '>>>'),
makes /verif/seeded/ID/patch.diff; needs/what from '#needs ' and '#breaks ' lines; 'parts' from '#parts '."""
import sys, subprocess, json, os, re
id, = sys.argv[1:2]
t = open(f"/tmp/sb/{id}.edit").read()
h = dict(re.findall(r"^#(\w+) (.*)$", t, re.M))
subprocess.run("git checkout -q .", shell=True, cwd="/tmp/sb/repo", check=True)
f = None
for m in re.finditer(r"^@@ (\S+)$|^<<<\n(.*?)^===\n(.*?)^>>>$", t, re.M | re.S):
    if m.group(1): f = "/tmp/sb/repo/" + m.group(1); continue
    s = open(f).read()
    assert s.count(m.group(2)) == 1, (f, s.count(m.group(2)), m.group(2))
    open(f, "w").write(s.replace(m.group(2), m.group(3)))
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run("git diff", shell=True, cwd="/tmp/sb/repo", capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": h["prop"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/parts", "w").write(h["parts"] + "\n")
demo = t.split("#demo\n", 1)[1]
open(d + "/demo.cc", "w").write(demo)
