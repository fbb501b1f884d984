"""Runs the repository's own *_test.cc files that its offline build leaves out,
against the shims, to see that fixes do not disturb them.  Not used by checks."""
import os, sys, glob, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ["VP_MIRROR"] = "/repo"
import build as B
bd = "/tmp/ut"
os.makedirs(bd, exist_ok=True)
n = B.Ninja(bd)
for g in B.PROTOS:
    for rel in B.expand(B.PROTOS[g]): n.proto(rel)
libs = []
for g in ("dpf", "dcf", "hash", "prng", "pir"): libs += n.group(g, "opt")
for x in ("dpf/internal/status_matchers.cc",): libs.append(n.obj(f"/repo/{x}", f"{bd}/opt/{x}.o", "opt"))
for x in glob.glob("/repo/pir/testing/*.cc"):
    if "_test" not in x and "pir_selection_bits" not in x and "encrypt_decrypt" not in x: libs.append(n.obj(x, f"{bd}/opt/{os.path.basename(x)}.o", "opt"))
libs.append(n.obj(f"{V}/tools/fake_tink.cc", f"{bd}/opt/fake_tink.o", "opt"))
n.lines.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n")
n.lines.append(f"build {bd}/all.a: ar {' '.join(sorted(set(libs)))}\n")
bins = []
n.lines = [l.replace("-lprotobuf", "-lprotobuf -lbenchmark") if l.startswith("rule link") else l for l in n.lines]
for t in sorted(glob.glob("/repo/**/*_test.cc", recursive=True)):
    if "_build" in t: continue
    rel = os.path.relpath(t, "/repo")
    with open(t) as f: extra = f"-include {V}/compat/vp_cord.h" if "SerializeAsCord" in f.read() else ""
    o = n.obj(t, f"{bd}/t/{rel}.o", "opt", extra)
    out = f"{bd}/bin/" + rel.replace("/", "_")[:-3]
    n.lines.append(f"build {out}: link_opt {o} {bd}/all.a /usr/lib/x86_64-linux-gnu/libgtest_main.a /usr/lib/x86_64-linux-gnu/libgmock.a /usr/lib/x86_64-linux-gnu/libgtest.a\n  ldextra =\n")
    bins.append(out)
os.makedirs(bd + "/gen/dpf/internal", exist_ok=True)
txt = open("/repo/dpf/internal/proto_validator_test.textproto").read()
open(bd + "/gen/dpf/internal/proto_validator_test_textproto_embed.h", "w").write(
    "#include <cstddef>\nstruct FileToc { const char* name; const char* data; size_t size; };\n"
    "inline const FileToc* proto_validator_test_textproto_embed_create() { static const char d[] = R\"VP(" + txt +
    ")VP\"; static const FileToc t[] = {{\"x\", d, sizeof d - 1}, {nullptr, nullptr, 0}}; return t; }\n")
n.write()
r = subprocess.run(["ninja", "-C", bd, "-k", "0"] + bins, capture_output=True, text=True)
for l in r.stdout.splitlines():
    if l.startswith("FAILED") or "error:" in l or "undefined reference" in l: print(l[:200])
def run(b):
    if not os.path.exists(b): return b, "NOT BUILT"
    try: p = subprocess.run([b], capture_output=True, text=True, timeout=600, cwd="/repo")
    except subprocess.TimeoutExpired: return b, "timeout"
    bad = [l for l in p.stdout.splitlines() if l.startswith("[  FAILED") ]
    return b, f"rc={p.returncode} " + (p.stdout.splitlines()[-1] if p.stdout else "") + "".join("\n   " + x for x in bad[:10]) + ("\n  " + p.stderr[-500:] if p.returncode and not bad else "")
with cf.ThreadPoolExecutor(8) as ex:
    for b, s in ex.map(run, bins): print(os.path.basename(b), s)
