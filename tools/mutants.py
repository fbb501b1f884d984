#!/usr/bin/env python3
"""Systematic small changes of the code under test, each run against the checks
of the parts it touches until one reports it. Usage:
  mutants.py OUT.jsonl [N] [SEED] [FILE-SUBSTRING]
Works on a scratch copy of /repo's HEAD under /tmp; prints survivors at the end."""
import json, os, random, re, subprocess, sys, shutil
OUT = sys.argv[1]; N = int(sys.argv[2]) if len(sys.argv) > 2 else 100
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
SUB = sys.argv[4] if len(sys.argv) > 4 else ""
BASE = os.environ.get("MUT", "/tmp/vpmutants")
REPO, BUILD, EV = BASE + "/repo", BASE + "/build", BASE + "/evidence"
CHECKS = [
    (r"^dpf/internal/evaluate_prg|aes_128_fixed_key_hash_hwy|get_hwy", "P11 P01"),
    (r"^dpf/aes_128_fixed_key_hash", "P12 P28"),
    (r"^dpf/internal/maybe_deref", "P30"),
    (r"^dpf/internal/proto_validator", "P09 P10 P02"),
    (r"^dpf/internal/value_type", "P06 P08 P05 P09"),
    (r"^dpf/int_mod_n", "P08 P07 P05 P06"),
    (r"^dpf/(tuple|xor_wrapper)", "P07 P06 P05"),
    (r"^dpf/distributed", "P01 P10 P02 P04 P03 P09 P05 P33 P30"),
    (r"^dcf/distributed", "P13 P15 P30"),
    (r"^dcf/fss_gates/prng", "P17"),
    (r"^dcf/fss_gates", "P14 P15 P33"),
    (r"^pir/internal", "P24 P18"),
    (r"^pir/hashing/sha256|farm|hash_family", "P27 P29"),
    (r"^pir/hashing/(simple|multiple)", "P25"),
    (r"^pir/hashing/cuckoo", "P26"),
    (r"^pir/prng", "P16 P22"),
    (r"^pir/dense_dpf_pir_database", "P23 P24 P18 P29"),
    (r"^pir/simple_hashed|^pir/cuckoo_hashed", "P23 P19 P20 P29"),
    (r"^pir/dense", "P18 P29 P22 P21"),
    (r"^pir/simple", "P19 P29 P22 P21"),
    (r"^pir/cuckoo", "P20 P29 P22 P21"),
    (r"^pir/dpf_pir", "P21 P29 P22 P18"),
]
OPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
       (" + ", " - "), (" - ", " + "), (" * ", " + "), (" << ", " >> "), (" >> ", " << "), (" && ", " || "), (" || ", " && "),
       (" & ", " | "), (" | ", " & "), (" ^ ", " | "), (" ^= ", " |= "), (" += ", " -= "), (" += ", " = "), (" ^= ", " = "), (" - 1", ""), (" + 1", ""),
       ("true", "false"), ("false", "true"), ("++", "--"), ("high", "low"), ("low", "high"), ("left", "right"), ("right", "left"),
       ("std::min", "std::max"), ("std::max", "std::min"), (".first", ".second"), (".second", ".first"), ("[0]", "[1]"), ("[1]", "[0]"),
       ("continue;", "break;"), (".ok()", ".ok() || true"), ("size() - ", "size() + "), (".empty()", ".size() > 1")]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def files():
    r = []
    for f in sh("git ls-files dpf dcf pir", cwd="/repo").stdout.split():
        if not f.endswith((".cc", ".h")) or re.search(r"_test\.|benchmark|testing/|status_matchers|canonical_status|status_macros|_pir_client.h|_server.h|interface|pair.h|mock", f): continue
        if SUB in f: r.append(f)
    return r
def mutants(f):
    L = open("/repo/" + f).read().split("\n")
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "namespace", "using", "template", "ABSL_D", "DCHECK")) or "include" in s or "StrCat" in s: continue
        if re.match(r'^"', s): continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(re.escape(a), code):
                if code[:m.start()].count('"') % 2: continue
                if a in ("++",) and "operator" in code: continue
                if a in (" < ", " > ", " << ", " >> ") and "template" in code: continue
                yield i, code[:m.start()] + b + code[m.end():], f"{a.strip()} -> {b.strip()}"
        for m in re.finditer(r"(?<![\w.{x])(\d+)(?![\w.])", code):
            if code[:m.start()].count('"') % 2: continue
            yield i, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], f"{m.group(1)} + 1"
        m = re.match(r"^(\s*)if \((.*)\) \{\s*$", code)
        if m:
            yield i, f"{m.group(1)}if (false && ({m.group(2)})) {{", "if never"
        if s.endswith(";") and L[i-1].strip().endswith((";", "{", "}")) and not re.match(r"^(return|const|auto|int|bool|absl::|std::\w+<|using|DPF_ASSIGN|static|constexpr|break|continue|\}|private|explicit|~|virtual|typedef|uint|size_t|T |T1|T2|inline|friend|void|struct|class)", s) and "(" in s or re.match(r"^[\w.\[\]\->]+ [\^+\-|&]?= .*;$", s) and L[i-1].strip().endswith((";", "{", "}")):
            yield i, "  ;", "statement removed"
rnd = random.Random(SEED)
all_ = []
for f in files():
    ms = list(mutants(f))
    rnd.shuffle(ms)
    all_.append((f, ms))
# Round robin weighted by the square root of the number of mutants.
pick = []
w = {f: max(1, int(len(ms) ** .5 + .5)) for f, ms in all_ if ms}
while len(pick) < N and any(ms for _, ms in all_):
    for f, ms in all_:
        for _ in range(w.get(f, 0) // 4 + 1 if ms else 0):
            if ms: pick.append((f,) + ms.pop())
rnd.shuffle(pick)
pick = pick[:N]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
os.makedirs(BASE, exist_ok=True)
shutil.rmtree(REPO, ignore_errors=True); os.makedirs(REPO)
sh(f"git -C /repo archive HEAD dpf dcf pir | tar -x -C {REPO}")
env = dict(os.environ, VP_REPO=REPO, VP_BUILD=BUILD, VP_EVIDENCE=EV)
surv = []
for f, i, new, what in pick:
    if (f, i + 1, new.strip()) in done: continue
    p = f"{REPO}/{f}"; src = open("/repo/" + f).read(); L = src.split("\n"); old = L[i]
    if new.rstrip() == old.rstrip(): continue
    L[i] = new
    open(p, "w").write("\n".join(L))
    ids = next((c for r, c in CHECKS if re.search(r, f)), "P01").split()
    res, log = "survived", []
    for c in ids:
        try:
            r = subprocess.run(["timeout", "-k", "5", "400", "python3", "/verif/run.py", "check", c], capture_output=True, text=True, env=env)
        except Exception as e:
            res = "error"; break
        log.append(f"{c}:{r.returncode}")
        if r.returncode == 1: res = "killed"; break
        if r.returncode == 124: res = "timeout"; break
        if r.returncode != 0:
            res = "no build" if "build failed" in r.stdout else "no answer"
            if res == "no answer": log.append(r.stdout[-300:])
            break
    open(p, "w").write(src)
    d = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), what=what, result=res, checks=log)
    open(OUT, "a").write(json.dumps(d) + "\n")
    if res not in ("killed", "no build"): print(json.dumps(d), flush=True)
