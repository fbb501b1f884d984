#!/usr/bin/env python3
"""Driver of all checks:  run.py setup | check ID [--tier T] | replay FILE | list"""
import sys, os, json, time, subprocess, hashlib, shutil, fcntl, signal
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
MIRROR = os.path.join(BUILD, "repo")
os.environ["VP_MIRROR"] = MIRROR
NSHARDS = int(os.environ.get("VP_SHARDS", "8"))
import build as B
START = time.time()
import checks as C

class CheckError(Exception):
    pass

def mirror():
    """Copies /repo's sources by content, so that an unchanged file keeps its
    time stamp and a changed one is rebuilt whatever its time stamp says."""
    want = set()
    for top in ("dpf", "dcf", "pir"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in files:
                if not f.endswith((".cc", ".h", ".proto", ".inc", ".hpp", ".c", ".def")):
                    continue
                src = os.path.join(d, f)
                rel = os.path.relpath(src, REPO)
                want.add(rel)
                dst = os.path.join(MIRROR, rel)
                with open(src, "rb") as fh:
                    data = fh.read()
                try:
                    with open(dst, "rb") as fh:
                        if fh.read() == data:
                            continue
                except OSError:
                    pass
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(dst, "wb") as fh:
                    fh.write(data)
    for d, dirs, files in os.walk(MIRROR):
        for f in files:
            p = os.path.join(d, f)
            if os.path.relpath(p, MIRROR) not in want:
                os.unlink(p)

def make(bins):
    os.makedirs(BUILD, exist_ok=True)
    mirror()
    n = B.Ninja(BUILD)
    for name, spec in C.BINARIES.items():
        n.binary(name, **spec)
    n.write()
    r = subprocess.run(["ninja", "-f", "build.ninja", "-C", BUILD, "-k", "0"] +
                       [f"{BUILD}/bin/{b}" for b in bins],
                       capture_output=True, text=True)
    if r.returncode != 0:
        out = r.stdout
        i = out.find("FAILED")
        raise CheckError("build failed:\n" + out[i:i + 6000])

ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
                        "detect_stack_use_after_return=0:max_allocation_size_mb=3000",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=78:print_stacktrace=1")

def launch(binary, mode, tier, seed, shard, work, skip=(), only=None, timeout=None):
    tag = f"{binary}.{mode}.{shard[0]}"
    out, crumb, err = (f"{work}/{tag}.{x}" for x in ("json", "crumb", "err"))
    for f in (out, crumb):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [f"{BUILD}/bin/{binary}", "--tier", tier, "--mode", mode, "--seed", str(seed),
           "--shard", f"{shard[0]}/{shard[1]}", "--out", out, "--crumb", crumb]
    if only is not None:
        cmd += ["--only", only]
    for s in skip:
        cmd += ["--skip", s]
    if timeout:
        cmd += ["--case-timeout", str(timeout)]
    p = subprocess.Popen(cmd, stdout=open(err, "wb"), stderr=subprocess.STDOUT, env=ENV,
                         cwd=work, preexec_fn=os.setsid)
    return dict(p=p, out=out, crumb=crumb, err=err)

def finish(l):
    rc = l["p"].wait()
    res = None
    if rc == 0:
        try:
            with open(l["out"]) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
    key = ""
    try:
        with open(l["crumb"], "rb") as f:
            key = f.read().split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        pass
    with open(l["err"], "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 6000))
        err = f.read().decode("utf-8", "replace")
    return rc, res, key, err

def crash_sig(rc, err):
    if rc == -signal.SIGALRM:
        return "hang"
    if rc in (77, 78):
        for line in err.splitlines():
            if "ERROR: AddressSanitizer:" in line:
                return "asan:" + line.split("AddressSanitizer:")[1].split()[0]
            if "runtime error:" in line:
                return "ubsan:" + " ".join(line.split("runtime error:")[1].split()[:4])
        return "sanitizer"
    if rc < 0:
        return "crash:" + signal.Signals(-rc).name
    return f"exit:{rc}"

def run_part(binary, mode, tier, seed, work):
    """Runs one harness in shards; returns merged counters and failures."""
    tot = dict(cases=0, states=0, transitions=0, traces=0, counts={}, samples=[], failures=[])
    per_case = 120 if tier == "quick" else 1200
    skips = {i: [] for i in range(NSHARDS)}
    pending = {i: launch(binary, mode, tier, seed, (i, NSHARDS), work, timeout=per_case)
               for i in range(NSHARDS)}
    results = {}
    while pending:
        again = {}
        for i, l in pending.items():
            rc, res, key, err = finish(l)
            if res is not None:
                results[i] = res
                continue
            if not key:
                raise CheckError(f"{binary} {mode} shard {i} ended with {rc} before its first case:\n{err}")
            sig = crash_sig(rc, err)
            if tot["failures"] and (sig == "hang" or time.time() - START > 400):
                skips[i].append(key)
                continue  # a violation is confirmed; the rest of this shard is not explored
            # Replay before report: alone, with a longer limit for hangs.
            rc2, res2, _, err2 = finish(launch(binary, mode, tier, seed, (900 + i, NSHARDS), work, only=key,
                                               timeout=per_case * (2 if sig == "hang" else 1)))
            if res2 is not None and not res2["failures"]:
                if sig == "hang":
                    again[i] = launch(binary, mode, tier, seed, (i, NSHARDS), work, skips[i], timeout=per_case * 3)
                    continue
                raise CheckError(f"{binary} {mode}: case {key} ended with {sig} once but not when replayed:\n{err}")
            if res2 is not None:
                tot["failures"] += [dict(f, binary=binary, mode=mode) for f in res2["failures"]]
            else:
                tot["failures"].append(dict(key=key, sig=crash_sig(rc2, err2), msg=err2[-2500:], binary=binary, mode=mode))
            skips[i].append(key)
            if len(skips[i]) > 6 or sig == "hang" or time.time() - START > 400:
                continue  # enough crashes to report; the rest of this shard is not explored
            again[i] = launch(binary, mode, tier, seed, (i, NSHARDS), work, skips[i], timeout=per_case)
        pending = again
    totals = {r["cases_total"] for r in results.values()}
    if len(totals) > 1:
        raise CheckError(f"{binary} {mode}: shards enumerated different spaces: {totals}")
    for i in sorted(results):
        r = results[i]
        tot["cases"] += r["cases_run"]
        for k in ("states", "transitions", "traces"):
            tot[k] += r[k]
        for k, v in r["counts"].items():
            tot["counts"][k] = tot["counts"].get(k, 0) + v
        tot["samples"] += r["samples"][:2]
        tot["failures"] += [dict(f, binary=binary, mode=mode) for f in r["failures"]]
    tot["complete"] = len(results) == NSHARDS and not any(skips.values())
    return tot

def known():
    out = []
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        for e in json.load(f)["findings"]:
            out.append(e)
    return out

def is_known(pid, f, entries):
    for e in entries:
        if e["property"] == pid and e["sig"] == f["sig"] and f["key"] in e["keys"]:
            return e
    return None

def check(pid, tier):
    t0 = time.time()
    spec = C.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    parts = spec["parts"] + (spec.get("thorough_parts", []) if tier == "thorough" else [])
    make(sorted({b for b, _ in parts}))
    work = os.path.join(BUILD, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tb = time.time()
    tots = []
    for binary, mode in parts:
        t = time.time()
        tot = run_part(binary, mode, tier, seed, work)
        tot["name"] = f"{binary}:{mode}"
        tot["wall_s"] = round(time.time() - t, 1)
        tots.append(tot)
        if any(f["sig"] == "hang" for f in tot["failures"]):
            break  # every other part may hang as well
    entries = known()
    unknown, seen_known = [], {}
    for tot in tots:
        for f in tot["failures"]:
            e = is_known(pid, f, entries)
            if e:
                seen_known.setdefault(e["what"], 0)
                seen_known[e["what"]] += 1
            else:
                unknown.append(f)
    ev_dir = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ev_dir, exist_ok=True)
    cov = dict(
        states=sum(t["states"] for t in tots), transitions=sum(t["transitions"] for t in tots),
        traces_validated_against_impl=sum(t["traces"] for t in tots),
        cases=sum(t["cases"] for t in tots),
        samples=[s for t in tots for s in t["samples"]][:12],
        exhaustive=all(t["complete"] for t in tots),
        parts={t["name"]: dict(cases=t["cases"], states=t["states"], transitions=t["transitions"],
                               traces=t["traces"], counts=t["counts"], wall_s=t["wall_s"]) for t in tots},
        bound=spec["bound"][tier] if isinstance(spec["bound"], dict) else spec["bound"])
    ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              wall_s=round(time.time() - t0, 1), build_s=round(tb - t0, 1),
              assumptions=C.ASSUMPTIONS + spec.get("assumptions", []), violations=len(unknown))
    with open(os.path.join(ev_dir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, n in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {what} ({n} cases)")
    print(f"{pid} {tier}: {cov['cases']} cases, {cov['states']} states, {cov['transitions']} transitions, "
          f"{cov['traces_validated_against_impl']} traces; {ev['wall_s']} s (build {ev['build_s']} s); "
          f"{len(unknown)} violations")
    for t in tots:
        print(f"  {t['name']}: cases={t['cases']} states={t['states']} trans={t['transitions']} "
              f"traces={t['traces']} {t['wall_s']} s " + " ".join(f"{k}={v}" for k, v in sorted(t["counts"].items())))
    if not unknown and (not cov["cases"] or not cov["states"]):
        raise CheckError("the exploration was empty")
    if unknown:
        rdir = os.path.join(ev_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        sigs = {}
        for f in unknown:
            sigs.setdefault(f["sig"], []).append(f)
        for n, (sig, fs) in enumerate(list(sigs.items())[:20]):
            f = fs[0]
            path = os.path.join(rdir, f"{pid}-{n}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=pid, tier=tier, seed=seed, **f), fh, indent=1)
            print(f"-- {sig} ({len(fs)} cases); first: {f['key']}\n   " + f["msg"].strip()[-1500:].replace("\n", "\n   "))
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0

def replay(path):
    with open(path) as f:
        r = json.load(f)
    make([r["binary"]])
    work = os.path.join(BUILD, "work", "replay")
    os.makedirs(work, exist_ok=True)
    rc, res, key, err = finish(launch(r["binary"], r["mode"], r["tier"], r["seed"], (0, 1), work, only=r["key"]))
    if res is None:
        print(f"case {r['key']}: {crash_sig(rc, err)}\n{err}")
        return 1
    for f in res["failures"]:
        print(f"case {f['key']}: {f['sig']}: {f['msg']}")
    if not res["failures"]:
        print(f"case {r['key']}: holds ({res['cases_run']} case run)")
    return 1 if res["failures"] else 0

def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if sys.argv[1] == "setup":
            tier = os.environ.get("VERIF_TIER", "quick")
            make(sorted({b for c in C.CHECKS.values() for b, _ in
                         c["parts"] + (c.get("thorough_parts", []) if tier != "quick" else [])}))
            return 0
        if sys.argv[1] == "list":
            print("\n".join(C.CHECKS))
            return 0
        if sys.argv[1] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in sys.argv:
                tier = sys.argv[sys.argv.index("--tier") + 1]
            return check(sys.argv[2], tier)
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
    except CheckError as e:
        print(f"CHECK-ERROR {e}")
        return 2
    print(__doc__)
    return 2

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
