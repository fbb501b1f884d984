"""Generates build.ninja for the checks: compiles /repo's current working tree
(whole repository, not just the part its own offline build covers) together
with the harnesses in /verif/src."""
import os, glob, subprocess, shutil, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_MIRROR", os.environ.get("VP_REPO", "/repo"))
BORING = "/usr/lib/x86_64-linux-gnu/android/libcrypto.so"
ABSL_PKGS = ("absl_any_invocable absl_base absl_btree absl_flat_hash_map absl_hash "
             "absl_inlined_vector absl_int128 absl_memory absl_optional absl_random_random "
             "absl_span absl_status absl_statusor absl_str_format absl_strings absl_cord "
             "absl_time absl_utility absl_variant absl_synchronization").split()

# Library groups: directory globs, so files added to /repo are picked up.
GROUPS = {
    "dpf": ["dpf/*.cc", "dpf/internal/*.cc"],
    "dcf": ["dcf/*.cc", "dcf/fss_gates/*.cc", "dcf/fss_gates/prng/*.cc"],
    "hash": ["pir/hashing/*.cc"],
    "prng": ["pir/prng/*.cc"],
    "pir": ["pir/*.cc", "pir/internal/*.cc", "pir/testing/pir_selection_bits.cc"],
}
PROTOS = {
    "dpf": ["dpf/*.proto", "dpf/internal/*.proto"],
    "dcf": ["dcf/*.proto", "dcf/fss_gates/*.proto"],
    "hash": ["pir/hashing/*.proto"],
    "prng": [],
    "pir": ["pir/*.proto"],
}
DEPS = {"dpf": ["dpf"], "dcf": ["dcf", "dpf"], "hash": ["hash"], "prng": ["prng"],
        "pir": ["pir", "hash", "prng", "dpf"]}
SKIP = ("_test.cc", "_benchmark.cc", "status_matchers.cc")

FLAVOURS = {
    # name: (compiler, cxxflags, ldflags)
    "opt": ("g++", "-O2 -g1", ""),
    "san": ("g++", "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all "
            "-fno-sanitize=vptr", "-fsanitize=address,undefined"),
    # Highway restricted to its portable scalar target.
    "scalar": ("g++", "-O1 -g1 -DHWY_COMPILE_ONLY_SCALAR", ""),
    # Random eviction choices answered by the harness.
    "choice": ("g++", f"-O2 -g1 -include {VERIF}/compat/vp_choice_rng.h", ""),
    # Instruments every memory access with __tsan_* calls; the runtime that
    # receives them is ours (src/threads_rt.cc), not libtsan.
    "sched": ("g++", "-O1 -g1 -fsanitize=thread -U__SANITIZE_THREAD__", ""),
}

def expand(pats):
    out = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            rel = os.path.relpath(f, REPO)
            if not rel.endswith(SKIP):
                out.append(rel)
    return out

def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

class Ninja:
    def __init__(self, bdir):
        self.bdir = bdir
        self.lines = []
        self.done = set()
        # Every installed Abseil library, so that a change which starts to use
        # another one still links.
        pkgs = subprocess.run(["pkg-config", "--list-package-names"], capture_output=True,
                              text=True).stdout.split()
        pkgs = [x for x in pkgs if x.startswith("absl_")] or ABSL_PKGS
        absl = subprocess.run(["pkg-config", "--libs"] + sorted(pkgs), capture_output=True,
                              text=True).stdout.strip()
        self.libs = f"-Wl,--start-group {absl} -Wl,--end-group {BORING} -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lprotobuf -lfarmhash -lhwy -lpthread"
        inc = (f"-I{REPO} -I{bdir}/gen -I{VERIF}/compat -I{VERIF}/src "
               f"-isystem /usr/include/android")
        self.lines.append("ninja_required_version = 1.5\n")
        self.lines.append("rule protoc\n  command = protoc -I%s --cpp_out=%s/gen $in\n" % (REPO, bdir))
        for fl, (cxx, cf, lf) in FLAVOURS.items():
            self.lines.append(
                f"rule cxx_{fl}\n  command = {cxx} -std=c++17 {cf} -w {inc} $extra -MD -MF $out.d -c $in -o $out\n"
                f"  depfile = $out.d\n  deps = gcc\n")
            self.lines.append(
                f"rule cxxplain_{fl}\n  command = {cxx} -std=c++17 -O2 -g1 -w {inc} $extra -MD -MF $out.d -c $in -o $out\n"
                f"  depfile = $out.d\n  deps = gcc\n")
            self.lines.append(f"rule link_{fl}\n  command = {cxx} {lf} $ldextra -o $out $in {self.libs}\n")
        self.headers = []

    def proto(self, rel):
        base = rel[:-6]
        if ("p", base) in self.done:
            return
        self.done.add(("p", base))
        cc, h = f"{self.bdir}/gen/{base}.pb.cc", f"{self.bdir}/gen/{base}.pb.h"
        self.lines.append(f"build {cc} {h}: protoc {REPO}/{rel}\n")
        self.headers.append(h)

    def obj(self, src, out, fl, extra="", rule="cxx"):
        if out not in self.done:
            self.done.add(out)
            self.lines.append(f"build {out}: {rule}_{fl} {esc(src)} || protos\n  extra = {extra}\n")
        return out

    def group(self, g, fl):
        objs = []
        for rel in expand(PROTOS[g]):
            base = rel[:-6]
            # Generated protobuf code is never instrumented for scheduling.
            objs.append(self.obj(f"{self.bdir}/gen/{base}.pb.cc", f"{self.bdir}/{fl}/{base}.pb.o", fl))
        for rel in expand(GROUPS[g]):
            src = os.path.join(REPO, rel)
            extra = ""
            with open(src, errors="replace") as f:
                if "SerializeAsCord" in f.read():
                    extra = f"-include {VERIF}/compat/vp_cord.h"
            objs.append(self.obj(src, f"{self.bdir}/{fl}/{rel[:-3]}.o", fl, extra))
        return objs

    def binary(self, name, srcs, groups, fl, cflags="", ldextra="", plain=()):
        need = []
        for g in groups:
            for d in DEPS[g]:
                if d not in need:
                    need.append(d)
        # every proto is generated (cheap); only needed ones are compiled
        for g in PROTOS:
            for rel in expand(PROTOS[g]):
                self.proto(rel)
        objs = []
        for s in srcs:
            rule = "cxxplain" if s in plain else "cxx"
            tag = name if cflags else "h"
            objs.append(self.obj(f"{VERIF}/src/{s}", f"{self.bdir}/{fl}/{tag}/{s}.o", fl, cflags, rule))
        for d in need:
            objs += self.group(d, fl)
        out = f"{self.bdir}/bin/{name}"
        self.lines.append(f"build {out}: link_{fl} {' '.join(objs)}\n  ldextra = {ldextra}\n")
        return out

    def write(self):
        os.makedirs(self.bdir, exist_ok=True)
        os.makedirs(f"{self.bdir}/gen", exist_ok=True)
        self.lines.append("build protos: phony " + " ".join(self.headers) + "\n")
        path = f"{self.bdir}/build.ninja"
        txt = "".join(self.lines)
        if not os.path.exists(path) or open(path).read() != txt:
            open(path, "w").write(txt)
        return path
