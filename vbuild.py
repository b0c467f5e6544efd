"""Builds the monitors against /repo's current working tree, one build directory per sanitizer configuration."""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = os.environ.get("VERIF_CXX", "/usr/bin/g++")
COMMON = ["-std=c++17", "-DNDEBUG", "-w", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"),
          "-I/usr/include", "-pthread", "-DDAL_VERIF_HOOKS"]
CONFIGS = {
    # address + undefined behaviour + libstdc++ precondition checks (operator[], front(), back(), optional, ...)
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-fno-sanitize=vptr,alignment,object-size,nonnull-attribute,returns-nonnull-attribute,return,null"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # as the product is built (optimised, no instrumentation): wide numeric sweeps
    "opt": ["-O2", "-g1", "-march=x86-64-v2", "-D_GLIBCXX_ASSERTIONS"],
}
SLOW = ["dal/script/parser.cpp", "dal/storage/json.cpp", "public/src/value.cpp", "dal/script/event.cpp",
        "dal/storage/globals.cpp", "dal/time/dateutils.cpp", "dal/storage/splat.cpp", "dal/risk/report.cpp"]


class BuildError(Exception):
    pass


def all_sources():
    out = []
    for base in ("dal", "public/src"):
        for root, _, files in os.walk(os.path.join(REPO, base)):
            for f in files:
                if f.endswith(".cpp"):
                    rel = os.path.relpath(os.path.join(root, f), REPO)
                    if rel.startswith("dal/auto/") or rel.startswith("dal/storage/_repository"):
                        continue
                    out.append(rel)
    out.sort(key=lambda r: (r not in SLOW, SLOW.index(r) if r in SLOW else 0, r))
    return out


def subset(prefixes):
    return [s for s in all_sources() if any(s.startswith(p) for p in prefixes)]


def obj(src):
    return "obj/" + src.replace("/", "__")[:-4] + ".o"


def needs_sobol_defsym():
    if os.path.exists(os.path.join(REPO, "dal/math/random/sobol.cpp")):
        return False
    pat = re.compile(r"NewSobol\s*\([^;]*\)\s*\{")
    for s in all_sources():
        with open(os.path.join(REPO, s), errors="replace") as f:
            if pat.search(f.read()):
                return False
    return True


def write_ninja(cfg, harness, srcs, extra_flags, tag):
    d = os.path.join(BUILD, cfg)
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    flags = " ".join(COMMON + CONFIGS[cfg])
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    ld = "-pthread " + " ".join(f for f in CONFIGS[cfg] if f.startswith("-fsanitize")) + " -rdynamic"
    if needs_sobol_defsym():
        ld += " -Wl,--defsym=_ZN3Dal8NewSobolEimb=0"
    lines = ["ninja_required_version = 1.3", "builddir = .", "cxxflags = " + flags,
             "rule cxx\n  command = %s $cxxflags $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % CXX,
             "rule ar\n  command = rm -f $out && ar crsT $out $in",
             "rule link\n  command = %s $in -o $out %s" % (CXX, ld)]
    hobj = "obj/harness_%s.o" % harness
    lines.append("build %s: cxx %s\n  extra = %s" % (hobj, hsrc, extra_flags))
    for s in srcs:
        lines.append("build %s: cxx %s" % (obj(s), os.path.join(REPO, s)))
    lib = "lib_%s_%s.a" % (harness, tag)
    lines.append("build %s: ar %s" % (lib, " ".join(obj(s) for s in srcs)))
    exe = "%s_%s" % (harness, tag)
    lines.append("build %s: link %s %s" % (exe, hobj, lib))
    lines.append("default " + exe)
    text = "\n".join(lines) + "\n"
    path = os.path.join(d, "build_%s.ninja" % exe)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    return d, path, os.path.join(d, exe)


def ninja(d, path):
    p = subprocess.run(["ninja", "-C", d, "-f", os.path.basename(path), "-j", str(os.cpu_count() or 8)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build(cfg, harness, prefixes=None, extra_flags=""):
    """Returns the executable. Tries the subset of sources the harness is known to need; any failure to link falls back
    to every source of the library, so moving code between files cannot break a check."""
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if prefixes:
            dd, path, exe = write_ninja(cfg, harness, subset(prefixes), extra_flags, "part")
            rc, out = ninja(dd, path)
            if rc == 0:
                return exe
        dd, path, exe = write_ninja(cfg, harness, all_sources(), extra_flags, "full")
        rc, out = ninja(dd, path)
        if rc == 0:
            return exe
        raise BuildError(out[-6000:])


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:] or None))
