#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N]

Rebuilds the monitors of one property from /repo's working tree, runs them, and decides:
  exit 0  the property held on everything observed (evidence/<id>.json says what that was)
  exit 1  a violation; a line  VIOLATION property=<id> replay=<path>  for each distinct one
  exit 2  no verdict (harness or build failure, too little observed)
"""
import argparse
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vbuild  # noqa: E402
from checks import CHECKS  # noqa: E402

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:"
                    "max_allocation_size_mb=8192:handle_abort=1:allocator_may_return_null=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=5:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=77",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
}


def known_findings():
    """known_findings.txt: lines 'known: property=P07 key=<violation key> <what fails>' and 'fixed: ...'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def frames(text):
    """function names of the /repo frames in a sanitizer report, innermost first"""
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        if m.group(2).startswith(vbuild.REPO + "/"):
            fn = re.sub(r"\(.*", "", m.group(1))
            fn = re.sub(r"<.*", "", fn)
            out.append((fn, os.path.relpath(m.group(2), vbuild.REPO)))
    return out


def crash_key(text, rc):
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", text)
    if m2 and (kind is None or kind == "asan-ABRT"):
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"\d+|0x[0-9a-f]+|'[^']*'", "", m2.group(1).lower())).strip("-")[:60]
    m3 = re.search(r"Assertion '(.*?)' failed", text)
    if m3:
        kind = "stl-precondition"
    if "ERROR: LeakSanitizer" in text:
        kind = "leak"
    if kind is None and "terminate called" in text:
        kind = "terminate"
    if kind is None and "pure virtual method called" in text:
        kind = "pure-virtual"
    if kind is None and rc < 0:
        kind = "signal-" + signal.Signals(-rc).name
    if kind is None and rc == 77:
        kind = "sanitizer"
    if kind is None:
        return None
    fr = frames(text)
    where = (fr[0][1] + ":" + fr[0][0]) if fr else "?"
    return ("crash:" + kind + ":" + where).replace(" ", "_")


def tsan_reports(text):
    out = {}
    for block in re.split(r"={18}\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", block)
        if not m:
            continue
        tops = []
        for part in re.split(r"\n\n", block):
            fr = frames(part)
            if fr and re.search(r"(Read|Write|read|write|Mutex|Cycle|Previous|Heap block|acquired)", part.splitlines()[0] if part.splitlines() else ""):
                tops.append(fr[0][1] + ":" + fr[0][0])
        if not tops:
            fr = frames(block)
            tops = [fr[0][1] + ":" + fr[0][0]] if fr else ["?"]
        key = ("race:" + m.group(1).strip().replace(" ", "-") + ":" + "|".join(sorted(set(tops[:2])))).replace(" ", "_")
        out.setdefault(key, block[:6000])
    return out


def cpu_seconds(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def watch(p, case_file, timeout, stall):
    """waits for a monitor; (exit code, hung, longest time one case took).

    Hung: past the time limit; the same case for `stall` seconds; or the same case for 40 s with the process all but
    idle (every thread blocked: a lost wake-up or a deadlock)."""
    t0 = time.time()
    last, since, slowest = None, t0, 0.0
    cpu = []  # (time, cpu seconds used so far) while the case stays the same
    step = 0.02
    while True:
        try:
            return p.wait(timeout=step), False, max(slowest, time.time() - since)
        except subprocess.TimeoutExpired:
            pass
        step = min(1.0, step * 1.5)
        now = time.time()
        try:
            case = open(case_file, "rb").read()
        except OSError:
            case = None
        if case != last:
            slowest = max(slowest, now - since)
            last, since, cpu = case, now, []
        c = cpu_seconds(p.pid)
        if c is not None:
            cpu.append((now, c))
        idle = False
        if now - since > 40 and len(cpu) > 20:
            then = [x for x in cpu if x[0] <= now - 30]
            idle = bool(then) and cpu[-1][1] - then[-1][1] < 0.6
        if now - t0 > timeout or now - since > stall or idle:
            return None, True, max(slowest, now - since)


def run_shard(exe, run, tier, seed, shard, shards, workdir, extra):
    out = os.path.join(workdir, "out_%d.json" % shard)
    log = os.path.join(workdir, "log_%d.txt" % shard)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards", str(shards), "--out", out] + extra
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(run.get("env", {}))
    if "VH_SCALE" not in env and run.get("scale"):
        env["VH_SCALE"] = str(run["scale"])
    if run["cfg"] == "tsan" and shutil.which("setarch"):
        cmd = ["setarch", "-R"] + cmd
    timeout = run.get("timeout", {}).get(tier, 280 if tier == "quick" else 3000)
    res = None
    slowest = 0.0
    for attempt in range(4):
        for p in (out, out + ".hashes", out + ".case"):
            if os.path.exists(p):
                os.remove(p)
        cwd = os.path.join(workdir, "cwd_%d" % shard)
        os.makedirs(cwd, exist_ok=True)
        t0 = time.time()
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
            rc, hung, slow = watch(p, out + ".case", timeout, run.get("stall", {}).get(tier, 100 if tier == "quick" else 900))
            slowest = max(slowest, slow)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if hung:
                p.wait()
        text = open(log, errors="replace").read()
        if "unexpected memory mapping" in text or "setarch: failed" in text:
            if "setarch: failed" in text and cmd[0] == "setarch":
                cmd = cmd[2:]
            continue
        case = ""
        if os.path.exists(out + ".case"):
            case = open(out + ".case", "rb").read().split(b"\0")[0].decode("latin1")
        res = dict(rc=rc, hung=hung, text=text, case=case, out=out, cmd=cmd, wall=time.time() - t0, attempt=attempt, slowest=slowest)
        if hung and attempt == 0 and not re.search(r"^violation \S+ at ", text, re.M):
            continue  # inconclusive once; only a repeated hang counts
        break
    if res is None:
        res = dict(rc=1, hung=False, text=text, case="", out=out, cmd=cmd, wall=0, attempt=4, slowest=slowest)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--section", default="")
    ap.add_argument("--case", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    spec = CHECKS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    try:
        return decide(a, spec, t0, work)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def decide(a, spec, t0, work):
    violations = {}  # key -> dict(msg, where, cmd, log)
    errors = []
    evaluations = 0
    hashes = set()
    counters, sections, samples = {}, {}, []
    built = []
    shard_walls = []
    slowest_case = 0.0
    for ri, run in enumerate(spec["runs"]):
        if run.get("tiers") and a.tier not in run["tiers"]:
            continue
        try:
            exe = vbuild.build(run["cfg"], run["harness"], run.get("srcs"), run.get("flags", ""))
        except vbuild.BuildError as e:
            sys.stderr.write(str(e) + "\n")
            print("NO-VERDICT property=%s the monitors do not build against this tree" % a.prop)
            return 2
        built.append((ri, run, exe))
    build_s = time.time() - t0
    known = known_findings()
    for ri, run, exe in built:
        if any((a.prop, k) not in known for k in violations):
            break  # already decided
        shards = run.get("shards", 8)
        wd = os.path.join(work, "r%d" % ri)
        os.makedirs(wd)
        extra = list(run.get("args", []))
        if a.section:
            extra += ["--section", a.section]
        if a.case:
            extra += ["--case", a.case]
            shards = 1
        with ThreadPoolExecutor(max_workers=run.get("parallel", 8)) as ex:
            results = list(ex.map(lambda s: run_shard(exe, run, a.tier, a.seed, s, shards, wd, extra), range(shards)))
        for s, r in enumerate(results):
            shard_walls.append(round(r["wall"], 1))
            slowest_case = max(slowest_case, r["slowest"])

            def add(key, msg, where, full=""):
                v = violations.setdefault(key, dict(msg=msg, where=where, cmd=r["cmd"], log=full, run=run, n=0))
                v["n"] += 1

            if r["hung"]:
                for m in re.finditer(r"^violation (\S+) at (\S+#\d+): (.*)", r["text"], re.M):
                    add(m.group(1), m.group(3)[:1000], m.group(2))
                if r["attempt"] == 0:
                    continue  # stopped after a violation
                add("hang:" + (r["case"].split("#")[0] or run["harness"]),
                    "no progress within the watchdog (twice)", r["case"], r["text"][-4000:])
                continue
            data = None
            if os.path.exists(r["out"]):
                try:
                    data = json.load(open(r["out"]))
                except ValueError:
                    data = None
            if run["cfg"] == "tsan":
                for k, block in tsan_reports(r["text"]).items():
                    add(k, "ThreadSanitizer report", "shard %d of %s" % (s, run["harness"]), block)
            clean_rc = r["rc"] == 0 or (run["cfg"] == "tsan" and r["rc"] == 66)
            if not clean_rc or data is None:
                key = crash_key(r["text"], r["rc"])
                if key is None:
                    errors.append("shard %d of %s: exit %s\n%s" % (s, run["harness"], r["rc"], r["text"][-3000:]))
                else:
                    m = re.search(r"(ERROR: \w+Sanitizer.*|runtime error: .*|.*Assertion .*failed.*|terminate called.*)", r["text"])
                    add(key, m.group(1)[:300] if m else "exit %s" % r["rc"], r["case"], r["text"][-12000:])
            if data:
                evaluations += data["evaluations"]
                for k, v in data["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in data["sections"].items():
                    sections[k] = sections.get(k, 0) + v
                if len(samples) < 24:
                    samples += data["samples"]
                for v in data["violations"]:
                    add(v["key"].replace(" ", "_"), v["msg"], v["where"])
                if os.path.exists(r["out"] + ".hashes"):
                    b = open(r["out"] + ".hashes", "rb").read()
                    hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
    new, old = [], []
    for k in sorted(violations):
        (old if (a.prop, k) in known else new).append(k)
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
            "samples": samples[:24] or ["(no case completed)"], "observed_events": counters, "cases_per_section": sections,
            "builds": sorted({r["cfg"] for _, r, _ in built}), "shard_wall_s": shard_walls, "build_s": round(build_s, 1),
            "longest_case_s": round(slowest_case, 1),
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.section and not a.case and not os.environ.get("VERIF_NOEVIDENCE"):
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (a.prop, known[(a.prop, k)], k))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, k in enumerate(new[:20]):
            v = violations[k]
            path = os.path.join(rd, "%s-%d.json" % (a.prop, i))
            m = re.match(r"(.+?)#(\d+)", v["where"])
            replay = "python3 run.py %s --tier %s --seed %d" % (a.prop, a.tier, a.seed)
            if m:
                replay += " --section '%s' --case %s" % (m.group(1), m.group(2))
            json.dump({"property": a.prop, "key": k, "message": v["msg"], "case": v["where"], "seed": a.seed, "tier": a.tier,
                       "replay": replay, "times": v["n"], "log": v["log"]}, open(path, "w"), indent=1)
            print("  %s: %s" % (k, v["msg"][:400]))
            print("    case: %s" % v["where"][:400])
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors:
        for e in errors[:5]:
            print(e)
        print("NO-VERDICT property=%s harness failure" % a.prop)
        return 2
    if not a.section and not a.case:
        for k, n in spec.get("require", {}).items():
            if counters.get(k, 0) < n:
                print("NO-VERDICT property=%s observed only %d of %s (needs %d)" % (a.prop, counters.get(k, 0), k, n))
                return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" %
          (a.prop, a.tier, a.seed, evaluations, len(hashes), wall, build_s))
    return 0


if __name__ == "__main__":
    sys.exit(main())
