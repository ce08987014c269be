#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's current working tree, explores, writes evidence/<id>.json.

usage: run.py Cxx [--tier quick|thorough] [--replay FILE] [--only SUBSTRING] [--keep-going]
exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken; exit 2: checker error.
"""
import argparse, glob, hashlib, json, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from checks import CHECKS, HARNESSES  # noqa: E402

CXX = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
UB = ("-fsanitize=address,undefined -fno-sanitize=vptr,nonnull-attribute,pointer-overflow,function,alignment "
      "-fno-sanitize-recover=all").split()
BASE = ["-std=gnu++20", "-g1", "-w", "-frtti", "-fexceptions", "-fsized-deallocation", "-fno-omit-frame-pointer", "-fbracket-depth=2048",
        "-I" + REPO, "-I" + os.path.join(HERE, "harness")]
CONFIGS = {
    "dbg": ["-O1"] + UB + ["-DMC_CONFIG_DBG"],
    "rel": ["-O1", "-DNDEBUG"] + UB + ["-DMC_CONFIG_REL"],
    "dbgal": ["-O1"] + [u.replace(",alignment", "") if u.startswith("-fno-sanitize=") else u for u in UB] + ["-DMC_CONFIG_DBG"],
    "thr": ["-O1", "-fsanitize=thread", "-DMC_CONFIG_THR"],
    "thrrel": ["-O1", "-fsanitize=thread", "-DMC_CONFIG_THR", "-DNDEBUG"],
    "thrx": ["-O1", "-fsanitize=thread", "-DMC_CONFIG_THR", "-DCROSS_THREAD_CHECKING"],
    "tsan": ["-O1", "-fsanitize=thread", "-DMC_CONFIG_TSAN"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="malloc_context_size=0:allocator_may_return_null=1:detect_leaks=0:quarantine_size_mb=16:"
                        "thread_local_quarantine_size_kb=64:abort_on_error=0:exitcode=45:handle_abort=0:detect_stack_use_after_return=0:"
                        "allocator_release_to_os_interval_ms=-1:max_malloc_fill_size=4096:new_delete_type_mismatch=1:alloc_dealloc_mismatch=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=46",
           TSAN_OPTIONS="halt_on_error=1:exitcode=47:report_signal_unsafe=0",
           LC_ALL="C", TZ="UTC")


class Err(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def build_all(jobs):
    """jobs: list of (harness, config). Every object is compiled from the current tree, in parallel. Returns {job: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    units, links, errors = {}, {}, []
    for h, c in jobs:
        d = HARNESSES[h]
        objs = []
        srcs = [os.path.join(HERE, "harness", s) for s in d["src"]]
        for g in d.get("repo", []):
            found = sorted(glob.glob(os.path.join(REPO, g)))
            if not found:
                raise Err("no source matches %s" % g)
            srcs += found
        for s in srcs:
            # support code of the checker's own thread runtime must not be instrumented
            flags = list(CONFIGS[c])
            if os.path.basename(s) in d.get("plain", []):
                flags = [f for f in flags if not f.startswith("-fsanitize")]
            flags = BASE + flags + d.get("flags", [])
            key = hashlib.sha1(" ".join([s] + flags).encode()).hexdigest()[:12]
            o = os.path.join(BUILD, "%s-%d-%s.o" % (os.path.basename(s), os.getpid(), key))
            units[o] = (s, flags)
            objs.append(o)
        # the thread configurations instrument the code but bring their own runtime: no sanitizer at link time
        lf = [f for f in CONFIGS[c] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        if c.startswith("thr"):
            lf = []
        exe = os.path.join(BUILD, "%s-%s-%d" % (h, c, os.getpid()))
        wraps = ["-Wl," + ",".join("--wrap=" + w for w in d["wrap"])] if d.get("wrap") else []
        links[(h, c)] = [CXX, "-o", exe] + objs + lf + wraps + d.get("libs", []) + ["-lpthread"]
        links[(h, c)].append("-g1")
    sem = threading.Semaphore(os.cpu_count() or 8)

    def compile_one(o):
        s, flags = units[o]
        with sem:
            r = sh([CXX] + flags + ["-c", s, "-o", o])
        if r.returncode:
            errors.append("compiling %s failed:\n%s" % (s, r.stdout[-4000:]))
    ts = [threading.Thread(target=compile_one, args=(o,)) for o in units]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out = {}
    if not errors:
        for job, cmd in links.items():
            r = sh(cmd)
            if r.returncode:
                errors.append("linking %s failed:\n%s" % (job, r.stdout[-4000:]))
            out[job] = cmd[2]
    for o in units:
        if os.path.exists(o):
            os.unlink(o)
    if errors:
        raise Err("\n".join(errors))
    return out


def known_findings(prop):
    r = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                r.append(line[len("finding: property=%s " % prop):])
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--workers", default=str(os.cpu_count() or 8))
    a = ap.parse_args()
    prop, chk = a.prop, CHECKS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    jobs = []
    for job in chk["jobs"]:
        h, c = job[0], job[1]
        if len(job) > 2 and job[2] == "thorough" and tier != "thorough":
            continue
        jobs.append((h, c))
    if a.replay:
        rp = json.load(open(a.replay))
        jobs = [j for j in jobs if list(j) == rp["job"]]
    bins = {}
    try:
        bins = build_all(jobs)
        tb = time.time() - t0
        if a.replay:
            cmd = [bins[jobs[0]], "--prop", prop, "--tier", rp["tier"], "--replay", "%s@%d@%s" % (rp["space"], rp["task"], rp["path"])]
            return subprocess.run(cmd, env=ENV).returncode
        results, violation = [], None
        for job in jobs:
            out = os.path.join(BUILD, "%s-%s-%s-%d.json" % (prop, job[0], job[1], os.getpid()))
            for attempt in (1, 2):
                r = subprocess.run([bins[job], "--prop", prop, "--tier", tier, "--out", out, "--workers", a.workers] + (["--only", a.only] if a.only else []),
                                   env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode in (0, 1):
                    break
            sys.stdout.write("[%s/%s] %s\n" % (job[0], job[1], r.stdout.split("\n")[0]))
            if r.returncode not in (0, 1):
                raise Err("harness %s/%s: exit %d\n%s" % (job[0], job[1], r.returncode, r.stdout[-6000:]))
            d = json.load(open(out))
            os.unlink(out)
            d["job"] = list(job)
            results.append(d)
            if d["violation"]:
                violation = (job, d["violation"])
                break
        ev = evidence(prop, chk, tier, results, time.time() - t0, tb, violation is not None)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violation:
            job, v = violation
            d = os.path.join(EVID, "replays")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, "%s-%s-%s.json" % (prop, job[0], job[1]))
            json.dump(dict(property=prop, job=list(job), tier=tier, **v), open(rp, "w"), indent=1)
            print("broken: %s" % v["message"])
            for h in v["history"][-30:]:
                print("   " + h)
            print("replay with: python3 run.py %s --replay %s" % (prop, rp))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s held: %d executions, %d transitions, %d distinct states (build %.1fs, total %.1fs)" % (
            prop, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["transitions"], ev["coverage"]["states"], tb, time.time() - t0))
        return 0
    finally:
        for b in bins.values():
            if os.path.exists(b):
                os.unlink(b)


def evidence(prop, chk, tier, results, wall, tb, violated):
    cov = {
        "states": sum(d["distinct_states"] for d in results),
        "transitions": sum(d["transitions"] for d in results),
        "traces_validated_against_impl": sum(d["executions"] for d in results),
        "samples": [s for d in results for s in d["samples"]][:16] or ["(none: run ended at a violation)"],
        "exhaustive": not violated,
        "bounds": chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"],
        "binding": "every trace is an execution of the compiled code of /repo's working tree, compared step by step with the reference model",
        "spaces": [dict(config=d["job"][1], **{k: s[k] for k in s}) for d in results for s in d["spaces"]],
        "build_s": round(tb, 1),
    }
    if chk["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov["traces_validated_against_impl"]
        cov["distinct_nontrivial"] = cov["states"]
        cov["rule"] = chk["rule"]
    return {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": chk["level"], "coverage": cov,
            "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violated else 0}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        print("checker error: %s" % e)
        sys.exit(2)
