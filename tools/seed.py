#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
  seed.py gen [ID..]      writes seeded/<ID>/ from seeds/*.py
  seed.py try ID..        in a scratch copy of /repo: demo passes, patch applies, builds, tests pass, demo fails, check reports it
  seed.py fix COMMIT PROP in a scratch copy without that fix: does the check report it?
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(H, "seeded")


def specs():
    r = {}
    for f in sorted(glob.glob(os.path.join(H, "tools", "seeds", "*.py"))):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in r, s["id"]
            r[s["id"]] = s
    return r


DEMO = """#!/bin/bash
# exit 0: the property held; nonzero: it is broken. Run in the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -r "$out"' EXIT
%(cxx)s -std=gnu++20 -w -I. %(flags)s "$here/demo.cpp" %(srcs)s -o "$out/demo" -lfmt -lpthread || exit 99
ulimit -c 0
cd "$out" && timeout 120 ./demo
"""


def foreign(i, txt):
    """complains about changed lines which a commit of ours added"""
    import re
    root = run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()[:7]
    f, n = None, 0
    for l in txt.split("\n"):
        if l.startswith("--- "):
            f = l[6:]
            ours = {k for k, b in enumerate(run(["git", "-C", "/repo", "blame", "-s", f]).stdout.split("\n"), 1) if b and not b.lstrip("^").startswith(root)}
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if n in ours:
                print("%s: changes a line of ours: %s" % (i, l))
            n += 1
        elif l.startswith(" "):
            n += 1


def gen(ids):
    for i, s in specs().items():
        if ids and i not in ids:
            continue
        d = os.path.join(SEEDED, i)
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp()
        for sub, new in (("a", False), ("b", True)):
            for f in sorted({e[0] for e in s["edits"]}):
                t = open(os.path.join("/repo", f)).read()
                if new:
                    for e in s["edits"]:
                        if e[0] == f:
                            n = e[3] if len(e) > 3 else 1
                            if t.count(e[1]) != n:
                                sys.exit("%s: %d matches of %r in %s" % (i, t.count(e[1]), e[1], f))
                            t = t.replace(e[1], e[2])
                p = os.path.join(tmp, sub, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(t)
        r = subprocess.run(["diff", "-ru", "a", "b"], cwd=tmp, stdout=subprocess.PIPE, text=True)
        txt = "".join(l for l in r.stdout.splitlines(True) if not l.startswith("diff "))
        import re
        txt = re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", txt, flags=re.M)
        open(os.path.join(d, "patch.diff"), "w").write(txt)
        shutil.rmtree(tmp)
        foreign(i, txt)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(cxx=s.get("cxx", "clang++-18"), flags=s.get("flags", "-O1 -g"), srcs=s.get("srcs", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def scratch(i):
    d = "/tmp/seedwork/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", d], check=True)
    return d


def tests(d):
    b = d + "/_build"
    env = dict(os.environ, CC="/usr/bin/clang-18", CXX="/usr/bin/clang++-18")
    r = run(["cmake", "-S", d, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-g -Wno-error", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
             "-DCMAKE_PROJECT_memory_INCLUDE=/opt/vp/cmake/doctest_from_apt.cmake", "--no-warn-unused-cli"], env=env)
    if r.returncode:
        return "cmake failed\n" + r.stdout
    r = run(["ninja", "-C", b, "-k", "0", "all", "memory_test", "vb"], env=env)
    if r.returncode:
        return "build failed\n" + r.stdout[-3000:]
    run(["python3", "/opt/vp/run_doctest.py", b + "/test/memory_test", b + "/lines"])
    ls = open(b + "/lines").read().split("\n")
    want = set(json.load(open("/opt/vp/BASELINE.json")).get("tests") or [])
    np = sum(l.startswith("PASS") for l in ls)
    nf = [l for l in ls if l.startswith("FAIL")]
    return "" if np >= 275 and not nf else "%d passed, failed: %s" % (np, nf)


def try_(i, check=True, test=True):
    s = os.path.join(SEEDED, i)
    meta = json.load(open(s + "/meta.json"))
    d = scratch(i)
    msg = []
    r = run(["bash", s + "/demo.sh"], cwd=d)
    msg.append("demo clean: %s" % ("ok" if r.returncode == 0 else "BAD rc %d\n%s" % (r.returncode, r.stdout[-1500:])))
    r = run(["git", "apply", s + "/patch.diff"], cwd=d)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout)
        return
    if test:
        t = tests(d)
        msg.append("tests: %s" % (t or "ok"))
    r = run(["bash", s + "/demo.sh"], cwd=d)
    msg.append("demo patched: %s" % ("fails rc %d %s" % (r.returncode, r.stdout.strip().split("\n")[-1][:150]) if r.returncode not in (0, 99) else "BAD rc %d %s" % (r.returncode, r.stdout[-1500:])))
    if check:
        r = run(["python3", H + "/run.py", meta["property"], "--tier", "quick"], env=dict(os.environ, VERIF_REPO=d), cwd=H)
        v = [l for l in r.stdout.split("\n") if l.startswith("broken:")]
        msg.append("check %s: %s" % (meta["property"], "DETECTED " + v[0][:200] if r.returncode == 1 and v else "MISSED rc %d %s" % (r.returncode, r.stdout[-1500:] if r.returncode else "")))
    shutil.rmtree(d)
    print("== %s\n   %s" % (i, "\n   ".join(msg)), flush=True)


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "gen":
        gen(sys.argv[2:])
    elif c == "try":
        for i in sys.argv[2:]:
            try_(i)
    elif c == "demo":
        for i in sys.argv[2:]:
            try_(i, check=False)
    elif c == "check":
        for i in sys.argv[2:]:
            try_(i, test=False)
    elif c == "fix":
        commit, prop = sys.argv[2:4]
        d = scratch("fix-" + commit)
        r = run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", commit], cwd=d)
        if r.returncode:
            sys.exit("revert failed\n" + r.stdout)
        r = run(["python3", H + "/run.py", prop, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=d), cwd=H)
        v = [l for l in r.stdout.split("\n") if l.startswith("broken:")]
        print(commit, prop, "DETECTED " + v[0][:300] if r.returncode == 1 and v else "MISSED rc %d %s" % (r.returncode, r.stdout[-1500:]))
        shutil.rmtree(d)
