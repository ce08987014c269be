#!/usr/bin/env python3
"""Development tool (no check uses it): small mechanical changes to /repo's sources, and what notices them.
  mutate.py cull OUT.jsonl SEED N WORKERS FILE..   picks N changes per file, keeps those which build and pass the existing tests
  mutate.py check IN.jsonl OUT.jsonl [SHARD SHARDS]   runs the checks concerned on every change kept
"""
import json, os, queue, random, re, shutil, subprocess, sys, threading
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
SRC = W + "/src"  # a clone of /repo, so that /repo may change meanwhile
CHECKS = [("arena/metrics", "C09 C11 C10"), ("arena/arena", "C01 C02 C03 C04 C05 C06 C07 C32 C08 C09"), ("string/arena_string", "C35 C19 C33 C15"),
          ("string/string", "C35 C14 C16 C12 C17 C13 C15 C18 C19"), ("container/", "C20 C23 C24 C25 C22 C21"), ("optparse/", "C26 C27 C28 C29 C30 C34"), ("align/", "C31 C03")]
OPS = [(r" < ", [" <= ", " >= "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " <= "]), (r" >= ", [" > ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"\b1 \+ ", [""]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" and ", [" or "]), (r" or ", [" and "]), (r"\bnot ", [""]), (r"\(!", ["("]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r"\+\+", ["--"]), (r"--", ["++"]), (r" & ", [" | "]), (r" \| ", [" & "]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])([2-9]|\d\d+)(?![\w.])", [lambda m: str(int(m.group(0)) + 1), lambda m: str(int(m.group(0)) - 1)]),
       (r"std::move\((\w+)\)", [lambda m: m.group(1)]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"])]


def points(path):
    t = open(path).read()
    r, comment = [], False
    lines = t.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "Assert(", "assert(", "static_assert", "template", "using ", "namespace", "friend", "[[", "requires", '"')) or "Invariant checker" in s:
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for rep in reps:
                    x = rep(m) if callable(rep) else rep
                    r.append((n, l, l[:m.start()] + x + l[m.end():]))
        m = re.match(r"^(\s*)(if|while) \((?!constexpr)(.*)\)( \[\[\w+\]\])? \{$", code.rstrip())
        if m and m.group(2) == "if" and not l.lstrip().startswith("} else"):
            for v in ("false && (", "true || ("):
                if ";" not in m.group(3):
                    r.append((n, l, "%sif (%s%s))%s {" % (m.group(1), v, m.group(3), m.group(4) or "")))
        if re.match(r"^\s+[\w:.\->*&\[\]<>()+ ,!?{}=\"']+;$", code.rstrip()) and not re.match(r"^\s*(return|using|const|auto|static|constexpr|size_t|int|bool|uint\w+|throw|break|continue|typename|case|else|std::\w+<|string |vector<)", code) and ("(" in s or "=" in s or "++" in s or "--" in s) and s.count("(") == s.count(")"):
            prev = lines[n - 1].rstrip()
            if prev.endswith((";", "{", "}")):
                r.append((n, l, re.match(r"\s*", l).group(0) + ";"))
    seen, out = set(), []
    for p in r:
        if p[1] != p[2] and (p[0], p[2]) not in seen:
            seen.add((p[0], p[2]))
            out.append(p)
    return out


def run(cmd, t, **k):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""


def clone(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["git", "clone", "-q", SRC, d], check=True)


def apply(d, f, n, old, new):
    p = os.path.join(d, f)
    ls = open(os.path.join(SRC, f)).read().split("\n")
    n = min((k for k in range(len(ls)) if ls[k] == old), key=lambda k: abs(k - n))  # the source may have moved on
    ls[n] = new
    open(p, "w").write("\n".join(ls))


def cull(out, seed, count, workers, files):
    rnd = random.Random(int(seed))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    q = queue.Queue()
    for f in files:
        ps = points(os.path.join(SRC, f))
        rnd.shuffle(ps)
        print(f, len(ps), "points", flush=True)
        for n, a, b in ps[:int(count)]:
            if (f, n + 1, b) not in done:
                q.put((f, n, a, b))
    lock = threading.Lock()
    fo = open(out, "a")

    def work(k):
        d = "%s/w%d/repo" % (W, k)
        b = "%s/w%d/_build" % (W, k)
        clone(d)
        env = dict(os.environ, CC="/usr/bin/clang-18", CXX="/usr/bin/clang++-18")
        rc, o = run(["cmake", "-S", d, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=-g0 -Wno-error", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                     "-DCMAKE_PROJECT_memory_INCLUDE=/opt/vp/cmake/doctest_from_apt.cmake", "--no-warn-unused-cli"], 300, env=env)
        assert rc == 0, o
        while True:
            try:
                f, n, a, x = q.get_nowait()
            except queue.Empty:
                return
            apply(d, f, n, a, x)
            rc, o = run(["nice", "ninja", "-C", b, "-j1", "memory_test"], 600, env=env)
            st = "nobuild"
            if rc == 0:
                rc, o = run(["bash", "-c", "ulimit -c 0; cd %s && exec nice ./memory_test" % (b + "/test")], 60)
                st = "passes" if rc == 0 else "tests"
            shutil.copy(os.path.join(SRC, f), os.path.join(d, f))
            with lock:
                fo.write(json.dumps({"file": f, "line": n + 1, "old": a, "new": x, "tests": st}) + "\n")
                fo.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(workers))]
    [t.start() for t in ts]
    [t.join() for t in ts]


def check(inp, out, shard=0, shards=1):
    """every check concerned; each harness is built once per change"""
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    d = "%s/check%d/repo" % (W, shard)
    clone(d)
    os.environ["VERIF_REPO"] = d
    sys.path.insert(0, H)
    import run as R
    todo = [json.loads(l) for l in open(inp)]
    todo = [m for m in todo if m["tests"] == "passes" and (m["file"], m["line"], m["new"]) not in done]
    for i, m in enumerate(todo):
        if i % shards != shard:
            continue
        try:
            apply(d, m["file"], m["line"] - 1, m["old"], m["new"])
        except ValueError:
            continue
        m["by"], bins = "", {}
        js = "%s/check%d/out.json" % (W, shard)
        for c in next(c for p, c in CHECKS if m["file"].startswith(p)).split():
            try:
                for job in R.CHECKS[c]["jobs"]:
                    if len(job) > 2:
                        continue
                    if job not in bins:
                        bins.update(R.build_all([job]))
                    rc = 2
                    try:
                        r = subprocess.run([bins[job], "--prop", c, "--tier", "quick", "--out", js, "--workers", str(8 // shards)], env=R.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 124
                    if rc:
                        m["rc"] = rc
                        m["how"] = "%s %s" % (job, json.load(open(js))["violation"]["message"] if rc == 1 else rc)
                        break
            except R.Err as e:
                m["rc"], m["how"] = 2, str(e)[:400]
            if "rc" in m:
                m["by"] = c
                break
        for x in bins.values():
            os.unlink(x)
        shutil.copy(os.path.join(SRC, m["file"]), os.path.join(d, m["file"]))
        with open(out, "a") as fo:
            fo.write(json.dumps(m) + "\n")
        print("%s:%d %s -> %s : %s" % (m["file"], m["line"], m["old"].strip(), m["new"].strip(), (m["by"] + (" rc %d" % m["rc"] if m["rc"] != 1 else "")) if m["by"] else "SURVIVED"), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "cull":
        cull(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5], sys.argv[6:])
    elif sys.argv[1] == "check":
        check(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:6]))
    elif sys.argv[1] == "points":
        for f in sys.argv[2:]:
            print(f, len(points(f)))
