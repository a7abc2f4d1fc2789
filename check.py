#!/usr/bin/env python3
"""Runtime-monitoring driver: builds the harness of one property against
/repo's working tree, runs its monitored sections in parallel, decides.

  check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything observed (known findings are printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: no verdict (harness did not build, or a run was inconclusive)
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import config  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
PKG = os.path.join(REPO, "incremental_calibration")
EXD = os.path.join(REPO, "incremental_calibration_examples", "incremental_calibration_examples_")

BUILDS = {
    # name: (compiler, flags, link flags, runner prefix)
    # address sanitizer and the value-related undefined-behaviour checks
    "asan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
                         "-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,"
                         "float-cast-overflow,bool,enum,return,unreachable,nonnull-attribute,vla-bound,builtin,null",
                         "-fno-sanitize-recover=all"], [], []),
    # every undefined-behaviour check (alignment, object size, pointer overflow too)
    "asanfull": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
                             "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,function",
                             "-fno-sanitize-recover=all"], [], []),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"], [], []),
    "plain": ("g++", ["-O1", "-g1"], [], []),
    "valgrind": ("g++", ["-O1", "-g1"], [],
                 ["valgrind", "-q", "--error-exitcode=77", "--track-origins=no",
                  "--undef-value-errors=yes", "--leak-check=no", "--exit-on-first-error=yes"]),
}
BASE_FLAGS = ["-std=c++14", "-w", "-pthread", "-fno-strict-aliasing", "-ftemplate-depth=1024"]


def lib_sources():
    """The library's own source list, from its build file."""
    text = open(os.path.join(PKG, "CMakeLists.txt")).read()
    m = re.search(r"cs_add_library\(\s*\$\{PROJECT_NAME\}([^)]*)\)", text)
    if not m:
        raise RuntimeError("no cs_add_library in " + PKG)
    return [os.path.join(PKG, x) for x in re.sub(r"#[^\n]*", "", m.group(1)).split()]


def is_core(path):
    return "/src/core/" in path


def sources_of(job):
    out = []
    lib = job.get("lib", "base")
    if lib in ("base", "core"):
        out += [s for s in lib_sources() if lib == "core" or not is_core(s)]
    for e in job.get("repo", []):
        p = os.path.join(REPO, e)
        if os.path.isdir(p):
            for d, _, fs in sorted(os.walk(p)):
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    if f.endswith(".cpp") and not re.search(r"\bint\s+main\s*\(", open(q, errors="replace").read()):
                        out.append(q)
        else:
            out.append(p)
    return out


def compile_one(src, obj, cc, flags, log):
    cache = os.environ.get("VERIF_CACHE")
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        pre = subprocess.run([cc] + flags + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if pre.returncode == 0:
            key = os.path.join(cache, hashlib.sha256(
                pre.stdout + repr((cc, flags, src.replace(REPO, ""))).replace(REPO, "").encode()).hexdigest() + ".o")
            if os.path.exists(key):
                shutil.copyfile(key, obj)
                return True
    r = subprocess.run([cc] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        with log["lock"]:
            log["text"].append("%s:\n%s" % (src, r.stdout.decode(errors="replace")[:6000]))
        return False
    if key:
        shutil.copyfile(obj, key + ".tmp%d" % os.getpid())
        os.replace(key + ".tmp%d" % os.getpid(), key)
    return True


def build(pid, cfg, tmp, tier):
    """Compile every job of the property; returns {job index: binary}."""
    log = {"lock": threading.Lock(), "text": []}
    todo, links, seen = [], [], {}
    for ji, job in enumerate(cfg["jobs"]):
        if tier not in job.get("tiers", ("quick", "thorough")):
            continue
        cc, fl, lfl, _ = BUILDS[job["build"]]
        if job.get("cc"):
            cc = job["cc"]
        inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(PKG, "include")]
        for e in job.get("inc", []):
            inc.append("-I" + os.path.join(REPO, e))
        if job.get("shim"):
            inc += ["-I" + os.path.join(VERIF, "shim")]
        inc += ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse"]
        flags = BASE_FLAGS + fl + job.get("flags", []) + inc
        objs = []
        srcs = [os.path.join(VERIF, "harness", s) for s in job["src"]] + [os.path.join(VERIF, "harness", "main.cpp")] + \
            [os.path.join(VERIF, "shim", s) for s in job.get("shimsrc", [])] + sources_of(job)
        for s in srcs:
            k = (s, cc, tuple(flags))
            if k not in seen:
                seen[k] = os.path.join(tmp, "o%d.o" % len(seen))
                todo.append((0 if "/harness/c" in s else 1, s, seen[k], cc, flags))
            objs.append(seen[k])
        links.append((ji, cc, fl + ["-pthread"], objs, os.path.join(tmp, "bin%d" % ji), job.get("link", []), flags, srcs))
    todo.sort(key=lambda t: t[0])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        ok = list(ex.map(lambda t: compile_one(t[1], t[2], t[3], t[4], log), todo))
    if not all(ok):
        return None, "\n".join(log["text"])
    bins = {}

    def link(l):
        ji, cc, fl, objs, out, extra, flags, srcs = l
        r = subprocess.run([cc] + fl + objs + ["-o", out] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 and b"undefined" in r.stdout:
            # code may have moved to another file of the same package
            more = []
            for d in sorted({re.sub(r"/src/.*", "/src", s) for s in srcs if s.startswith(REPO) and "/src/" in s}):
                for b, _, fs in sorted(os.walk(d)):
                    for f in sorted(fs):
                        q = os.path.join(b, f)
                        if f.endswith((".cpp", ".cc")) and q not in srcs and not re.search(r"\bint\s+main\s*\(", open(q, errors="replace").read()):
                            o = os.path.join(tmp, "x%d_%d.o" % (ji, len(more)))
                            if compile_one(q, o, cc, flags, {"lock": threading.Lock(), "text": []}):
                                more.append(o)
            if more:
                a = out + ".a"
                subprocess.run(["ar", "rcs", a] + more, check=True)
                r = subprocess.run([cc] + fl + objs + [a, "-o", out] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return ji, out, r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for ji, out, r in ex.map(link, links):
            if r.returncode != 0:
                return None, r.stdout.decode(errors="replace")[:6000]
            bins[ji] = out
    return bins, ""


def crash_kind(rc, err):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m and m.group(1) != "UndefinedBehaviorSanitizer":
        return m.group(2)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|inf|nan", "N", m.group(1))
        return "ub:" + re.sub(r"[^A-Za-z]+", "-", t)[:60].strip("-")
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Uninitialised byte)", err)
    if m:
        return "valgrind:" + m.group(1).replace(" ", "-")
    if "Assertion" in err:
        return "assert"
    if "terminate called" in err:
        return "terminate"
    return "signal%d" % (-rc) if rc < 0 else "exit%d" % rc


def first_repo_frame(err):
    for l in err.splitlines():
        if re.match(r"\s*#\d+ ", l) and PKG.split("/")[-1] in l:
            return l.strip()[:200]
    return ""


class Run:
    __slots__ = ("job", "section", "shard", "nsh", "rc", "err", "res", "crumb", "timeout", "wall")


def run_section(binp, job, section, shard, nsh, seed, scale, tier, tmp, limit, stop, case=None):
    r = Run()
    r.job, r.section, r.shard, r.nsh = job, section, shard, nsh
    base = os.path.join(tmp, "r_%s_%s_%d_%d" % (os.path.basename(binp), section, shard, int(time.time() * 1e6) % 10**9))
    cmd = BUILDS[job["build"]][3] + [binp, "--section", section, "--seed", str(seed), "--scale", repr(scale), "--shard", str(shard),
                                     "--nshards", str(nsh), "--out", base + ".json", "--crumb", base + ".crumb"]
    if tier == "thorough":
        cmd.append("--thorough")
    if case is not None:
        cmd += ["--case", str(case)]
    env = dict(os.environ)
    env.pop("VERIF_CACHE", None)
    env["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4:report_signal_unsafe=0"
    env["TZ"] = job.get("tz", "UTC")
    env["LC_ALL"] = "C"
    t0 = time.time()
    wd = base + ".d"
    os.mkdir(wd)
    with open(base + ".err", "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=wd, start_new_session=True)
        r.timeout = False
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                if time.time() - t0 > limit or stop.is_set():
                    r.timeout = time.time() - t0 > limit
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
    r.wall = time.time() - t0
    r.rc = p.returncode
    with open(base + ".err", "rb") as ef:
        r.err = ef.read(200000).decode(errors="replace")
    try:
        r.crumb = open(base + ".crumb", "rb").read().split(b"\0")[0].decode(errors="replace")
    except OSError:
        r.crumb = ""
    try:
        r.res = json.load(open(base + ".json"))
    except Exception:
        r.res = None
    return r


def known():
    """[(property, signature regex, text)] of recorded, unrepaired defects."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    if pid == "--self-test":  # nothing to prepare: every check builds for itself
        for t in ("clang++", "g++", "valgrind"):
            if not shutil.which(t):
                print("missing " + t)
                return 2
        print("%d checks; library sources: %d" % (len(config.CHECKS), len(lib_sources())))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--section":
            only = a[i + 1]
        elif a[i] == "--replay":
            replay = json.load(open(a[i + 1]))
            seed, tier = replay["seed"], replay["tier"]
        i += 2
    cfg = config.CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return decide(pid, cfg, tier, seed, only, replay, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, cfg, tier, seed, only, replay, tmp, t0):
    bins, err = build(pid, cfg, tmp, tier)
    if bins is None:
        print("harness of %s does not build against the tree:\n%s" % (pid, err))
        return 2
    tb = time.time() - t0
    tasks = []
    for ji, b in bins.items():
        job = cfg["jobs"][ji]
        l = subprocess.run([b, "--list"], stdout=subprocess.PIPE, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), timeout=60)
        if l.returncode != 0:
            print("cannot list sections of %s" % b)
            return 2
        scale = job.get("scale", 1.0) * (job.get("thorough_scale", 20.0) if tier == "thorough" else 1.0)
        for line in l.stdout.decode().split("\n"):
            if not line.strip():
                continue
            s, n = line.split()
            if job.get("sections") and not re.fullmatch(job["sections"], s):
                continue
            if only and s != only:
                continue
            n = int(n) * (4 if tier == "thorough" else 1)
            for sh in range(n):
                if replay and (s != replay["section"] or sh != replay["shard"] or ji != replay["job"]):
                    continue
                tasks.append((b, job, ji, s, sh, n, scale))
    if not tasks:
        print("no monitored section to run")
        return 2
    limit = 3600 if tier == "thorough" else 120
    stop = threading.Event()

    def go(t):
        b, job, ji, s, sh, n, sc = t
        if stop.is_set():
            return t, None
        r = run_section(b, job, s, sh, n, seed, sc, tier, tmp, limit, stop,
                        replay.get("case") if replay and replay.get("case", -1) >= 0 else None)
        if r.timeout:
            stop.set()
        return t, r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(go, tasks))
    viols, inconclusive = [], []
    ev, checks, counters, samples, distinct, per_section = 0, 0, {}, [], set(), {}
    for t, r in results:
        b, job, ji, s, sh, n, sc = t
        if r is None:
            continue
        if r.timeout or (r.rc == -9 and r.res is None):
            if not r.timeout and stop.is_set():
                continue
            if any(v["sig"].startswith("hang:") for v in viols):
                continue  # one confirmed hang decides
            r2 = run_section(b, job, s, sh, n, seed, sc, tier, tmp, limit * 1.6, threading.Event())
            if r2.timeout:
                viols.append({"sig": "hang:" + s, "msg": "did not finish within %.0f s, twice" % limit, "case": -1,
                              "desc": r2.crumb, "section": s, "shard": sh, "job": ji})
                continue
            if r2.rc == -9:
                inconclusive.append("%s/%d killed" % (s, sh))
                continue
            if stop.is_set():
                inconclusive.append("%s/%d timed out once" % (s, sh))
            r = r2
        if r.res is None or r.rc != 0:
            if r.rc in (97, 98, 99):
                inconclusive.append("%s: harness usage error %d" % (s, r.rc))
                continue
            kind = crash_kind(r.rc, r.err)
            viols.append({"sig": "crash:%s:%s" % (s, kind), "msg": (first_repo_frame(r.err) + " | " + r.err[:1500]),
                          "case": -1, "desc": r.crumb, "section": s, "shard": sh, "job": ji})
        if r.res is None:
            continue
        q = r.res
        ev += q["evaluations"]
        checks += q["checks"]
        for k, v in q["counters"].items():
            counters[k] = counters.get(k, 0) + v
        if len([x for x in samples if x.startswith(s + ":")]) < 1:
            samples += ["%s: %s" % (s, x) for x in q["samples"][:1]]
        distinct.update(q["distinct"])
        ps = per_section.setdefault(job["build"] + "/" + s, {"cases": 0, "checks": 0, "wall_s": 0})
        ps["cases"] += q["evaluations"]
        ps["checks"] += q["checks"]
        ps["wall_s"] = round(ps["wall_s"] + r.wall, 2)
        for v in q["violations"]:
            v.update({"section": s, "shard": sh, "job": ji})
            viols.append(v)
    kf = known()
    fresh, hits = [], {}
    for v in viols:
        k = [x for x in kf if x[0] == pid and re.fullmatch(x[1], v["sig"])]
        if k:
            hits.setdefault(k[0][2], []).append(v)
        else:
            fresh.append(v)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
                     "samples": samples[:12] or ["none"], "oracle_checks": checks, "events": counters,
                     "sections": per_section},
        "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh)}
    if not replay and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d oracle checks, build %.1fs, total %.1fs" % (
        pid, tier, seed, ev, len(distinct), checks, tb, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(per_section.items(), key=lambda x: -x[1]["wall_s"]):
            print("   ", k, v)
        print("   ", counters)
    for k, vs in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = {}
        for v in fresh:
            k = v["sig"]
            shown[k] = shown.get(k, 0) + 1
            if shown[k] > 1 or len(shown) > 12:
                continue
            print("  [%s] %s/%d case %s: %s\n      input: %s" % (v["sig"], v["section"], v["shard"], v["case"], v["msg"][:500], v["desc"][:400]))
        path = os.path.join(VERIF, "replays", "%s_%s.json" % (pid, re.sub(r"\W+", "_", fresh[0]["sig"])[:60]))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "section": fresh[0]["section"], "shard": fresh[0]["shard"],
                       "job": fresh[0]["job"], "case": fresh[0]["case"], "violations": fresh,
                       "how": "python3 /verif/check.py %s --replay %s" % (pid, path)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconclusive:
        print("inconclusive: " + "; ".join(inconclusive))
        return 2
    if checks < cfg.get("min_checks", 100) and not replay and not only:
        print("observed too little: %d oracle checks" % checks)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
