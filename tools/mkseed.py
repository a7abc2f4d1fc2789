#!/usr/bin/env python3
"""Development aid: make seeded/<id> from a replacement, and try it.

mkseed.py try ID [tier]   apply in /repo, build, test, demo, run the property's check; undo; demo on the clean tree
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MKSEED_REPO", "/repo")  # a copy: demonstration and check only, no build


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(sid, prop, edits, needs, breaks, files):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(a) != 1:
                raise SystemExit("%s: %d matches in %s" % (sid, s.count(a), f))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run("git -C %s diff" % REPO, shell=True, stdout=subprocess.PIPE).stdout
    finally:
        sh("git -C %s checkout -- ." % REPO)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
        if n.endswith(".sh"):
            os.chmod(os.path.join(d, n), 0o755)


def attempt(sid, tier="quick", only=None):
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = {}
    demo = "cd %s && timeout 300 bash %s/demo.sh" % (REPO, d)
    r = sh("git -C %s apply %s/patch.diff" % (REPO, d))
    if r.returncode:
        return {"apply": r.stdout.decode()}
    try:
        if only != "check":
            if REPO == "/repo":
                b = sh("bash /opt/vp/build.sh")
                res["build"] = b.returncode
                if b.returncode:
                    res["log"] = b.stdout.decode()[-1500:]
                t = sh("bash /opt/vp/test.sh /tmp/seed_t.json")
                res["tests"] = json.load(open("/tmp/seed_t.json"))["failed"]
            else:
                res["build"], res["tests"] = 0, []
            x = sh(demo)
            res["demo_bug"] = x.returncode, x.stdout.decode()[-300:]
        e = dict(os.environ, VERIF_CACHE="/tmp/vc", VERIF_REPO=REPO)
        c = sh("cd %s && VERIF_TIER=%s python3 check.py %s" % (V, tier, prop), env=e)
        res["check"] = c.returncode, c.stdout.decode()[:700]
    finally:
        sh("git -C %s checkout -- ." % REPO)
    if only != "check":
        if REPO == "/repo":
            sh("bash /opt/vp/build.sh")
        x = sh(demo)
        res["demo_clean"] = x.returncode, x.stdout.decode()[-300:]
    return res


if __name__ == "__main__":
    if sys.argv[1] == "try":
        for sid in sys.argv[2:]:
            r = attempt(sid)
            ok = r.get("build") == 0 and r.get("tests") == [] and r.get("demo_bug", (0,))[0] != 0 and r.get("demo_clean", (1,))[0] == 0
            print("%s: %s, %s" % (sid, "counts" if ok else "DOES NOT COUNT", "caught" if r.get("check", (0,))[0] == 1 else "MISSED"))
            if not ok or r["check"][0] != 1:
                print(json.dumps(r, indent=1))
    elif sys.argv[1] == "check":
        for sid in sys.argv[2:]:
            r = attempt(sid, only="check")
            print(sid, "caught" if r["check"][0] == 1 else "MISSED", r["check"][1][:300].replace("\n", " | "))
