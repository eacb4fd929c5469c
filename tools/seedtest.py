#!/usr/bin/env python3
"""Development aid: confirm planted bugs in scratch copies and see which checks catch them.
seedtest.py [--props C01,C02] [--nocheck] ids..."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def where(id):
    return next(V + "/" + s + "/" + id for s in ("seeded", "seeded_templates") if os.path.isdir(V + "/" + s + "/" + id))


def prep(id):
    d = where(id)
    c = "/tmp/seed-" + id
    shutil.rmtree(c, ignore_errors=True)
    r, o = sh("cp -a " + os.environ.get("VF_REPO", "/repo") + " " + c)
    demo = "/tmp/seeddemo-" + id
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo)
    for f in ("patch.diff", "meta.json"):
        os.unlink(demo + "/" + f)
    out = []
    r, o = sh(["bash", demo + "/demo.sh"], cwd=c, timeout=300)
    if r: out.append("DEMO FAILS ON CLEAN TREE (%d): %s" % (r, o[-600:]))
    r, o = sh(["git", "apply", d + "/patch.diff"], cwd=c)
    if r: out.append("PATCH DOES NOT APPLY: " + o)
    t0 = time.time()
    r, o = sh(["bash", demo + "/demo.sh"], cwd=c, timeout=300)
    if r == 0: out.append("DEMO PASSES WITH PATCH")
    msg = o.strip().split("\n")[0][:150]
    for s in ("build", "test"):
        t = open("/opt/vp/%s.sh" % s).read().replace("/repo", c).replace("/opt/vp/build.sh", c + "/.b.sh") if s == "test" else open("/opt/vp/%s.sh" % s).read().replace("cd /repo", "cd " + c)
        open(c + ("/.b.sh" if s == "build" else "/.t.sh"), "w").write(t)
    r, o = sh(["bash", c + "/.t.sh", c + "/.o.json"], cwd=c)
    try:
        j = json.load(open(c + "/.o.json"))
        if len(j["passed"]) < 6 or j["failed"]: out.append("TESTS: %r %s" % (j, o[-300:]))
    except Exception as e:
        out.append("TESTS: %s %s" % (e, o[-500:]))
    for f in (".b.sh", ".t.sh", ".o.json"):
        if os.path.exists(c + "/" + f): os.unlink(c + "/" + f)
    shutil.rmtree(demo)
    return id, c, out, msg


def main():
    a = sys.argv[1:]
    props = None
    check = True
    if a and a[0] == "--nocheck":
        check = False; a = a[1:]
    if a and a[0] == "--props":
        props = a[1].split(","); a = a[2:]
    ids = a or sorted(os.listdir(V + "/seeded")) + sorted(os.listdir(V + "/seeded_templates"))
    ex = ThreadPoolExecutor(6 if not check else 3)
    for f in [ex.submit(prep, i) for i in ids]:
        id, c, out, msg = f.result()
        meta = json.load(open(where(id) + "/meta.json"))
        res = []
        if check and not out:
            for p in props or [meta["property"]]:
                t0 = time.time()
                env = dict(os.environ, VF_REPO=c, VERIF_SEED="1", VERIF_TIER="quick")
                r, o = sh(["python3", V + "/check.py", p, "--tier", "quick"], cwd=V, env=env)
                caught = r == 1 and re.search(r"^VIOLATION property=%s " % p, o, re.M)
                first = [l for l in o.split("\n") if l.strip() and not l.startswith("VIOLATION")][:1]
                res.append("%s %s (rc %d, %.0fs) %s" % (p, "CAUGHT" if caught else "MISSED", r, time.time() - t0, "" if caught else o[-400:]))
        shutil.rmtree(c, ignore_errors=True)
        print(id, "|", "; ".join(out) or "ok", "|", "; ".join(res), "|", msg, flush=True)


main()
