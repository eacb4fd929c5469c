#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from the definitions in tools/seeds*.py (no check reads either)."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = V + "/tools/seedkit"
WT = "/tmp/seedwt"
SEEDS = {}


def S(id, prop, edits, needs, breaks, demo, main=None, kit=("lib.sh", "demofield.hpp"), extra=()):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, main=main, kit=kit, extra=extra)


for f in sorted(glob.glob(V + "/tools/seeds*.py")):
    exec(open(f).read())


def write(id):
    s = SEEDS[id]
    # changes to the code templates (.ejs) cannot count as planted bugs; they are kept apart
    d = "%s/%s/%s" % (V, "seeded_templates" if any(f.endswith(".ejs") for f, _, _ in s["edits"]) else "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for file, old, new in s["edits"]:
        p = WT + "/" + file
        t = open(p).read()
        nth = 0
        if isinstance(old, tuple):
            old, nth = old
            assert t.count(old) > nth, (id, file, t.count(old))
            i = -1
            for _ in range(nth + 1):
                i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
        else:
            assert t.count(old) == 1, (id, file, old, t.count(old))
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE).stdout
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + s["demo"].strip() + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    if s["main"]:
        open(d + "/main.cpp", "w").write(s["main"].strip() + "\n")
    for k in s["kit"]:
        shutil.copy(KIT + "/" + k, d)
    for k in s["extra"]:
        shutil.copy(V + "/harness/" + k, d)
    shutil.copytree(V + "/shims/node_modules", d + "/shims/node_modules")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("VF_REPO", "/repo"), WT], check=True)
    for id in (sys.argv[1:] or SEEDS):
        write(id)
    shutil.rmtree(WT)
    print(len(SEEDS), "seeds defined")
