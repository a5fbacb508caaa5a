#!/usr/bin/env python3
"""plant.py SPEC.py : confirm a planted change (builds, tests pass, demo 0 without and nonzero with it) and keep it in /verif/seeded/<id>.

SPEC defines id, prop, edits = [(file, old, new)], demo (python source, run from /repo), needs, breaks."""
import json, os, subprocess, sys
R = "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty"
    d = "/verif/seeded/" + ns["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(ns["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
    ok = r.returncode == 0
    if not ok:
        print(ns["id"], "demo fails on the unchanged tree", r.stdout[-600:], r.stderr[-600:])
    try:
        for f, a, b in ns["edits"]:
            p = R + "/mappyfile/" + f
            s = open(p).read()
            if s.count(a) < 1:
                print(ns["id"], "pattern not found", a); ok = False; break
            open(p, "w").write(s.replace(a, b, 1))
        if ok:
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/plant.json | tail -1").stdout.strip()
            r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
            print(ns["id"], "build", b.returncode, "|", t, "| demo", r.returncode, r.stderr.strip()[-150:])
            # original lines only
            base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
            ok = b.returncode == 0 and "257 passed, 0 failed" in t and r.returncode != 0
            bl = []
            for f, a, _ in ns["edits"]:
                src = open("/tmp/base_mappyfile/" + f).read() if os.path.exists("/tmp/base_mappyfile/" + f) else ""
                bl.append(a in src)
            print("   original lines:", bl)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    if ok:
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    else:
        print("   REJECTED"); sh("rm -rf " + d)
for s in sys.argv[1:]:
    main(s)
