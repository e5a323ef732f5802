"""Helper for planting bugs (development only; no check uses it).

plant(id, prop, [(file, old, new[, nth])], needs, breaks, demo) writes seeded/<id>/ and, in
a scratch copy bind-mounted over /repo in a private mount namespace, runs the demo on both
trees, the unit tests (with FULL=1 the whole suite) and the check of the property."""
import json
import os
import shutil
import subprocess
import sys

V = os.environ.get("PLANT_V", "/verif")
PRE = """import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inns(wt, cmd):
    return sh("unshare -m bash -c 'mount --make-rprivate / && mount --bind %s /repo && cd /repo && %s'" % (wt, cmd))


def plant(id_, prop, edits, needs, breaks, demo, sim=False, verbose=False):
    d = "%s/seeded/%s" % (V, id_)
    wt = "/tmp/wt/" + id_
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    for e in edits:
        p = "%s/src/uvm/%s" % (wt, e[0])
        s = open(p).read()
        n = s.count(e[1])
        if n != 1 and len(e) < 4:
            print(id_, "EDIT MATCHES", n, "TIMES:", e[1])
            return
        k = -1
        for _ in range((e[3] if len(e) > 3 else 1)):
            k = s.index(e[1], k + 1)
        s = s[:k] + e[2] + s[k + len(e[1]):]
        open(p, "w").write(s)
    diff = sh("git -C %s diff -- src" % wt).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(PRE + demo.replace("import simkernel\n", "import simkernel\nsimkernel.install()\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    if "simkernel" in demo:
        shutil.copy(V + "/lib/simkernel.py", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
    b = inns(wt, "timeout 300 bash %s/demo.sh" % d)
    u = inns(wt, "/opt/venv/bin/python -m pytest -q -p no:cacheprovider unit/*.py 2>&1 | tail -1; bash /opt/vp/build.sh >/dev/null 2>&1; echo build $?")
    c = inns(wt, "cd %s; ./check %s --seed 1 | tail -3" % (V, prop))
    caught = "VIOLATION property=%s " % prop in c.stdout
    ok = a.returncode == 0 and b.returncode != 0 and "139 passed" in u.stdout and "build 0" in u.stdout
    full = ""
    if os.environ.get("FULL") and ok:
        inns(wt, "bash /opt/vp/test.sh /tmp/wt/%s.json" % id_)
        full = sh("python3 /tmp/cmp.py /tmp/wt/%s.json" % id_).stdout.splitlines()[-1]
    print("%-28s %-4s demo clean=%d bug=%d %s %s -> %s %s" % (id_, prop, a.returncode, b.returncode, "valid" if ok else "INVALID", "", "CAUGHT" if caught else "MISSED", full), flush=True)
    if ok:
        r = V + "/tools/seed_results.json"
        j = json.load(open(r)) if os.path.exists(r) else {}
        j[id_] = "yes" if caught else "no"
        json.dump(j, open(r, "w"), indent=1, sort_keys=True)
    if not ok or verbose:
        print(a.stdout[-600:], b.stdout[-600:], u.stdout[-300:])
    if not caught:
        print(c.stdout[-300:])
    shutil.rmtree(wt, ignore_errors=True)
