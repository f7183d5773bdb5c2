"""Confirms planted changes and writes /verif/seeded/<id>/.

  plant(id, prop, [(file, old, new)], demo_py, needs, breaks)   confirm in a scratch copy and keep
  python3 tools/plant.py run ID [...]     run the property's quick check against the change (in a scratch copy)
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
cd "$W" && PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 %s -W ignore "$D/demo.py"
''' % PY


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    sh("cp -a /repo %s/repo" % d)
    return d, d + "/repo"


def tests(r):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    s = open("/opt/vp/test.sh").read().replace("/repo", r)
    out = r + "/../out.json"
    t = r + "/../test.sh"
    open(t, "w").write(s)
    sh("bash %s %s" % (t, out))
    d = json.load(open(out))
    bad = [n for n in base if n not in d['passed']]
    return bad


def plant(id, prop, edits, demo, needs, breaks, files=(), runtests=True):
    d, r = scratch()
    try:
        for f, old, new in edits:
            p = os.path.join(r, "pyverilog", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT MATCHES", s.count(old), f, repr(old[:60]))
                return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff -U8", cwd=r)
        o = os.path.join(V, "seeded", id)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(DEMO)
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(demo)
        for n, t in files:
            open(os.path.join(o, n), "w").write(t)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        # the build's import check
        rc, out = sh("sed s,/repo,%s,g /opt/vp/build.sh > ../b.sh && bash ../b.sh" % r, cwd=r)
        ok = rc == 0
        if rc:
            print(id, "BUILD FAILS", out[-500:])
        rc, out = sh("bash %s/demo.sh" % o, cwd="/repo", timeout=300)
        if rc:
            ok = False
            print(id, "DEMO FAILS ON CLEAN", out[-1500:])
        rc, out = sh("bash %s/demo.sh" % o, cwd=r, timeout=300)
        if rc == 0:
            ok = False
            print(id, "DEMO PASSES ON CHANGED", out[-500:])
        # changed lines must be original lines
        root = sh("git rev-list --max-parents=0 HEAD", cwd="/repo")[1].strip()
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                orig = sh("git show %s:%s" % (root, cur), cwd="/repo")[1].splitlines()
            elif l.startswith("-") and not l.startswith("---"):
                if l[1:] not in orig:
                    print(id, "NOT AN ORIGINAL LINE:", l)
        if ok and runtests:
            bad = tests(r)
            if bad:
                ok = False
                print(id, "TESTS FAIL", bad)
        print(id, "kept" if ok else "REJECTED")
        if not ok:
            shutil.rmtree(o)
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(id, props=None, tier="quick", keep=False):
    o = os.path.join(V, "seeded", id)
    meta = json.load(open(o + "/meta.json"))
    d, r = scratch()
    try:
        rc, out = sh("git apply %s/patch.diff" % o, cwd=r)
        if rc:
            print(id, "DOES NOT APPLY", out)
            return
        res = []
        for p in (props or [meta["property"]]):
            env = dict(os.environ, VERIF_REPO=r, VERIF_OUT=d + "/out")
            rc, out = sh("%s -W ignore checks/%s.py --tier %s" % (PY, p.lower(), tier), cwd=V, env=env, timeout=3600)
            keys = re.findall(r"^--- (.*)", out, re.M)
            res.append("%s rc=%d %s" % (p, rc, "; ".join(keys[:4]) or out[-300:].strip() if rc else ""))
        print(id, meta["property"], "CAUGHT" if any(" rc=1" in x for x in res) else "MISSED", res, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        ids = a[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
        props = None
        if "--props" in ids:
            i = ids.index("--props")
            props = ids[i + 1].split(",")
            del ids[i:i + 2]
            ids = ids or sorted(os.listdir(os.path.join(V, "seeded")))
        for i in ids:
            run(i, props)
