#!/usr/bin/env python3
"""Confirms planted changes in a scratch copy of /repo and keeps them under seeded/.

usage: plant.py SPEC.py [ID ...]     SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
file is relative to sdk/python/lib/pulumi unless it starts with /.  The demo is a Python program run from the copy's root.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/sdk/python/lib"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)


def tests(copy):
    s = open("/opt/vp/test.sh").read().replace("/repo", copy).replace("unset PYTHONPATH PYTHONHOME", "export PYTHONPATH=$LIB_")
    s = s.replace("export PYTHONPATH=$LIB_", f"export PYTHONPATH={copy}/sdk/python/lib").replace('PYTHONPATH="$C:$META"', f'PYTHONPATH="$C:$META:{copy}/sdk/python/lib"')
    t = copy + "-test.sh"
    open(t, "w").write(s)
    r = sh(f"bash {t} {copy}-out.json", "/tmp")
    o = json.load(open(copy + "-out.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    os.unlink(t), os.unlink(copy + "-out.json")
    return sorted(set(b["stable"]) - set(o["passed"]))


specs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
for b in specs:
    if want and b["id"] not in want:
        continue
    dest = os.path.join(root, "seeded", b["id"])
    work = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    copy = work + "/repo"
    try:
        sh(f"git clone -q /repo {copy}", "/tmp")
        d = work + "/d"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        r = sh(f"bash {d}/demo.sh", copy)
        if r.returncode:
            print(b["id"], "REJECTED: demo fails unpatched:", r.stdout[-1500:])
            continue
        err = None
        for f, old, new in b["edits"]:
            p = copy + f if f.startswith("/") else f"{copy}/sdk/python/lib/pulumi/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                err = f"{f}: {s.count(old)} matches of {old!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if err:
            print(b["id"], "REJECTED:", err)
            continue
        diff = sh("git diff", copy).stdout
        # only lines of the original repository
        blame_bad = []
        base = sh("git rev-list --max-parents=0 HEAD", copy).stdout.strip()
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                path = l[6:]
            if l.startswith("-") and not l.startswith("---"):
                t = l[1:]
                if t.strip() and t not in sh(f"git show {base}:{path}", copy).stdout.splitlines():
                    blame_bad.append(t)
        if blame_bad:
            print(b["id"], "NOTE changes lines the original does not have:", blame_bad)
        r = sh(f"bash {d}/demo.sh", copy)
        if r.returncode == 0:
            print(b["id"], "REJECTED: demo passes patched")
            continue
        why = r.stdout.strip().splitlines()[-1:] or [""]
        failed = tests(copy)
        if failed:
            print(b["id"], "REJECTED: tests fail", failed[:4])
            continue
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        open(dest + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.py", dest)
        shutil.copy(d + "/demo.sh", dest)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        print(b["id"], "kept;", why[0][:160])
    finally:
        shutil.rmtree(work, ignore_errors=True)
