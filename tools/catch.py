#!/usr/bin/env python3
"""Runs the checks of the planted changes (quick tier) against each: catch.py [ID ...] -> seeded results table on stdout.

VERIF_REPO names another clone to apply them to."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("VERIF_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(root + "/seeded"))
for i in ids:
    d = f"{root}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    c = m["property"]
    if subprocess.run(["git", "-C", repo, "status", "--porcelain"], stdout=subprocess.PIPE).stdout.strip():
        sys.exit(repo + " is not clean")
    if subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"]).returncode:
        print(i, c, "PATCH DOES NOT APPLY")
        continue
    try:
        if not os.path.exists(f"{root}/checks/{c}.py"):
            print(i, c, "no check", flush=True)
            continue
        r = subprocess.run([root + "/check", c, "--tier", "quick", "--seed", "1"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        v = f"VIOLATION property={c} " in r.stdout
        res = root + "/tools/caught.json"
        table = json.load(open(res)) if os.path.exists(res) else {}
        table[i] = c if r.returncode == 1 and v else "missed"
        json.dump(table, open(res, "w"), indent=0, sort_keys=True)
        print(i, c, "caught" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", (r.stdout.strip().splitlines()[-1:] or [""])[0][:200], flush=True)
    finally:
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
