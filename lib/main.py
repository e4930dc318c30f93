"""check entry point: plans shards, runs workers, aggregates, writes evidence, prints the verdict."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = sys.executable
SDK = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "sdk/python/lib")


def spawn(args, env, out, cwd):
    return subprocess.Popen([PY, os.path.join(HERE, "worker.py"), json.dumps(args)], stdout=out, stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL, env=env, cwd=cwd, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("PULUMI"):
            del env[k]
    env.update(PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONHASHSEED="0", VERIF_SCRATCH=scratch,
               PYTHONPATH=SDK, TMPDIR=scratch, HOME=scratch, PULUMI_HOME=os.path.join(scratch, "ph"),
               GRPC_ENABLE_FORK_SUPPORT="0", GRPC_VERBOSITY="NONE", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
    env.pop("PYTHONDONTWRITEBYTECODE", None)
    env.pop("PULUMI_HOME")
    try:
        return run(a, env, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_file(a, env, scratch, path, hang=None):
    out = open(os.path.join(scratch, "replay.out"), "w+")
    e = dict(env)
    if hang:
        e["VERIF_HANG"] = str(hang)
    cwd = tempfile.mkdtemp(dir=scratch)
    p = spawn({"mode": "replay", "prop": a.prop, "file": os.path.abspath(path)}, e, out, cwd)
    try:
        rc = p.wait(timeout=400)
    except subprocess.TimeoutExpired:
        kill(p)
        rc = 3
    kill(p)
    out.seek(0)
    return rc, out.read()


def run(a, env, scratch, t0):
    # the tree must import; anything else is not ours to judge.  Also fills the bytecode cache.
    pre = subprocess.run([PY, "-c", "import sys; sys.path.insert(0, %r); import shim; shim.install(); import hypothesis.strategies, pulumi, "
                          "pulumi.automation, pulumi.dynamic, pulumi.provider, pulumi.provider.server, hypothesis.stateful; "
                          "print(pulumi.__file__)" % HERE],
                         env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, stdin=subprocess.DEVNULL)
    if pre.returncode != 0 or not pre.stdout.strip().endswith(os.path.join(SDK, "pulumi/__init__.py")):
        print("ERROR: cannot import /repo's SDK:\n" + pre.stdout[-3000:])
        return 2
    if a.replay:
        rc, text = replay_file(a, env, scratch, a.replay)
        print(text[-8000:])
        if rc in (1, 3):
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        return rc

    sys.path.insert(0, HERE)
    os.environ.update({k: env[k] for k in ("PYTHONPYCACHEPREFIX", "TMPDIR", "HOME", "VERIF_SCRATCH")})
    sys.pycache_prefix = env["PYTHONPYCACHEPREFIX"]
    sys.dont_write_bytecode = False
    for k in list(os.environ):
        if k.startswith("PULUMI"):
            del os.environ[k]
    import shim
    shim.install()
    import harness
    parts = harness.load_check(a.prop)
    findings = harness.load_findings(a.prop)
    thorough = a.tier == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", "900" if thorough else "150"))
    jobs = []
    for pi, p in enumerate(parts.values()):
        if a.part and p.name != a.part:
            continue
        total = max(1, int((p.thorough if thorough else p.quick) * a.scale))
        shards = max(1, min(8 if thorough else p.shards, total))
        per = -(-total // shards)
        for s in range(shards):
            jobs.append({"mode": "shard", "prop": a.prop, "part": p.name, "shard": s, "n": per,
                         "seed": (a.seed * 131 + pi) * 131 + s, "budget": budget,
                         "out": os.path.join(scratch, "r-%s-%d.json" % (p.name, s)), "_w": p.weight})
    jobs.sort(key=lambda j: (j["shard"], -j["_w"]))
    running, results, pending = [], [], list(jobs)
    deadline = t0 + (3000 if thorough else 700)
    failed = False
    while pending or running:
        while pending and len(running) < a.jobs and not failed:
            j = pending.pop(0)
            log = open(os.path.join(scratch, "log-%s-%d" % (j["part"], j["shard"])), "w")
            cwd = tempfile.mkdtemp(dir=scratch)
            running.append((j, spawn({k: v for k, v in j.items() if k != "_w"}, env, log, cwd), log.name))
        if failed:
            pending = []
        time.sleep(0.02)
        for item in list(running):
            j, p, logname = item
            if p.poll() is None:
                if time.monotonic() > deadline:
                    kill(p)
                    print(f"NOTE: shard {j['part']}/{j['shard']} stopped at the time limit (inconclusive)")
                    running.remove(item)
                    results.append({"part": j["part"], "shard": j["shard"], "timeout": True})
                continue
            kill(p)
            running.remove(item)
            if os.path.exists(j["out"]):
                with open(j["out"]) as f:
                    r = json.load(f)
            else:
                with open(logname, errors="replace") as f:
                    tail = f.read()[-4000:]
                r = {"part": j["part"], "shard": j["shard"], "error": f"worker died rc={p.returncode}\n{tail}"}
            results.append(r)
            if "fail" in r or "hang" in r:
                failed = True
        if failed and running:
            # let the others stop; one failure decides
            for j, p, _ in running:
                kill(p)
            running = []

    errors = [r for r in results if "error" in r or r.get("fail", {}).get("kind") == "harness"]
    violations = []
    for r in results:
        case = None
        if r.get("fail", {}).get("kind") == "violation":
            case, msg = r["fail"]["case"], r["fail"]["message"]
        elif "hang" in r:
            case, msg = r["hang"], "no progress for 60 s"
        if case is None:
            continue
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{a.prop}-{r['part']}-{a.seed}-{r['shard']}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "part": r["part"], "case": case, "message": msg,
                       "shard_seed": r.get("seed"), "trace": r.get("fail", {}).get("trace")}, f, indent=1)
        rc, text = replay_file(a, env, scratch, path)
        if "hang" in r and rc != 3 and rc != 1:
            errors.append({"part": r["part"], "shard": r["shard"], "error": "case stalled once but not when re-run:\n" + case[:2000]})
            continue
        violations.append((r["part"], path, msg, rc))

    ev = {"property": a.prop, "tier": "thorough" if thorough else "quick", "seed": a.seed, "level": "exploration"}
    nontriv, labels, samples, evals, known, per_part = set(), {}, [], 0, {}, {}
    for r in results:
        evals += r.get("evaluations", 0)
        nontriv |= {r["part"] + ":" + h for h in r.get("nontrivial", [])}
        for k, v in r.get("labels", {}).items():
            labels[r["part"] + "/" + k] = labels.get(r["part"] + "/" + k, 0) + v
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
        pp = per_part.setdefault(r["part"], {"evaluations": 0, "wall_s": 0})
        pp["evaluations"] += r.get("evaluations", 0)
        pp["wall_s"] = round(max(pp["wall_s"], r.get("wall", 0)), 2)
        if r.get("samples") and sum(1 for s in samples if s["part"] == r["part"]) < 3:
            samples += [{"part": r["part"], "case": s} for s in r["samples"][-2:]]
    ev["coverage"] = {"evaluations": evals, "distinct_nontrivial": len(nontriv),
                      "rule": " ".join(f"[{p.name}] {p.rule}" for p in parts.values()),
                      "samples": samples or ["(no non-trivial case)"], "labels": dict(sorted(labels.items())), "parts": per_part,
                      "known_finding_hits": known}
    ev["assumptions"] = ["the oracle in checks/%s.py" % a.prop, "the fake engine/CLI stand-ins in lib/ follow the engine's protocol"]
    ev["wall_s"] = round(time.monotonic() - t0, 2)
    ev["violations"] = len(violations)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in findings:
        print(f"KNOWN-FINDING: property={a.prop} {f['id']}: {f['what']}")
    if violations:
        for part, path, msg, rc in violations:
            print(f"--- {a.prop}/{part} (replay alone: rc={rc})\n{msg[:4000]}")
        print(f"VIOLATION property={a.prop} replay={os.path.relpath(violations[0][1], ROOT)}")
        return 1
    if errors:
        for r in errors:
            print(f"ERROR in {r['part']}/{r['shard']}:\n{r.get('error') or r['fail']['message'] + chr(10) + r['fail']['trace']}")
        return 2
    print(f"OK property={a.prop} tier={ev['tier']} seed={a.seed} evaluations={evals} nontrivial={len(nontriv)} wall={ev['wall_s']}s")
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(ev["coverage"]["labels"], indent=1), json.dumps(per_part))
    return 0


if __name__ == "__main__":
    sys.exit(main())
