"""C43 policy packs run with what the engine passed and report how they ended."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from harness import REPO, fail, part
from hypothesis import strategies as st

SCRIPT = os.path.join(REPO, "sdk/python/dist/pulumi-analyzer-policy-python")
KEYS = ["p1:k", "p1:secret", "p2:k", "é:k"]
vals = st.sampled_from(["v", "", "7", "é\n", '{"a": 1}', "true"])

PROGRAM = r'''
import json, os, sys
import pulumi
SPEC = json.load(open(os.environ["VERIF_SPEC"]))
def look():
    def get(f):
        try:
            return f()
        except Exception as e:
            return "no: %s" % e
    return {"argv": sys.argv, "name": __name__, "cwd": os.getcwd(), "file": os.path.realpath(__file__), "project": get(pulumi.get_project), "stack": get(pulumi.get_stack), "org": get(pulumi.get_organization), "dry": get(pulumi.runtime.is_dry_run),
            "config": {k: pulumi.Config(k.split(":")[0]).get(k.split(":")[1]) for k in SPEC["keys"]}}
class Die(Exception):
    pass
def deep(n):
    if n:
        deep(n - 1)
    raise Die(SPEC["msg"])
seen = [look()]
def save():
    with open(os.environ["VERIF_SEEN"], "w") as f:
        json.dump(seen, f)
save()
for a in SPEC["acts"]:
    if a["k"] == "print":
        print(a["text"], flush=a["flush"])
    elif a["k"] == "err":
        print(a["text"], file=sys.stderr)
    elif a["k"] == "log":
        getattr(pulumi.log, a["level"])(a["text"])
    elif a["k"] == "set":
        pulumi.runtime.set_config(a["key"], a["text"])
    elif a["k"] == "import":
        import verif_near
        assert verif_near.X == 1
seen.append(look())
save()
end = SPEC["end"]
if end == "raise":
    raise Die(SPEC["msg"])
if end == "deep":
    deep(2)
if end == "run_error":
    raise pulumi.RunError(SPEC["msg"])
if end == "exit":
    sys.exit(SPEC["status"])
if end == "import":
    import no_such_module_here
'''
texts = st.sampled_from(["hello", "é", "two\nlines", "100% {x}", ""])


@st.composite
def cases(draw):
    acts = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["print", "err", "log", "set", "import"]))
        acts.append({"k": k, "text": draw(texts), "flush": draw(st.booleans()), "level": draw(st.sampled_from(["debug", "info", "warn", "error"])), "key": draw(st.sampled_from(KEYS))})
    form = draw(st.sampled_from(["dot", "dot", "dir", "file", "missing", "syntax", "usage"]))
    return {"acts": acts, "end": draw(st.sampled_from(["ok", "ok", "ok", "raise", "deep", "run_error", "exit", "exit", "import"])), "msg": draw(st.sampled_from(["boom", "é: 100%", "two\nlines", ""])), "status": draw(st.sampled_from([0, 1, 3, 255, None, "bye"])),
            "form": form, "script": draw(st.booleans()), "dirname": draw(st.sampled_from(["pack", "my pack", "é"])), "config": draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(KEYS), vals, max_size=4))),
            "env": draw(st.sampled_from([{"PULUMI_PROJECT": "p1", "PULUMI_STACK": "s", "PULUMI_DRY_RUN": "true"}, {"PULUMI_PROJECT": "é", "PULUMI_STACK": "a-b.c", "PULUMI_DRY_RUN": "false"}, {"PULUMI_PROJECT": "p1", "PULUMI_STACK": "s", "PULUMI_DRY_RUN": "false", "PULUMI_ORGANIZATION": "org"},
                                         {"PULUMI_PROJECT": "p2", "PULUMI_STACK": "t", "PULUMI_DRY_RUN": "true", "PULUMI_ORGANIZATION": "é"}]))}


def run(case, rec):
    base = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    try:
        d = os.path.join(base, case["dirname"])
        os.mkdir(d)
        main = os.path.join(d, "prog.py" if case["form"] == "file" else "__main__.py")
        if case["form"] != "missing":
            with open(main, "w") as f:
                f.write(PROGRAM if case["form"] != "syntax" else "import pulumi\nx = (\n")
        with open(os.path.join(d, "verif_near.py"), "w") as f:
            f.write("X = 1\n")
        spec, seen = os.path.join(base, "spec.json"), os.path.join(base, "seen.json")
        with open(spec, "w") as f:
            json.dump(dict(case, keys=KEYS), f)
        program = {"dir": d, "file": "prog.py"}.get(case["form"], ".")
        args = ["127.0.0.1:1", program] if case["form"] != "usage" else ["127.0.0.1:1"]
        # the engine starts the pack in its own folder
        env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI_")}
        env.update(case["env"], PYTHONPATH=os.path.join(REPO, "sdk/python/lib"), VERIF_SPEC=spec, VERIF_SEEN=seen, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        if case["config"] is not None:
            env["PULUMI_CONFIG"] = json.dumps(case["config"])
        script = case["script"] and case["form"] != "usage"
        if script:
            env["PULUMI_PYTHON_CMD"] = sys.executable
        try:
            p = subprocess.run((["/bin/sh", SCRIPT] if script else [sys.executable, "-u", "-m", "pulumi.policy"]) + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
        except subprocess.TimeoutExpired as e:
            fail(f"the pack does not end; stderr {e.stderr!r}")
        out, err = p.stdout.decode(), p.stderr.decode("utf-8", "replace")
        end = case["end"] if case["form"] not in ("missing", "syntax", "usage") else case["form"]
        what = f"a pack that ends with {end}"
        info = f"exit status {p.returncode}, stderr {err[-1500:]!r}"
        want = {"ok": 0, "exit": case["status"] if isinstance(case["status"], int) else 0 if case["status"] is None else 1}.get(end, 1)
        if p.returncode != want:
            fail(f"{what}: expected status {want}; {info}")
        if end == "usage":
            if "usage" not in err or os.path.exists(seen):
                fail(f"{what}: {info}")
            return
        says = {"raise": case["msg"], "deep": case["msg"], "run_error": case["msg"], "import": "no_such_module_here", "syntax": "SyntaxError", "exit": "bye" if case["status"] == "bye" else ""}.get(end, "")
        failed = "Program failed with an unhandled exception" in err
        if says not in err or failed != (end not in ("ok", "exit")):
            fail(f"{what}: standard error should say {says!r}; {info}")
        if end in ("raise", "deep") and "Die" not in err:
            fail(f"{what}: the traceback is missing; {info}")
        got = json.load(open(seen)) if os.path.exists(seen) else []
        if end in ("missing", "syntax"):
            if got:
                fail(f"{what}: ran")
            return
        if len(got) != 2:
            fail(f"{what}: looked {len(got)} times; {info}")
        cfg = dict(case["config"] or {})
        for i, g in enumerate(got):
            if i:
                cfg.update({a["key"]: a["text"] for a in case["acts"] if a["k"] == "set"})
            e = case["env"]
            want = {"name": "__main__", "cwd": os.path.realpath(d), "file": os.path.realpath(main), "project": e["PULUMI_PROJECT"], "stack": e["PULUMI_STACK"], "dry": e["PULUMI_DRY_RUN"] == "true", "org": e.get("PULUMI_ORGANIZATION", g["org"] if str(g["org"]).startswith("no: ") else "none"),
                    "config": {k: cfg.get(k) for k in KEYS}}
            for k, v in want.items():
                if (os.path.realpath(g[k]) if k == "cwd" else g[k]) != v:
                    fail(f"the pack saw {k} {g[k]!r}, the engine gave {v!r}")
        if out != "".join(a["text"] + "\n" for a in case["acts"] if a["k"] == "print"):
            fail(f"{what}: printed {out!r}")
        pos = 0
        for a in case["acts"]:  # no engine to log to: messages are written to standard error
            if a["k"] == "err" or a["k"] == "log" and a["level"] != "debug":
                at = err.find(a["text"], pos)
                if at < 0:
                    fail(f"{what}: {a['text']!r} is missing from standard error; {info}")
                pos = at + len(a["text"])
        if end != "ok":
            rec.nontriv()
        rec.label(end)
    finally:
        shutil.rmtree(base, ignore_errors=True)


@part("packs", quick=240, thorough=8000, shards=8, batch=30, rule="packs that end otherwise than by completing")
def packs():
    return cases(), run
