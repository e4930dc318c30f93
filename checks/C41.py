"""C41 program exit status tells the engine the truth."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from grpcengine import BIG, CODES, GrpcEngine
from harness import REPO, HarnessError, fail, part
from hypothesis import strategies as st

EXEC = os.path.join(REPO, "sdk/python/cmd/pulumi-language-python-exec")
KEYS = ["p1:k", "p1:secret", "p2:k", "other:k"]
vals = st.sampled_from(["v", "", "7", "é\n", '{"a": 1}'])

PROGRAM = r'''
import asyncio, json, os, sys, time
import pulumi
SPEC = json.load(open(os.environ["VERIF_SPEC"]))
SEEN = []
def look(where):
    SEEN.append(where)
    d = {"seen": SEEN, "argv": sys.argv, "cwd": os.getcwd(), "name": __name__, "project": pulumi.get_project(), "stack": pulumi.get_stack(), "org": pulumi.get_organization(), "dry": pulumi.runtime.is_dry_run(),
         "config": {k: pulumi.Config(k.split(":")[0]).get(k.split(":")[1]) for k in SPEC["keys"]}, "secret": {k: pulumi.runtime.is_config_secret(k) for k in SPEC["keys"]}}
    with open(os.environ["VERIF_SEEN"], "w") as f:
        json.dump(d, f)
class Die(Exception):
    pass
def stop():
    e, msg = SPEC["end"], SPEC["msg"]
    if e == "raise":
        raise Die(msg)
    if e == "deep":
        def f(n):
            if n: f(n - 1)
            raise Die(msg)
        f(2)
    if e == "helper":
        import verif_helper
        verif_helper.go(msg)
    if e == "run_error":
        raise pulumi.RunError(msg)
    if e == "exit":
        sys.exit(SPEC["status"])
    if e == "import":
        import no_such_module_here
    if e in ("later", "later_run_error"):
        def die(_):
            if SPEC["pause"]: time.sleep(0.02)
            raise (Die if e == "later" else pulumi.RunError)(msg)
        (MADE[0].urn if MADE and SPEC["pause"] else pulumi.Output.from_input(1)).apply(die)
    if e == "cancelled":
        import asyncio
        f = asyncio.get_event_loop().create_future()
        asyncio.get_event_loop().call_later(0.01, f.cancel)
        if SPEC["pause"]:
            pulumi.export("cancelled", f)
        else:
            pulumi.CustomResource("t:m:R", "badarg", {"v": f})
    if e == "resource_arg":
        async def bad():
            raise Die(msg)
        pulumi.CustomResource("t:m:R", "badarg", {"v": bad()})
MADE = []
look("start")
for i, a in enumerate(SPEC["acts"] + [None]):
    if i == SPEC["at"]:
        stop()
    if a is None:
        break
    if a["k"] == "res":
        MADE.append(pulumi.CustomResource("t:m:R", a["name"], {"v": MADE[-1].id if MADE and a["chain"] else "x"}))
    elif a["k"] == "comp":
        MADE.append(pulumi.ComponentResource("t:m:C", a["name"], {}))
        MADE[-1].register_outputs({"o": 1})
    elif a["k"] == "read":
        MADE.append(pulumi.CustomResource("t:m:R", a["name"], {}, pulumi.ResourceOptions(id="there")))
    elif a["k"] == "invoke":
        pulumi.runtime.invoke("t:m:f", {"q": 1})
    elif a["k"] == "export":
        pulumi.export("x", MADE[-1].urn if MADE else 1)
    elif a["k"] == "print":
        print(a["text"])
    elif a["k"] == "later":
        (MADE[-1].urn if MADE else pulumi.Output.from_input(1)).apply(lambda _: look("later"))
    elif a["k"] == "log":
        pulumi.log.warn("message")
    elif a["k"] == "big":
        assert len(pulumi.runtime.invoke("t:m:big", {"q": "x" * SPEC["size"]}).value["q"]) == SPEC["size"]
look("end")
'''


@st.composite
def cases(draw):
    acts, made = [], []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(["res", "res", "comp", "read", "invoke", "export", "print", "later", "log"]))
        a = {"k": k}
        if k in ("res", "comp", "read"):
            a.update(name="abcdef"[len(made)], chain=draw(st.booleans()))
            made.append((k, a["name"]))
        if k == "print":
            a["text"] = draw(st.sampled_from(["hello", "é", "two\nlines"]))
        acts.append(a)
    if draw(st.booleans()):
        acts.append({"k": "later"})
    if draw(st.integers(0, 9)) == 0:
        acts.append({"k": "big"})
    ends = ["ok"] * 5 + ["raise", "deep", "helper", "run_error", "exit", "exit", "import", "later", "later_run_error", "resource_arg", "cancelled", "syntax", "missing", "stack_fault", "stack_outputs_fault"]
    faults = [("register", n) for k, n in made if k != "read"] + [("outputs", n) for k, n in made if k == "comp"] + [("read", n) for k, n in made if k == "read"] + ([("invoke", "t:m:f")] if any(a["k"] == "invoke" for a in acts) else [])
    end = draw(st.sampled_from(ends + (["fault"] * 6 if faults else [])))
    form = draw(st.sampled_from(["dir", "dir", "dot", "file"]))
    if end == "helper" and form == "file":
        form = "dir"
    return {"acts": acts, "end": end, "at": draw(st.integers(0, len(acts))), "msg": draw(st.sampled_from(["boom", "é: 100%", "two\nlines", ""])), "status": draw(st.sampled_from([0, 1, 3, 32, 255, "bye"])), "pause": draw(st.booleans()),
            "fault": draw(st.sampled_from(faults)) if faults and end == "fault" else None, "code": draw(st.sampled_from(CODES + ["UNKNOWN", "UNAVAILABLE"] * 4)),
            "form": form, "pwd": draw(st.booleans()), "dirname": draw(st.sampled_from(["prog", "my prog", "app.v2", "é"])), "args": draw(st.lists(st.sampled_from(["one", "a b", "é", "x=y", ""]), max_size=2)),
            "project": draw(st.sampled_from(["p1", "p2", "my-proj.x"])), "stack": draw(st.sampled_from(["dev", "s-1"])), "org": draw(st.sampled_from(["org", "é"])), "dry": draw(st.booleans()), "parallel": draw(st.sampled_from([1, 10, 2147483647])),
            "config": draw(st.one_of(st.none(), st.dictionaries(st.sampled_from(KEYS), vals, max_size=4))), "secrets": draw(st.one_of(st.none(), st.lists(st.sampled_from(KEYS), max_size=2, unique=True)))}


def run(case, rec):
    base = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    end, msg = case["end"], case["msg"]
    stack_name = case["project"] + "-" + case["stack"]
    faults = {}
    details = "engine says " + msg
    if end == "fault":
        faults[tuple(case["fault"])] = (case["code"], details)
    elif end == "stack_fault":
        faults[("register", stack_name)] = (case["code"], details)
    elif end == "stack_outputs_fault":
        faults[("outputs", stack_name)] = (case["code"], details)
    eng = GrpcEngine(case["project"], case["stack"], faults)
    try:
        d = os.path.join(base, case["dirname"])
        os.mkdir(d)
        main = os.path.join(d, "__main__.py" if case["form"] != "file" else "prog.py")
        if end != "missing":
            with open(main, "w") as f:
                f.write(PROGRAM if end != "syntax" else "import pulumi\nx = (\n")
        with open(os.path.join(d, "verif_helper.py"), "w") as f:
            f.write("def go(msg):\n    raise ValueError(msg)\n")
        spec, seen = os.path.join(base, "spec.json"), os.path.join(base, "seen.json")
        with open(spec, "w") as f:
            json.dump(dict(case, keys=KEYS, size=BIG), f)
        start = base if case["pwd"] or case["form"] == "dir" else d
        program = {"dir": d, "dot": ".", "file": "prog.py"}[case["form"]]
        argv = [sys.executable, EXEC, "--monitor", eng.monitor, "--engine", eng.engine, "--project", case["project"], "--stack", case["stack"], "--dry_run", "true" if case["dry"] else "false", "--parallel", str(case["parallel"]),
                "--organization", case["org"]]
        if case["pwd"]:
            argv += ["--pwd", d]
        env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI_")}
        env.update(PYTHONPATH=os.path.join(REPO, "sdk/python/lib"), VERIF_SPEC=spec, VERIF_SEEN=seen, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        if case["config"] is not None:
            env["PULUMI_CONFIG"] = json.dumps(case["config"])
        if case["secrets"] is not None:
            env["PULUMI_CONFIG_SECRET_KEYS"] = json.dumps(case["secrets"])
        what = f"a program that ends with {end} ({case['fault'] or case['status'] if end in ('fault', 'exit') else msg!r})"
        try:
            p = subprocess.run(argv + [program] + case["args"], cwd=start, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
        except subprocess.TimeoutExpired as e:
            fail(f"{what} does not end; stderr {e.stderr!r}")
        out, err = p.stdout.decode(), p.stderr.decode("utf-8", "replace")
        errors = [m for s, m in eng.logs() if s == "error"]
        info = f"exit status {p.returncode}, errors told to the engine {errors}, stderr {err[-1500:]!r}"
        got = json.load(open(seen)) if os.path.exists(seen) else None
        ended = "ok" if not (end == "fault" and not eng.refused) else "reached no fault"
        hit = bool(eng.refused)
        # the status
        if end == "ok" or (end in ("fault", "stack_fault", "stack_outputs_fault") and not hit):
            if p.returncode != 0 or errors:
                fail(f"{what}: {info}")
            if end != "ok":
                raise HarnessError("the fault was not reached: " + ended)
        elif end == "exit":
            want = case["status"] if isinstance(case["status"], int) else 1
            if p.returncode != want or errors:
                fail(f"{what}: {info}")
        else:
            # a fault says the engine's words; an engine that went away is a run error
            want = (1,) if end in ("run_error", "later_run_error") else (1, 32) if hit and case["code"] == "UNAVAILABLE" else (32,)
            if p.returncode not in want:
                fail(f"{what}: expected status {want}; {info}")
            if len(errors) != 1:
                fail(f"{what}: expected one error; {info}")
            says = {"import": "no_such_module_here", "syntax": "SyntaxError", "missing": "", "cancelled": "CancelledError", "run_error": msg, "later_run_error": msg}.get(end, details if hit and case["code"] != "UNAVAILABLE" else "" if hit else msg)
            if says not in errors[0]:
                fail(f"{what}: the engine was not told {says!r}; {info}")
            if end in ("raise", "deep", "helper", "import"):  # the traceback starts with the user's code
                frames = [x.strip() for x in errors[0].split("\n") if x.strip().startswith('File "')]
                shown = frames and os.path.realpath(os.path.join(d, frames[0].split('"')[1]))
                if shown != os.path.realpath(main):
                    fail(f"{what}: the traceback should start with {main}: {errors[0]}")
        # what the program saw
        if end not in ("syntax", "missing"):
            if got is None:
                fail(f"{what}: the program did not start; {info}")
            want = {"argv": [program] + case["args"], "cwd": os.path.realpath(d if case["pwd"] else start), "name": "__main__", "project": case["project"], "stack": case["stack"], "org": case["org"], "dry": case["dry"],
                    "config": {k: (case["config"] or {}).get(k) for k in KEYS}, "secret": {k: k in (case["secrets"] or []) for k in KEYS}}
            for k, v in want.items():
                if (os.path.realpath(got[k]) if k == "cwd" else got[k]) != v:
                    fail(f"the program saw {k} {got[k]!r}, the engine gave {v!r}")
        if end == "ok":
            if got["seen"].count("later") != sum(a["k"] == "later" for a in case["acts"]) or got["seen"].count("end") != 1:
                fail(f"{what}: ended after {got['seen']}; {info}")
            if len(eng.stack_outputs()) != 1 or len(eng.of("register")) != 1 + sum(a["k"] in ("res", "comp") for a in case["acts"]) or len(eng.of("outputs")) != 1 + sum(a["k"] == "comp" for a in case["acts"]):
                fail(f"{what}: ended successfully after {len(eng.of('register'))} registrations and {len(eng.of('outputs'))} outputs; the program {case['acts']}")
            if out != "".join(a["text"] + "\n" for a in case["acts"] if a["k"] == "print"):
                fail(f"{what}: printed {out!r}")
        if end not in ("ok", "syntax", "missing"):
            rec.nontriv()
        rec.label(end)
        rec.label("a big message", any(a["k"] == "big" for a in case["acts"]))
    finally:
        eng.close()
        shutil.rmtree(base, ignore_errors=True)


@part("exits", quick=240, thorough=8000, shards=8, batch=30, rule="programs that end otherwise than by completing")
def exits():
    return cases(), run
