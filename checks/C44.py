"""C44 plugin launch scripts start the interpreter the project chose."""
import os
import shutil
import subprocess
import tempfile

from harness import REPO, fail, part
from hypothesis import strategies as st

DIST = os.path.join(REPO, "sdk/python/dist")
# an interpreter that writes down how it was started
PYTHON = r'''#!/bin/sh
{
  printf '%s\0' "$0" "cwd=$(pwd)" "PATH=$PATH" "HOME=${PYTHONHOME-unset}" "$@"
} > "$VERIF_OUT"
echo to stdout
echo to stderr >&2
exit ${VERIF_STATUS}
'''
arg = st.sampled_from(["127.0.0.1:1234", "--logflow", "-v=9", "a b", "", "é", "*", "$HOME", "'q'"])


@st.composite
def cases(draw):
    script = draw(st.sampled_from(["resource", "policy"]))
    c = {"script": script, "dir": draw(st.sampled_from(["venv", "my venv", "é", ".venv", "a/b", "a=b"])), "form": draw(st.sampled_from(["absolute", "relative", "absolute", "relative", "none", "empty"])), "slash": draw(st.booleans()), "made": draw(st.sampled_from(["yes", "yes", "yes", "yes", "dir", "no"])),
         "cmd": draw(st.sampled_from([None, "absolute", "name", ""])), "home": draw(st.sampled_from([None, "", "/nowhere"])), "status": draw(st.sampled_from([0, 0, 1, 3, 127])), "cwd": draw(st.sampled_from(["work", "my work"]))}
    if script == "resource":
        c["args"] = draw(st.lists(arg, max_size=3))
    else:
        c["args"] = ["127.0.0.1:1234", draw(st.sampled_from([".", "/x/my pack", "é", "*"]))]
        c["more"] = draw(st.lists(st.sampled_from(["-x=y", "-typechecker=", "other"]), max_size=2))
        c["first"] = False
    return c


def run(case, rec):
    base = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    base = os.path.realpath(base)
    try:
        cwd = os.path.join(base, case["cwd"])
        os.makedirs(cwd)
        for f in ("one", "two"):
            open(os.path.join(cwd, f), "w").close()
        out = os.path.join(base, "out")

        def interpreter(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(PYTHON)
            os.chmod(path, 0o755)
            return path
        plain = interpreter(os.path.join(base, "bin", "python3"))
        other = interpreter(os.path.join(base, "bin", "mypython"))
        env = {"PATH": os.path.join(base, "bin") + ":/usr/bin:/bin", "VERIF_OUT": out, "VERIF_STATUS": str(case["status"]), "LANG": "C.UTF-8"}
        if case["cmd"] is not None:
            env["PULUMI_PYTHON_CMD"] = {"absolute": other, "name": "mypython", "": ""}[case["cmd"]]
        if case["home"] is not None:
            env["PYTHONHOME"] = case["home"]
        venv = os.path.join(cwd, case["dir"])
        if case["made"] != "no":
            os.makedirs(os.path.join(venv, "bin"))
        if case["made"] == "yes":
            interpreter(os.path.join(venv, "bin", "python"))
        given = {"absolute": venv, "relative": case["dir"], "none": None, "empty": ""}[case["form"]]
        if given and case["slash"]:
            given += "/"
        args = list(case["args"])
        if case["script"] == "resource":
            path = os.path.join(DIST, "pulumi-resource-pulumi-python")
            if given is not None:
                env["PULUMI_RUNTIME_VIRTUALENV"] = given
            want_args = ["-u", "-m", "pulumi.dynamic"] + args
        else:
            path = os.path.join(DIST, "pulumi-analyzer-policy-python")
            want_args = ["-u", "-m", "pulumi.policy"] + args
            args += case["more"]
            if given is not None:
                args.append("-virtualenv=" + given)
        p = subprocess.run(["/bin/sh", path] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
        so, se = p.stdout.decode(), p.stderr.decode("utf-8", "replace")
        info = f"{case['script']} script with the virtual environment {given!r} ({case['made']}), PULUMI_PYTHON_CMD {env.get('PULUMI_PYTHON_CMD')!r}, arguments {args}: status {p.returncode}, stdout {so!r}, stderr {se!r}"
        got = open(out, "rb").read().decode().split("\0")[:-1] if os.path.exists(out) else None
        if given and case["made"] != "yes":
            if got is not None or p.returncode != 1 or so or case["dir"] not in se or ("doesn't exist" in se) != (case["made"] == "no"):
                fail(f"{info}; started {got}")
            rec.nontriv()
            rec.label("no such environment")
            return
        if got is None:
            fail(f"{info}; no interpreter was started")
        who = os.path.join(venv, "bin", "python") if given else other if case["cmd"] else plain
        if os.path.realpath(shutil.which(got[0], path=env["PATH"]) or got[0]) != os.path.realpath(who):
            fail(f"{info}; started {got[0]}, expected {who}")
        if got[1] != "cwd=" + cwd:
            fail(f"{info}; started in {got[1]}")
        if given:
            if got[2].split(":")[0] != "PATH=" + os.path.join(venv, "bin") or not got[2].endswith(":" + env["PATH"]):
                fail(f"{info}; started with {got[2]}")
            if case["home"] and got[3] != "HOME=unset":
                fail(f"{info}; started with PYTHON{got[3]}")
            rec.nontriv()
        elif got[2] != "PATH=" + env["PATH"] or got[3] != "HOME=" + ("unset" if case["home"] is None else case["home"]):
            fail(f"{info}; started with {got[2:4]}")
        if got[4:] != want_args:
            fail(f"{info}; started with the arguments {got[4:]}, expected {want_args}")
        if p.returncode != case["status"] or so != "to stdout\n" or se != "to stderr\n":
            fail(f"{info}; the plugin ended with {case['status']}")
    finally:
        shutil.rmtree(base, ignore_errors=True)


@part("scripts", quick=1200, thorough=40000, shards=8, batch=100, rule="runs with a virtual environment")
def scripts():
    return cases(), run
