"""C29 workspace operations run exactly the CLI command asked for."""
import json
import os
import shutil

from cli import cli, gojson, read_command
from harness import fail, part
from hypothesis import strategies as st

# values that look like flags, contain spaces, equals signs or newlines
vals = st.one_of(st.sampled_from(["", "-x", "--secret", "--plaintext", "--", "-", "a=b", "=", "a b", "a\nb", "\n", "'", "\"", "$(x)", "*", "é", "--stack=other", "--stack", "-s", "--non-interactive", "\\", "a,b"]),
                 st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=6))
keys = st.sampled_from(["k", "proj:k", "aws:region", "a.b", "k2", "é:x", "non-interactive", "set", "rm"])
names = st.sampled_from(["dev", "prod", "org/proj/dev", "a.b_c-d", "set", "config"])
envs = st.dictionaries(st.sampled_from(["A_VAR", "PULUMI_CONFIG_PASSPHRASE", "PULUMI_BACKEND_URL", "LANG", "HOME", "EMPTY", "PULUMI_HOME"]), st.sampled_from(["", "x", "a=b", "a b\nc", "é"]), max_size=3)


@st.composite
def op(draw):
    k = draw(st.sampled_from(["init", "select", "rm", "set", "set", "set_all", "set_all", "unset", "unset_all", "get", "get_all", "refresh_config", "plugin", "unplugin", "plugins", "stacks", "current", "who", "export", "import",
                              "outputs", "cancel", "history", "Create", "Select", "CreateOrSelect", "CreateOrSelect"]))
    o = {"op": k, "ws": draw(st.integers(0, 1)), "stack": draw(names), "direct": draw(st.booleans())}
    if k == "set":
        o.update(key=draw(keys), value=draw(vals), secret=draw(st.sampled_from([True, False, None])))
    elif k == "set_all":
        o.update(config={kk: [draw(vals), draw(st.sampled_from([True, False, None]))] for kk in draw(st.lists(keys, max_size=4, unique=True))})
    elif k in ("unset", "get"):
        o.update(key=draw(keys))
    elif k == "unset_all":
        o.update(keys=draw(st.lists(keys, min_size=1, max_size=4, unique=True)))
    elif k == "plugin":
        o.update(name=draw(st.sampled_from(["aws", "gcp"])), version=draw(st.sampled_from(["v1.2.3", "4.0.0-a+b"])), kind=draw(st.sampled_from([None, "resource", "language", "analyzer"])))
    elif k == "unplugin":
        o.update(name=draw(st.sampled_from([None, "aws"])), kind=draw(st.sampled_from([None, "language"])))
        o["version"] = draw(st.sampled_from([None, "1.2.3", ">=1.0.0 <2.0.0", "> 3"])) if o["name"] else None
    elif k == "history":
        o.update(size=draw(st.sampled_from([None, 1, 5])), show=draw(st.booleans()))
        o["page"] = draw(st.sampled_from([None, 1, 3])) if o["size"] else None
    elif k == "CreateOrSelect":
        o["there"] = draw(st.sampled_from(["no", "yes", "yes", "broken"]))
    return o


@st.composite
def cases(draw):
    return {"ws": [{"env": draw(st.one_of(st.none(), envs)), "home": draw(st.sampled_from([None, "home a", "h"])), "sp": draw(st.sampled_from([None, None, "passphrase", "default", "awskms://alias/x?region=us-west-2", "-odd"])), "extra": draw(st.sampled_from([[], [], ["--color", "never"], ["--emoji"]]))} for _ in range(2)],
            "ops": draw(st.lists(op(), min_size=1, max_size=5)), "outer": draw(st.sampled_from([None, None, "outer"]))}


def flag(c, **f):
    return (c, f)


def expected(o, ws):
    """(writes in order, commands that may run besides): each (name, args, flags)"""
    k, s = o["op"], o["stack"]
    S = {"stack": s}
    if k in ("init", "Create", "CreateOrSelect"):
        f = dict(S)
        if ws["sp"]:
            f["secrets-provider"] = ws["sp"]
        w = [(("stack", "init"), [], f)]
        if o.get("there") == "yes":
            w.append((("stack", "select"), [], S))
        return w
    if k in ("select", "Select"):
        return [(("stack", "select"), [], S)]
    if k == "rm":
        return [(("stack", "rm"), [], dict(S, yes=True))]
    if k == "set":
        return [(("config", "set"), [o["key"], o["value"]], dict(S, **{"secret" if o["secret"] else "plaintext": True}))]
    if k == "set_all":
        f = dict(S)
        for kk, (v, sec) in o["config"].items():
            f.setdefault("secret" if sec else "plaintext", []).append(f"{kk}={v}")
        return [(("config", "set-all"), [], f)]
    if k == "unset":
        return [(("config", "rm"), [o["key"]], S)]
    if k == "unset_all":
        return [(("config", "rm-all"), o["keys"], S)]
    if k == "get":
        return [(("config", "get"), [o["key"]], dict(S, json=True))]
    if k == "get_all":
        return [(("config",), [], {"stack": s, "json": True, "show-secrets": True})]
    if k == "refresh_config":
        return [(("config", "refresh"), [], dict(S, force=True))]
    if k == "plugin":
        return [(("plugin", "install"), [o["kind"] or "resource", o["name"], o["version"]], {})]
    if k == "unplugin":
        return [(("plugin", "rm"), [x for x in (o["kind"] or "resource", o["name"], o["version"]) if x], {"yes": True})]
    if k == "plugins":
        return [(("plugin", "ls"), [], {"json": True})]
    if k in ("stacks", "current"):
        return [(("stack", "ls"), [], {"json": True})]
    if k == "who":
        return [(("whoami",), [], {})]
    if k == "export":
        return [(("stack", "export"), [], {"stack": s, "show-secrets": True})]
    if k == "import":
        return [(("stack", "import"), [], dict(S, file=True))]
    if k == "outputs":
        return [(("stack", "output"), [], {"stack": s, "json": True}), (("stack", "output"), [], {"stack": s, "json": True, "show-secrets": True})]
    if k == "cancel":
        return [(("cancel",), [], dict(S, yes=True))]
    if k == "history":
        f = {"stack": s, "json": True}
        if o["show"]:
            f["show-secrets"] = True
        if o["size"]:
            f["page-size"], f["page"] = o["size"], o["page"] or 1
        return [(("stack", "history"), [], f)]
    raise AssertionError(k)


REPLY = {("version",): "v3.40.0\n", ("config", "get"): gojson({"value": "v", "secret": False}), ("config",): "{}\n", ("stack", "ls"): "[]\n", ("plugin", "ls"): "[]\n", ("stack", "output"): "{}\n", ("stack", "history"): "[]\n",
         ("stack", "export"): "{\"version\": 3, \"deployment\": {}}\n", ("whoami",): "me\n"}


def run(case, rec):
    import pulumi.automation as auto

    c = cli()
    state = {"there": "no"}

    def handler(req):
        cmd = read_command(req)
        req.cmd = cmd
        if "file" in cmd.flags:
            with open(cmd.flags["file"]):
                pass
        if cmd.name == ("stack", "init") and state["there"] != "no":
            req.err("error: stack 'x' already exists\n" if state["there"] == "yes" else "error: no passphrase\n")
            return req.exit(1)
        req.out(REPLY.get(cmd.name, ""))
        req.exit(0)

    c.start(handler)
    done = []

    class Extended(auto.LocalWorkspace):
        extra = []

        def serialize_args_for_op(self, stack_name):
            done.append(("args", stack_name))
            return list(self.extra)

        def post_command_callback(self, stack_name):
            done.append(("done", stack_name))

    if case["outer"]:
        os.environ["PULUMI_HOME"] = case["outer"]
    try:
        dirs, spaces = [], []
        for w in case["ws"]:
            d = c.scratch()
            dirs.append(d)
            ws = Extended(work_dir=d, pulumi_home=w["home"], env_vars=dict(w["env"]) if w["env"] is not None else None, secrets_provider=w["sp"])
            ws.extra = w["extra"]
            spaces.append(ws)
        check_env(c, case, [0, 1], dirs)
        for o in case["ops"]:
            c.start(handler)
            del done[:]
            state["there"] = o.get("there", "no")
            i = o["ws"]
            ws, w, s, k = spaces[i], case["ws"][i], o["stack"], o["op"]
            stack = None
            if k in ("set", "set_all", "unset", "unset_all", "get", "get_all", "refresh_config", "export", "import", "outputs", "cancel", "history") and not (o["direct"] and k not in ("cancel", "history")):
                stack = auto.Stack.select(s, ws)
                c.finish()
                c.start(handler)
                target, head = stack, ()
            else:
                target, head = ws, (s,)
            CV = auto.ConfigValue

            def cv(v, sec):
                return CV(v) if sec is None else CV(v, secret=sec)

            err = None
            try:
                if k == "init":
                    ws.create_stack(s)
                elif k == "select":
                    ws.select_stack(s)
                elif k == "rm":
                    ws.remove_stack(s)
                elif k == "Create":
                    r = auto.Stack.create(s, ws)
                elif k == "Select":
                    r = auto.Stack.select(s, ws)
                elif k == "CreateOrSelect":
                    r = auto.Stack.create_or_select(s, ws)
                elif k == "set":
                    target.set_config(*head, o["key"], cv(o["value"], o["secret"]))
                elif k == "set_all":
                    target.set_all_config(*head, {kk: cv(*v) for kk, v in o["config"].items()})
                elif k == "unset":
                    target.remove_config(*head, o["key"])
                elif k == "unset_all":
                    target.remove_all_config(*head, list(o["keys"]))
                elif k == "get":
                    target.get_config(*head, o["key"])
                elif k == "get_all":
                    target.get_all_config(*head)
                elif k == "refresh_config":
                    target.refresh_config(*head)
                elif k == "plugin":
                    ws.install_plugin(o["name"], o["version"], **({"kind": o["kind"]} if o["kind"] else {}))
                elif k == "unplugin":
                    ws.remove_plugin(o["name"], o["version"], **({"kind": o["kind"]} if o["kind"] else {}))
                elif k == "plugins":
                    ws.list_plugins()
                elif k == "stacks":
                    ws.list_stacks()
                elif k == "current":
                    ws.stack()
                elif k == "who":
                    ws.who_am_i()
                elif k == "export":
                    target.export_stack(*head)
                elif k == "import":
                    target.import_stack(*head, auto.Deployment(3, {}))
                elif k == "outputs":
                    target.stack_outputs(s) if stack is None else stack.outputs()
                elif k == "cancel":
                    stack.cancel()
                elif k == "history":
                    stack.history(page_size=o["size"], page=o["page"], show_secrets=o["show"])
            except auto.CommandError as e:
                err = e
            c.finish()
            if (err is not None) != (o.get("there") == "broken"):
                fail(f"{o}: raised {err!r}")
            if k in ("Create", "Select", "CreateOrSelect") and err is None and (r.name != s or r.workspace is not ws):
                fail(f"the stack is {r!r}")
            want = expected(o, w)
            got = []
            for req in c.requests:
                f = dict(req.cmd.flags)
                if not f.pop("non-interactive", None):
                    fail(f"the tool may ask questions: {req.argv}")
                if "file" in f and k == "import":
                    f["file"] = True
                got.append((req.cmd.name, req.cmd.args, f))
            if k in ("cancel", "history"):
                x = w["extra"]
                more = {} if not x else {x[0][2:]: x[1] if len(x) > 1 else True}
                want = [(n, a, dict(f, **more)) for n, a, f in want]
                if done != [("args", s), ("done", s)]:
                    fail(f"the workspace's hooks were called as {done} for {o}")
            if k == "refresh_config":  # it may read the result as well
                got = [g for g in got if g[0] != ("config",)]
            if k == "outputs":
                got.sort(key=repr), want.sort(key=repr)
            if k == "unset_all":  # the order of the keys is nobody's business
                got, want = [[(n, sorted(a), f) for n, a, f in x] for x in (got, want)]
            if k == "set_all" and len({x.split(":")[-1] for x in o["config"]}) == len(o["config"]):
                got, want = [[(n, a, {kk: sorted(v) if kk in ("secret", "plaintext") else v for kk, v in f.items()}) for n, a, f in x] for x in (got, want)]
            if got != want:
                fail(f"{o} ran {got}, expected {want}")
            check_env(c, case, [i], dirs)
        looks = [x for o in case["ops"] for x in ([o.get("value")] if o["op"] == "set" else [v for v, _ in o.get("config", {}).values()])]
        if any(x.startswith("-") or "=" in x or "\n" in x or " " in x for x in looks if x is not None):
            rec.nontriv()
        rec.label("with hooks", any(w["extra"] for w in case["ws"]))
    finally:
        os.environ.pop("PULUMI_HOME", None)
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


def check_env(c, case, which, dirs):
    base = dict(os.environ)
    for n, req in enumerate(c.requests):
        i = which[min(n, len(which) - 1)]
        w = case["ws"][i]
        if os.path.realpath(req.cwd) != dirs[i]:
            fail(f"{req.argv} ran in {req.cwd}, expected {dirs[i]}")
        want = dict(base)
        if w["home"]:
            want["PULUMI_HOME"] = w["home"]
        want.update(w["env"] or {})
        for k, v in want.items():
            if req.env.get(k) != v:
                fail(f"{req.argv} ran with {k}={req.env.get(k)!r}, expected {v!r}")
        extra = [k for k in req.env if k not in want and k not in ("PULUMI_DEBUG_COMMANDS", "LC_CTYPE", "_", "PWD", "OLDPWD", "SHLVL")]
        if extra:
            fail(f"{req.argv} ran with additional variables {extra}")


@part("commands", quick=450, thorough=20000, shards=8, batch=60, rule="configuration values that look like flags or contain spaces, equals signs or newlines")
def commands():
    return cases(), run


# ---------------------------------------------------------------- creating and selecting stacks with options
@st.composite
def setup_cases(draw):
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["inline", "inline", "local", "bad"]))
        steps.append({"kind": k, "how": draw(st.sampled_from(["create", "select", "create_or_select"])), "stack": draw(names), "project": draw(st.sampled_from(["p1", "p2", "p3"])),
                      "opts": draw(st.sampled_from([None, 0, 0, 1])), "dir": draw(st.integers(0, 1))})
    opts = [{"dir": draw(st.sampled_from([None, 0, 1])), "settings": draw(st.sampled_from([None, None, "own"])), "env": draw(st.one_of(st.none(), envs)), "home": draw(st.sampled_from([None, "h"])), "sp": draw(st.sampled_from([None, "passphrase", "default"])),
             "stacks": draw(st.sampled_from([None, "dev"]))} for _ in range(2)]
    return {"steps": steps, "opts": opts, "there": draw(st.sampled_from([[], [0], [0, 1]]))}


def run_setup(case, rec):
    import pulumi.automation as auto
    import yaml

    c = cli()

    def handler(req):
        req.cmd = read_command(req)
        req.out(REPLY.get(req.cmd.name, ""))
        req.exit(0)

    c.start(handler)
    dirs = [c.scratch(), c.scratch()]
    made = []
    try:
        for i in case["there"]:
            with open(os.path.join(dirs[i], "Pulumi.yaml"), "w") as f:
                f.write("name: already%d\nruntime: python\ndescription: kept\n" % i)
        content = {i: "already%d" % i for i in case["there"]}
        progs = {}
        opts = []
        for o in case["opts"]:
            opts.append(auto.LocalWorkspaceOptions(work_dir=None if o["dir"] is None else dirs[o["dir"]], pulumi_home=o["home"], env_vars=dict(o["env"]) if o["env"] is not None else None, secrets_provider=o["sp"],
                                                   project_settings=auto.ProjectSettings("own", "python") if o["settings"] else None,
                                                   stack_settings={o["stacks"]: auto.StackSettings(secrets_provider="sp", config={"a:b": "c"})} if o["stacks"] else None))
        snap = [dict(o.__dict__) for o in opts]
        for n, s in enumerate(case["steps"]):
            f = getattr(auto, {"create": "create_stack", "select": "select_stack", "create_or_select": "create_or_select_stack"}[s["how"]])
            o = None if s["opts"] is None else opts[s["opts"]]
            spec = None if s["opts"] is None else case["opts"][s["opts"]]

            def program(n=n):
                return n
            progs[n] = program
            c.start(handler)
            if s["kind"] == "bad":
                try:
                    f(s["stack"], opts=o, project_name=s["project"])
                except ValueError:
                    pass
                else:
                    fail("neither a program nor a directory was accepted")
                if c.requests:
                    fail(f"ran {[r.argv for r in c.requests]}")
                continue
            if s["kind"] == "inline":
                st_ = f(s["stack"], project_name=s["project"], program=program, opts=o)
                wd = spec["dir"] if spec else None
            else:
                st_ = f(s["stack"], work_dir=dirs[s["dir"]], opts=o)
                wd = s["dir"]
            c.finish()
            ws = st_.workspace
            made.append(ws.work_dir)
            what = f"step {n} of {case['steps']} with options {spec}"
            if ws.program is not (program if s["kind"] == "inline" else None):
                fail(f"{what}: the stack has program {ws.program and ws.program()}")
            if wd is not None and os.path.realpath(ws.work_dir) != dirs[wd]:
                fail(f"{what}: the stack's directory is {ws.work_dir}")
            if wd is None and (os.path.realpath(ws.work_dir) in dirs or made.count(ws.work_dir) > 1 or not os.path.isdir(ws.work_dir)):
                fail(f"{what}: the stack's directory is {ws.work_dir}, expected one of its own")
            if ws.pulumi_home != (spec["home"] if spec else None) or dict(ws.env_vars) != ((spec["env"] or {}) if spec else {}) or ws.secrets_provider != (spec["sp"] if spec else None):
                fail(f"{what}: the workspace is {ws!r}")
            # project settings: those given, else those there, else (inline programs) a default with the project's name
            prev = content.get(wd) if wd is not None else None
            want = "own" if spec and spec["settings"] else prev if prev else s["project"] if s["kind"] == "inline" else None
            path = os.path.join(ws.work_dir, "Pulumi.yaml")
            got = None
            if os.path.exists(path):
                with open(path) as h:
                    got = yaml.safe_load(h)
            if (got or {}).get("name") != want:
                fail(f"{what}: the project's settings are {got}, expected the name {want}")
            if got and prev and want == prev and prev.startswith("already") and got.get("description") != "kept":
                fail(f"{what}: existing settings became {got}")
            if got and want == s["project"] and s["kind"] == "inline" and not prev and not (spec and spec["settings"]) and got.get("runtime") != "python":
                fail(f"{what}: default settings {got}")
            if wd is not None and want:
                content[wd] = want
            if spec and spec["stacks"]:
                got = ws.stack_settings(spec["stacks"])
                if got.secrets_provider != "sp" or got.config != {"a:b": "c"}:
                    fail(f"{what}: stack settings {got.__dict__}")
            cmds = [r.cmd for r in c.requests if r.cmd.name != ("version",)]
            names_ = [x.name for x in cmds]
            if names_ != [("stack", "select" if s["how"] == "select" else "init")] or cmds[0].flags.get("stack") != s["stack"] or cmds[0].flags.get("secrets-provider") != ((spec["sp"] if spec else None) if s["how"] != "select" else None):
                fail(f"{what}: ran {cmds}")
            if [dict(x.__dict__) for x in opts] != snap:
                fail(f"{what}: the caller's options became {opts[s['opts']].__dict__}")
        if len([s for s in case["steps"] if s["opts"] is not None]) > 1:
            rec.nontriv()
    finally:
        for d in dirs + made:
            shutil.rmtree(d, ignore_errors=True)


@part("setup", quick=450, thorough=15000, shards=6, batch=80, rule="options used for several stacks")
def setup_part():
    return setup_cases(), run_setup
