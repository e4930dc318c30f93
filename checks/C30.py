"""C30 stack outputs, config and listings read back as the CLI reports them."""
import copy
import datetime

from cli import cli, gojson, read_command
from harness import fail, part, same
from hypothesis import strategies as st

strs = st.one_of(st.sampled_from(["", "a", "[secret]", "-x", "--plaintext", "a=b", "a\nb", " x ", "é日", "true", "1.5", "null", "{\"a\": 1}", "<&>", "'q'", "\"d\"", "--", "$HOME", "%s", "\t"]),
                 st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=6))
anys = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**53, 2**53), st.floats(allow_nan=False, allow_infinity=False), strs), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(strs, c, max_size=3)), max_leaves=6)
keys = st.sampled_from(["k", "proj:k", "key2", "aws:region", "proj:a.b", "x", "other:x", "é"])
STACKS = ["dev", "org/proj/prod"]


def full(k):
    return k if ":" in k else "proj:" + k


@st.composite
def config_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["set", "set", "set_all", "set_all", "rm", "rm_all", "get", "all", "back", "refresh", "get", "all"]))
        op = [k, draw(st.integers(0, 1)), draw(st.booleans())]
        if k == "set":
            op += [draw(keys), [draw(strs), draw(st.booleans())]]
        elif k == "set_all":
            op += [{kk: [draw(strs), draw(st.booleans())] for kk in draw(st.lists(keys, max_size=4, unique_by=full))}]
        elif k in ("rm", "get"):
            op += [draw(keys)]
        elif k == "rm_all":
            op += [draw(st.lists(keys, min_size=1, max_size=3, unique=True))]
        ops.append(op)
    # what is configured before: some of it structured
    store = [{full(kk): [draw(strs), draw(st.booleans()), draw(st.sampled_from([None, None, None, {"a": [1]}, ["x"]]))] for kk in draw(st.lists(keys, max_size=4, unique_by=full))} for _ in STACKS]
    return {"ops": ops, "store": store}


class Tool:
    """configuration as the real tool keeps it"""

    def __init__(self, store):
        self.store = [{k: list(v) for k, v in s.items()} for s in store]
        self.last = copy.deepcopy(self.store)
        self.commands = []

    def cfg(self, cmd):
        n = cmd.flags.get("stack")
        if n not in STACKS:
            fail(f"no stack named for {cmd}")
        return STACKS.index(n)

    def value(self, v):
        d = {"value": v[0], "secret": v[1]}
        if v[2] is not None:
            d["objectValue"] = v[2]
        return d

    def __call__(self, req):
        cmd = read_command(req)
        self.commands.append(cmd)
        name, f = cmd.name, cmd.flags
        if not f.get("non-interactive"):
            fail(f"the tool may ask questions: {req.argv}")
        if name == ("version",):
            req.out("v3.40.0\n")
        elif name == ("stack", "select"):
            pass
        elif name == ("config",):
            c = self.store[self.cfg(cmd)]
            if not f.get("json"):
                fail(f"not machine-readable: {cmd}")
            out = {}
            for k, v in sorted(c.items()):
                d = self.value(v)
                if v[1] and not f.get("show-secrets"):
                    d.pop("value"), d.pop("objectValue", None)
                out[k] = d
            req.out(gojson(out))
        elif name == ("config", "get"):
            c = self.store[self.cfg(cmd)]
            k = full(cmd.args[0])
            if k not in c:
                req.err(f"error: configuration key '{k}' not found for stack 'dev'\n")
                req.exit(255)
                return
            if not f.get("json"):
                fail(f"not machine-readable: {cmd}")
            req.out(gojson(self.value(c[k])))
        elif name == ("config", "set"):
            c = self.store[self.cfg(cmd)]
            if len(cmd.args) != 2:
                fail(f"no value in {req.argv}")
            if bool(f.get("secret")) == bool(f.get("plaintext")) or f.get("path"):
                fail(f"neither secret nor plain: {req.argv}")
            c[full(cmd.args[0])] = [cmd.args[1], bool(f.get("secret")), None]
        elif name == ("config", "set-all"):
            c = self.store[self.cfg(cmd)]
            if f.get("path"):
                fail(f"keys are paths: {req.argv}")
            for secret in (False, True):
                for kv in f.get("secret" if secret else "plaintext", []):
                    k, eq, v = kv.partition("=")
                    if not eq:
                        fail(f"no value in {req.argv}")
                    c[full(k)] = [v, secret, None]
        elif name in (("config", "rm"), ("config", "rm-all")):
            c = self.store[self.cfg(cmd)]
            for k in cmd.args:
                c.pop(full(k), None)
        elif name == ("config", "refresh"):
            i = self.cfg(cmd)
            if not f.get("force"):
                fail(f"keeps the old file: {req.argv}")
            self.store[i] = copy.deepcopy(self.last[i])
        else:
            fail(f"unexpected command {req.argv}")
        req.exit(0)


def run_config(case, rec):
    import pulumi.automation as auto

    c = cli()
    tool = Tool(case["store"])
    c.start(tool)
    ws = auto.LocalWorkspace(work_dir=c.dir)
    c.finish()
    stacks = [auto.Stack.select(n, ws) for n in STACKS]
    model = [{k: list(v) for k, v in s.items()} for s in case["store"]]
    CV = auto.ConfigValue

    def expect(got, i, what):
        want = {k: (v[0], v[1]) for k, v in model[i].items()}
        got = {k: (v.value, v.secret) for k, v in got.items()}
        if got != want:
            fail(f"{what} gave {got}, the stack has {want}")

    for op in case["ops"]:
        kind, i, direct = op[:3]
        m = model[i]
        call = (lambda f, *a: getattr(ws, f)(STACKS[i], *a)) if direct else (lambda f, *a: getattr(stacks[i], f)(*a))
        if kind == "set":
            call("set_config", op[3], CV(op[4][0], secret=op[4][1]))
            m[full(op[3])] = [op[4][0], op[4][1], None]
        elif kind == "set_all":
            given = {k: CV(v, secret=s) for k, (v, s) in op[3].items()}
            call("set_all_config", given)
            for k, (v, s) in op[3].items():
                m[full(k)] = [v, s, None]
            if {k: [v.value, v.secret] for k, v in given.items()} != op[3]:
                fail("the caller's configuration was changed")
        elif kind == "rm":
            call("remove_config", op[3])
            m.pop(full(op[3]), None)
        elif kind == "rm_all":
            given = list(op[3])
            call("remove_all_config", given)
            if given != op[3]:
                fail(f"the caller's list of keys was changed to {given}")
            for k in op[3]:
                m.pop(full(k), None)
        elif kind == "get":
            try:
                got = call("get_config", op[3])
            except auto.CommandError:
                if full(op[3]) in m and not c.errors:
                    fail(f"reading {op[3]!r} raised, the stack has {m}")
            else:
                v = m.get(full(op[3]))
                if v is None or got.value != v[0] or got.secret is not v[1]:
                    fail(f"reading {op[3]!r} gave {got.value!r}, secret {got.secret}; the stack has {v}")
        elif kind == "all":
            expect(call("get_all_config"), i, "reading the configuration")
        elif kind == "back":
            got = call("get_all_config")
            expect(got, i, "reading the configuration")
            call("set_all_config", got)
            for k in m:
                m[k] = m[k][:2] + [None]
        elif kind == "refresh":
            call("refresh_config")
            model[i] = copy.deepcopy(tool.last[i])
        c.finish()
        real = [{k: v[:2] for k, v in s.items()} for s in tool.store]
        want = [{k: v[:2] for k, v in s.items()} for s in model]
        if real != want:
            fail(f"after {op} the tool's configuration is {real}, expected {want}")
    if sum(len(m) for m in model) > 1 and any(op[0] in ("set", "set_all", "back") for op in case["ops"]):
        rec.nontriv()


@part("config", quick=450, thorough=20000, shards=8, batch=60, rule="histories that set configuration and end with several values")
def config_part():
    return config_cases(), run_config


# ---------------------------------------------------------------- everything else that is read
times = st.datetimes(min_value=datetime.datetime(1971, 1, 1), max_value=datetime.datetime(2100, 1, 1)).map(lambda t: t.replace(microsecond=t.microsecond // 1000 * 1000)).map(lambda t: t.strftime("%Y-%m-%dT%H:%M:%S.") + "%03dZ" % (t.microsecond // 1000))
OPS = ["same", "create", "update", "delete", "replace", "read", "import", "discard-replaced"]


@st.composite
def opt(draw, d, key, s):
    if draw(st.booleans()):
        d[key] = draw(s)


@st.composite
def update(draw, last):
    d = {"version": draw(st.integers(0, 10**6)), "kind": draw(st.sampled_from(["update", "preview", "refresh", "rename", "destroy", "import"])), "startTime": draw(times), "message": draw(strs),
         "environment": draw(st.dictionaries(strs, strs, max_size=3)), "result": "succeeded"}
    d["config"] = {full(k): [draw(strs), draw(st.booleans()), draw(st.sampled_from([None, None, {"a": 1}]))] for k in draw(st.lists(keys, max_size=3, unique_by=full))}
    if last and draw(st.integers(0, 4)) == 0:
        d["result"] = "in-progress"
    else:
        d["result"] = draw(st.sampled_from(["succeeded", "failed"]))
        d["endTime"] = draw(times)
        d["resourceChanges"] = draw(st.dictionaries(st.sampled_from(OPS), st.integers(0, 99), max_size=3))
    return d


@st.composite
def read_cases(draw):
    kind = draw(st.sampled_from(["outputs", "outputs", "outputs", "stacks", "plugins", "history", "history", "history", "deployment", "whoami"]))
    d = {"kind": kind, "direct": draw(st.booleans()), "noise": draw(st.booleans())}
    if kind == "outputs":
        d["outputs"] = {k: [draw(st.one_of(anys, st.sampled_from(["[secret]", ["[secret]"], {"a": "[secret]"}, "[Secret]", "[secret] "]))), draw(st.booleans())] for k in draw(st.lists(strs, max_size=5, unique=True))}
    elif kind == "stacks":
        names = draw(st.lists(st.sampled_from(["dev", "prod", "org/proj/x", "a.b", "zz"]), max_size=4, unique=True))
        cur = draw(st.integers(-1, len(names) - 1))
        d["stacks"] = []
        for i, n in enumerate(names):
            s = {"name": n, "current": i == cur, "updateInProgress": draw(st.booleans())}
            if not s["updateInProgress"] and draw(st.booleans()):
                s["lastUpdate"] = draw(times)
            if draw(st.booleans()):
                s["resourceCount"] = draw(st.integers(0, 1000))
            if draw(st.booleans()):
                s["url"] = "https://app.pulumi.com/" + n
            d["stacks"].append(s)
    elif kind == "plugins":
        d["plugins"] = []
        for _ in range(draw(st.integers(0, 4))):
            p = {"name": draw(st.sampled_from(["aws", "gcp", "random"])), "kind": draw(st.sampled_from(["resource", "language", "analyzer"])), "version": draw(st.sampled_from(["1.2.3", "", "4.0.0-alpha.1+x"])), "size": draw(st.integers(0, 2**40))}
            if draw(st.booleans()):
                p["installTime"] = draw(times)
            if draw(st.integers(0, 3)) > 0:
                p["lastUsedTime"] = draw(times)
            d["plugins"].append(p)
    elif kind == "history":
        n = draw(st.integers(0, 4))
        d["updates"] = [draw(update(i == 0)) for i in range(n)]
        d["size"] = draw(st.sampled_from([None, None, 1, 2, 10]))
        d["page"] = draw(st.sampled_from([None, 1, 2])) if d["size"] else None
        d["show"] = draw(st.booleans())
        d["info"] = draw(st.booleans())
    elif kind == "deployment":
        d["state"] = {"version": draw(st.integers(1, 4)), "deployment": draw(st.dictionaries(strs, anys, max_size=3))}
        d["fails"] = draw(st.integers(0, 3)) == 0
    else:
        d["user"] = draw(st.text("abcXYZ-_0", min_size=1, max_size=10))
    return d


def when(t):
    return None if t is None else datetime.datetime.strptime(t, "%Y-%m-%dT%H:%M:%S.%fZ")


def run_read(case, rec):
    import os
    import tempfile

    import pulumi.automation as auto

    c = cli()
    kind = case["kind"]
    seen = {}

    def shown(cfg, show):
        out = {}
        for k, (v, s, o) in cfg.items():
            d = {"secret": s}
            if show or not s:
                d["value"] = v
                if o is not None:
                    d["objectValue"] = o
            out[k] = d
        return out

    def handler(req):
        cmd = read_command(req)
        name, f = cmd.name, cmd.flags
        if name == ("version",):
            req.out("v3.40.0\n")
            return req.exit(0)
        if name == ("stack", "select"):
            return req.exit(0)
        if case["noise"]:
            req.err("warning: A new version of Pulumi is available\n")
        if name in (("stack", "output"), ("stack", "history"), ("stack", "export"), ("stack", "import")) and f.get("stack") != "dev":
            fail(f"another stack: {req.argv}")
        if name in (("stack", "output"), ("stack", "history"), ("stack", "ls"), ("plugin", "ls")) and not f.get("json"):
            fail(f"not machine-readable: {req.argv}")
        if name == ("stack", "output"):
            req.out(gojson({k: "[secret]" if s and not f.get("show-secrets") else v for k, (v, s) in case["outputs"].items()}))
        elif name == ("stack", "ls"):
            req.out(gojson(case["stacks"]))
        elif name == ("plugin", "ls"):
            req.out(gojson(case["plugins"]))
        elif name == ("stack", "history"):
            us = case["updates"]
            size, page = f.get("page-size", 10), f.get("page", 1)
            if "page-size" in f or "page" in f:
                us = us[size * (page - 1):size * page]
            req.out(gojson([dict(u, config=shown(u["config"], f.get("show-secrets"))) for u in us]))
        elif name == ("stack", "export"):
            if not f.get("show-secrets"):
                fail(f"the export is without its secrets: {req.argv}")
            req.out(gojson(case["state"]))
        elif name == ("stack", "import"):
            with open(f["file"], encoding="utf-8") as h:
                import json
                seen["state"] = json.load(h)
            seen["file"] = f["file"]
            if case["fails"]:
                req.err("error: could not import\n")
                return req.exit(1)
        elif name == ("whoami",):
            req.out(case["user"] + "\n")
        else:
            fail(f"unexpected command {req.argv}")
        req.exit(0)

    c.start(handler)
    ws = auto.LocalWorkspace(work_dir=c.dir)
    stack = auto.Stack.select("dev", ws)

    def go(f):
        try:
            return f()
        except auto.CommandError:
            c.finish()
            raise

    if kind == "outputs":
        got = go(lambda: ws.stack_outputs("dev") if case["direct"] else stack.outputs())
        want = case["outputs"]
        if list(got) != list(want):
            fail(f"outputs {list(got)}, the stack has {list(want)}")
        for k, (v, s) in want.items():
            if not same(got[k].value, v):
                fail(f"output {k!r} is {got[k].value!r}, the stack has {v!r}")
            if got[k].secret is not (s or v == "[secret]"):
                fail(f"output {k!r} is {'secret' if got[k].secret else 'plain'}, value {v!r}, {'masked' if s else 'shown'} by the tool")
            if s and repr(v) in repr(got[k]) and len(repr(v)) > 6:
                fail(f"a secret output shows its value: {got[k]!r}")
        if any(s for _, s in want.values()) and not all(s for _, s in want.values()):
            rec.nontriv()
    elif kind == "stacks":
        got = go(ws.list_stacks)
        view = [[x.name, x.current, x.update_in_progress, x.last_update, x.resource_count, x.url] for x in got]
        want = [[x["name"], x["current"], x["updateInProgress"], when(x.get("lastUpdate")), x.get("resourceCount"), x.get("url")] for x in case["stacks"]]
        if view != want:
            fail(f"stacks {view}, the tool lists {want}")
        cur = go(ws.stack)
        want = [x["name"] for x in case["stacks"] if x["current"]]
        if ([cur.name] if cur else []) != want:
            fail(f"the current stack is {cur and cur.name}, the tool says {want}")
        if len(view) > 1:
            rec.nontriv()
    elif kind == "plugins":
        got = go(ws.list_plugins)
        view = [[x.name, x.kind, x.size, x.install_time, x.last_used, x.version] for x in got]
        want = [[x["name"], x["kind"], x["size"], when(x.get("installTime")), when(x.get("lastUsedTime")), x["version"]] for x in case["plugins"]]
        if view != want:
            fail(f"plugins {view}, the tool lists {want}")
        if len(view) > 1:
            rec.nontriv()
    elif kind == "history":
        us = case["updates"]
        if case["info"]:
            got = go(lambda: stack.info(case["show"]))
            got, us = [] if got is None else [got], us[:1]
        else:
            kw = {"show_secrets": case["show"]}
            if case["size"]:
                kw["page_size"] = case["size"]
                if case["page"]:
                    kw["page"] = case["page"]
                us = us[case["size"] * ((case["page"] or 1) - 1):][:case["size"]]
            got = go(lambda: stack.history(**kw))
        if len(got) != len(us):
            fail(f"{len(got)} entries, the tool lists {len(us)}")
        for g, u in zip(got, us):
            view = [g.kind, g.start_time, g.message, g.environment, g.result, g.end_time, g.version, g.resource_changes, {k: (v.value, v.secret) for k, v in g.config.items()}]
            want = [u["kind"], when(u["startTime"]), u["message"], u["environment"], u["result"], when(u.get("endTime")), u["version"], u.get("resourceChanges"), {k: (v if case["show"] or not s else None, s) for k, (v, s, _) in u["config"].items()}]
            if view != want:
                fail(f"history entry {view}, the tool lists {want}")
            repr(g)
        if len(us) > 1 or any(u["config"] for u in us):
            rec.nontriv()
    elif kind == "deployment":
        d = go(lambda: ws.export_stack("dev") if case["direct"] else stack.export_stack())
        if not same(d.version, case["state"]["version"]) or not same(d.deployment, case["state"]["deployment"]):
            fail(f"exported {d!r}, the tool has {case['state']}")
        before = set(os.listdir(tempfile.gettempdir()))
        try:
            ws.import_stack("dev", d) if case["direct"] else stack.import_stack(d)
        except auto.CommandError:
            if not case["fails"]:
                c.finish()
                raise
        else:
            if case["fails"]:
                fail("a failed import did not raise")
        c.finish()
        if not same(seen["state"], case["state"]):
            fail(f"imported {seen['state']}, the caller gave {case['state']}")
        if os.path.exists(seen["file"]):
            fail(f"the import left its file with the stack's state behind ({'the tool failed' if case['fails'] else 'the tool succeeded'})")
        rec.nontriv()
    else:
        got = go(ws.who_am_i)
        if got.user != case["user"]:
            fail(f"user {got.user!r}, the tool says {case['user']!r}")
    c.finish()
    rec.label(kind)


@part("read", quick=1000, thorough=40000, shards=8, batch=125, rule="secret and plain outputs together, several stacks, plugins or updates, or a deployment exported and imported")
def read_part():
    return read_cases(), run_read
