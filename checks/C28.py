"""C28 project and stack settings survive being saved and loaded."""
import json
import os

from cli import cli
from harness import fail, part, same
from hypothesis import strategies as st

# text that a careless writer of YAML would turn into something else
TRICKY = ["yes", "no", "on", "null", "~", "1", "1.5", "1e3", "0x1F", "010", "2020-01-01", "2020-01-01T00:00:00Z", "a: b", "- x", "# c", "{a}", "[1]", "&a", "*a", "!x", "%y", "@z", "`q", "'q'", "\"d\"", "a\nb", "a\n", "\nb", "  lead", "trail ",
          "a\tb", "é", "日本", "\U0001f600", "", " ", "|", ">", "?", ":", "=", "<<", "true", "False", "a\r\nb", "\x85", "\u2028", "\x7f", "\ufeffx", "1_000", "12:30:45", "---", "...", "\\n", "a" * 200, "word " * 40]
strs = st.one_of(st.sampled_from(TRICKY), st.text(st.characters(exclude_categories=["Cs"]), max_size=8), st.text("abc-_:./", min_size=1, max_size=8))
keys = st.one_of(st.sampled_from(["proj:key", "aws:region", "key", "a:b", "yes", "1", "secure", "x.y", "proj:a b", "é:ü"]), strs)
some = st.one_of(st.none(), st.none(), strs.filter(bool))


@st.composite
def anyval(draw, depth):
    k = draw(st.integers(0, 9))
    if depth > 0 and k == 0:
        return [draw(anyval(depth - 1)) for _ in range(draw(st.integers(0, 3)))]
    if depth > 0 and k in (1, 2):
        return {kk: draw(anyval(depth - 1)) for kk in draw(st.lists(keys, max_size=3, unique=True))}
    if k == 3:
        return draw(st.integers(-2**53, 2**53))
    if k == 4:
        return draw(st.booleans())
    if k == 5:
        return draw(st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([1.0, 1e20, 1e-7, 0.1, -0.0])))
    if k == 6 and depth < 2:
        return None
    if depth > 0 and k == 7:
        return draw(st.sampled_from([{"secure": "v1:abc"}, {"secure": "x", "other": 1}, {"secure": 5}, {"secure": {"secure": "n"}}, {"secure": None}]))
    return draw(strs)


# a settings value: ["s", text] is a secure value, ["v", value] any other
@st.composite
def stack(draw):
    n = draw(st.integers(0, 5))
    cfg = {}
    for _ in range(n):
        cfg[draw(keys)] = ["s", draw(strs)] if draw(st.integers(0, 3)) == 0 else ["v", draw(anyval(2))]
    return {"secrets_provider": draw(some), "encrypted_key": draw(some), "encryption_salt": draw(some), "config": draw(st.sampled_from([cfg, cfg, cfg, None]))}


@st.composite
def project(draw):
    full = draw(st.integers(0, 2)) > 0
    runtime = draw(st.sampled_from(["python", "go", "nodejs", "dotnet"]))
    if full and draw(st.booleans()):
        runtime = [draw(st.sampled_from([runtime, "java", "yaml"])), draw(st.one_of(st.none(), st.dictionaries(keys, anyval(1), max_size=3)))]
    t = None
    if full and draw(st.booleans()):
        t = {"description": draw(some), "quickstart": draw(some), "important": draw(st.sampled_from([None, True, False])),
             "config": {k: {"description": draw(some), "default": draw(some), "secret": draw(st.booleans())} for k in draw(st.lists(keys, max_size=3, unique=True))}}
    b = {"url": draw(some)} if full and draw(st.booleans()) else None
    return {"name": draw(strs), "runtime": runtime, "main": draw(some), "description": draw(some), "author": draw(some), "website": draw(some), "license": draw(some), "config": draw(some), "template": t, "backend": b}


EXT = [".yaml", ".yml", ".json"]


@st.composite
def cases(draw):
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k < 4:
            steps.append(["stack", draw(st.sampled_from(["dev", "org/proj/dev", "prod", "a.b", "org/dev"])), draw(stack())])
        elif k < 8:
            steps.append(["project", None, draw(project())])
        elif k == 8:
            steps.append(["again", draw(st.sampled_from(["dev", "prod", "a.b"])), None])
        else:
            steps.append(["written", draw(st.sampled_from(["dev", "prod"])), draw(stack())])
    # files that are there before: which extension each has
    return {"steps": steps, "there": {f: draw(st.sampled_from(EXT)) for f in draw(st.lists(st.sampled_from(["Pulumi", "Pulumi.dev", "Pulumi.prod", "Pulumi.a.b"]), max_size=4, unique=True))},
            # other files of the same settings, in another format
            "more": draw(st.one_of(st.just([]), st.lists(st.sampled_from([["Pulumi", e] for e in EXT] + [["Pulumi.dev", e] for e in EXT] + [["Pulumi.a.b", e] for e in EXT]), max_size=3, unique_by=tuple))),
            "seed": draw(st.booleans())}


def build_stack(auto, d):
    from pulumi.automation import StackSettings
    from pulumi.automation._stack_settings import StackSettingsSecureConfigValue as Secure
    cfg = None if d["config"] is None else {k: Secure(v) if t == "s" else v for k, (t, v) in d["config"].items()}
    return StackSettings(d["secrets_provider"], d["encrypted_key"], d["encryption_salt"], cfg)


def is_secure(v):
    return isinstance(v, dict) and list(v) == ["secure"] and isinstance(v["secure"], str)


def read_stack(s):
    """a loaded StackSettings, as build_stack's argument"""
    cfg = {}
    for k, v in (s.config or {}).items():
        if type(v).__name__ == "StackSettingsSecureConfigValue":
            cfg[k] = ["s", v.secure]
        else:
            cfg[k] = ["v", v]
    return {"secrets_provider": s.secrets_provider, "encrypted_key": s.encrypted_key, "encryption_salt": s.encryption_salt, "config": cfg}


def norm_stack(d):
    """no config is an empty config; a dictionary holding just a ciphertext is a secure value"""
    cfg = {k: (["s", v["secure"]] if t == "v" and is_secure(v) else [t, v]) for k, (t, v) in (d["config"] or {}).items()}
    return dict(d, config=cfg)


def build_project(auto, d):
    from pulumi.automation._project_settings import ProjectBackend, ProjectRuntimeInfo, ProjectSettings, ProjectTemplate, ProjectTemplateConfigValue
    d = dict(d)
    if isinstance(d["runtime"], list):
        d["runtime"] = ProjectRuntimeInfo(d["runtime"][0], d["runtime"][1])
    if d["template"] is not None:
        t = d["template"]
        d["template"] = ProjectTemplate(t["description"], t["quickstart"], {k: ProjectTemplateConfigValue(v["description"], v["default"], v["secret"]) for k, v in t["config"].items()}, t["important"])
    if d["backend"] is not None:
        d["backend"] = ProjectBackend(d["backend"]["url"])
    return ProjectSettings(**d)


def read_project(s):
    r, t, b = s.runtime, s.template, s.backend
    out = {k: getattr(s, k) for k in ("name", "main", "description", "author", "website", "license", "config")}
    out["runtime"] = r if isinstance(r, str) else [r.name, r.options]
    out["template"] = None if t is None else {"description": t.description, "quickstart": t.quickstart, "important": t.important,
                                              "config": {k: {"description": v.description, "default": v.default, "secret": v.secret} for k, v in t.config.items()}}
    out["backend"] = None if b is None else {"url": b.url}
    return out


def norm_project(d):
    d = dict(d)
    if isinstance(d["runtime"], list):
        d["runtime"] = [d["runtime"][0], d["runtime"][1] or None]
    if d["template"] is not None:
        d["template"] = dict(d["template"], important=bool(d["template"]["important"]))
    return d


def plain_project(d):
    """what the file says, by the names the tool reads"""
    out = {k: v for k, v in d.items() if v is not None and k not in ("runtime", "template", "backend")}
    r = d["runtime"]
    out["runtime"] = r if isinstance(r, str) else dict({"name": r[0]}, **({"options": r[1]} if r[1] else {}))
    if d["template"] is not None:
        t = d["template"]
        out["template"] = {k: v for k, v in t.items() if v is not None and k != "config"}
        if t["config"]:
            out["template"]["config"] = {k: {x: y for x, y in v.items() if y is not None} for k, v in t["config"].items()}
    if d["backend"] is not None:
        out["backend"] = {k: v for k, v in d["backend"].items() if v is not None}
    return out


def canon_file(v, project):
    """absent and empty are one thing to the tool"""
    v = dict(v or {})
    if project:
        if isinstance(v.get("runtime"), dict):
            r = dict(v["runtime"])
            if not r.get("options"):
                r.pop("options", None)
            v["runtime"] = r if r.get("options") else r.get("name")
        if "template" in v:
            t = dict(v["template"] or {})
            t["config"] = {k: {x: y for x, y in (c or {}).items() if y not in (None, False)} for k, c in (t.get("config") or {}).items()}
            v["template"] = {k: x for k, x in t.items() if x not in (None, False, {})}
        if "backend" in v:
            v["backend"] = {k: x for k, x in (v["backend"] or {}).items() if x is not None}
    return {k: x for k, x in v.items() if x is not None and (k != "config" or x != {})}


def plain_stack(d):
    out = {}
    for k, n in (("secrets_provider", "secretsprovider"), ("encrypted_key", "encryptedkey"), ("encryption_salt", "encryptionsalt")):
        if d[k]:
            out[n] = d[k]
    if d["config"]:
        out["config"] = {k: {"secure": v} if t == "s" else v for k, (t, v) in d["config"].items()}
    return out


def parse_file(path):
    import yaml
    with open(path, "rb") as f:
        data = f.read()
    return json.loads(data) if path.endswith(".json") else yaml.safe_load(data)


def run(case, rec):
    import pulumi.automation as auto

    c = cli()
    d = c.scratch()

    def handler(req):
        req.out("v3.40.0\n")
        req.exit(0)

    c.start(handler)
    there = dict(case["there"])
    for f, ext in there.items():
        with open(os.path.join(d, f + ext), "w") as h:
            h.write('{"name": "old", "runtime": "go"}' if f == "Pulumi" else "{}")
    more = {}  # with several files, which one is used is up to the workspace: but what it saves it loads again
    for f, ext in case["more"]:
        if f in there and there[f] != ext:
            more.setdefault(f, set()).add(ext)
            with open(os.path.join(d, f + ext), "w") as h:
                h.write('{"name": "other", "runtime": "nodejs"}' if f == "Pulumi" else "{}")
    first = {}
    steps = list(case["steps"])
    kw = {}
    if case["seed"]:  # the first settings are given to the workspace when it is made
        if steps[0][0] == "stack":
            kw["stack_settings"] = {steps[0][1]: build_stack(auto, steps[0][2])}
            first = steps.pop(0)
        elif steps[0][0] == "project":
            kw["project_settings"] = build_project(auto, steps[0][2])
            first = steps.pop(0)
    ws = auto.LocalWorkspace(work_dir=d, **kw)
    model = {f: "old" for f in there}

    def saved(kind, name, spec):
        f = "Pulumi" if kind == "project" else "Pulumi." + name.split("/")[-1]
        there.setdefault(f, ".yaml")
        model[f] = spec

    def verify():
        files = sorted(os.listdir(d))
        want = sorted([f + e for f, e in there.items()] + [f + e for f in more for e in more[f]])
        if files != want:
            fail(f"the directory holds {files}, expected {want}")
        for f, spec in model.items():
            path = os.path.join(d, f + there[f])
            if spec == "old":
                continue
            try:
                content = None if f in more else parse_file(path)
            except Exception as e:  # noqa
                with open(path) as h:
                    fail(f"the saved file cannot be read by the tool: {type(e).__name__}: {e}", h.read())
            if f == "Pulumi":
                got, want = read_project(ws.project_settings()), norm_project(spec)
                if not same(norm_project(got), want):
                    fail(f"project settings {spec} were loaded as {got}")
                if f not in more and not same(canon_file(content, True), canon_file(plain_project(spec), True)):
                    fail(f"project settings {spec} were written as {content}")
            else:
                for name in (f[7:], "org/proj/" + f[7:]):
                    got, want = read_stack(ws.stack_settings(name)), norm_stack(spec)
                    if not same(got, want):
                        fail(f"stack settings {spec} were loaded as {got}")
                if f not in more and not same(canon_file(content, False), canon_file(plain_stack(spec), False)):
                    fail(f"stack settings {spec} were written as {content}")

    if first:
        saved(*first)
        verify()
    for kind, name, spec in steps:
        if kind == "stack":
            ws.save_stack_settings(name, build_stack(auto, spec))
            saved(kind, name, spec)
        elif kind == "project":
            s = build_project(auto, spec)
            before = read_project(s)
            ws.save_project_settings(s)
            if not same(read_project(s), before):
                fail("saving the settings changed them")
            saved(kind, name, spec)
        elif kind == "again":  # saving what was loaded leaves the content as it was
            f = "Pulumi." + name
            if model.get(f, "old") != "old":
                ws.save_stack_settings(name, ws.stack_settings(name))
            if model.get("Pulumi", "old") != "old":
                ws.save_project_settings(ws.project_settings())
        else:  # the tool (or the user) wrote the file
            f = "Pulumi." + name
            if f in more:
                continue
            there.setdefault(f, ".yaml")
            path = os.path.join(d, f + there[f])
            content = plain_stack(spec)
            with open(path, "w", encoding="utf-8") as h:
                if there[f] == ".json":
                    json.dump(content, h, ensure_ascii=False)
                elif not content:
                    h.write("")
                else:
                    import yaml
                    yaml.safe_dump(content, h, default_flow_style=False)
            model[f] = spec
        verify()
    for name in ("nothere", "org/nothere"):
        try:
            ws.stack_settings(name)
        except FileNotFoundError:
            pass
        else:
            fail("settings of a stack that has none were found")
    c.finish()
    if any(k == "project" and (s["template"] or isinstance(s["runtime"], list) or s["backend"]) for k, _, s in case["steps"]) or any(k in ("stack", "written") and any(not (t == "v" and isinstance(v, str)) for t, v in (s["config"] or {}).values()) for k, _, s in case["steps"]):
        rec.nontriv()
    rec.label("several saves", len(case["steps"]) > 1)
    import shutil
    shutil.rmtree(d, ignore_errors=True)


@part("history", quick=1500, thorough=50000, shards=7, batch=200, rule="project settings with nested parts, or stack configuration other than plain text")
def history():
    return cases(), run
