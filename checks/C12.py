"""C12 resource options reach the engine and are inherited as documented."""
import os

import engine
from engine import UNKNOWN
from harness import fail, part
from hypothesis import strategies as st

PKGS = ["pkg", "oth", "third"]
NAMES = ["foo_bar", "plain", "other_name", "zz_z", "fooBar", "*", "ann_out", "third_one", "four_th"]
IN = {"foo_bar": "fooBar", "other_name": "OTHER", "third_one": "thirdOne", "four_th": "x4"}  # translate_input_property of the plain class; input names of the typed one
OUT = {"foo_bar": "fooBarOut", "other_name": "OTHEROUT", "ann_out": "annOut", "third_one": "thirdOut", "four_th": "OUT4"}  # output names of the typed class


def opt(s):
    return st.one_of(st.none(), st.none(), s)


few = st.lists(st.sampled_from(NAMES), max_size=3)
names = st.one_of(few, few, few, few, few, few, few, st.lists(st.sampled_from(NAMES + ["n_%d" % i for i in range(20)]), min_size=9, max_size=14, unique=True))
tri = st.sampled_from([None, None, True, False])
timeouts = st.fixed_dictionaries({"kind": st.sampled_from(["obj", "dict"]),
                                  "v": st.dictionaries(st.sampled_from(["create", "update", "delete"]), st.sampled_from(["5m", "40s", ""]), max_size=3)})


@st.composite
def cases(draw):
    pool, res, providers = [], [], []
    n = draw(st.integers(1, 8))
    pick = lambda xs: draw(st.sampled_from(xs))
    for i in range(n):
        kind = pick(["custom", "custom", "comp", "comp", "remote", "provider", "provider", "read"])
        pkg = pick(PKGS)
        if kind == "provider":
            usable = [k for k, o in enumerate(pool) if o["provider"] is None]
        elif kind in ("custom", "read"):
            usable = [k for k, o in enumerate(pool) if o["provider"] is None or res[o["provider"]]["pkg"] == pkg]
        else:
            usable = list(range(len(pool)))
        if kind == "read":
            usable = [k for k in usable if pool[k]["id"] is not None]
        else:
            usable = [k for k in usable if pool[k]["id"] is None]
        if usable and draw(st.integers(0, 3)) == 0:
            o = pick(usable)
        else:
            parents = [j for j, r in enumerate(res) if r["kind"] != "provider"]
            provs = providers if kind in ("comp", "remote") else [j for j in providers if res[j]["pkg"] == pkg]
            op = {"parent": pick(parents) if parents and draw(st.integers(0, 3)) else None,
                  "protect": draw(tri), "dbr": draw(tri), "ignore": draw(opt(names)), "version": draw(opt(st.sampled_from(["1.2.3", "0.1", ""]))),
                  "url": draw(opt(st.sampled_from(["https://x.y/z", "u"]))), "aso": draw(opt(names)), "timeouts": draw(opt(timeouts)),
                  "import": draw(opt(st.sampled_from(["imp-1", "a b"]))), "replace": draw(opt(names)), "retain": draw(tri),
                  "provider": pick(provs) if provs and kind != "provider" and draw(st.booleans()) else None, "providers": None,
                  "id": "the-id" if kind == "read" else None}
            if providers and draw(st.integers(0, 2)) == 0:
                by = {}
                for j in draw(st.lists(st.sampled_from(providers), min_size=0, max_size=3, unique=True)):
                    if op["provider"] is None or res[op["provider"]]["pkg"] != res[j]["pkg"]:
                        by[res[j]["pkg"]] = j
                op["providers"] = [pick(["list", "dict", "tuple"]), list(by.values())]
            pool.append(op)
            o = len(pool) - 1
        if kind == "provider":
            providers.append(i)
        res.append({"kind": kind, "pkg": pkg, "opts": o, "typed": draw(st.booleans()) and kind != "provider"})
    return {"dry": draw(st.booleans()), "refs": pick([None, None, "1", "true", "TRUE", "0", "no"]), "pool": pool, "res": res}


def classes():
    import pulumi

    @pulumi.input_type
    class Args:
        def __init__(self, foo_bar=None, other_name=None, plain=None, third_one=None, four_th=None):
            pulumi.set(self, "third_one", third_one)
            pulumi.set(self, "four_th", four_th)
            pulumi.set(self, "foo_bar", foo_bar)
            pulumi.set(self, "other_name", other_name)
            pulumi.set(self, "plain", plain)

        @property
        @pulumi.getter(name="fooBar")
        def foo_bar(self) -> pulumi.Input[str]:
            return pulumi.get(self, "foo_bar")

        @property
        @pulumi.getter(name="OTHER")
        def other_name(self) -> pulumi.Input[str]:
            return pulumi.get(self, "other_name")

        @property
        @pulumi.getter(name="thirdOne")
        def third_one(self) -> pulumi.Input[str]:
            return pulumi.get(self, "third_one")

        @property
        @pulumi.getter(name="x4")
        def four_th(self) -> pulumi.Input[str]:
            return pulumi.get(self, "four_th")

        @property
        @pulumi.getter
        def plain(self) -> pulumi.Input[str]:
            return pulumi.get(self, "plain")

    class Mix:
        def translate_input_property(self, prop):
            return IN.get(prop, prop)

        def translate_output_property(self, prop):
            return {v: k for k, v in IN.items()}.get(prop, prop)

    class Typed:
        @property
        @pulumi.getter(name="thirdOut")
        def third_one(self) -> pulumi.Output[str]:
            return pulumi.get(self, "third_one")

        @property
        @pulumi.getter(name="OUT4")
        def four_th(self) -> pulumi.Output[str]:
            return pulumi.get(self, "four_th")

        @property
        @pulumi.getter(name="fooBarOut")
        def foo_bar(self) -> pulumi.Output[str]:
            return pulumi.get(self, "foo_bar")

        @property
        @pulumi.getter(name="OTHEROUT")
        def other_name(self) -> pulumi.Output[str]:
            return pulumi.get(self, "other_name")

    # annotations count only on the class itself
    ann = lambda: {"__annotations__": {"ann_out": pulumi.Output[str]}, "ann_out": pulumi.property("annOut")}
    C, K = pulumi.CustomResource, pulumi.ComponentResource
    return (Args, type("PC", (Mix, C), {}), type("PK", (Mix, K), {}), type("TC", (Typed, C), ann()), type("TK", (Typed, K), ann()))


def build_opts(o, made):
    import pulumi
    t = o["timeouts"]
    if t is not None:
        t = pulumi.CustomTimeouts(**t["v"]) if t["kind"] == "obj" else dict(t["v"])
    pv = o["providers"]
    if pv is not None:
        xs = [made[j] for j in pv[1]]
        pv = xs if pv[0] == "list" else tuple(xs) if pv[0] == "tuple" else {x.package: x for x in xs}
    return pulumi.ResourceOptions(
        parent=None if o["parent"] is None else made[o["parent"]], protect=o["protect"], delete_before_replace=o["dbr"],
        ignore_changes=copylist(o["ignore"]), version=o["version"], plugin_download_url=o["url"], additional_secret_outputs=copylist(o["aso"]),
        custom_timeouts=t, import_=o["import"], replace_on_changes=copylist(o["replace"]), retain_on_delete=o["retain"],
        provider=None if o["provider"] is None else made[o["provider"]], providers=pv, id=o["id"])


def copylist(x):
    return None if x is None else list(x)


def model(case):
    """per resource: protect, provider (index), providers map, as documented"""
    out = []
    for i, r in enumerate(case["res"]):
        o = case["pool"][r["opts"]]
        par = out[o["parent"]] if o["parent"] is not None else {"protect": False, "map": {}}
        pmap = {}
        if o["providers"] is not None:
            pmap = {case["res"][j]["pkg"]: j for j in o["providers"][1]}
        own = o["provider"]
        pkg = "pulumi" if r["kind"] == "provider" else r["pkg"]
        prov = own if own is not None else pmap.get(pkg, par["map"].get(pkg))
        if own is not None:
            pmap = {**pmap, case["res"][own]["pkg"]: own}
        protect = o["protect"] if o["protect"] is not None else par["protect"]
        out.append({"protect": bool(protect), "prov": prov, "own": {**pmap, **({case["res"][prov]["pkg"]: prov} if prov is not None else {})},
                    "map": {**par["map"], **pmap}})
    return out


def run(case, rec):
    eng = engine.FakeEngine(["secrets"], dry_run=case["dry"])
    made = []

    def body():
        Args, PC, PK, TC, TK = classes()
        import pulumi
        opts = {}
        for i, r in enumerate(case["res"]):
            if r["opts"] not in opts:
                opts[r["opts"]] = build_opts(case["pool"][r["opts"]], made)
            else:
                rec.label("shared options object")
            o = opts[r["opts"]]
            name = f"r{i}"
            if r["kind"] == "provider":
                made.append(pulumi.ProviderResource(r["pkg"], name, {}, o))
                continue
            props = Args(foo_bar="x") if r["typed"] else {"foo_bar": "x"}
            t = f"{r['pkg']}:mod:T"
            if r["kind"] in ("custom", "read"):
                made.append((TC if r["typed"] else PC)(t, name, props, o))
            else:
                made.append((TK if r["typed"] else PK)(t, name, props, o, remote=r["kind"] == "remote"))

    old = os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
    if case["refs"] is not None:
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = case["refs"]
    try:
        err, _ = engine.run_program(eng, body)
    finally:
        os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
        if old is not None:
            os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = old
    if err is not None:
        fail(f"program failed: {type(err).__name__}: {err}")
    reqs = {r.name: (k, r) for k, r in eng.log if k in ("register", "read")}
    m = model(case)
    urns = {}
    for i, r in enumerate(case["res"]):
        k, q = reqs[f"r{i}"]
        urns[i] = eng.make_urn(q.parent, q.type, q.name)

    def ref(j):
        return urns[j] + "::" + (UNKNOWN if case["dry"] else f"r{j}-id")

    inherited = False
    for i, r in enumerate(case["res"]):
        k, q = reqs[f"r{i}"]
        o = case["pool"][r["opts"]]
        custom = r["kind"] in ("custom", "read", "provider")
        tin = (lambda x: x) if r["kind"] == "provider" else (lambda x: IN.get(x, x))
        tout = (lambda x: OUT.get(x, x)) if r["typed"] else tin

        def eq(what, got, want):
            if got != want:
                fail(f"{r['kind']} r{i}: {what} sent as {got!r}, expected {want!r}", f"options {o}")

        eq("call", k, "read" if r["kind"] == "read" else "register")
        eq("version", q.version, o["version"] or "")
        eq("plugin URL", q.pluginDownloadURL, o["url"] or "")
        eq("additional secret outputs", list(q.additionalSecretOutputs), [tout(x) for x in o["aso"] or []])
        eq("provider", q.provider, ref(m[i]["prov"]) if custom and m[i]["prov"] is not None else "")
        eq("acceptSecrets", q.acceptSecrets, True)
        eq("acceptResources", q.acceptResources, not (case["refs"] or "").upper() in ("TRUE", "1"))
        inherited |= custom and m[i]["prov"] is not None and o["provider"] is None and o["providers"] is None
        if k == "read":
            eq("id", q.id, o["id"])
            continue
        eq("protect", q.protect, m[i]["protect"])
        inherited |= m[i]["protect"] and o["protect"] is None
        eq("deleteBeforeReplace", (q.deleteBeforeReplaceDefined, q.deleteBeforeReplace), (o["dbr"] is not None, bool(o["dbr"])))
        eq("ignoreChanges", list(q.ignoreChanges), [tin(x) for x in o["ignore"] or []])
        eq("replaceOnChanges", list(q.replaceOnChanges), [tin(x) for x in o["replace"] or []])
        t = (o["timeouts"] or {"v": {}})["v"]
        eq("custom timeouts", (q.customTimeouts.create, q.customTimeouts.update, q.customTimeouts.delete),
           tuple(t.get(x, "") for x in ("create", "update", "delete")))
        eq("custom timeouts set", q.HasField("customTimeouts"), o["timeouts"] is not None)
        eq("import id", q.importId, o["import"] or "")
        eq("retain on delete", q.retainOnDelete, bool(o["retain"]))
        eq("custom", q.custom, custom)
        eq("remote", q.remote, r["kind"] == "remote")
        eq("partial values", q.supportsPartialValues, True)
        eq("provider map", dict(q.providers), {p: ref(j) for p, j in m[i]["own"].items()} if r["kind"] == "remote" else {})
        if hasattr(made[i], "_protect"):  # private: the requests of the children decide without it
            eq("protection for children", made[i]._protect, m[i]["protect"])
        for p in PKGS:
            got = made[i].get_provider(f"{p}:mod:X")
            want = m[i]["map"].get(p)
            if got is not (None if want is None else made[want]):
                fail(f"{r['kind']} r{i}: children of package {p} get provider {got and getattr(got, '_name', got)}, expected {want}")
    rec.label("inherited something", inherited)
    if len(case["res"]) >= 3 and any(v not in (None, [], False) for o in case["pool"] for x, v in o.items() if x != "parent"):
        rec.nontriv()


@part("options", quick=6000, thorough=150000, shards=8, rule="at least three resources and some option set")
def options():
    return cases(), run
