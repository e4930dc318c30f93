"""C21 component construction requests do not influence one another."""
import asyncio
import threading

from compserver import CompServer
from grpcengine import CODES, GrpcEngine
from harness import Violation, fail, part, same
from hypothesis import strategies as st

KEYS = ["p1:k", "p1:secret", "p2:k", "other:k"]
SIG, SECRET = "4dabf18193072939515e22adb298388d", "1b47061264138c4ac30d75fd1eb44270"
vals = st.sampled_from(["v", "w", "", "é"])
DEP = ["urn:pulumi:s::p::t:m:D::d%d" % i for i in range(3)]
PROV = {"aws": "urn:pulumi:s::p::pulumi:providers:aws::prov%d::id%d", "gcp": "urn:pulumi:s::p::pulumi:providers:gcp::prov%d::id%d"}


@st.composite
def request(draw, i):
    kind = draw(st.sampled_from(["construct", "construct", "construct", "call"]))
    r = {"kind": kind, "name": "c%d" % i, "project": draw(st.sampled_from(["p1", "p2"])), "stack": draw(st.sampled_from(["s1", "s2"])), "org": draw(st.sampled_from(["", "org", "org2"])), "dry": draw(st.booleans()),
         "config": draw(st.dictionaries(st.sampled_from(KEYS), vals, max_size=3)), "secrets": draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True)), "parallel": draw(st.sampled_from([0, 1, 10])),
         "inputs": {k: [draw(vals), draw(st.booleans()), draw(st.lists(st.sampled_from(DEP), max_size=2, unique=True))] for k in draw(st.lists(st.sampled_from(["a", "b", "urn", "snake_case", "name", "type", "parent"]), max_size=3, unique=True))},
         "children": draw(st.lists(st.tuples(st.sampled_from(["t:m:R", "aws:m:R", "gcp:m:R", "t:m:C"]), st.booleans()), max_size=3)), "invoke": draw(st.integers(0, 3)) == 0, "set": draw(st.integers(0, 3)) == 0,
         "late": draw(st.booleans()), "end": draw(st.sampled_from(["ok"] * 6 + ["raise", "raise", "self_fault", "child_fault", "child_fault", "apply", "invoke_fault", "cancelled", "cancelled_child"])), "msg": draw(st.sampled_from(["boom", "é: 100%"])),
         "slow": draw(st.sampled_from([0, 0, 0.01])), "code": draw(st.sampled_from(CODES)), "quiet": draw(st.integers(0, 3)) == 3,
         "impatient": draw(st.integers(0, 11)) == 7}
    if r["end"] == "child_fault" and not r["children"] or r["end"] == "invoke_fault" and not r["invoke"]:
        r["end"] = "raise"
    if kind == "construct":
        r.update(type=draw(st.sampled_from(["t:m:Comp", "t:m:Other"])), parent=draw(st.sampled_from(["", "", "urn:pulumi:s::p::t:m:P::par"])), protect=draw(st.booleans()),
                 providers={p: PROV[p] % (n, n) for p, n in draw(st.dictionaries(st.sampled_from(["aws", "gcp"]), st.integers(0, 2), max_size=2)).items()},
                 aliases=draw(st.lists(st.sampled_from(["urn:pulumi:s::p::t:m:Old::c", "urn:pulumi:s::p::t:m:Old::d"]), max_size=2, unique=True)), deps=draw(st.lists(st.sampled_from(DEP), max_size=2, unique=True)))
        if r["parent"] and draw(st.integers(0, 2)) == 0:
            r["deps"].append(r["parent"])
    else:
        if r["end"] == "self_fault":
            r["end"] = "raise"
        r["failures"] = draw(st.lists(st.tuples(st.sampled_from(["a", "b"]), st.sampled_from(["bad", ""])), max_size=2))
    return r


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    return {"reqs": [draw(request(i)) for i in range(n)], "together": draw(st.integers(0, 3)) == 0}


class Die(Exception):
    pass


REGISTERED = []


def register_package():
    """what the generated SDK of a package does: instances of its own class for the providers of requests"""
    import pulumi
    from semver import VersionInfo
    if REGISTERED:
        return
    REGISTERED.append(1)

    class GcpProvider(pulumi.ProviderResource):
        pass

    class Package(pulumi.runtime.ResourcePackage):
        def version(self):
            return VersionInfo.parse("1.0.0")

        def construct_provider(self, name, typ, urn):
            return GcpProvider("gcp", name, {}, pulumi.ResourceOptions(urn=urn))

    pulumi.runtime.register_resource_package("gcp", Package())


def make_provider(case, seen, got_classes):
    import pulumi
    register_package()
    from pulumi.provider import CallResult, CheckFailure, ConstructResult, Provider

    def look(r, where):
        try:
            org = pulumi.get_organization()
        except Exception:
            org = ""
        return {"where": where, "project": pulumi.get_project(), "stack": pulumi.get_stack(), "org": org, "dry": pulumi.runtime.is_dry_run(), "config": {k: pulumi.Config(k.split(":")[0]).get(k.split(":")[1]) for k in KEYS},
                "secret": {k: pulumi.runtime.is_config_secret(k) for k in KEYS}}

    async def describe(x):
        o = pulumi.Output.from_input(x)
        return [await o.future(with_unknowns=True), await o.is_secret(), sorted([await d.urn.future() for d in await o.resources()])]

    def body(r, inputs, parent):
        s = {"look": [look(r, "start")], "inputs": sorted(inputs)}
        seen.setdefault(r["name"], []).append(s)
        if r["set"]:
            pulumi.runtime.set_config("p1:k", "changed")
        if r["end"] == "raise":
            raise Die(r["msg"])
        kids = []
        for n, (t, dep) in enumerate(r["children"]):
            o = pulumi.ResourceOptions(parent=parent, depends_on=kids[-1:] if dep else None)
            cls = pulumi.ComponentResource if t == "t:m:C" else pulumi.CustomResource
            kids.append(cls(t, "%s-k%d" % (r["name"], n), {"v": inputs.get("a")} if t != "t:m:C" else {}, o))
        out = dict(inputs)
        out.pop("urn", None)
        if not r["quiet"]:
            out["kids"] = [k.urn for k in kids]
        if r["invoke"]:
            out["inv"] = pulumi.runtime.invoke("t:m:f", {"q": r["name"]}).value["q"]
        if r["end"] == "apply":
            def die(_):
                raise Die(r["msg"])
            out["bad"] = pulumi.Output.from_input(1).apply(die)
        if r["end"] in ("cancelled", "cancelled_child"):
            f = asyncio.get_event_loop().create_future()
            asyncio.get_event_loop().call_later(0.01, f.cancel)
            if r["end"] == "cancelled":
                out["bad"] = f
            else:
                pulumi.CustomResource("t:m:R", r["name"] + "-cancelled", {"v": f}, pulumi.ResourceOptions(parent=parent))
        if r["late"]:
            out["late"] = (kids[-1].urn if kids else pulumi.Output.from_input("x")).apply(lambda _: s["look"].append(look(r, "late")) or "done")
        return out

    class Prov(Provider):
        def __init__(self):
            super().__init__("1.2.3", '{"name": "t"}')

        def construct(self, name, resource_type, inputs, options=None):
            r = next(r for r in case["reqs"] if r["name"] == name)
            ps = options.providers or {}
            got_classes[name] = sorted((p.package, type(p).__name__) for p in (ps.values() if isinstance(ps, dict) else ps))

            class Comp(pulumi.ComponentResource):
                def __init__(self):
                    super().__init__(resource_type, name, {}, options)
                    self.out = body(r, inputs, self)
                    self.register_outputs(self.out)
            c = Comp()
            seen[name][-1]["type"] = resource_type
            return ConstructResult(c.urn, c.out)

        def call(self, token, args):
            r = next(r for r in case["reqs"] if r["name"] == token.split("/")[-1])
            out = body(r, args, None)
            return CallResult(out, [CheckFailure(p, w) for p, w in r["failures"]] if r["failures"] else None)

    return Prov()


def request_for(r, eng):
    from google.protobuf import struct_pb2
    from pulumi.runtime.proto import provider_pb2
    common = dict(project=r["project"], stack=r["stack"], config=r["config"], configSecretKeys=r["secrets"], dryRun=r["dry"], parallel=r["parallel"], monitorEndpoint=eng.monitor, organization=r["org"])
    s = struct_pb2.Struct()
    s.update({k: {SIG: SECRET, "value": v} if sec else v for k, (v, sec, _) in r["inputs"].items()})
    if r["kind"] == "construct":
        return provider_pb2.ConstructRequest(type=r["type"], name=r["name"], parent=r["parent"], inputs=s, inputDependencies={k: provider_pb2.ConstructRequest.PropertyDependencies(urns=d) for k, (_, _, d) in r["inputs"].items() if d},
                                             protect=r["protect"], providers=r["providers"], aliases=r["aliases"], dependencies=r["deps"], **common)
    return provider_pb2.CallRequest(tok="t:m:T/" + r["name"], args=s, argDependencies={k: provider_pb2.CallRequest.ArgumentDependencies(urns=d) for k, (_, _, d) in r["inputs"].items() if d}, **common)


def run(case, rec):
    import grpc
    seen, engines, classes = {}, [], {}
    main = GrpcEngine()
    for r in case["reqs"]:
        f = {}
        details = "engine says " + r["msg"]
        if r["end"] == "self_fault":
            f[("register", r["name"])] = (r["code"], details)
        elif r["end"] == "child_fault":
            f[("register", "%s-k%d" % (r["name"], len(r["children"]) - 1))] = (r["code"], details)
        elif r["end"] == "invoke_fault":
            f[("invoke", "t:m:f")] = (r["code"], details)
        engines.append(GrpcEngine(r["project"], r["stack"], f, {r["name"]: 0.1 if r["impatient"] else r["slow"]}))
        engines[-1].ids = dict(x.rsplit("::", 1) for x in r.get("providers", {}).values())
    answers = [None] * len(case["reqs"])

    def ask(stub, i):
        r = case["reqs"][i]
        try:
            answers[i] = (stub.Construct if r["kind"] == "construct" else stub.Call)(request_for(r, engines[i]), timeout=0.05 if r["impatient"] else 20)
        except grpc.RpcError as e:
            answers[i] = e

    try:
        with CompServer(make_provider(case, seen, classes), main.engine) as s:
            if case["together"]:
                ts = [threading.Thread(target=ask, args=(s.stub, i), daemon=True) for i in range(len(answers))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(40)
            else:
                for i in range(len(answers)):
                    ask(s.stub, i)
        for i, r in enumerate(case["reqs"]):
            want = [(p, {"gcp": "GcpProvider"}.get(p, "DependencyProviderResource")) for p in sorted(r.get("providers", ()))]
            if classes.get(r["name"], want) != want:
                fail(f"request {i}: the component was given the providers {classes[r['name']]}, expected {want}")
            if r["impatient"] and isinstance(answers[i], grpc.RpcError) and answers[i].code() == grpc.StatusCode.DEADLINE_EXCEEDED:
                rec.label("given up by the engine")
                continue
            judge(r, answers[i], engines[i], seen.get(r["name"], []), f"request {i} of {len(case['reqs'])} ({r['kind']}, {r['end']})" + (" sent together" if case["together"] else ""))
        if any(r["end"] != "ok" for r in case["reqs"][:-1]) or len({repr(r["config"]) for r in case["reqs"]}) > 1:
            rec.nontriv()
        rec.label("together", case["together"])
    finally:
        for e in engines + [main]:
            e.close()


def judge(r, ans, eng, seen, what):
    import grpc
    failed = isinstance(ans, grpc.RpcError)
    ok = r["end"] == "ok"
    if ans is None:
        fail(f"{what}: not answered")
    if failed and ok:
        fail(f"{what}: answered with {ans.code()} {ans.details()}")
    if not ok:
        if not failed:
            fail(f"{what}: answered {ans}")
        if ans.code() == grpc.StatusCode.DEADLINE_EXCEEDED:
            fail(f"{what}: never answered")
        if not r["end"].startswith("cancelled") and r["msg"] not in (ans.details() or ""):
            fail(f"{what}: the error is {ans.details()!r}, expected {r['msg']!r}")
    if len(seen) != (1 if r["end"] != "self_fault" else len(seen)):
        fail(f"{what}: the provider was called {len(seen)} times")
    for s in seen:
        for l in s["look"]:
            want = {"project": r["project"], "stack": r["stack"], "org": r["org"], "dry": r["dry"], "secret": {k: k in r["secrets"] for k in KEYS}}
            got = {k: l[k] for k in want}
            if got != want:
                fail(f"{what}: the provider ({l['where']}) saw {got}, the request says {want}")
            cfg = dict(r["config"], **({"p1:k": "changed"} if r["set"] and l["where"] == "late" else {}))
            if l["config"] != {k: cfg.get(k) for k in KEYS}:
                fail(f"{what}: the provider ({l['where']}) saw config {l['config']}, the request says {cfg}")
        if s["inputs"] != sorted(r["inputs"]):
            fail(f"{what}: the provider was given {s['inputs']}, the request has {sorted(r['inputs'])}")
        if r["kind"] == "construct" and s.get("type", r["type"]) != r["type"]:
            fail(f"{what}: type {s['type']}")
    # what the engine saw
    regs = eng.of("register")
    names = [(x.type, x.name) for x in regs]
    kids = [(t, "%s-k%d" % (r["name"], n)) for n, (t, _) in enumerate(r["children"])]
    want = ([(r["type"], r["name"])] if r["kind"] == "construct" else []) + kids
    if (sorted(names) != sorted(want)) if ok else any(n not in want or names.count(n) > 1 for n in names):
        fail(f"{what}: registered {names}, expected {want}")
    curn = None
    if r["kind"] == "construct":
        curn = eng.urn(r["type"], r["name"], r["parent"])
        me = [x for x in regs if x.name == r["name"]]
        for x in me:
            got = (x.parent, x.protect, sorted(x.aliases), sorted(x.dependencies), x.custom, x.remote)
            w = (r["parent"], r["protect"], sorted(r["aliases"]), sorted(r["deps"]), False, False)
            if got != w:
                fail(f"{what}: the component was registered with (parent, protect, aliases, dependencies, custom, remote) {got}, the request says {w}")
    for x in regs:
        if x.name == r["name"]:
            continue
        if x.parent != (curn or ""):
            fail(f"{what}: {x.name} has the parent {x.parent!r}, expected {curn!r}")
        if r["kind"] == "construct":
            pkg = x.type.split(":")[0]
            if x.custom and x.provider != r["providers"].get(pkg, ""):
                fail(f"{what}: {x.name} ({x.type}) has the provider {x.provider!r}, the request says {r['providers']}")
            if x.protect != r["protect"]:
                fail(f"{what}: {x.name} has protect {x.protect}, the request says {r['protect']}")
        if x.custom:
            d = set(r["inputs"].get("a", [0, 0, []])[2])
            n = int(x.name.split("-k")[1])
            if r["children"][n][1] and n:
                j = n - 1
                if r["children"][j][0] != "t:m:C":
                    d.add(eng.urn(r["children"][j][0], "%s-k%d" % (r["name"], j), curn or ""))
            if set(x.dependencies) != d:
                fail(f"{what}: {x.name} depends on {sorted(x.dependencies)}, expected {sorted(d)}")
    if not ok:
        return
    # the answer
    from google.protobuf import json_format
    if r["kind"] == "construct":
        if ans.urn != curn:
            fail(f"{what}: answered with the URN {ans.urn}, expected {curn}")
        state, deps = ans.state, {k: sorted(v.urns) for k, v in ans.stateDependencies.items() if v.urns}
        outs = [o for o in eng.of("outputs") if o.urn == curn]
        if len(outs) != 1:
            fail(f"{what}: the component's outputs were registered {len(outs)} times")
    else:
        state, deps = getattr(ans, "return"), {k: sorted(v.urns) for k, v in ans.returnDependencies.items() if v.urns}
        got = [(f.property, f.reason) for f in ans.failures]
        if got != [tuple(f) for f in r["failures"]]:
            fail(f"{what}: answered with the failures {got}, the provider said {r['failures']}")
    state = json_format.MessageToDict(state)
    want = {k: {SIG: SECRET, "value": v} if sec else v for k, (v, sec, _) in r["inputs"].items() if k != "urn"}
    urns = [eng.urn(t, n, curn or "") for t, n in kids]
    if not r["quiet"]:
        want["kids"] = urns
    wdeps = {k: sorted(d) for k, (_, _, d) in r["inputs"].items() if d and k != "urn"}
    if urns and not r["quiet"]:
        wdeps["kids"] = sorted(urns)
    if r["invoke"]:
        want["inv"] = r["name"]
    if r["late"]:
        want["late"] = "done"
        if urns:
            wdeps["late"] = [urns[-1]]
    if state != want:
        fail(f"{what}: answered with {state}, expected {want}")
    if deps != wdeps:
        fail(f"{what}: answered with the dependencies {deps}, expected {wdeps}")


@part("requests", quick=1200, thorough=20000, shards=8, batch=60, rule="requests after a failed one or with differing config")
def requests():
    return cases(), run


def run_reply(case, rec):
    import engine
    import wire
    from pulumi.provider import CallResult, CheckFailure, ConstructResult, Provider
    from pulumi.provider.server import ProviderServicer
    from pulumi.runtime import settings
    from pulumi.runtime.proto import provider_pb2
    enc = wire.Enc(set(case["features"]), case["dry"])
    want, wdeps, bad = {}, {}, False
    try:
        for k, v in case["props"]:
            d = set()
            j = enc.enc(v, d, False)
            if j is not None:
                want[k] = wire.norm(j)
                if d:
                    wdeps[k] = sorted(wire.urn_of(n) for n in d)
    except wire.Bad:
        bad = True
    eng = engine.FakeEngine(case["features"], dry_run=case["dry"])
    eng.on_register = wire.world_engine_hook(eng)
    b = {}

    def make():
        settings.configure(settings.Settings(project=eng.project, stack=eng.stack, monitor=eng, engine=eng, dry_run=eng.dry_run))
        w = wire.build_world()
        b["b"] = wire.WBuilder(w)
        return w, {k: b["b"].build(v) for k, v in case["props"]}

    class Prov(Provider):
        def __init__(self):
            super().__init__("1.0.0")

        def construct(self, name, resource_type, inputs, options=None):
            w, out = make()
            out.update(urn=w["m0"].urn, id="x")
            return ConstructResult(w["m0"].urn, out)

        def call(self, token, args):
            return CallResult(make()[1], [CheckFailure("p", "why")] if case["fail"] else None)

    async def main():
        s = ProviderServicer(Prov(), [], "")
        common = dict(dryRun=case["dry"], project="proj", stack="stk")
        if case["kind"] == "call":
            return await s.Call(provider_pb2.CallRequest(tok="t", **common), None)
        return await s.Construct(provider_pb2.ConstructRequest(name="n", type="t:m:C", **common), None)

    def go():
        with engine.open_loop(case["sched"], lambda i: b["b"].idle(i) if "b" in b else 0) as loop:
            try:
                return loop.run_until_complete(main())
            except (engine.Deadlock, Violation):
                raise
            except Exception as e:
                return e

    ans = engine.in_context(go)
    nodes = [n for _, v in case["props"] for n in wire.walk(v)]
    if any(n[0] in ("res", "rout", "out", "unk", "bad") for n in nodes):
        rec.nontriv()
    if bad:
        if not isinstance(ans, Exception):
            fail("a result with no wire form was accepted")
        return
    if isinstance(ans, Exception):
        fail(f"failed with {ans!r}")
    if case["kind"] == "call":
        state, deps = getattr(ans, "return"), ans.returnDependencies
        got = [(f.property, f.reason) for f in ans.failures]
        if got != ([("p", "why")] if case["fail"] else []):
            fail(f"answered with the failures {got}")
    else:
        state, deps = ans.state, ans.stateDependencies
        if ans.urn != wire.urn_of("m0"):
            fail(f"answered with the URN {ans.urn}")
    got = engine.from_struct(state)
    if not same(got, want):
        fail(f"answered with {got}", f"expected      {want}")
    got = {k: sorted(set(v.urns)) for k, v in deps.items() if v.urns and k in want}
    if got != wdeps:
        fail(f"answered with the dependencies {got}", f"expected                       {wdeps}")


@st.composite
def replies_(draw):
    import wire
    c = draw(wire.encodings(kov=True, bad=draw(st.integers(0, 9)) == 0))
    c["kind"], c["fail"] = draw(st.sampled_from(["construct", "call"])), draw(st.booleans())
    return c


@part("replies", quick=3000, thorough=80000, shards=8, rule="random results over a fixed world of 12 resources x engine features; non-trivial: contains an output, resource or unknown")
def replies():
    return replies_(), run_reply
