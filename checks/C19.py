"""C19 reading existing resources by id and rehydrating them by URN."""
import asyncio

import engine
import grpc
import reply
import wire
from engine import UNKNOWN, from_struct
from harness import fail, part
from hypothesis import strategies as st


def run(case, rec):
    eng = reply.judge(case, rec)
    kind = case["kind"]
    calls = [(k, q) for k, q in eng.log if not (k in ("register", "outputs") and (getattr(q, "name", None) in list(wire.WORLD) + ["proj-stk"] or k == "outputs"))]
    if len(calls) != 1:
        fail(f"{len(calls)} calls for one {kind}: {[(k, getattr(q, 'name', None)) for k, q in calls]}")
    k, q = calls[0]
    if k != ("read" if kind == "read" else "invoke"):
        fail(f"a {kind} was sent as {k}")
    enc = wire.Enc(set(case["features"]), case["dry"])
    deps, want = set(), {}
    for x, v in case["props"]:
        d = set()
        want[reply.ename(x)] = enc.enc(v, d, False)
        if want[reply.ename(x)] is not None:  # a null input is not sent at all
            deps |= d
    if kind == "read":
        how, i = case["rid"]
        rid = i if how != "dep" else wire.id_of(i, case["dry"]) or UNKNOWN
        par = wire.urn_of("c1") if case["child"] else "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk"
        if (q.type, q.name, q.id, q.parent, q.provider) != ("sub:m:S", "subject", rid if how != "sec" or "secrets" not in case["features"] else q.id, par, ""):
            fail(f"read sent as {q}")
        got = from_struct(q.properties)
        w = wire.norm({x: y for x, y in want.items() if y is not None})
        if {x: y for x, y in got.items() if y is not None} != w:
            fail(f"read with inputs {got}, expected {w}")
        if sorted(q.dependencies) != sorted(wire.urn_of(n) for n in wire.expand(deps)):
            fail(f"read with dependencies {list(q.dependencies)}, expected {deps}")
        o = case["opts"]
        if (q.version, q.pluginDownloadURL) != (o.get("version", ""), o.get("plugin_download_url", "")):
            fail(f"read sent with version {q.version!r} and download url {q.pluginDownloadURL!r}, given {o}")
        aso = [reply.ename(x) for x in o.get("additional_secret_outputs", [])]
        if sorted(q.additionalSecretOutputs) != sorted(aso):
            fail(f"read with additional secret outputs {list(q.additionalSecretOutputs)}, expected {aso}")
        if not q.acceptSecrets or not q.acceptResources:
            fail("read does not accept secrets/resources")
    else:
        got = from_struct(q.args)
        if q.tok != "pulumi:pulumi:getResource" or list(got) != ["urn"] or got["urn"] != "urn:pulumi:stk::proj::pkg:mod:Comp$sub:m:S::subject":
            fail(f"lookup sent as {q}")


def nosec(c):
    # a secret id has no wire form in a read request when secrets are negotiated; not a supported id
    if c["kind"] == "read" and c["rid"][0] == "sec":
        c["rid"] = ["out", c["rid"][1]]
    return c


@part("resolve", quick=3000, thorough=80000, shards=4, rule="a non-empty reply and some input that is not null")
def resolve():
    return reply.cases(["read", "read", "get", "get-comp"]).map(nosec), run


# ----------------------------------------------------------------- histories with failures
FAULTS = ["rpc", "failures", "badsig", "badstate"]


@st.composite
def histories(draw):
    n = draw(st.integers(1, 6))
    steps = []
    for i in range(n):
        steps.append([draw(st.sampled_from(["reg", "read", "get", "getc"])), draw(st.one_of(st.none(), st.integers(0, i - 1))) if i else None, draw(st.booleans())])
    fault = None
    cand = [i for i, s in enumerate(steps) if s[0] != "reg"]
    if cand and draw(st.booleans()):
        fault = [draw(st.sampled_from(cand)), draw(st.sampled_from(FAULTS))]
    return {"dry": draw(st.booleans()), "code": draw(st.sampled_from(["UNKNOWN"] + engine.CODES)), "reason": draw(st.sampled_from(["unknown resource", "", "x" * 300, "a\nb {0} %s"])), "prop": draw(st.sampled_from(["urn", ""])), "steps": steps, "fault": fault, "sched": draw(st.lists(st.integers(0, 5), max_size=12))}


def urn(i):
    return f"urn:pulumi:stk::proj::t:m:G::g{i}"


def run_history(case, rec):
    import pulumi
    from pulumi.runtime.proto import provider_pb2, resource_pb2

    eng = engine.FakeEngine(["secrets"], dry_run=case["dry"])
    fault = case["fault"]

    def is_fault(i):
        return fault is not None and fault[0] == i

    def obj(i):
        return {engine.SIG: "nope"} if is_fault(i) and fault[1] in ("badsig", "badstate") else f"v{i}"

    def on_read(q):
        i = int(q.name[1:])
        if is_fault(i) and fault[1] in ("rpc", "failures"):
            raise engine.FakeRpcError(getattr(grpc.StatusCode, case["code"]), "no such thing")
        return resource_pb2.ReadResourceResponse(urn=eng.make_urn(q.parent, q.type, q.name), properties=engine.to_struct({"x": obj(i)}))

    def on_invoke(q):
        u = from_struct(q.args)["urn"]
        i = int(u.split("::g")[-1])
        if is_fault(i) and fault[1] == "rpc":
            raise engine.FakeRpcError(getattr(grpc.StatusCode, case["code"]), "no such thing")
        r = provider_pb2.InvokeResponse()
        if is_fault(i) and fault[1] == "failures":
            f = r.failures.add()
            f.property, f.reason = case["prop"], case["reason"]
            return r
        engine.fill_struct(getattr(r, "return"), {"urn": u, "id": f"id{i}", "state": {"x": obj(i)}})
        return r

    eng.on_read, eng.on_invoke = on_read, on_invoke
    seen, ids, made = {}, {}, []

    def body():
        for i, (kind, src, _) in enumerate(case["steps"]):
            props = {"x": None, "in": None if src is None else made[src].x}
            if kind == "reg":
                r = pulumi.CustomResource("t:m:G", f"g{i}", dict(props, x=f"v{i}"))
            elif kind == "read":
                r = pulumi.CustomResource("t:m:G", f"g{i}", props, pulumi.ResourceOptions(id=f"id{i}"))
            else:
                K = pulumi.CustomResource if kind == "get" else pulumi.ComponentResource
                r = K("t:m:G", "ignored", props, pulumi.ResourceOptions(urn=urn(i)))
            made.append(r)

            async def look(i=i, r=r):
                try:
                    seen[i] = (await r.x.future(), await r.urn.future())
                except BaseException as e:  # cancelled with the rest of the program, too
                    seen[i] = e
            engine.watch(look())
            if kind != "getc":  # only custom resources have ids
                async def look_id(i=i, r=r):
                    try:
                        ids[i] = await r.id.future()
                    except BaseException as e:
                        ids[i] = e
                engine.watch(look_id())

    async def after(err):
        for _ in range(60):
            await asyncio.sleep(0)

    try:
        err, _ = engine.run_program(eng, body, case["sched"], after=after)
    except engine.Deadlock:
        fail("the program hangs", f"fault {fault}")
    tainted = set()
    if fault:
        tainted.add(fault[0])
        for i, (_, src, _) in enumerate(case["steps"]):
            if src in tainted:
                tainted.add(i)
        if err is None:
            fail(f"the program succeeded although a lookup failed: {fault}")
        rec.label("fault " + fault[1])
    elif err is not None:
        fail(f"program failed: {type(err).__name__}: {err}")
    calls = {}
    for k, q in eng.log:
        if k in ("register", "read"):
            nm = q.name
        elif k == "invoke":
            nm = "g" + from_struct(q.args)["urn"].split("::g")[-1]
        else:
            continue
        if nm in calls:
            fail(f"{nm} sent twice")
        calls[nm] = k
    for i, (kind, src, _) in enumerate(case["steps"]):
        if src in tainted:
            if f"g{i}" in calls:
                fail(f"g{i} was sent although its input failed")
        elif not fault and calls.get(f"g{i}") != {"reg": "register", "read": "read", "get": "invoke", "getc": "invoke"}[kind]:
            fail(f"g{i} ({kind}) sent as {calls.get(f'g{i}')}")
        if i in tainted:
            if i not in seen:
                fail(f"output of g{i} never resolves after the failure {fault}")
            if not isinstance(seen[i], BaseException):
                fail(f"output of g{i} resolved to {seen[i]} although {fault}")
            if i == fault[0] and isinstance(seen[i], asyncio.CancelledError):
                fail(f"output of g{i} is never told of the failure {fault}")
            # what a failed lookup, or a resource that was never sent, has for an id is that failure; a reply that
            # carries an id and then some state that cannot be read still gives the id
            if kind != "getc" and not (i == fault[0] and fault[1] in ("badsig", "badstate")):
                if i not in ids:
                    fail(f"the id of g{i} never resolves after the failure {fault}")
                if not isinstance(ids[i], BaseException):
                    fail(f"the id of g{i} resolved to {ids[i]} although {fault}")
                if i == fault[0] and isinstance(ids[i], asyncio.CancelledError):
                    fail(f"the id of g{i} is never told of the failure {fault}")
        elif not fault:
            w = (f"v{i}", urn(i))
            if seen.get(i) != w:
                fail(f"g{i} resolved to {seen.get(i)}, expected {w}")
            if kind in ("read", "get") and ids.get(i) != f"id{i}":
                fail(f"the id of g{i} resolved to {ids.get(i)}")
    if len({s[0] for s in case["steps"]}) >= 2 or fault:
        rec.nontriv()


@part("histories", quick=2500, thorough=60000, shards=4, rule="at least two ways of obtaining a resource, or a fault")
def hist():
    return histories(), run_history
