"""C20 provider functions: what invoke and call send and what they give back."""
import asyncio
from typing import Any

import engine
import reply
import wire
from engine import SECRET_SIG, SIG, UNKNOWN, from_struct
from harness import fail, part, same
from hypothesis import strategies as st

PROVS = {"p1": "pkg1", "p2": "pkg2", "q1": "pkg1", "q2": "pkg2", "q3": "pkg1", "pw": "pulumi"}
# what a resource passes on to functions that name it as parent: package -> provider
MAPS = {"C": {"pkg1": "q1", "pkg2": "q2"}, "K": {"pkg1": "q3", "pkg2": "q2"}, "R": {"pkg1": "q1", "pkg2": "q2"}, "S": {"pkg1": "p1"}, "Q": {},
        "KR": {"pkg1": "q3", "pkg2": "q2"}}
# the provider, version and URL a resource was itself created with
SELF = {"C": (None, "", ""), "K": (None, "9.0.0", ""), "R": ("q1", "1.2.3", "u://r"), "S": ("p1", "", "u://s"), "Q": (None, "7.0", ""), "KR": ("q3", "", "")}


def strip_secrets(j):
    if isinstance(j, list):
        return [strip_secrets(x) for x in j]
    if isinstance(j, dict):
        if j.get(SIG) == SECRET_SIG:
            return strip_secrets(j["value"])
        return {k: strip_secrets(x) for k, x in j.items()}
    return j


DEPS = ["urn:pulumi:stk::proj::x:y:Z::d1", "urn:pulumi:stk::proj::x:y:Z$x:y:W::d2", "urn:pulumi:stk::proj::x:y:Z::d3"]


@st.composite
def cases(draw):
    dry = draw(st.booleans())
    pick = lambda xs: draw(st.sampled_from(xs))
    g = wire.VGen(draw, dry)
    jg = reply.JGen(draw, False, draw(st.booleans()))
    pool = []
    for _ in range(draw(st.integers(1, 3))):
        pool.append({"parent": pick([None, None, "C", "K", "R", "S", "Q"]), "provider": pick([None, None, None, "p1", "p2", "q3"]),
                     "version": pick([None, "", "1.0.0", "2.0.0-a"]), "url": pick([None, "", "u://x"])})
    ops = []
    n = draw(st.integers(1, 5))
    for i in range(n):
        kind = pick(["invoke", "invoke", "invoke", "call"])
        ks = draw(st.lists(st.sampled_from(["a", "b", "cD", "self", "e_f"]), max_size=3, unique=True))
        rk = draw(st.lists(st.sampled_from(["a", "bC", "value", "id", "urn", "__x"]), max_size=3, unique=True))
        fault = pick(["rpc", "failures", "failures2", "failures_quiet"]) if draw(st.integers(0, 5)) == 0 and (kind == "invoke" or i == n - 1) else None
        r = {k: jg.j(draw(st.integers(0, 3))) for k in rk}
        op = {"op": kind, "tok": pick(["pkg1:m:f", "pkg2:m:f", "pkg1:m/sub:g", "pkg3:m:f", "pkg1", "pulumi:pulumi:f"]) + str(i) if kind == "invoke" else f"pkg1:m:T/f{i}",
              "props": [(k, g.v(draw(st.integers(0, 3)))) for k in ks], "reply": strip_secrets(r) if kind == "invoke" else r,
              "typed": pick([False, False, True]), "fault": fault}
        if kind == "invoke":
            op["opts"] = pick([None] + list(range(len(pool))) * 2)
            op["where"] = pick(["body", "body", "apply", "coroutine", "child"])
            op["await"] = draw(st.booleans())
        else:
            op["res"] = pick([None, "C", "K", "R", "S", "Q", "KR"])
            op["deps"] = {k: draw(st.lists(st.sampled_from(DEPS), max_size=2)) for k in rk if draw(st.booleans())}
        ops.append(op)
    return {"dry": dry, "features": draw(st.lists(st.sampled_from(wire.FEATURES), unique=True)), "pool": pool, "ops": ops,
            "sched": draw(st.lists(st.integers(0, 6), max_size=10)), "code": pick(["UNKNOWN"] + engine.CODES), "noid": draw(st.lists(st.sampled_from(sorted(PROVS)), max_size=3, unique=True)),
            "refs": pick([None, None, "1", "true", "0"])}


def make_type():
    import pulumi

    @pulumi.output_type
    class Res(dict):
        def __init__(self, a=None, b_c=None, value=None, id=None, urn=None):
            for k, v in (("a", a), ("b_c", b_c), ("value", value), ("id", id), ("urn", urn)):
                if v is not None:
                    pulumi.set(self, k, v)

        @property
        @pulumi.getter
        def a(self) -> Any:
            return pulumi.get(self, "a")

        @property
        @pulumi.getter(name="bC")
        def b_c(self) -> Any:
            return pulumi.get(self, "b_c")

        @property
        @pulumi.getter
        def value(self) -> Any:
            return pulumi.get(self, "value")

        @property
        @pulumi.getter
        def id(self) -> Any:
            return pulumi.get(self, "id")

        @property
        @pulumi.getter
        def urn(self) -> Any:
            return pulumi.get(self, "urn")

    return Res


ATTRS = {"a": "a", "b_c": "bC", "value": "value", "id": "id", "urn": "urn"}


def run(case, rec):
    import os

    import grpc
    import pulumi
    from pulumi import runtime
    from pulumi.runtime.proto import provider_pb2

    dry = case["dry"]
    eng = engine.FakeEngine(case["features"], dry_run=dry)
    hook = wire.world_engine_hook(eng)

    def on_register(req):
        r = hook(req)
        if req.name in PROVS:
            r.id = "" if dry and req.name in case["noid"] else req.name + "-id"
        return r

    def idx(tok):
        return int(tok[-1])

    def answer(req, R):
        op = case["ops"][idx(req.tok)]
        r = R()
        if op["fault"] == "rpc":
            raise engine.FakeRpcError(getattr(grpc.StatusCode, case["code"]), "broken wire")
        if op["fault"]:
            r.failures.add(property="pp", reason="" if op["fault"] == "failures_quiet" else "bad thing")
            if op["fault"] == "failures2":
                r.failures.add(property="qq", reason="worse")
                engine.fill_struct(getattr(r, "return"), op["reply"])
            return r
        engine.fill_struct(getattr(r, "return"), op["reply"])
        for k, us in op.get("deps", {}).items():
            r.returnDependencies[k].urns.extend(us)
        return r

    eng.on_register = on_register
    eng.on_invoke = lambda req: answer(req, provider_pb2.InvokeResponse)
    eng.on_call = lambda req: answer(req, provider_pb2.CallResponse)
    b, got, opts_seen = {}, {}, []
    Res = make_type()

    def body():
        w = wire.build_world()
        b["b"] = B = wire.WBuilder(w)
        RO, PR = pulumi.ResourceOptions, pulumi.ProviderResource
        P = {n: PR(k, n, {}) for n, k in PROVS.items()}
        X = {}
        X["C"] = pulumi.ComponentResource("my:c:C", "C", {}, RO(providers=[P["q1"], P["q2"]]))
        X["K"] = pulumi.ComponentResource("my:c:K", "K", {}, RO(parent=X["C"], providers={"pkg1": P["q3"]}, version="9.0.0"))
        X["R"] = pulumi.CustomResource("pkg1:m:R", "R", {}, RO(parent=X["C"], version="1.2.3", plugin_download_url="u://r"))
        X["S"] = pulumi.CustomResource("pkg1:m:R", "S", {}, RO(provider=P["p1"], plugin_download_url="u://s"))
        X["Q"] = pulumi.CustomResource("pkg1:m:R", "Q", {}, RO(version="7.0"))
        X["KR"] = pulumi.CustomResource("pkg1:m:R", "KR", {}, RO(parent=X["K"]))
        objs = []
        for o in case["pool"]:
            x = pulumi.InvokeOptions(parent=X.get(o["parent"]), provider=P.get(o["provider"]), version=o["version"], plugin_download_url=o["url"])
            objs.append(x)
            opts_seen.append((x, (x.parent, x.provider, x.version, x.plugin_download_url)))
        for i, op in enumerate(case["ops"]):
            props = {k: B.build(v) for k, v in op["props"]}
            typ = Res if op["typed"] else None
            if op["op"] == "call":
                o = runtime.call(op["tok"], props, X[op["res"]] if op["res"] else None, typ)

                async def look(i=i, o=o, op=op):
                    try:
                        v = await o.future()
                        got[i] = ["ok", await shape(v, op["typed"]), await o.is_known(), await o.is_secret(),
                                  sorted([await r.urn.future() for r in await o.resources()])]
                    except Exception as e:
                        got[i] = ["error", str(e)]

                engine.watch(look())
                continue

            def do(i=i, op=op, props=props, typ=typ):
                o = None if op["opts"] is None else objs[op["opts"]]
                try:
                    return runtime.invoke(op["tok"], props, o, typ) if typ or i % 2 else runtime.invoke(op["tok"], props, opts=o)
                except Exception as e:
                    got[i] = ["error", str(e)]
                    return None

            async def keep(i, op, r):
                if r is not None:
                    v = (await r) if op["await"] else r.value
                    got[i] = ["ok", await shape(v, op["typed"])]

            if op["where"] == "body":
                engine.watch(keep(i, op, do()))
            elif op["where"] == "apply":
                pulumi.Output.from_input(i).apply(lambda _, do=do, i=i, op=op: asyncio.ensure_future(keep(i, op, do())))
            elif op["where"] == "child":
                w["r0"].urn.apply(lambda _, do=do, i=i, op=op: keep(i, op, do()))
            else:
                async def later(do=do, i=i, op=op):
                    await asyncio.sleep(0)
                    await keep(i, op, do())
                    return 1
                pulumi.Output.from_input(later())

    async def shape(v, typed):
        if typed and v is not None:
            if type(v) is not Res:
                return ("not typed", type(v).__name__)
            d = {}
            for py, en in ATTRS.items():
                x = await wire.plain(getattr(v, py))
                if x is not None:
                    d[en] = x
            return d
        return await wire.plain(v)

    saved = os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
    if case["refs"] is not None:
        os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = case["refs"]
    try:
        err, _ = engine.run_program(eng, body, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else (None if i is not None else 0))
    finally:
        os.environ.pop("PULUMI_DISABLE_RESOURCE_REFERENCES", None)
        if saved is not None:
            os.environ["PULUMI_DISABLE_RESOURCE_REFERENCES"] = saved

    call_fault = any(o["op"] == "call" and o["fault"] for o in case["ops"])
    if err is not None and not call_fault:
        fail(f"program failed: {type(err).__name__}: {err}")
    if err is None and call_fault:
        fail("the program succeeded although a call failed")
    for x, before in opts_seen:
        now = (x.parent, x.provider, x.version, x.plugin_download_url)
        if any(a is not c for a, c in zip(now, before)):
            fail(f"the caller's options changed from {before} to {now}")
    urns = {q.name: eng.make_urn(q.parent, q.type, q.name) for k, q in eng.log if k == "register"}
    enc = wire.Enc(set(case["features"]), dry)

    def ref(p):
        if p is None:
            return ""
        return f"{urns[p]}::{UNKNOWN if dry and p in case['noid'] else p + '-id'}"

    for i, op in enumerate(case["ops"]):
        reqs = [(k, q) for k, q in eng.log if k in ("invoke", "call") and q.tok == op["tok"]]
        desc = f"{op['op']} {op['tok']} of {op}"
        if len(reqs) != 1:
            if call_fault and not reqs:
                continue
            fail(f"{len(reqs)} requests for {desc}")
        k, q = reqs[0]
        if k != op["op"]:
            fail(f"{k} sent for {desc}")
        args, deps = {}, {}
        for name, v in op["props"]:
            ds = set()
            j = enc.enc(v, ds, op["op"] == "call")
            if j is not None:
                args[name] = wire.norm(j)
                deps[name] = ds
        if not same(from_struct(q.args), args):
            fail(f"arguments sent as {from_struct(q.args)!r}, expected {args!r}", desc)
        if op["op"] == "invoke":
            o = {"parent": None, "provider": None, "version": None, "url": None} if op["opts"] is None else case["pool"][op["opts"]]
            p = o["provider"]
            if p is None and o["parent"] is not None and op["tok"].count(":") == 2:
                p = MAPS[o["parent"]].get(op["tok"].split(":")[0])
                rec.label("provider from the parent", p is not None)
            want = (ref(p), o["version"] or "", o["url"] or "")
            accept = not (case["refs"] or "").upper() in ("TRUE", "1")
            if q.acceptResources != accept:
                fail(f"acceptResources={q.acceptResources}", desc)
        else:
            p, v, u = SELF[op["res"]] if op["res"] else (None, "", "")
            want = (ref(p), v, u)
            gd = {k: sorted(x.urns) for k, x in q.argDependencies.items()}
            wd = {k: sorted(wire.urn_of(n) for n in x) for k, x in deps.items()}
            if {k: x for k, x in gd.items() if x} != {k: x for k, x in wd.items() if x}:
                fail(f"argument dependencies {gd}, expected {wd}", desc)
        if (q.provider, q.version, q.pluginDownloadURL) != want:
            fail(f"provider, version, URL sent as {(q.provider, q.version, q.pluginDownloadURL)}, expected {want}", desc)
        g = got.get(i)
        if g is None:
            if call_fault:
                continue
            fail(f"no result for {desc}")
        if op["fault"]:
            rec.label(op["op"] + " fails")
            text = ("monitor has terminated" if case["code"] == "UNAVAILABLE" else "broken wire") if op["fault"] == "rpc" else "" if op["fault"] == "failures_quiet" else "bad thing"
            if g[0] != "error" or text not in g[1] or (op["tok"] not in g[1] and (op["op"] == "invoke" or op["fault"] != "rpc")):
                fail(f"a failing function gave {g}", desc)
            continue
        if g[0] == "error":
            if call_fault:
                continue
            fail(f"failed: {g[1]}", desc)
        d = wire.dec(wire.norm(op["reply"]), dry, top=True)
        secret = any(isinstance(x, wire.Sec) for x in d.values())
        d = {k: x.v if isinstance(x, wire.Sec) else x for k, x in d.items()}
        d = {k: x for k, x in d.items() if x is not None or not op["typed"]}
        known = not wire.has_unk_d(d)
        empty = not op["reply"] and not op["typed"]
        if op["op"] == "call":
            wd = sorted({u for us in op["deps"].values() for u in us}) if not empty else []
            if g[2:] != [known, secret, wd]:
                fail(f"result is known, secret, dependent {g[2:]}, expected {[known, secret, wd]}", desc)
            rec.label("call: secret", secret)
            rec.label("call: unknown", not known)
        if (op["op"] == "invoke" or known) and not same(g[1], None if empty else d):
            fail(f"result {g[1]!r}, expected {d!r}", desc)
    used = [o["opts"] for o in case["ops"] if o.get("opts") is not None]
    rec.label("shared options", len(set(used)) < len(used))
    rec.label("one options object, several packages", any(len({o["tok"].split(":")[0] for o in case["ops"] if o.get("opts") == u}) > 1 for u in used))
    if any(o["props"] or o["reply"] for o in case["ops"]):
        rec.nontriv()


@part("functions", quick=3000, thorough=80000, shards=8, rule="some call carries arguments or gets a non-empty reply")
def functions():
    return cases(), run
