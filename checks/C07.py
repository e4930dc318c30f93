"""C07 decoding of engine replies: secret push-up, unknowns, references, malformed signatures."""
from hypothesis import strategies as st

import engine
import wire
from engine import ARCHIVE_SIG, ASSET_SIG, RESOURCE_SIG, SECRET_SIG, SIG, UNKNOWN
from harness import Violation, part, same

URNS = ["urn:pulumi:stk::proj::pkg:mod:Custom::n1", "urn:pulumi:stk::proj::pkg:mod:Comp$pkg:mod:Custom::n2", "urn:pulumi:stk::proj::pkg:mod:Comp::n3",
        "urn:pulumi:stk::proj::other:mod:Custom::n4", "urn:pulumi:stk::proj::pkg:mod:Custom$other:mod/x:Y::n5",
        "urn:pulumi:stk::proj::pulumi:providers:pkg::prov", "urn:pulumi:stk::proj::pulumi:providers:other::prov2"]


class JGen:
    def __init__(self, draw, malformed, secret_bias):
        self.draw, self.mal, self.sb = draw, malformed, secret_bias

    def j(self, depth):
        d = self.draw
        k = d(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 0, 8, 9, 10, 11]))
        if depth <= 0 and k in (1, 2, 3, 9):
            k = 0
        if k == 1 or k == 9 and self.sb:
            return {SIG: SECRET_SIG, "value": self.j(depth - 1)}
        if k == 2 and d(st.integers(0, 5)) == 5:
            n, x = d(st.sampled_from([12, 70, 200, -12, -20])), self.j(depth - 1)
            if n < 0:
                for j in range(-n):
                    x = [x] if j % 3 else {"k%d" % j: x}
                return x
            i = d(st.integers(0, n - 1))
            return [x if j == i else [j] if n == 200 else j for j in range(n)] if n % 3 else {"w%d" % j: x if j == i else "y" for j in range(n)}
        if k == 2:
            return [self.j(depth - 1) for _ in range(d(st.integers(0, 4)))]
        if k in (3, 9):
            ks = d(st.lists(st.one_of(wire.keys, st.sampled_from(["__internal", "__defaults", "_ok"])), max_size=4, unique=True))
            return {x: self.j(depth - 1) for x in ks}
        if k == 4:
            return UNKNOWN
        if k == 5:
            r = {SIG: RESOURCE_SIG, "urn": d(st.sampled_from(URNS))}
            i = d(st.sampled_from([None, "", "the-id", UNKNOWN]))
            if i is not None:
                r["id"] = i
            v = d(st.sampled_from([None, None, "", "1.2.3"]))
            if v is not None:
                r["packageVersion"] = v
            return r
        if k == 6:
            return self.asset(d(st.integers(0, 2)))
        if k == 7 and self.mal and d(st.integers(0, 2)) == 0:
            return d(st.sampled_from([{SIG: "nonsense"}, {SIG: ""}, {SIG: ASSET_SIG}, {SIG: ARCHIVE_SIG, "text": "x"}, {SIG: SECRET_SIG},
                                      {SIG: RESOURCE_SIG, "id": "x"}, {SIG: 3}, {SIG: None}, {SIG: SECRET_SIG.upper(), "value": 1}]))
        return d(wire.prims)

    def asset(self, depth):
        d = self.draw
        k = d(st.integers(0, 5 if depth else 4))
        s = d(wire.texts)
        if k <= 2:
            return {SIG: ASSET_SIG, ["path", "text", "uri"][k]: s}
        if k <= 4:
            return {SIG: ARCHIVE_SIG, ["path", "uri"][k - 3]: s}
        return {SIG: ARCHIVE_SIG, "assets": {x: self.asset(depth - 1) for x in d(st.lists(wire.keys.filter(lambda x: x != "__provider"), max_size=3, unique=True))}}


@st.composite
def replies(draw, malformed):
    g = JGen(draw, malformed, draw(st.booleans()))
    ks = draw(st.lists(st.sampled_from(["a", "b", "cD", "value", "e_f"]), min_size=1, max_size=3, unique=True))
    return {"dry": draw(st.booleans()), "modules": draw(st.booleans()), "reply": {k: g.j(draw(st.integers(1, 4))) for k in ks}}


def run(case, rec):
    from pulumi.runtime import rpc
    from pulumi.runtime.proto import resource_pb2
    import asyncio

    mods = ("pkg:mod", "pkg") if case["modules"] else ()
    want, bad = {}, False
    for k, j in case["reply"].items():
        try:
            want[k] = wire.dec(wire.norm(j), case["dry"], mods)
        except wire.Malformed:
            bad = True
    eng = engine.FakeEngine(["secrets", "resourceReferences"], dry_run=case["dry"])
    out = {}

    def on_register(req):
        if req.name == "subject":
            return resource_pb2.RegisterResourceResponse(urn=eng.make_urn(req.parent, req.type, req.name), id="i", object=engine.to_struct(case["reply"]))

    def on_invoke(req):
        from pulumi.runtime.proto import provider_pb2
        urn = engine.from_struct(req.args)["urn"]
        r = provider_pb2.InvokeResponse()
        engine.fill_struct(getattr(r, "return"), {"urn": urn, "id": "got-" + urn[-2:], "state": {}})
        return r

    eng.on_register, eng.on_invoke = on_register, on_invoke

    def body():
        if case["modules"]:
            register()
        Custom, _, _ = wire.define_classes()
        r = Custom("subject", {k: None for k in case["reply"]})
        for k in case["reply"]:
            async def look(k=k):
                o = getattr(r, k)
                v = await o.future()
                out[k] = (await wire.plain(v), await o.is_known(), await o.is_secret())
            engine.watch(look())

    try:
        err, _ = engine.run_program(eng, body)
    finally:
        rpc._RESOURCE_MODULES.clear()
        rpc._RESOURCE_PACKAGES.clear()
    if bad:
        rec.label("malformed")
        rec.nontriv()
        if err is None:
            raise Violation(f"a malformed reply was accepted: {out}")
        return
    if err is not None:
        raise Violation(f"program failed: {err!r}")
    for k, w in want.items():
        secret = isinstance(w, wire.Sec)
        v = w.v if secret else w
        unk = wire.has_unk_d(v) or (case["dry"] and v is None)
        if k not in out:
            raise Violation(f"property {k!r} never resolved")
        gv, gk, gs = out[k]
        if gs != secret:
            raise Violation(f"property {k!r}: secret={gs}, expected {secret} for {case['reply'][k]!r}")
        if gk != (not unk):
            raise Violation(f"property {k!r}: known={gk}, expected {not unk} for {case['reply'][k]!r}")
        if not unk and not same(gv, v):
            raise Violation(f"property {k!r}: value {gv!r}, expected {v!r}")
        rec.label("secret", secret)
        rec.label("nested secret", secret and not (isinstance(case["reply"][k], dict) and case["reply"][k].get(SIG) == SECRET_SIG))
        rec.label("unknown", unk)
    text = repr(case["reply"])
    rec.label("reference", RESOURCE_SIG in text)
    rec.label("asset", ASSET_SIG in text or ARCHIVE_SIG in text)
    if SIG in text or UNKNOWN in text:
        rec.nontriv()


def register():
    import pulumi
    from pulumi.runtime import rpc

    class Module(rpc.ResourceModule):
        def version(self):
            return None

        def construct(self, name, typ, urn):
            if typ == "pkg:mod:Comp":
                return pulumi.ComponentResource(typ, name, {}, pulumi.ResourceOptions(urn=urn))
            return pulumi.CustomResource(typ, name, {}, pulumi.ResourceOptions(urn=urn))

    class Package(rpc.ResourcePackage):
        def version(self):
            return None

        def construct_provider(self, name, typ, urn):
            return pulumi.ProviderResource(typ.split(":")[-1], name, {}, pulumi.ResourceOptions(urn=urn))

    rpc.register_resource_module("pkg", "mod", Module())
    rpc.register_resource_package("pkg", Package())


@part("decode", quick=7000, thorough=160000, shards=6, rule="random wire replies with secrets, unknowns, references, assets nested; non-trivial: contains a signature or unknown")
def decode():
    return replies(False), run


@part("malformed", quick=2000, thorough=40000, shards=2, rule="the same with malformed signatures")
def malformed():
    return replies(True), run
