"""C22 component inputs arrive as the caller's outputs."""
import asyncio

import engine
import wire
from engine import from_struct
from harness import Violation, part, same
from hypothesis import strategies as st
from wire import DUNK, D


class Seen:
    """an output as the provider sees it"""

    def __init__(self, value, known, secret, deps):
        self.value, self.known, self.secret, self.deps = value, known, secret, sorted(deps)

    def __repr__(self):
        return f"Output({self.value!r}, known={self.known}, secret={self.secret}, deps={[d.split('::')[-1] for d in self.deps]})"


def eq(a, b):
    if isinstance(a, Seen) or isinstance(b, Seen):
        return type(a) == type(b) and (a.known, a.secret, a.deps) == (b.known, b.secret, b.deps) and (not a.known or eq(a.value, b.value))
    if isinstance(a, D) and a.kind == "arch" and a.a[0] == "assets" and isinstance(b, D) and b.kind == "arch":
        return same(a, b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        # a null-valued entry reads as absent
        a, b = ({k: x for k, x in d.items() if x is not None} for d in (a, b))
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return same(a, b)


# ------------------------------------------------------------------ what the provider should see
class Want:
    def __init__(self, case):
        self.f, self.dry, self.registered, self.call = set(case["features"]), case["dry"], case["registered"], case["kind"] == "call"

    def urns(self, names):
        return [wire.urn_of(n) for n in (wire.expand(names))]

    def res(self, n):
        if "resourceReferences" in self.f and self.registered:
            return D("res", wire.urn_of(n))
        if wire.WORLD[n][0] == "custom":
            return wire.id_of(n, self.dry) or DUNK
        return wire.urn_of(n)

    def go(self, v, ov, deps, sec):
        """ov: outputs arrive as outputs.  Adds to deps the names of resources, to sec whether anything is secret"""
        t = v[0]
        if t == "p":
            return wire.norm(v[1])
        if t == "l":
            return [self.go(x, ov, deps, sec) for x in v[1]]
        if t == "d":
            r = {k: self.go(x, ov, deps, sec) for k, x in v[1]}
            return {k: x for k, x in r.items() if x is not None}
        if t == "unk":
            return DUNK
        if t == "asset":
            return D("asset", v[1], v[2])
        if t == "arch":
            return D("arch", v[1], v[2] if v[1] != "assets" else tuple(sorted(((k, self.go(x, False, deps, sec)) for k, x in v[2]), key=lambda p: p[0])))
        if t == "res":
            deps.add(v[1])
            return self.res(v[1])
        if t == "aw":
            return self.go(v[1], ov, deps, sec)
        if t == "rout":
            i = wire.id_of(v[1], self.dry)
            return self.out(("p", wire.urn_of(v[1]) if v[2] == "urn" else i), v[2] == "urn" or bool(i), False, [v[1]], ov, deps, sec)
        return self.out(v[1], v[2], v[3], v[4], ov, deps, sec)

    def out(self, inner, known, secret, names, ov, deps, sec):
        mine, s = set(names), []
        unk = wire.Enc(set(), self.dry).has_unk(inner)
        x = DUNK if unk else self.go(inner, False, mine, s)
        deps |= mine
        if not known:
            s = []
            x = DUNK
        if ov:
            return Seen(x, not wire.has_unk_d(x), bool(secret or (s and "secrets" in self.f)), self.urns(mine))
        if known and not unk and secret or s:
            sec.append(1)
        return x

    def prop(self, v):
        ov = "outputValues" in self.f
        deps, sec = set(), []
        x = self.go(v, ov, deps, sec)
        secret = bool(sec) and "secrets" in self.f
        if x is None and not secret:
            return None
        urns = [wire.urn_of(n) for n in deps] if self.call else self.urns(deps)
        if not secret:
            if not urns or contains(x) or isinstance(x, D) and x.kind == "res" and urns == [x.a[0]]:
                return x
        return Seen(x, not wire.has_unk_d(x), secret, urns)


def contains(x):
    if isinstance(x, Seen):
        return True
    return any(contains(y) for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()))


async def describe(x):
    import pulumi
    if isinstance(x, pulumi.Output):
        v = await wire.plain(await x.future(with_unknowns=True))
        if wire.has_sig(v):
            raise Violation(f"the provider sees the wire wrapper {v!r}")
        return Seen(v, await x.is_known(), await x.is_secret(), {await r.urn.future() for r in await x.resources()})
    if isinstance(x, list):
        return [await describe(e) for e in x]
    if isinstance(x, dict):
        return {k: await describe(e) for k, e in x.items()}
    x = await wire.plain(x)
    if wire.has_sig(x):
        raise Violation(f"the provider sees the wire wrapper {x!r}")
    return x


def register():
    from pulumi.resource import DependencyResource
    from pulumi.runtime import rpc

    class Module(rpc.ResourceModule):
        def version(self):
            return None

        def construct(self, name, typ, urn):
            return DependencyResource(urn)

    rpc.register_resource_module("pkg", "mod", Module())


def send(case):
    """the request the caller makes"""
    import pulumi
    eng = engine.FakeEngine(case["features"], dry_run=case["dry"])
    eng.on_register = wire.world_engine_hook(eng)
    b = {}

    def body():
        w = wire.build_world()
        Custom, Comp, Remote = wire.define_classes()
        b["b"] = wire.WBuilder(w)
        props = {k: b["b"].build(v) for k, v in case["props"]}
        if case["kind"] == "call":
            pulumi.runtime.call("pkg:mod:Remote/m", props, w["m0"])
        else:
            Remote("subject", props)

    err, _ = engine.run_program(eng, body, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else 0)
    if err is not None:
        raise Violation(f"the calling program failed: {err!r}")
    reqs = [r for k, r in eng.log if k == "call" or k == "register" and r.name == "subject"]
    if len(reqs) != 1:
        raise Violation(f"{len(reqs)} requests")
    return reqs[0]


def receive(case, req):
    """what the provider is given for it"""
    from pulumi.provider import CallResult, ConstructResult, Provider
    from pulumi.provider.server import ProviderServicer
    from pulumi.runtime import rpc
    from pulumi.runtime.proto import provider_pb2
    got = []

    class Prov(Provider):
        def __init__(self):
            super().__init__("1.0.0")

        def construct(self, name, resource_type, inputs, options=None):
            got.append(inputs)
            return ConstructResult("urn:x", {})

        def call(self, token, args):
            got.append(args)
            return CallResult({})

    async def main():
        s = ProviderServicer(Prov(), [], "")
        if case["kind"] == "call":
            await s.Call(provider_pb2.CallRequest(tok=req.tok, args=req.args, argDependencies=req.argDependencies, dryRun=case["dry"], project="proj", stack="stk"), None)
        else:
            await s.Construct(provider_pb2.ConstructRequest(name=req.name, type=req.type, inputs=req.object, dryRun=case["dry"], project="proj", stack="stk",
                                                            inputDependencies={k: provider_pb2.ConstructRequest.PropertyDependencies(urns=d.urns) for k, d in req.propertyDependencies.items()}), None)
        if len(got) != 1:
            raise Violation(f"the provider was called {len(got)} times")
        return {k: await describe(v) for k, v in got[0].items()}

    def go():
        with engine.open_loop() as loop:
            if case["registered"]:
                register()
            try:
                return loop.run_until_complete(main())
            finally:
                rpc._RESOURCE_MODULES.clear()

    return engine.in_context(go)


def run(case, rec):
    w = Want(case)
    want = {k: w.prop(v) for k, v in case["props"]}
    want = {k: v for k, v in want.items() if v is not None}
    req = send(case)
    got = receive(case, req)
    if not eq(got, want):
        for k in sorted(set(got) | set(want)):
            if k not in got or k not in want or not eq(got[k], want[k]):
                raise Violation(f"input {k!r} arrives as {got.get(k, 'nothing')!r}\n  expected        {want.get(k, 'nothing')!r}\n  on the wire     {from_struct(req.args if case['kind'] == 'call' else req.object).get(k, 'nothing')!r}")
    nodes = [n for _, v in case["props"] for n in wire.walk(v)]
    for t in ("res", "rout", "out", "unk"):
        rec.label(t, any(n[0] == t for n in nodes))
    rec.label("nested", any(isinstance(x, (list, dict)) and contains(x) for x in got.values()))
    rec.label(case["kind"])
    if any(isinstance(x, Seen) or contains(x) for x in got.values()):
        rec.nontriv()


@st.composite
def cases(draw):
    c = draw(wire.encodings(kov=True, features=draw(st.one_of(st.just(["secrets", "resourceReferences", "outputValues"]), st.lists(st.sampled_from(wire.FEATURES), unique=True)))))
    c["kind"] = draw(st.sampled_from(["construct", "call"]))
    c["registered"] = draw(st.booleans())
    if not c["dry"] and draw(st.booleans()):  # an update can meet unknowns too, as whole inputs
        c["props"] = c["props"] + [("late", draw(st.sampled_from([("unk",), ("out", ("p", 1), False, False, []), ("out", ("p", "x"), False, True, ["r0"]), ("out", ("p", 1), False, False, ["c1", "m0"])])))]
    if c["kind"] == "call" and draw(st.booleans()):
        c["props"] = c["props"] + [("__self__", ("res", draw(st.sampled_from(["m0", "r0", "c1"]))))]
    return c


@part("arrive", quick=4000, thorough=120000, shards=8, rule="random property bags over a fixed world of 12 resources x engine features x construct/call x registered resource types; non-trivial: the provider sees an output")
def arrive():
    return cases(), run
