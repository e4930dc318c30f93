"""C05 round trip over the engine: what a program passes in comes back the same when the engine echoes it."""
import engine
import wire
from harness import Violation, part, same
from wire import D, DUNK


class _Null:
    def __repr__(self):
        return "NULL"


def expected(v, dry, refs):
    """(value, known, secret) that a plain reading of the value has, independent of any wire format"""
    secret = [False]

    def go(v):
        t = v[0]
        if t == "p":
            x = v[1]
            return float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x
        if t == "l":
            return [go(x) for x in v[1]]
        if t == "d":
            r = {}
            for k, x in v[1]:
                y = go(x)
                # a null-valued entry reads as absent - except that inside a secret the decoder keeps nothing either
                if y is not None:
                    r[k] = y
            return r
        if t == "unk":
            return DUNK
        if t == "asset":
            return D("asset", v[1], v[2])
        if t == "arch":
            return D("arch", v[1], v[2] if v[1] != "assets" else tuple(sorted(((k, go(x)) for k, x in v[2]), key=lambda p: p[0])))
        if t == "res":
            if refs:
                return D("res", wire.urn_of(v[1]))
            if wire.WORLD[v[1]][0] == "custom":
                return wire.id_of(v[1], dry) or DUNK
            return wire.urn_of(v[1])
        if t == "rout":
            return wire.urn_of(v[1]) if v[2] == "urn" else (wire.id_of(v[1], dry) or DUNK)
        if t == "aw":
            return go(v[1])
        if t == "out":
            inner_unknown = wire.Enc(set(), dry).has_unk(v[1])
            if not v[2] or inner_unknown:
                return DUNK
            x = go(v[1])
            if v[3]:
                secret[0] = True
            return x
        raise AssertionError(t)

    return go(v), secret[0]


def run(case, rec):
    import pulumi

    refs = "resourceReferences" in case["features"]
    eng = engine.FakeEngine(set(case["features"]) | {"secrets"}, dry_run=case["dry"])
    eng.on_register = wire.world_engine_hook(eng)
    b, out = {}, {}

    from pulumi.runtime import rpc

    def body():
        if refs:
            register_modules()
        w = wire.build_world()
        Custom, Comp, Remote = wire.define_classes()
        b["b"] = wire.WBuilder(w)
        props = {k: b["b"].build(v) for k, v in case["props"]}
        r = Custom("subject", props)

        for k, _ in case["props"]:
            o = getattr(r, k)
            async def look(k=k, o=o):
                out[k] = (await wire.plain(await o.future()), await o.is_known(), await o.is_secret())
            engine.watch(look())

    eng.on_invoke = lambda req: get_resource_reply(req)
    try:
        err, _ = engine.run_program(eng, body, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else 0)
    finally:
        rpc._RESOURCE_MODULES.clear()
    if err is not None:
        raise Violation(f"program failed: {err!r}")
    for k, v in case["props"]:
        want, secret = expected(v, case["dry"], refs)
        got = out.get(k)
        if got is None:
            raise Violation(f"property {k!r} never resolved")
        unknown = wire.has_unk_d(want) or (case["dry"] and want is None)
        if got[1] != (not unknown):
            raise Violation(f"property {k!r}: known={got[1]}, expected {not unknown}; value {want!r}")
        if not unknown and not same(strip(got[0]), strip(want)):
            raise Violation(f"property {k!r}: came back as {got[0]!r}\n  sent            {want!r}")
        if want is not None and not (want == DUNK if isinstance(want, D) else False) and got[2] != secret:
            raise Violation(f"property {k!r}: secret={got[2]}, expected {secret}")
    nodes = [n for _, v in case["props"] for n in wire.walk(v)]
    for t in ("res", "out", "asset", "arch", "l", "d"):
        rec.label(t, any(n[0] == t for n in nodes))
    if any(n[0] in ("l", "d", "arch", "out", "res") for n in nodes):
        rec.nontriv()


def strip(v):
    """null-valued entries read as absent"""
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if x is not None}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def register_modules():
    import pulumi
    from pulumi.runtime import rpc

    class Module(rpc.ResourceModule):
        def version(self):
            return None

        def construct(self, name, typ, urn):
            kind = {v: k for k, v in wire.TYPES.items()}[typ]
            if kind == "custom":
                return pulumi.CustomResource(typ, name, {}, pulumi.ResourceOptions(urn=urn))
            return pulumi.ComponentResource(typ, name, {}, pulumi.ResourceOptions(urn=urn))

    rpc.register_resource_module("pkg", "mod", Module())


def get_resource_reply(req):
    from pulumi.runtime.proto import provider_pb2

    urn = engine.from_struct(req.args)["urn"]
    r = provider_pb2.InvokeResponse()
    engine.fill_struct(getattr(r, "return"), {"urn": urn, "id": "rehydrated", "state": {}})
    return r


@part("echo", quick=4500, thorough=120000, shards=8, rule="random property bags echoed by the engine; non-trivial: contains a container, output or resource")
def echo():
    return wire.encodings(kov=False), run


def run_reject(case, rec):
    """no wire form: the program fails and nothing is sent for the resource"""
    nodes = [n for _, v in case["props"] for n in wire.walk(v)]
    enc = wire.Enc(set(case["features"]), case["dry"])
    try:
        for k, v in case["props"]:
            enc.enc(v, set(), False)
        bad = False
    except wire.Bad:
        bad = True
    eng = engine.FakeEngine(case["features"], dry_run=case["dry"])
    eng.on_register = wire.world_engine_hook(eng)
    b = {}

    def body():
        b["b"] = wire.WBuilder(wire.build_world())
        wire.define_classes()[0]("subject", {k: b["b"].build(v) for k, v in case["props"]})

    err, _ = engine.run_program(eng, body, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else 0)
    regs = [r for k, r in eng.log if k == "register" and r.name == "subject"]
    rec.label("rejected", bad)
    if bad:
        rec.nontriv()
    if bad and (err is None or regs):
        raise Violation(f"a value with no wire form was accepted: error {err!r}, sent {regs}")
    if not bad and (err is not None or len(regs) != 1):
        raise Violation(f"a legal value was rejected: {err!r}")


@part("reject", quick=1200, thorough=30000, shards=4, rule="bags containing values that have no wire form; non-trivial: such a value is reached")
def reject():
    return wire.encodings(bad=True), run_reject
