"""registered resources with a generated schema: what they send and what their typed outputs hold"""
import engine
import typegen as tg
from harness import expect_equal, fail
from hypothesis import strategies as st
from wire import norm


def from_json(x):
    if isinstance(x, dict):
        return ("d", [(k, from_json(y)) for k, y in x.items()])
    if isinstance(x, list):
        return [from_json(y) for y in x]
    return x


@st.composite
def cases(draw, kinds=("custom", "custom", "read", "remote", "component"), replied=(True, True, False)):
    sc = draw(tg.schemas())
    g = tg.InGen(draw, sc)
    ins = [(p[0], g.v(p[2], draw(st.integers(1, 3)))) for p in sc["props"] if draw(st.sampled_from([True, True, False]))]
    og = tg.OutGen(draw, sc)
    outs = [(p[1], og.j(p[2], draw(st.integers(1, 3)))) for p in sc["props"] if draw(st.sampled_from(replied))]
    return {"schema": sc, "ins": ins, "outs": outs, "dry": draw(st.sampled_from([False, False, True])),
            "kind": draw(st.sampled_from(kinds)), "sched": draw(st.lists(st.integers(0, 4), max_size=5))}


def dup_keys(v):
    return any(len({k for k, _ in x[1]}) != len(x[1]) for x in tg.walk_in(v) if x[0] == "dict")


def run(case, rec, requests=True):
    import pulumi
    from pulumi.runtime.proto import resource_pb2

    sc, dry, kind = case["schema"], case["dry"], case["kind"]
    decl = {p[0]: p for p in sc["props"]}
    wire = {}
    for n, v in case["ins"]:
        wire[decl[n][1]] = norm(tg.enc(sc, decl[n][2], v))
    outs = dict(case["outs"])
    # what the reply leaves out is delivered as the input, which must then fit the declaration
    for n, v in case["ins"]:
        p = decl[n]
        if (p[1] not in outs or outs[p[1]] is None) and list(tg.mismatches(sc, p[2], from_json(wire[p[1]]), [])):
            outs[p[1]] = tg.to_wire(tg.InGen.least(None, p[2])[1]) if p[2][0] not in ("cls", "map", "list", "enum") else [] if p[2][0] == "list" else ("d", [])
            if p[2][0] == "enum":
                outs[p[1]] = tg.ENUMS[p[2][1]][0][1]
    mod = tg.Module(sc)
    try:
        eng = engine.FakeEngine(["secrets"], dry_run=dry)
        reply = engine.to_struct({k: tg.to_wire(j) for k, j in outs.items()})

        def on_register(q):
            if q.name == "res":
                return resource_pb2.RegisterResourceResponse(urn=eng.make_urn(q.parent, q.type, q.name), id="the-id", object=reply)

        def on_read(q):
            return resource_pb2.ReadResourceResponse(urn=eng.make_urn(q.parent, q.type, q.name), properties=reply)

        eng.on_register, eng.on_read = on_register, on_read
        b = tg.InBuild(mod, sc)
        made = []

        def body():
            args = mod.m.ResArgs.__new__(mod.m.ResArgs)
            for p in sc["props"]:
                args.__dict__[p[0]] = None
            for n, v in case["ins"]:
                setattr(args, n, b.b(v))
            if kind == "custom":
                made.append(mod.m.Res("res", args))
            elif kind == "read":
                made.append(mod.m.Res("res", args, pulumi.ResourceOptions(id="the-id")))
            elif kind == "remote":
                made.append(mod.m.Comp("res", args, None, remote=True))
            else:
                made.append(mod.m.Comp("res", args))

        got = {}

        async def after(err):
            if err is None:
                for p in sc["props"]:
                    o = getattr(made[0], p[0])
                    if o is None and kind == "component" and p[0] not in dict(case["ins"]):
                        got[p[0]] = (None, True)
                        continue
                    if not isinstance(o, pulumi.Output):
                        fail(f"attribute {p[0]} is {o!r}")
                    got[p[0]] = (await o.future(with_unknowns=False), await o.is_known())

        err, _ = engine.run_program(eng, body, case["sched"], extra_idle=b.idle, after=after)
        if err is not None:
            fail(f"{type(err).__name__}: {err}")
        q = [q for k, q in eng.log if k in ("register", "read") and q.name == "res"]
        if len(q) != 1:
            fail(f"{len(q)} requests")
        sent = engine.from_struct(q[0].properties if kind == "read" else q[0].object)
        if requests:
            expect_equal("inputs sent", sent, {k: x for k, x in wire.items() if x is not None})
        for p in sc["props"]:
            value, known = got[p[0]]
            j = outs.get(p[1])
            fallback = tg.strip(j) is None and not isinstance(j, tuple)
            if fallback:
                if dry:
                    if known:
                        fail(f"{p[0]} is not in the reply but known during a preview: {value!r}")
                    continue
                j = from_json(wire.get(p[1]))
            for problem in tg.check_out(sc, p[2], j, value, [p[0]], mod.m):
                fail(("fallback " if fallback else "") + problem)
        vs = [x for _, v in case["ins"] for x in tg.walk_in(v)]
        rec.label("instance", any(v[0] == "inst" for v in vs))
        rec.label("dictionary for a class", any(v[0] == "dict" for v in vs))
        if sum(1 for v in vs if v[0] in ("inst", "dict") and v[-1]) >= 2:
            rec.nontriv()
        rec.label("typed reply", any(p[1] in outs and p[2][0] in ("cls", "map", "list") for p in sc["props"]))
    finally:
        mod.close()
