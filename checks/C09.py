"""C09 engine results are converted to the declared types."""
import engine
import typegen as tg
from harness import fail, part
from hypothesis import strategies as st


@st.composite
def cases(draw, secret=True):
    sc = draw(tg.schemas())
    og = tg.OutGen(draw, sc, bad=draw(st.sampled_from([0, 0, 0, 1])), secret=secret)
    outs = [(p[1], og.j(p[2], draw(st.integers(1, 4)))) for p in sc["props"] if draw(st.sampled_from([True, True, True, False]))]
    enumbad = draw(st.sampled_from([False] * 6 + [True]))
    if enumbad:
        outs = [(k, unmember(j, next(p[2] for p in sc["props"] if p[1] == k), sc)) for k, j in outs]
    return {"schema": sc, "outs": outs, "how": draw(st.sampled_from(["custom", "read", "remote", "get"]))}


def unmember(j, t, sc):
    """replaces members of enumerations by values that are not"""
    if isinstance(j, tuple) and j[0] == "sec":
        return ("sec", unmember(j[1], t, sc))
    if t is None or j is None:
        return j
    if t[0] == "enum" and not isinstance(j, (tuple, list)):
        return {"S": "three", "I": 3, "F": 3.5}[t[1]]
    if t[0] == "list" and isinstance(j, list):
        return [unmember(x, t[2], sc) for x in j]
    if t[0] == "map" and isinstance(j, tuple):
        return ("d", [(k, unmember(x, t[2], sc)) for k, x in j[1]])
    if t[0] == "cls" and isinstance(j, tuple):
        ps = {p[1]: p[2] for p in sc["classes"][t[1]]["props"]}
        return ("d", [(k, unmember(x, ps.get(k), sc)) for k, x in j[1]])
    return j


def bad_enums(j, t, sc):
    while isinstance(j, tuple) and j[0] == "sec":
        j = j[1]
    if t is None or j is None:
        return False
    if t[0] == "enum" and not isinstance(j, (tuple, list)):
        return j not in [x for _, x in tg.ENUMS[t[1]]]
    if t[0] == "list" and isinstance(j, list):
        return any(bad_enums(x, t[2], sc) for x in j)
    if t[0] == "map" and isinstance(j, tuple):
        return any(bad_enums(x, t[2], sc) for _, x in j[1])
    if t[0] == "cls" and isinstance(j, tuple):
        ps = {p[1]: p[2] for p in (sc["classes"][t[1]]["props"] if isinstance(t[1], int) else sc["props"])}
        return any(bad_enums(x, ps.get(k), sc) for k, x in j[1])
    return False


def expectation(sc, outs, names):
    """paths of misfits per property; names: engine name -> name used in messages"""
    out = []
    for p in sc["props"]:
        j = outs.get(p[1])
        out += [(kind, [names(p)] + path) for kind, path in tg.mismatches(sc, p[2], j, [])]
    return out


def check_error(err, bad, enums, resource=None):
    if err is None:
        return
    text = str(err)
    if not bad and not enums:
        fail(f"a conforming result failed: {type(err).__name__}: {text}")
    if enums:
        return
    dicts = [".".join(p) for kind, p in bad if kind == "dict"]
    if len(dicts) == len(bad) and not any(f"`{p}`" in text for p in dicts):
        fail(f"the error does not name the property {dicts}: {text}")
    if resource and dicts and len(dicts) == len(bad) and f"`{resource}`" not in text:
        fail(f"the error does not name the resource {resource}: {text}")


def run(case, rec):
    import pulumi
    from pulumi.runtime.proto import provider_pb2, resource_pb2

    sc, how = case["schema"], case["how"]
    outs = dict(case["outs"])
    mod = tg.Module(sc)
    try:
        eng = engine.FakeEngine(["secrets"])
        reply = engine.to_struct({k: tg.to_wire(j) for k, j in outs.items()})
        urn = "urn:pulumi:stk::proj::pkg:mod:Res::res"

        def on_register(q):
            if q.name == "res":
                return resource_pb2.RegisterResourceResponse(urn=urn, id="the-id", object=reply)

        def on_invoke(q):
            r = provider_pb2.InvokeResponse()
            state = {"urn": urn, "id": "the-id", "state": {k: tg.to_wire(j) for k, j in outs.items()}}
            engine.fill_struct(getattr(r, "return"), state)
            return r

        eng.on_register, eng.on_invoke = on_register, on_invoke
        eng.on_read = lambda q: resource_pb2.ReadResourceResponse(urn=urn, properties=reply)
        made, got = [], {}

        def body():
            args = mod.m.ResArgs.__new__(mod.m.ResArgs)
            for p in sc["props"]:
                args.__dict__[p[0]] = None
            if how == "custom":
                made.append(mod.m.Res("res", args))
            elif how == "read":
                made.append(mod.m.Res("res", args, pulumi.ResourceOptions(id="the-id")))
            elif how == "get":
                made.append(mod.m.Res("res", args, pulumi.ResourceOptions(urn=urn)))
            else:
                made.append(mod.m.Comp("res", args, None, remote=True))

        async def after(err):
            if err is None:
                for p in sc["props"]:
                    o = getattr(made[0], p[0])
                    got[p[0]] = (await o.future(), await o.is_secret())

        err, _ = engine.run_program(eng, body, after=after)
        bad = expectation(sc, outs, lambda p: p[0])
        enums = any(bad_enums(outs.get(p[1]), p[2], sc) for p in sc["props"])
        check_error(err, bad, enums, "res")
        if err is None and (bad or enums):
            fail(f"accepted although {'.'.join(bad[0][1]) if bad else 'an enumeration'} cannot have its declared type: {got}")
        if err is None:
            for p in sc["props"]:
                value, secret = got[p[0]]
                for problem in tg.check_out(sc, p[2], outs.get(p[1]), value, [p[0]], mod.m):
                    fail(problem)
                if secret != tg.has_secret(outs.get(p[1])):
                    fail(f"{p[0]}: secret is {secret}")
        count(case, sc, outs, bad, enums, rec)
    finally:
        mod.close()


def count(case, sc, outs, bad, enums, rec):
    rec.label("misfit reported", bool(bad))
    rec.label("enumeration without that member", enums)
    rec.label("secret", any(tg.has_secret(j) for j in outs.values()))
    if bad or any(p[2][0] in ("cls", "map", "list") and tg.strip(outs.get(p[1])) not in (None, [], ("d", [])) for p in sc["props"]):
        rec.nontriv()


@part("resource", quick=3500, thorough=80000, shards=5, rule="a non-empty list, dictionary or typed object in the reply, or a value that cannot have its type")
def resource():
    return cases(), run


# ------------------------------------------------------------------------- results of functions
def run_fn(case, rec):
    import pulumi
    from pulumi.runtime.proto import provider_pb2

    sc = case["schema"]
    outs = dict(case["outs"])
    mod = tg.Module(sc)
    call = case["how"] in ("read", "remote")
    try:
        eng = engine.FakeEngine(["secrets"])

        def reply(r):
            engine.fill_struct(getattr(r, "return"), {k: tg.to_wire(j) for k, j in outs.items()})
            return r

        eng.on_invoke = lambda q: reply(provider_pb2.InvokeResponse())
        eng.on_call = lambda q: reply(provider_pb2.CallResponse())
        got = []

        def body():
            if call:
                got.append(pulumi.runtime.call("pkg:mod:fn", {}, typ=mod.m.Result))
            else:
                got.append(pulumi.runtime.invoke("pkg:mod:fn", {}, typ=mod.m.Result).value)

        async def after(err):
            if err is None and call:
                got[0] = await got[0].future()

        err, _ = engine.run_program(eng, body, after=after)
        bad = expectation(sc, outs, lambda p: p[1])
        enums = any(bad_enums(outs.get(p[1]), p[2], sc) for p in sc["props"])
        check_error(err, bad, enums)
        if err is None:
            if bad or enums:
                fail(f"accepted although {'.'.join(bad[0][1]) if bad else 'an enumeration'} cannot have its declared type: {got}")
            for problem in tg.check_out(sc, ("cls", "Result"), ("d", case["outs"]), got[0], ["result"], mod.m):
                fail(problem)
        count(case, sc, outs, bad, enums, rec)
    finally:
        mod.close()


@part("function", quick=2500, thorough=50000, shards=3, rule="a non-empty list, dictionary or typed object in the reply, or a value that cannot have its type")
def function():
    return cases(secret=False), run_fn
