"""C08 names are translated, user keys are not."""
import engine
import typedres
import typegen as tg
from harness import expect_equal, fail, part
from hypothesis import strategies as st
from wire import norm


@part("typed", quick=3000, thorough=80000, shards=7, rule="at least two non-empty typed objects or dictionaries in the inputs")
def typed():
    return typedres.cases(), typedres.run


# ------------------------------------------------------------------- resources with their own translators and plain dictionaries
TABLE = {"first_arg": "firstArg", "second_arg": "secondArg", "some_list": "someList", "a_b": "aB", "tags_all": "tagsAll", "type_": "type", "class_": "class"}
BACK = {v: k for k, v in TABLE.items()}


@st.composite
def legacy_cases(draw):
    sc = draw(tg.schemas())
    g = tg.InGen(draw, sc)
    names = [k for k in tg.ALLKEYS if k and not k.startswith("_")]
    ins = [(n, g.free(draw(st.integers(1, 4)))) for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True))]
    og = tg.OutGen(draw, sc)
    outs = [(n, og.free(draw(st.integers(1, 4)))) for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True))]
    return {"schema": sc, "ins": ins, "outs": outs, "only": draw(st.sampled_from(["both", "both", "in", "out"])), "sched": draw(st.lists(st.integers(0, 4), max_size=4))}


def collides(x, tr):
    """two keys of one dictionary translate to the same"""
    if isinstance(x, tuple):
        if x[0] == "d" or x[0] == "dict":
            ks = [tr(k) for k, _ in x[1]]
            return len(set(ks)) != len(ks) or any(collides(y, tr) for _, y in x[1])
        return any(collides(y[1] if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple) else y, tr) for y in x[1:]
                   if isinstance(y, (tuple, list)))
    return isinstance(x, list) and any(collides(y, tr) for y in x)


def run_legacy(case, rec):
    import pulumi
    from pulumi.runtime.proto import resource_pb2

    sc = case["schema"]
    tin = (lambda k: TABLE.get(k) or k) if case["only"] != "out" else (lambda k: k)
    tout = (lambda k: BACK.get(k) or k) if case["only"] != "in" else (lambda k: k)
    if collides(("dict", case["ins"]), tin) or any(collides(x, tin) for _, v in case["ins"] for x in tg.walk_in(v)) or collides(("d", case["outs"]), tout):
        rec.label("skipped: names collide")
        return
    mod = tg.Module(sc)
    try:
        class R(pulumi.CustomResource):
            def translate_input_property(self, prop):
                return tin(prop)

            def translate_output_property(self, prop):
                return tout(prop)

        eng = engine.FakeEngine(["secrets"])
        reply = engine.to_struct({k: tg.to_wire(j) for k, j in case["outs"]})
        eng.on_register = lambda q: resource_pb2.RegisterResourceResponse(urn=eng.make_urn(q.parent, q.type, q.name), id="the-id", object=reply) \
            if q.name == "res" else None
        b = tg.InBuild(mod, sc)
        made, got = [], {}
        declared = {tout(k) for k, _ in case["outs"]}

        def body():
            props = {n: b.b(v) for n, v in case["ins"]}
            for k in declared:
                props.setdefault(k, None)
            made.append(R("t:m:R", "res", props))

        async def after(err):
            if err is None:
                for k in declared:
                    got[k] = await made[0].__dict__[k].future()

        err, _ = engine.run_program(eng, body, case["sched"], extra_idle=b.idle, after=after)
        if err is not None:
            fail(f"{type(err).__name__}: {err}")
        q = next(q for k, q in eng.log if k == "register" and q.name == "res")
        want = norm({tin(n): tg.enc(sc, None, v, tin) for n, v in case["ins"]})
        expect_equal("inputs sent", engine.from_struct(q.object), want)
        for k, j in case["outs"]:
            for problem in tg.check_out(sc, None, j, got[tout(k)], [k], mod.m, tout):
                fail(problem)
        if any(k in TABLE for _, v in case["ins"] for x in tg.walk_in(v) if x[0] == "dict" for k, _ in x[1]):
            rec.nontriv()
    finally:
        mod.close()


@part("translators", quick=2000, thorough=50000, shards=4, rule="a nested dictionary with a name the resource's translator changes")
def translators():
    return legacy_cases(), run_legacy
