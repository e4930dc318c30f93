"""What a resource's outputs resolve to, given its inputs and the engine's reply (C15, C19)."""
import asyncio
import importlib.util
import os

import engine
import wire
from engine import UNKNOWN, from_struct
from harness import fail, same
from hypothesis import strategies as st

PY = {"fooBar": "foo_bar"}  # engine name -> python name
KEYS = ["a", "bC", "foo_bar", "value"]
DEPS = ["urn:pulumi:stk::proj::x:y:Z::d1", "urn:pulumi:stk::proj::x:y:Z$x:y:W::d2"]

MANY = DEPS[:1] + ["urn:pulumi:stk::proj::x:y:Z::m%d" % i for i in range(40)]


def jgen():
    spec = importlib.util.spec_from_file_location("c07gen", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "C07.py"))
    import harness
    saved = dict(harness._PARTS)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    harness._PARTS.clear()
    harness._PARTS.update(saved)
    return mod.JGen


JGen = jgen()


def ename(k):
    return {v: k for k, v in PY.items()}.get(k, k)


@st.composite
def cases(draw, kinds):
    dry = draw(st.booleans())
    pick = lambda xs: draw(st.sampled_from(xs))
    kind = pick(kinds)
    g = wire.VGen(draw, dry)
    props = []
    for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True)):
        props.append((k, ("p", None) if draw(st.integers(0, 2)) == 0 else g.v(draw(st.integers(0, 2)))))
    jg = JGen(draw, False, draw(st.booleans()))
    reply = {}
    for k in [ename(k) for k, _ in props] + ["extra", "id", "urn"]:
        how = draw(st.integers(0, 4))
        if k in ("extra", "id", "urn") and how:
            continue
        if how == 0:
            reply[k] = None if k not in ("id", "urn") else "bogus"
        elif how <= 3:
            reply[k] = jg.j(draw(st.integers(0, 3)))
    pd = {}
    if kind in ("custom", "comp", "remote"):
        for k, _ in props:
            if draw(st.integers(0, 2)) == 0:
                pd[ename(k)] = draw(st.lists(st.sampled_from(DEPS), max_size=2)) if draw(st.integers(0, 4)) else MANY[: pick([3, 9, 17, 40])]
        if draw(st.integers(0, 3)) == 0:
            pd["extra"] = [DEPS[0]]
    c = {"kind": kind, "dry": dry, "features": draw(st.lists(st.sampled_from(wire.FEATURES), unique=True)), "props": props, "reply": reply, "deps": pd,
         "id": pick(["the-id", "", "0", " ", "a b"]), "sched": draw(st.lists(st.integers(0, 5), max_size=6)), "child": draw(st.booleans())}
    if kind == "read":
        c["rid"] = pick([["s", "rd-1"], ["out", "rd-2"], ["sec", "rd-3"], ["fut", "rd-4"], ["dep", "r0"], ["dep", "nid"]])
        c["opts"] = {}
        if draw(st.booleans()):
            c["opts"]["additional_secret_outputs"] = draw(st.lists(st.sampled_from(["foo_bar", "fooBar", "a", "zz_top"]), max_size=3, unique=True))
        if draw(st.booleans()):
            c["opts"]["version"] = pick(["1.2.3", "0.0.1-beta.1"])
        if draw(st.booleans()):
            c["opts"]["plugin_download_url"] = "https://example.com/p?x=1"
        c["urn_in_reply"] = pick([None, "urn:pulumi:stk::proj::other:t:T::moved"])
    return c


def judge(case, rec, fault=None):
    """fault: None or (what, ...) handled by C19"""
    import pulumi
    from pulumi.runtime.proto import provider_pb2, resource_pb2

    dry = case["dry"]
    kind = case["kind"]
    eng = engine.FakeEngine(case["features"], dry_run=dry)
    hook = wire.world_engine_hook(eng)
    URN = "urn:pulumi:stk::proj::pkg:mod:Comp$sub:m:S::subject" if kind.startswith("get") else None

    def on_register(req):
        if req.name != "subject":
            return hook(req)
        r = resource_pb2.RegisterResourceResponse(urn=eng.make_urn(req.parent, req.type, req.name), id=case["id"] if req.custom else "",
                                                  object=engine.to_struct(case["reply"]))
        for k, us in case["deps"].items():
            r.propertyDependencies[k].urns.extend(us)
        return r

    def on_read(req):
        return resource_pb2.ReadResourceResponse(urn=case.get("urn_in_reply") or eng.make_urn(req.parent, req.type, req.name), properties=engine.to_struct(case["reply"]))

    def on_invoke(req):
        r = provider_pb2.InvokeResponse()
        engine.fill_struct(getattr(r, "return"), {"urn": URN, "id": case["id"], "state": case["reply"]})
        return r

    eng.on_register, eng.on_read, eng.on_invoke = on_register, on_read, on_invoke
    b, out, subj = {}, {}, {}

    class Mix:
        def translate_input_property(self, prop):
            return ename(prop)

        def translate_output_property(self, prop):
            return PY.get(prop, prop)

    class Sub(Mix, pulumi.CustomResource):
        pass

    class SubC(Mix, pulumi.ComponentResource):
        pass

    def body():
        w = wire.build_world()
        b["b"] = B = wire.WBuilder(w)
        props = {k: B.build(v) for k, v in case["props"]}
        kw = {"parent": w["c1"]} if case["child"] else {}
        t = "sub:m:S"
        if kind == "custom":
            r = Sub(t, "subject", props, pulumi.ResourceOptions(**kw))
        elif kind in ("comp", "remote"):
            r = SubC(t, "subject", props, pulumi.ResourceOptions(**kw), kind == "remote")
        elif kind == "read":
            how, i = case["rid"]
            O = pulumi.Output
            rid = {"s": lambda: i, "out": lambda: O.from_input(i), "sec": lambda: O.secret(i), "fut": lambda: B.fut(i, True), "dep": lambda: w[i].id}[how]()
            r = Sub(t, "subject", props, pulumi.ResourceOptions(id=rid, **kw, **case["opts"]))
        elif kind == "get":
            r = Sub(t, "subject", props, pulumi.ResourceOptions(urn=URN, **kw))
        else:
            r = SubC(t, "subject", props, pulumi.ResourceOptions(urn=URN, **kw))
        subj["r"] = r

        async def look(k, o):
            v = await wire.plain(await o.future())
            out[k] = [v, await o.is_known(), await o.is_secret(), None]
            rs = await o.resources()
            out[k][3] = (r in rs, sorted([await x.urn.future() for x in rs if x is not r]))

        for k in [k for k, _ in case["props"]] + ["urn"] + (["id"] if kind in ("custom", "read", "get") else []):
            engine.watch(look(k, getattr(r, k)))

    err, _ = engine.run_program(eng, body, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else (None if i is not None else 0))
    if err is not None:
        fail(f"program failed: {type(err).__name__}: {err}")
    enc = wire.Enc(set(case["features"]), dry)
    fallback = False
    for k, v in case["props"]:
        e = ename(k)
        want = None
        if e in case["reply"]:
            want = wire.dec(wire.norm(case["reply"][e]), dry)
        if want is None and not dry:
            j = enc.enc(v, set(), kind == "remote")
            want = wire.dec(strip_ov(wire.norm(j)), dry)
            fallback = True
        secret = isinstance(want, wire.Sec)
        val = want.v if secret else want
        known = not wire.has_unk_d(val) and not (dry and val is None)
        if k not in out or out[k][3] is None:
            fail(f"property {k} never resolved")
        gv, gk, gs, (self_dep, others) = out[k]
        desc = f"input {v!r}, reply {case['reply'].get(e, 'absent')!r}"
        if gs != secret:
            fail(f"property {k}: secret={gs}, expected {secret}", desc)
        if gk != known:
            fail(f"property {k}: known={gk}, expected {known}", desc)
        if known and not same(gv, val):
            fail(f"property {k}: value {gv!r}, expected {val!r}", desc)
        if not self_dep:
            fail(f"property {k} does not depend on its own resource")
        wd = sorted(set(case["deps"].get(e, [])))
        if sorted(set(others)) != wd:
            fail(f"property {k} depends on {others}, expected {wd}")
        rec.label("secret", secret)
        rec.label("unknown", not known)
    req = [q for kk, q in eng.log if getattr(q, "name", None) == "subject"]
    urn = URN or case.get("urn_in_reply") or (eng.make_urn(req[0].parent, req[0].type, "subject") if req else None)
    if out["urn"][:3] != [urn, True, False] or out["urn"][3] != (True, []):
        fail(f"urn resolved to {out['urn']}, expected {urn}")
    if "id" in out:
        if kind == "read":
            how, i = case["rid"]
            want = i if how != "dep" else wire.id_of(i, dry)  # "" is not known
        else:
            want = case["id"]
        got = out["id"]
        if got[1] != bool(want) or (want and got[0] != want) or got[2] or got[3] != (True, []):
            fail(f"id resolved to {got}, expected {want!r}")
    rec.label("kind " + kind)
    rec.label("falls back to an input", fallback)
    if len(case["reply"]) and any(v != ("p", None) for _, v in case["props"]):
        rec.nontriv()
    return eng


def strip_ov(j):
    """output values an input was sent as read back as plain values"""
    if isinstance(j, list):
        return [strip_ov(x) for x in j]
    if isinstance(j, dict):
        if j.get(engine.SIG) == engine.OUTPUT_SIG:
            if "value" not in j:
                v = UNKNOWN
            else:
                v = strip_ov(j["value"])
            return {engine.SIG: engine.SECRET_SIG, "value": v} if j.get("secret") else v
        return {k: strip_ov(x) for k, x in j.items()}
    return j
