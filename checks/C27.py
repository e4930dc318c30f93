"""C27 stack references."""
import asyncio

import engine
import reply
import wire
from engine import SECRET_SIG, SIG, UNKNOWN, from_struct
from harness import fail, part, same
from hypothesis import strategies as st

NAMES = ["a", "b", "secret_name", "fooBar", "items", "", "keys", "0"]


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    dry = draw(st.booleans())
    missing = draw(st.integers(0, 2)) == 0  # a required output that is missing ends the program
    refs = []
    for _ in range(draw(st.integers(1, 2))):
        g = reply.JGen(draw, False, draw(st.integers(0, 3)) == 0)
        plain = draw(st.integers(0, 2)) == 0
        outs = {}
        for k in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
            outs[k] = draw(wire.prims) if plain or draw(st.integers(0, 2)) == 0 else g.j(draw(st.integers(0, 2)))
        sk = pick(["list", "list", "list", "none", "unknown", "empty"])
        sn = {"list": lambda: draw(st.lists(st.sampled_from(NAMES), max_size=3)), "none": lambda: None, "unknown": lambda: UNKNOWN if dry else [], "empty": lambda: []}[sk]()
        reads = []
        for _ in range(draw(st.integers(1, 4))):
            how = pick(["str", "str", "out", "future", "unknown"] if dry else ["str", "str", "out", "future"])
            n = pick(list(outs)) if outs and draw(st.integers(0, 3)) else pick(NAMES)
            reads.append([pick(["get", "get", "require"]) if missing or n in outs else "get", how, n])
        refs.append({"name": pick(["ref", "org/proj/stk", "r2"]) + str(len(refs)), "stack_name": pick([None, None, "org/p/dev"]), "outputs": outs, "wrap": draw(st.integers(0, 5)) == 0,
                     "secret_names": sn, "reads": reads, "parent": draw(st.booleans()),
                     "unknown_outputs": dry and draw(st.integers(0, 7)) == 0})
    fault = draw(st.integers(0, 11)) == 0
    return {"dry": dry, "refs": refs, "sched": draw(st.lists(st.integers(0, 4), max_size=5)), "fault": fault}


def run(case, rec):
    import grpc
    import pulumi
    from pulumi.runtime.proto import resource_pb2

    dry = case["dry"]
    eng = engine.FakeEngine(["secrets", "resourceReferences"], dry_run=dry)
    by_name = {r["name"]: r for r in case["refs"]}

    def on_read(req):
        if case["fault"]:
            raise engine.FakeRpcError(grpc.StatusCode.UNKNOWN, "no such stack")
        r = by_name[req.name]
        o = UNKNOWN if r["unknown_outputs"] else {SIG: SECRET_SIG, "value": r["outputs"]} if r["wrap"] else r["outputs"]
        d = {"name": r["stack_name"] or r["name"], "outputs": o}
        if r["secret_names"] is not None:
            d["secretOutputNames"] = r["secret_names"]
        return resource_pb2.ReadResourceResponse(urn=eng.make_urn(req.parent, req.type, req.name), properties=engine.to_struct(d))

    eng.on_read = on_read
    got = {}

    def body():
        comp = pulumi.ComponentResource("my:c:C", "comp", {})
        for i, r in enumerate(case["refs"]):
            kw = {} if r["stack_name"] is None else {"stack_name": r["stack_name"]}
            ref = pulumi.StackReference(r["name"], opts=pulumi.ResourceOptions(parent=comp) if r["parent"] else None, **kw)

            async def see(k, f):
                try:
                    o = f()
                    # the secret flag first: it may not depend on the value
                    sec, known = await o.is_secret(), await o.is_known()
                    v = await wire.plain(await o.future())
                    got[k] = ["ok", v, known, sec, sorted([await x.urn.future() for x in await o.resources()])]
                except KeyError as e:
                    got[k] = ["missing", e.args]
                except Exception as e:
                    got[k] = ["error", e]

            for j, (m, how, n) in enumerate(r["reads"]):
                def nm(how=how, n=n):
                    if how == "str":
                        return n
                    if how == "out":
                        return pulumi.Output.from_input(n)
                    f = asyncio.get_event_loop().create_future()
                    f.set_result(n)
                    if how == "future":
                        return f
                    k = asyncio.get_event_loop().create_future()
                    k.set_result(False)
                    s = asyncio.get_event_loop().create_future()
                    s.set_result(set())
                    return pulumi.Output(s, f, k)
                engine.watch(see((i, j), lambda ref=ref, m=m, nm=nm: getattr(ref, m + "_output")(nm())))
            engine.watch(see((i, "outputs"), lambda ref=ref: ref.outputs))
            engine.watch(see((i, "name"), lambda ref=ref: ref.name))

    err, _ = engine.run_program(eng, body, case["sched"])
    regs = [q.name for k, q in eng.log if k == "register" and q.type == "pulumi:pulumi:StackReference"]
    if regs:
        fail(f"stack reference {regs} was registered")
    reads = [q for k, q in eng.log if k == "read"]
    if case["fault"]:
        rec.label("read fails")
        if err is None:
            fail("the program succeeded although the stack could not be read")
        for k, g in got.items():
            if g[0] == "ok":
                fail(f"{k} resolved to {g} although the stack could not be read")
        return
    # a program that fails for a required output that is missing takes down what else it has under way
    any_missing = False
    for r in case["refs"]:
        d = wire.dec(wire.norm(UNKNOWN if r["unknown_outputs"] else r["outputs"]), dry)
        if not wire.has_unk_d(d):
            d = d.v if isinstance(d, wire.Sec) else d
            any_missing |= any(m == "require" and how != "unknown" and n not in d for m, how, n in r["reads"])
    cut = any_missing and isinstance(err, KeyError)
    for i, r in enumerate(case["refs"]):
        q = [x for x in reads if x.name == r["name"]]
        target = r["stack_name"] or r["name"]
        if len(q) != 1 or (q[0].id, q[0].type) != (target, "pulumi:pulumi:StackReference") or from_struct(q[0].properties) != {"name": target}:
            fail(f"stack reference {r['name']} to {target} read as {q}")
        whole = {SIG: SECRET_SIG, "value": r["outputs"]} if r["wrap"] else r["outputs"]
        if r["unknown_outputs"]:
            whole = UNKNOWN
        d = wire.dec(wire.norm(whole), dry)
        any_secret = isinstance(d, wire.Sec)
        d = d.v if any_secret else d
        known = not wire.has_unk_d(d)
        names_known = not (dry and (r["secret_names"] is None or r["secret_names"] == UNKNOWN))
        urn = eng.make_urn(q[0].parent, q[0].type, q[0].name)
        for j, (m, how, n) in enumerate(r["reads"]):
            g = got.get((i, j))
            desc = f"{m}_output({n!r} as {how}) of {r}"
            k = known and how != "unknown"
            if g is None and cut:
                rec.label("cut short")
                continue
            if g is None:
                fail(f"never resolved: {desc}")
            if k and n not in d and m == "require":
                rec.label("required output missing")
                if g[0] != "missing":
                    fail(f"a missing required output gave {g}", desc)
                continue
            if g[0] != "ok":
                fail(f"failed with {g}", desc)
            if how == "unknown" or not names_known:
                sec = any_secret
                rec.label("falls back to the whole", any_secret)
            elif r["secret_names"] is None:
                sec = any_secret
            else:
                sec = n in r["secret_names"]
            if g[3] != sec:
                fail(f"secret={g[3]}, expected {sec}", desc)
            if g[2] != k:
                fail(f"known={g[2]}, expected {k}", desc)
            if k and not same(g[1], d.get(n)):
                fail(f"value {g[1]!r}, expected {d.get(n)!r}", desc)
            if g[4] != [urn]:
                fail(f"depends on {g[4]}, expected the reference itself", desc)
            rec.label("secret", sec)
            rec.label("unknown", not k)
            rec.label("missing", k and n not in d)
        g = got.get((i, "name"))
        if not (g is None and cut) and (g is None or g[:4] != ["ok", target, True, False]):
            fail(f"name resolved to {g}, expected {target}")
        g = got.get((i, "outputs"))
        if g is None and cut:
            continue
        if g is None or g[0] != "ok" or g[2] != known or g[3] != any_secret or (known and not same(g[1], d)):
            fail(f"outputs resolved to {g}, expected {d} secret={any_secret}")
    if err is not None and not cut:
        fail(f"program failed: {type(err).__name__}: {err}")
    if any(r["outputs"] and r["secret_names"] for r in case["refs"]):
        rec.nontriv()


@part("reads", quick=5000, thorough=150000, shards=8, rule="a stack with outputs and some secret names")
def reads():
    return cases(), run
