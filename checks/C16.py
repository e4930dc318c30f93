"""C16 failures end the program with an error; success means quiescence."""
import asyncio

import engine
import grpc
import program
from harness import fail, part
from hypothesis import strategies as st
from program import Interp, Model, rname

CODES = ["UNKNOWN"] + engine.CODES


class Boom(Exception):
    pass


class FInterp(Interp):
    def __init__(self, p):
        super().__init__(p)
        self.fired = 0

    def raise_(self, e=None, *_):
        self.fired += 1
        raise e if isinstance(e, asyncio.CancelledError) else Boom("boom")

    def build_extra(self, v):
        import pulumi
        assert v[0] == "fail", v
        how = v[1]
        if how == "apply":
            return pulumi.Output.from_input(self.build(v[2])).apply(self.raise_)
        if how == "apply2":
            return pulumi.Output.from_input(self.build(v[2])).apply(self.raise_).apply(lambda x: x)
        if how == "all":
            return pulumi.Output.all(1, pulumi.Output.from_input(self.build(v[2])).apply(self.raise_))
        if how == "inner":
            return pulumi.Output.from_input(self.build(v[2])).apply(lambda _: pulumi.Output.from_input(self.coro()))
        if how == "await":
            return self.coro()
        if how == "output":
            return pulumi.Output.from_input(self.coro())
        if how in ("fut", "cancelled"):
            f = asyncio.get_event_loop().create_future()
            self.fired += 1
            self.pending.append((f, Boom("boom") if how == "fut" else asyncio.CancelledError()))
            return f
        if how == "cancels":
            return self.coro(asyncio.CancelledError())
        if how == "cancelapply":
            return pulumi.Output.from_input(self.build(v[2])).apply(lambda _: self.raise_(asyncio.CancelledError()))
        if how == "bad":
            self.fired += 1
            return object()
        if how == "badapply":
            self.fired += 1
            return pulumi.Output.from_input(self.build(v[2])).apply(lambda _: {1, 2})
        raise AssertionError(v)

    async def coro(self, e=None):
        await asyncio.sleep(0)
        self.raise_(e)

    def stmt_extra(self, s):
        import pulumi
        if s[0] == "raise":
            self.raise_()
        elif s[0] == "bare":
            T, O = "pkg:mod:Bare", pulumi.ResourceOptions
            if len(s) > 2:
                props = {"v": self.build(s[2])}
                if s[1] == "call":
                    pulumi.runtime.call("pkg:mod:bare", props)
                elif s[1] == "remote":
                    pulumi.ComponentResource(T, "bare", props, None, True)
                else:
                    pulumi.CustomResource(T, "bare", props, O(id="x") if s[1] == "read" else None)
            elif s[1] == "comp":
                pulumi.ComponentResource(T, "bare")
            elif s[1] == "remote":
                pulumi.ComponentResource(T, "bare", {}, None, True)
            elif s[1] == "call":
                pulumi.runtime.call("pkg:mod:bare", {})
            else:
                pulumi.CustomResource(T, "bare", {}, O(id="x") if s[1] == "read" else O(urn=f"urn:pulumi:stk::proj::{T}::bare") if s[1] == "get" else None)
        elif s[0] == "badnew":
            self.fired += 1
            R = pulumi.CustomResource
            how = s[1]
            if how == "type":
                R("", "bad")
            elif how == "name":
                R("pkg:mod:T", "")
            elif how == "opts":
                R("pkg:mod:T", "bad", {}, {"parent": None})
            elif how == "parent":
                R("pkg:mod:T", "bad", {}, pulumi.ResourceOptions(parent="nope"))
            elif how == "dep":
                R("pkg:mod:T", "bad", {}, pulumi.ResourceOptions(depends_on=["nope"]))
            elif how == "prov":
                R("pkg:mod:T", "bad", {}, pulumi.ResourceOptions(provider=pulumi.ProviderResource("other", "badprov")))
            elif how == "idcomp":
                pulumi.ComponentResource("pkg:mod:T", "bad", {}, pulumi.ResourceOptions(id="x"))
            elif how == "timeouts":
                R("pkg:mod:T", "bad", {}, pulumi.ResourceOptions(custom_timeouts="5m"))
        elif s[0] == "observe":
            # an output nobody uses except this failing function
            self.applied.append(pulumi.Output.from_input(self.build(s[1])).apply(self.raise_))
        elif s[0] == "baddep":
            self.res[s[1]] = None
        else:
            raise AssertionError(s)

    def build_dep(self, dep):
        if dep is not None and dep[0] == "faildep":
            return self.build(dep[1])
        return super().build_dep(dep)


class FModel(Model):
    def dep_deps(self, dep):
        return set() if dep is not None and dep[0] == "faildep" else super().dep_deps(dep)

    def deps(self, v):
        return set() if v[0] == "fail" else super().deps(v)

    def value_refs(self, v):
        return set().union(*(self.value_refs(x) for x in v[2:])) if v[0] == "fail" else super().value_refs(v)


def bodies(stmts, m, vis=(), alive=True):
    """[(body, [visible resources at each position])] of the parts of the program that run."""
    out = []
    vs = [list(vis)]
    cur = list(vis)
    for s in stmts:
        if s[0] == "new":
            cur = cur + [s[1]]
        elif s[0] == "apply" and m.out_known(s[1]):
            out += bodies(s[2], m, cur)
        vs.append(cur)
    return out + [(stmts, vs)]


@st.composite
def cases(draw, fault):
    p = draw(program.programs(max_res=6, budget=6, reads=True))
    if not fault:
        return {"p": p, "fault": None}
    m = Model(p)
    pick = lambda xs: draw(st.sampled_from(xs))
    kinds = ["raise", "badnew", "observe", "stackout", "feature", "export"] + ["bare"] * 3
    if m.alive:
        kinds += ["engine"] * 4 + ["reply"] * 2 + ["value"] * 4 + ["dep"] * 2
    outs = [i for i, (_, al) in m.outs.items() if al]
    if outs:
        kinds += ["outputs", "outsval"]
    k = pick(kinds)
    f = {"kind": k}
    if k == "bare":
        # something without any properties, which nothing waits for
        f["what"] = pick(["custom", "comp", "remote", "read", "get", "call"])
        f["how"] = pick(CODES + ["badsig", "badref", "badtype"] * 2 + (["failures"] * 3 if f["what"] in ("get", "call") else []) + (["arg"] * 6 if f["what"] in ("custom", "remote", "read", "call") else []))
    if k in ("raise", "badnew", "observe", "export", "bare"):
        body, vs = pick(bodies(p["body"], m))
        pos = draw(st.integers(0, len(body)))
        if k == "raise":
            body.insert(pos, ["raise"])
        elif k == "bare":
            body.insert(pos, ["bare", f["what"]] + ([["fail", pick(HOWS), ["k", 1]]] if f["how"] == "arg" else []))
        elif k == "badnew":
            body.insert(pos, ["badnew", pick(["type", "name", "opts", "parent", "dep", "prov", "idcomp", "timeouts"])])
        elif k == "export":
            p["body"].append(["export", "x", ["fail", pick(HOWS[:-2]), ["k", 1]]])
        else:
            known = [j for j in vs[pos] if m.out_known(j)]
            body.insert(pos, ["observe", ["out", pick(known)] if known and draw(st.booleans()) else ["k", 1]])
    elif k in ("engine", "reply", "value", "dep"):
        i = pick(m.alive)
        f["i"] = i
        f["code"] = pick(CODES)
        f["how"] = pick(["badsig", "badref", "badtype"])
        if k in ("value", "dep"):
            s = find(p["body"], i)
            vis = [v for b, vs in bodies(p["body"], m) for n, v in zip(b, vs) if n is s][0]
            known = [j for j in vis if m.out_known(j)]
            src = ["out", pick(known)] if known and draw(st.booleans()) else ["k", 1]
            if k == "value":
                v = ["fail", pick(HOWS), src]
                s[4][pick(["zz", "p"])] = pick([v, ["list", [["k", 1], v]], ["dict", {"a": v}]])
            else:
                s[5] = ["faildep", ["fail", pick(["apply", "await", "output", "fut", "inner", "cancelled", "cancels", "cancelapply"]), src]]
    elif k == "outputs":
        f["i"] = pick(outs)
        f["code"] = pick(CODES)
    elif k == "outsval":
        s = find(p["body"], pick(outs), "outs")
        s[2] = ["fail", pick(HOWS), ["k", 1]]
    elif k == "stackout":
        f["code"] = pick(CODES)
        f["what"] = pick(["register", "outputs"])
    elif k == "feature":
        f["code"] = pick(CODES)
    return {"p": p, "fault": f}


HOWS = ["cancelled", "cancels", "cancelapply", "apply", "apply2", "all", "inner", "await", "output", "fut", "bad", "badapply"]


def find(stmts, i, what="new"):
    for s in stmts:
        if s[0] == what and s[1] == i:
            return s
        if s[0] == "apply":
            r = find(s[2], i, what)
            if r:
                return r


def broken_reply(how, req, resp):
    return break_struct(how, resp.object if hasattr(resp, "object") else resp.properties, resp)


def break_struct(how, obj, resp):
    if how == "badsig":
        engine.fill_value(obj.fields["p"], {engine.SIG: "nonsense"})
    elif how == "badref":
        engine.fill_value(obj.fields["p"], {engine.SIG: engine.RESOURCE_SIG, "urn": "not a urn"})
    else:
        engine.fill_value(obj.fields["p"], [{engine.SIG: engine.ASSET_SIG}])
    return resp


def run(case, rec):
    p, f = case["p"], case["fault"]
    m = FModel(p)
    graph = None
    strong, deps = program.edges(m, p)
    graph = {i: strong[i] | deps[i] for i in strong}
    if any(program.reaches(graph, x, i) for i in strong for x in strong[i]):
        return  # a program that waits for itself
    eng = program.make_engine(p, m)
    ip = FInterp(p)
    reg0, read0 = eng.on_register, eng.on_read
    state = {"fired": 0}

    def boom(code):
        state["fired"] += 1
        raise engine.FakeRpcError(getattr(grpc.StatusCode, code), "boom")

    if f and f["kind"] in ("engine", "reply"):
        nm = rname(f["i"])

        def on(req, inner):
            if req.name == nm:
                if f["kind"] == "engine":
                    boom(f["code"])
                state["fired"] += 1
                return broken_reply(f["how"], req, inner(req))
            return inner(req)

        eng.on_register = lambda r: on(r, reg0)
        eng.on_read = lambda r: on(r, read0)
    elif f and f["kind"] == "bare" and f["how"] != "arg":
        def bare(req, inner):
            if getattr(req, "name", "") != "bare" and getattr(req, "tok", "") not in ("pkg:mod:bare", "pulumi:pulumi:getResource"):
                return inner(req)
            if f["how"] in CODES:
                boom(f["code"] if "code" in f else f["how"])
            state["fired"] += 1
            if hasattr(req, "tok"):
                from pulumi.runtime.proto import provider_pb2
                resp = provider_pb2.CallResponse() if f["what"] == "call" else provider_pb2.InvokeResponse()
                ret = getattr(resp, "return")
                if f["what"] == "get":
                    engine.fill_value(ret.fields["urn"], "urn:pulumi:stk::proj::pkg:mod:Bare::bare")
                    engine.fill_value(ret.fields["id"], "x")
                    engine.fill_value(ret.fields["state"], {})
                    ret = ret.fields["state"].struct_value
                if f["how"] == "failures":
                    resp.failures.add(property="p", reason="no")
                    return resp
                return break_struct(f["how"], ret, resp)
            from pulumi.runtime.proto import resource_pb2
            u = eng.make_urn(req.parent, req.type, req.name)
            return broken_reply(f["how"], req, resource_pb2.ReadResourceResponse(urn=u) if f["what"] == "read" else resource_pb2.RegisterResourceResponse(urn=u, id="i"))

        eng.on_register = lambda r: bare(r, reg0)
        eng.on_read = lambda r: bare(r, read0)
        eng.on_invoke = lambda r: bare(r, lambda _: None)
        eng.on_call = lambda r: bare(r, lambda _: None)
    elif f and f["kind"] == "outputs":
        eng.on_outputs = lambda r: boom(f["code"]) if r.urn == m.urn(f["i"]) else None
    elif f and f["kind"] == "stackout":
        if f["what"] == "outputs":
            eng.on_outputs = lambda r: boom(f["code"]) if "pulumi:pulumi:Stack" in r.urn else None
        else:
            eng.on_register = lambda r: boom(f["code"]) if r.type == "pulumi:pulumi:Stack" else reg0(r)
    elif f and f["kind"] == "feature":
        sf = eng.SupportsFeature

        def on_feature(req):
            boom(f["code"])

        eng.SupportsFeature = on_feature
    watch = {}

    async def after(err):
        watch["out"] = engine.outstanding()
        watch["log"] = len(eng.log)
        watch["pending"] = ip.extra_idle(None)
        for _ in range(30):
            await asyncio.sleep(0)
        if f and f["kind"] in ("engine", "reply", "value", "dep") and f["i"] in ip.res and ip.res[f["i"]] is not None:
            r = ip.res[f["i"]]
            for what in ["urn", "out"] + (["id"] if m.res[f["i"]]["kind"] not in ("comp", "remote") else []):
                o = getattr(r, what)
                for fld in ("_future", "_is_known", "_is_secret"):
                    x = getattr(o, fld)
                    watch[what, fld] = "pending" if not x.done() else "failed" if x.cancelled() or x.exception() else "value"

    try:
        err, _, _, _, _ = program.run(p, model=m, eng=eng, interp=ip, after=after)
    except engine.Deadlock:
        fail("the program hangs: nothing outstanding, and it has not ended", f"fault {f}")
    fired = state["fired"] or ip.fired
    if f and f["kind"] == "feature" and f["code"] == "UNIMPLEMENTED":
        fired = 0  # an engine without the call has none of the features
        if p["features"] and err is None:
            return
    if not fired:
        if f and f["kind"] != "feature":
            rec.label("fault not reached")
        if err is not None:
            fail(f"program failed without a fault: {type(err).__name__}: {err}")
    elif err is None:
        fail(f"the program succeeded although something failed: {f}")
    if err is None:
        if watch["out"] or watch["pending"]:
            fail(f"{watch['out']} engine calls and {watch['pending']} user futures outstanding at success")
        if len(eng.log) != watch["log"]:
            fail("engine calls after the successful end")
        done = {r.name for k, r in eng.log if k in ("register", "read")}
        if done != {rname(i) for i in m.alive} | {"proj-stk"}:
            fail(f"success with {sorted(done)} registered")
        nout = sum(1 for k, r in eng.log if k == "outputs")
        if nout != 1 + sum(1 for v, al in m.outs.values() if al):
            fail(f"success with {nout} output registrations")
        if len(m.alive) >= 2:
            rec.nontriv()
        return
    rec.label("fault " + f["kind"])
    rec.nontriv()
    # nothing that waits for the failed resource may have been registered
    if f["kind"] in ("engine", "value", "dep", "reply"):
        bad = {f["i"]}
        strong, _ = program.edges(m, p, [i for i in m.alive if i != f["i"]])
        names = {r.name for k, r in eng.log if k in ("register", "read")}
        while True:
            more = {i for i in strong if i not in bad and strong[i] & bad}
            if not more:
                break
            bad |= more
        if f["kind"] == "reply":
            # the URN of a resource whose reply is malformed is known; only users of its properties fail
            bad = {f["i"]}
            bad |= {i for i in strong if any(uses_out(v, f["i"]) for v in m.res[i]["props"].values())}
            bad_reg = bad - {f["i"]}
        else:
            bad_reg = bad - ({f["i"]} if f["kind"] == "engine" else set())
        for i in bad_reg:
            if rname(i) in names:
                fail(f"{rname(i)} was registered although it waits for the failed {rname(f['i'])}", f"fault {f}")
        if len(bad) > 1:
            rec.label("with dependents")
    if f["kind"] in ("engine", "value", "dep", "reply"):
        for k, v in watch.items():
            if isinstance(k, tuple):
                if f["kind"] == "reply" and k[0] != "out":
                    continue
                if v == "value":
                    fail(f"{k[0]} of the failed {rname(f['i'])} resolved to a value", f"fault {f}")
                if v == "pending" and f["kind"] in ("engine", "reply"):
                    fail(f"{k[0]} of the failed {rname(f['i'])} is never resolved", f"fault {f}")


def uses_out(v, i):
    if v[0] == "out":
        return v[1] == i
    if v[0] in ("k", "id", "urn", "res", "fail"):
        return False
    if v[0] == "ares":
        return v[1] == i
    if v[0] == "bind":
        return uses_out(v[1], i)
    it = v[1].values() if v[0] == "dict" else v[1] if v[0] in ("list", "all", "concat") else v[1:]
    return any(uses_out(x, i) for x in it)


@part("faults", quick=3000, thorough=50000, shards=7, rule="the injected fault was reached, or a fault-free program of two or more resources succeeded")
def faults():
    return cases(True), run


@part("quiescence", quick=700, thorough=10000, shards=1, rule="a fault-free program of two or more resources succeeded")
def quiescence():
    return cases(False), run
