"""C26 the mock engine: what the mocks are told, what the program is told, and histories of installations."""
import logging

import engine
import reply
import wire
from engine import SECRET_SIG, SIG, UNKNOWN
from harness import Violation, fail, part, same
from hypothesis import strategies as st

KEYS = ["a", "b", "cD", "value", "e_f"]
LEVELS = {"debug": logging.DEBUG, "info": logging.INFO, "warn": logging.WARNING, "error": logging.ERROR}


class Gen:
    """property values that may refer to earlier resources of the same program"""

    def __init__(self, draw, dry, objs):
        self.draw, self.dry, self.objs = draw, dry, objs

    def v(self, depth):
        d = self.draw
        k = d(st.integers(0, 13))
        if depth <= 0 and k in (1, 2, 3, 8, 9, 10):
            k = 0
        if k == 1:
            return ("l", [self.v(depth - 1) for _ in range(d(st.integers(0, 3)))])
        if k in (2, 3):
            return ("d", [(x, self.v(depth - 1)) for x in d(st.lists(wire.keys, max_size=3, unique=True))])
        if k == 4:
            return d(wire.assets(1))
        if k == 5 and self.objs:
            return ("res", d(st.sampled_from(self.objs)))
        if k == 6 and self.dry:
            return ("unk",)
        if k == 7 and self.objs:
            return ("rout", d(st.sampled_from(self.objs)), d(st.sampled_from(["urn", "id"])))
        if k in (8, 9, 10):
            return ("out", self.v(depth - 1), d(st.sampled_from([True, True, False])) if self.dry else True, d(st.booleans()), [])
        if k == 11:
            return ("aw", self.v(depth - 1))
        return ("p", d(wire.prims))


def answers(draw, depth, secrets=True):
    """what a mock returns: plain values, assets, secret outputs"""
    k = draw(st.integers(0, 9))
    if depth > 0 and k == 1:
        return ("l", [answers(draw, depth - 1, secrets) for _ in range(draw(st.integers(0, 3)))])
    if depth > 0 and k in (2, 3):
        return ("d", [(x, answers(draw, depth - 1, secrets)) for x in draw(st.lists(wire.keys, max_size=3, unique=True))])
    if depth > 0 and k in (4, 5) and secrets:
        return ("out", answers(draw, depth - 1, secrets), True, draw(st.sampled_from([True, True, False])), [])
    if k == 6:
        return draw(wire.assets(1))
    return ("p", draw(wire.prims))


@st.composite
def installs(draw, n):
    pick = lambda xs: draw(st.sampled_from(xs))
    dry = pick([True, False, None])
    kinds, parents, provs, ops = [], [], [], []
    for i in range(draw(st.integers(0, 6))):
        k = pick(["custom", "custom", "custom", "comp", "read", "prov", "invoke", "invoke", "log"])
        # a component is either referred to or a parent: a child waiting for what waits for the child is the program's fault
        custom = [j for j, x in enumerate(kinds) if x in ("custom", "read", "prov") or x == "comp" and j not in parents]
        g = Gen(draw, bool(dry), custom)
        props = [(x, g.v(draw(st.integers(0, 2)))) for x in draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True))]
        op = {"op": k, "props": props}
        if k == "log":
            op = {"op": k, "level": pick(sorted(LEVELS)), "msg": draw(wire.texts)}
        elif k == "invoke":
            op.update(tok=pick(["pkg:m:f", "pkg:m/x:g", "pulumi:pulumi:other"]), prov=pick([None, None] + provs),
                      ret=[(x, answers(draw, 2, False)) for x in draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True))],
                      form=pick(["dict", "none", "empty"]))
        else:
            op.update(name=pick(["n", "a b", "x/y", "é"]) + str(i), type="pulumi:providers:pkg" if k == "prov" else pick(["pkg:m:T", "pkg:m/x:Y", "pkg:index:C"]),
                      parent=pick([None, None] + parents), prov=pick([None, None] + provs) if k in ("custom", "read") else None,
                      imp=pick([None, None, None, "imp-1", "0"]) if k == "custom" else None, rid="rd-%d" % i if k == "read" else None,
                      id=pick(["id-%d" % i, "x y", "é", "0"] + ([None, ""] if dry or k == "comp" else [])),
                      state=pick(["echo", "own", "own"]), reply=[(x, answers(draw, 3)) for x in draw(st.lists(st.sampled_from(KEYS + ["extra"]), max_size=4, unique=True))],
                      get=draw(st.booleans()))
            if k == "prov":
                provs.append(len(kinds))
            elif op["prov"] is None and (k != "comp" or draw(st.booleans())):
                parents.append(len(kinds))
        kinds.append(k)
        ops.append(op)
    return {"ops": ops, "dry": dry, "project": pick([None, "p", "other-p"]), "stack": pick([None, "s", "other"]),
            "features": pick([None, None, [], ["secrets"], ["resourceReferences"], ["secrets", "resourceReferences"], "unimplemented"]),
            "context": pick(["same", "same", "new"]), "logger": draw(st.booleans()),
            "end": pick([None, None, None, "raise", "mock raises", "call raises", "failures", "get bogus", "get stale"])}


@st.composite
def cases(draw):
    return {"runs": [draw(installs(i)) for i in range(draw(st.integers(1, 4)))], "sched": draw(st.lists(st.integers(0, 4), max_size=8))}


class Enc(wire.Enc):
    def __init__(self, features, dry, seen):
        super().__init__(features, dry)
        self.seen = seen

    def enc(self, v, deps, kov):
        t = v[0]
        if t in ("res", "rout"):
            o = self.seen[v[1]]
            custom = "id" in o
            if t == "rout":
                if v[2] == "urn" or not custom:
                    return o["urn"]
                return o["id"] or UNKNOWN
            if "resourceReferences" in self.f:
                r = {SIG: engine.RESOURCE_SIG, "urn": o["urn"]}
                if custom:
                    r["id"] = o["id"] or UNKNOWN
                return r
            return (o["id"] or UNKNOWN) if custom else o["urn"]
        return super().enc(v, deps, kov)


def lift(v):
    """an output made from nested outputs is one output"""
    def inner(v):
        t = v[0]
        if t == "out":
            x, s = inner(v[1])
            return x, s or v[3]
        if t == "l":
            xs = [inner(x) for x in v[1]]
            return ("l", [x for x, _ in xs]), any(s for _, s in xs)
        if t == "d":
            xs = [(k, inner(x)) for k, x in v[1]]
            return ("d", [(k, x) for k, (x, _) in xs]), any(s for _, (_, s) in xs)
        return v, False

    t = v[0]
    if t == "out":
        x, s = inner(v)
        return ("out", x, True, s, [])
    if t == "l":
        return ("l", [lift(x) for x in v[1]])
    if t == "d":
        return ("d", [(k, lift(x)) for k, x in v[1]])
    return v


class Build(wire.WBuilder):
    def build(self, v):
        t = v[0]
        if t == "res":
            return self.w[v[1]]
        if t == "rout":
            return getattr(self.w[v[1]], v[2] if getattr(self.w[v[1]], "id", None) is not None else "urn")
        return super().build(v)


def build_answer(v):
    """in the mocks' own thread: outputs made the way a user makes them"""
    import pulumi

    t = v[0]
    if t == "l":
        return [build_answer(x) for x in v[1]]
    if t == "d":
        return {k: build_answer(x) for k, x in v[1]}
    if t == "out":
        return pulumi.Output.secret(build_answer(v[1])) if v[3] else pulumi.Output.from_input(build_answer(v[1]))
    return wire.WBuilder({}).build(v)


def undec(x):
    """what a decoded value is sent as"""
    if isinstance(x, wire.Sec):
        return {SIG: SECRET_SIG, "value": undec(x.v)}
    if isinstance(x, dict):
        return {k: undec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [undec(v) for v in x]
    if isinstance(x, wire.D):
        if x.kind == "UNK":
            return UNKNOWN
        kind, v = x.a
        return {SIG: engine.ASSET_SIG if x.kind == "asset" else engine.ARCHIVE_SIG, kind: {k: undec(y) for k, y in v} if kind == "assets" else v}
    return x


async def told(v, top=True):
    """what the mocks were given, in the decoder's notation"""
    if isinstance(v, dict):
        if v.get(SIG) == SECRET_SIG:
            if not top:
                fail("a secret left inside an input given to the mocks")
            return wire.Sec(await told(v["value"], False))
        return {k: await told(x, top == "props") for k, x in v.items()}
    if isinstance(v, list):
        return [await told(x, False) for x in v]
    return await wire.plain(v)


def eq(a, b):
    if isinstance(a, wire.Sec) or isinstance(b, wire.Sec):
        return isinstance(a, wire.Sec) and isinstance(b, wire.Sec) and same(a.v, b.v)
    return same(a, b)


def eq_props(a, b):
    return len(a) == len(b) and all(k in b and eq(v, b[k]) for k, v in a.items())


class MockError(Exception):
    pass


def run_one(inst, stale, rec):
    """one installation: runs the program, judges it, returns the URNs it registered"""
    import grpc
    import pulumi
    from pulumi.runtime import mocks as M
    from pulumi.runtime.proto import resource_pb2

    dry = bool(inst["dry"])
    feats = {"secrets", "resourceReferences"} if inst["features"] is None else set() if inst["features"] == "unimplemented" else set(inst["features"])
    project, stack = inst["project"] or "project", inst["stack"] or "stack"
    calls, news, ambient = [], [], []
    by_name = {o["name"]: o for o in inst["ops"] if "name" in o}

    def look():
        ambient.append((pulumi.get_project(), pulumi.get_stack(), bool(pulumi.runtime.is_dry_run())))

    class Mocks(M.Mocks):
        def call(self, args):
            look()
            calls.append(args)
            if args.token == "end:end:raise":
                raise MockError("call")
            if args.token == "end:end:failures":
                return {}, [("prop", "because"), ("p2", "second")]
            op = inst["ops"][int(args.token.rsplit("#", 1)[1])]
            ret = {k: build_answer(v) for k, v in op["ret"]}
            return {"dict": ret, "none": (ret, None), "empty": (ret, [])}[op["form"]]

        def new_resource(self, args):
            look()
            news.append(args)
            if args.name == "end":
                raise MockError("new")
            op = by_name[args.name]
            st_ = {k: build_answer(v) for k, v in op["reply"]}
            return op["id"], ({**args.inputs, **st_} if op["state"] == "echo" else st_)

    class Monitor(M.MockMonitor):
        def SupportsFeature(self, request):
            if inst["features"] == "unimplemented":
                raise engine.FakeRpcError(grpc.StatusCode.UNIMPLEMENTED, "no")
            return resource_pb2.SupportsFeatureResponse(hasSupport=request.id in feats)

    class Res(pulumi.CustomResource):
        pass

    class Comp(pulumi.ComponentResource):
        pass

    records = []

    class Handler(logging.Handler):
        def emit(self, r):
            records.append((r.levelno, r.getMessage()))

    logger = logging.Logger("c26", level=logging.DEBUG)
    logger.addHandler(Handler())
    mm = Mocks()
    kw = {}
    for k, v in (("project", inst["project"]), ("stack", inst["stack"]), ("preview", inst["dry"]), ("logger", logger if inst["logger"] else None)):
        if v is not None:
            kw[k] = v
    if inst["features"] is not None:
        kw["monitor"] = Monitor(mm)
    M.set_mocks(mm, **kw)
    look()

    objs, seen, results, gets, holder = {}, {}, {}, {}, {}

    def program():
        look()
        b = holder["b"] = Build(objs)
        for i, op in enumerate(inst["ops"]):
            k = op["op"]
            if k == "log":
                getattr(pulumi.log, op["level"])(op["msg"])
                continue
            props = {x: b.build(v) for x, v in op["props"]}
            if k == "invoke":
                o = pulumi.InvokeOptions(provider=objs[op["prov"]]) if op["prov"] is not None else None
                results[i] = pulumi.runtime.invoke(op["tok"] + "#%d" % i, props, o).value
                continue
            props = {**{x: None for x in KEYS}, **props}
            o = {}
            if op["parent"] is not None:
                o["parent"] = objs[op["parent"]]
            if op["prov"] is not None:
                o["provider"] = objs[op["prov"]]
            if op["imp"] is not None:
                o["import_"] = op["imp"]
            if op["rid"] is not None:
                o["id"] = op["rid"]
            o = pulumi.ResourceOptions(**o)
            if k == "prov":
                r = pulumi.ProviderResource("pkg", op["name"], props, o)
            elif k == "comp":
                r = Comp(op["type"], op["name"], props, o)
            else:
                r = Res(op["type"], op["name"], props, o)
            objs[i] = r
        return finish()

    async def see(r, key):
        o = getattr(r, key)
        return [await wire.plain(await o.future(True)), await o.is_known(), await o.is_secret()]

    async def finish():
        look()
        for i, r in list(objs.items()):
            seen[i] = {"urn": await r.urn.future()}
            if getattr(r, "id", None) is not None:
                seen[i]["id"] = await r.id.future()
                seen[i]["id_known"] = await r.id.is_known()
            seen[i]["props"] = {k: await see(r, k) for k in KEYS}
        for i, r in list(objs.items()):
            op = inst["ops"][i]
            if not op["get"]:
                continue
            cls = Comp if op["op"] == "comp" else Res
            g = cls(op["type"], op["name"], {k: None for k in KEYS + ["extra"]}, pulumi.ResourceOptions(urn=seen[i]["urn"]))
            gets[i] = {"urn": await g.urn.future(), "props": {k: await see(g, k) for k in KEYS + ["extra"]}}
            if op["op"] != "comp":
                gets[i].update(id=await g.id.future(), id_known=await g.id.is_known())
        e = inst["end"]
        if e == "raise":
            raise MockError("program")
        if e == "mock raises":
            Res("pkg:m:T", "end", {})
        if e == "call raises":
            pulumi.runtime.invoke("end:end:raise", {})
        if e == "failures":
            pulumi.runtime.invoke("end:end:failures", {})
        if e == "get bogus":
            Res("pkg:m:T", "gone", {}, pulumi.ResourceOptions(urn="urn:pulumi:%s::%s::pkg:m:T::gone" % (stack, project)))
        if e == "get stale" and stale not in (None, *[s["urn"] for s in seen.values()]):
            Res("pkg:m:T", "gone", {}, pulumi.ResourceOptions(urn=stale))
            holder["stale"] = True

    err = None
    holder_idle["f"] = lambda i: holder["b"].idle(i) if "b" in holder else 0
    try:
        pulumi.runtime.test(program)()
    except engine.Deadlock:
        raise
    except Exception as e:  # noqa
        err = e
    finally:
        holder_idle["f"] = None

    # ---------------------------------------------------------------- judge
    e = inst["end"]
    wanted = {"raise": "program", "mock raises": "new", "call raises": "call", "failures": "invoke of end:end:failures failed: because (prop)",
              "get bogus": "unknown resource urn:pulumi:%s::%s::pkg:m:T::gone" % (stack, project)}.get(e)
    if e == "get stale" and holder.get("stale"):
        wanted = "unknown resource " + stale
        rec.label("looks up a resource of an earlier installation")
    if wanted is None and err is not None:
        raise err if not isinstance(err, Violation) else Violation(str(err))
    if wanted is not None and (err is None or wanted not in str(err)):
        fail(f"the program ended with {err!r}, expected {wanted}")
    for a in ambient:
        if a != (project, stack, dry):
            fail(f"project, stack, preview seen as {a}, expected {(project, stack, dry)}")
    made = [i for i, op in enumerate(inst["ops"]) if "name" in op]
    enc = Enc(feats, dry, seen)
    by = {}
    for a in news:
        if a.name in by:
            fail(f"the mocks were told about {a.name} twice")
        by[a.name] = a
    if set(by) - {"end"} != {inst["ops"][i]["name"] for i in made}:
        fail(f"the mocks were told about {sorted(by)}")

    def pref(j):
        return None if j is None else seen[j]["urn"] + "::" + (seen[j]["id"] or UNKNOWN)

    def inputs_of(op):
        out = {}
        for k, v in op["props"]:
            j = enc.enc(v, set(), False)
            if j is not None:
                out[k] = wire.norm(j)
        return out

    async def all_told():
        return {id(a): await told(a.inputs, "props") for a in news}, {id(a): await told(a.args, "props") for a in calls}

    tn, tc = holder_loop[0].run_until_complete(all_told())

    def check_props(what, got, reply_, fallback):
        for k, (gv, gk, gs) in got.items():
            want = wire.dec(wire.norm(reply_[k]), dry) if k in reply_ else None
            if want is None and not dry and k in fallback:
                want = wire.dec(fallback[k], dry)
            sec = isinstance(want, wire.Sec)
            val = want.v if sec else want
            known = not wire.has_unk_d(val) and not (dry and val is None)
            if gs != sec or gk != known or known and not same(gv, val):
                fail(f"{what}: property {k} is {gv!r} (known {gk}, secret {gs}), expected {val!r} (known {known}, secret {sec})", f"mock answered {reply_}")
            rec.label("secret property", sec)

    for i in made:
        op, a, s = inst["ops"][i], by[inst["ops"][i]["name"]], seen[i]
        k = op["op"]
        sent = inputs_of(op)
        want_in = wire.dec(sent, dry, top=True)
        if a.typ != op["type"] or not eq_props(tn[id(a)], want_in):
            fail(f"mocks told {a.typ} {a.name} {tn[id(a)]}, expected {op['type']} {want_in}", f"features {sorted(feats)}")
        if (a.provider or None) != pref(op["prov"]):
            fail(f"{op['name']}: mocks told provider {a.provider!r}, expected {pref(op['prov'])}")
        if (a.resource_id or None) != (op["imp"] or op["rid"]):
            fail(f"{op['name']}: mocks told resource id {a.resource_id!r}, expected {op['imp'] or op['rid']}")
        if k != "read" and a.custom is not (k != "comp"):
            fail(f"{op['name']}: mocks told custom={a.custom!r} for a {k}")
        # the URN names stack, project, type and name
        p = s["urn"].split("::")
        if [p[0], p[1], p[2].split("$")[-1], "::".join(p[3:])] != ["urn:pulumi:" + stack, project, op["type"], op["name"]]:
            fail(f"URN {s['urn']} for {op['type']} {op['name']} of {project}/{stack}")
        if op["parent"] is not None:
            if p[2].split("$")[-2:-1] != [inst["ops"][op["parent"]]["type"]]:
                fail(f"URN {s['urn']} of {op['name']}, whose parent is {seen[op['parent']]['urn']}")
            rec.label("child of a child", inst["ops"][op["parent"]]["parent"] is not None)
        want_id = op["rid"] if k == "read" else op["id"]
        if k != "comp" and ((s["id"] or None) != (want_id or None) or s["id_known"] != bool(want_id)):
            fail(f"{op['name']}: id {s['id']!r} known={s['id_known']}, the mock returned {want_id!r}")
        rep = {x: enc.enc(lift(v), set(), False) for x, v in op["reply"]}
        if op["state"] == "echo":
            rep = {**undec(want_in), **rep}
        rep = {x: v for x, v in rep.items() if v is not None}
        check_props(op["name"], s["props"], rep, sent)
        if op["get"]:
            g = gets[i]
            if g["urn"] != s["urn"]:
                fail(f"looked up {s['urn']}, got {g['urn']}")
            if k != "comp" and ((g["id"] or None) != (op["id"] or None) or g["id_known"] != bool(op["id"])):
                fail(f"looked up {s['urn']}: id {g['id']!r} known={g['id_known']}, the mock returned {op['id']!r}")
            check_props("looked up " + op["name"], g["props"], rep, {})
            rec.label("looked up")
    ci = 0
    for i, op in enumerate(inst["ops"]):
        if op["op"] != "invoke":
            continue
        a = calls[ci]
        ci += 1
        want_in = wire.dec(inputs_of(op), dry, top=True)
        if a.token != op["tok"] + "#%d" % i or not eq_props(tc[id(a)], want_in) or (a.provider or None) != pref(op["prov"]):
            fail(f"mocks told call {a.token} {tc[id(a)]} provider {a.provider!r}, expected {op['tok']} {want_in} {pref(op['prov'])}")
        want = wire.dec({k: wire.norm(enc.enc(v, set(), False)) for k, v in op["ret"]}, dry, top=True)
        got = holder_loop[0].run_until_complete(wire.plain(results[i]))
        if not same(got or {}, want):
            fail(f"call {op['tok']} returned {got!r}, the mock answered {want!r}")
        rec.label("call " + op["form"])
    if len(calls) != ci + (e in ("call raises", "failures")):
        fail(f"the mocks got {len(calls)} calls")
    if inst["logger"]:
        want = [(LEVELS[op["level"]], op["msg"]) for op in inst["ops"] if op["op"] == "log"]
        if [x for x in records if x[0] > logging.DEBUG] != [x for x in want if x[0] > logging.DEBUG]:
            fail(f"logged {records}, expected {want}")
        for x in want:
            if x not in records:
                fail(f"{x} was not logged")
    elif records:
        fail("logged to a logger of another installation")
    rec.label("features " + str(inst["features"]))
    if made:
        return seen[made[0]]["urn"], len(made)
    return None, 0


holder_loop, holder_idle = [None], {"f": None}


def run(case, rec):
    import contextvars

    import pulumi
    from pulumi.runtime.rpc_manager import RPC_MANAGER

    def idle(i):
        f = holder_idle["f"]
        return 0 if f is None else f(i)

    base = contextvars.Context()
    RPC_MANAGER.clear()
    stale, total = None, 0
    with engine.open_loop(case["sched"], idle, threads=True) as loop:
        holder_loop[0] = loop
        for inst in case["runs"]:
            ctx = base if inst["context"] == "same" else contextvars.Context()
            engine.reset_globals()
            u, n = ctx.run(run_one, inst, stale, rec)
            stale = u or stale
            total += n
    rec.label("%d installations" % len(case["runs"]))
    if total and len(case["runs"]) > 1:
        rec.nontriv()


@part("installations", quick=2400, thorough=60000, shards=8, batch=100, rule="at least two installations and at least one resource")
def installations():
    return cases(), run
