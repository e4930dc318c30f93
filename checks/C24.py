"""C24 dynamic providers: the servicer between the engine and the user's provider."""
import base64
import contextvars
import os
import runpy
import subprocess
import sys
import types

import engine
import wire
from engine import UNKNOWN, from_struct, to_struct
from harness import HarnessError, Violation, fail, part, same
from hypothesis import strategies as st

METHODS = ["check", "diff", "create", "read", "update", "delete"]

# the user's providers: pickled by reference, their answers by value
SOURCE = '''
import sys
import pulumi.dynamic as d

LOG = []
LOGFILE = None


class ProviderError(Exception):
    pass


def log(name, tag, *args):
    # the servicer puts the provider into the dictionary it is given back
    LOG.append((name, tag) + tuple(dict(a) if isinstance(a, dict) else a for a in args))
    if LOGFILE:
        with open(LOGFILE, "a") as f:
            f.write(repr((name, tag) + tuple(plain(a) for a in args)) + chr(10))


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if type(v) in (str, int, float, bool, type(None)):
        return v
    return "<" + type(v).__name__ + ">"


class Impl:
    def __init__(self, tag, spec):
        self.tag, self.spec = tag, spec

    def answer(self, m, default):
        s = self.spec[m]
        if s[0] == "raise":
            raise ProviderError(s[1])
        return default[s[0]] if s[0] in default else s[1]


def m_check(self, olds, news):
    log("check", self.tag, olds, news)
    return d.CheckResult(self.answer("check", {"echo": news, "olds": olds}), [d.CheckFailure(p, r) for p, r in self.spec["failures"]])


def m_diff(self, id_, olds, news):
    log("diff", self.tag, id_, olds, news)
    return d.DiffResult(*self.answer("diff", {}))


def m_create(self, props):
    log("create", self.tag, props)
    return d.CreateResult(self.spec["new_id"], self.answer("create", {"echo": props}))


def m_read(self, id_, props):
    log("read", self.tag, id_, props)
    a = self.answer("read", {"echo": props})
    return d.ReadResult(self.spec["read_id"], a)


def m_update(self, id_, olds, news):
    log("update", self.tag, id_, olds, news)
    return d.UpdateResult(self.answer("update", {"echo": news, "olds": olds}))


def m_delete(self, id_, props):
    log("delete", self.tag, id_, props)
    self.answer("delete", {"echo": None})


def cls(mask):
    n = "P_" + "".join(sorted(mask))
    g = globals()
    if n not in g:
        g[n] = type(n, (Impl, d.ResourceProvider), {m: g["m_" + m] for m in mask})
        g[n].__module__ = __name__
    return g[n]
'''
MOD = "verif_c24_providers"


def module():
    if MOD not in sys.modules:
        m = types.ModuleType(MOD)
        sys.modules[MOD] = m
        exec(SOURCE, m.__dict__)
    return sys.modules[MOD]


# ---------------------------------------------------------------- getting at the servicer
class _Captured(BaseException):
    pass


class _Server:
    def __init__(self):
        self.handlers = {}

    def add_generic_rpc_handlers(self, handlers):
        self.handlers["generic"] = handlers

    def add_registered_method_handlers(self, service, handlers):
        self.handlers.update(handlers)

    def add_insecure_port(self, *a, **k):
        return 1

    def start(self):
        raise _Captured()

    def stop(self, *a):
        pass


_SERVICER = []


class Details:
    method = ""
    invocation_metadata = ()


def call(method, request):
    """the servicer as the gRPC server would call it, on a thread without a loop"""
    import grpc

    if not _SERVICER:
        srv = _Server()
        saved = grpc.server
        grpc.server = lambda *a, **k: srv
        try:
            runpy.run_module("pulumi.dynamic", run_name="__main__", alter_sys=False)
        except _Captured:
            pass
        finally:
            grpc.server = saved
        if not srv.handlers:
            raise HarnessError("pulumi.dynamic started no server")
        _SERVICER.append(srv)
    srv = _SERVICER[0]
    h = srv.handlers.get(method)
    if h is None:
        for g in srv.handlers["generic"]:
            dt = Details()
            dt.method = "/pulumirpc.ResourceProvider/" + method
            h = g.service(dt)
            if h:
                break
    req = h.request_deserializer(request.SerializeToString())
    ctx = Context()
    r = engine._on_thread(contextvars.Context().run, h.unary_unary, req, ctx)
    return h.response_serializer(r)


class Context:
    def set_code(self, c):
        self.code = c

    def set_details(self, d):
        self.details = d

    def __getattr__(self, n):
        raise HarnessError("gRPC context." + n)


# ---------------------------------------------------------------- cases
ukeys = wire.keys.filter(lambda k: not k.startswith("__"))


@st.composite
def values(draw, depth, unknowns, top=False):
    k = draw(st.integers(0, 9))
    if depth > 0 and k in (1, 2):
        return [draw(values(depth - 1, unknowns)) for _ in range(draw(st.integers(0, 3)))]
    if depth > 0 and k in (3, 4):
        return {x: draw(values(depth - 1, unknowns)) for x in draw(st.lists(ukeys, max_size=3, unique=True))}
    if k == 5 and unknowns:
        return UNKNOWN
    if k == 6:
        return draw(st.sampled_from([{engine.SIG: engine.ASSET_SIG, "text": "t"}, {engine.SIG: engine.ARCHIVE_SIG, "assets": {"x": {engine.SIG: engine.ASSET_SIG, "path": "p"}}}]))
    return draw(wire.prims)


@st.composite
def props(draw, unknowns=True):
    return {k: draw(values(2, unknowns)) for k in draw(st.lists(ukeys, max_size=3, unique=True))}


@st.composite
def plains(draw):
    """what a provider returns"""
    def v(depth):
        k = draw(st.integers(0, 7))
        if depth > 0 and k == 1:
            return [v(depth - 1) for _ in range(draw(st.integers(0, 3)))]
        if depth > 0 and k in (2, 3):
            return {x: v(depth - 1) for x in draw(st.lists(ukeys, max_size=3, unique=True))}
        return draw(wire.prims)
    return {k: v(2) for k in draw(st.lists(ukeys, max_size=3, unique=True))}


names = st.lists(st.sampled_from(["a", "b", "c.d", "x[0]", ""]), max_size=3)


@st.composite
def providers(draw, allow_none=True):
    def how(m, v):
        k = draw(st.integers(0, 11))
        if k == 0:
            return ["raise", draw(st.sampled_from(["boom", "", "a\nb"]))]
        return ["echo"] if k <= 4 else ["give", draw(v)]

    maybe = st.one_of(plains(), plains(), st.none()) if allow_none else plains()
    s = {m: how(m, maybe) for m in METHODS}
    for m in ("check", "update"):
        if s[m] == ["echo"] and draw(st.booleans()):
            s[m] = ["olds"]  # the state as it was
    s["diff"] = how("diff", st.tuples(st.sampled_from([None, True, False]), st.one_of(st.none(), names), st.one_of(st.none(), names), st.sampled_from([None, True, False])).map(list))
    if s["diff"][0] == "echo":
        s["diff"] = ["give", []]
    s["delete"] = s["delete"] if s["delete"][0] == "raise" else ["echo"]
    s["failures"] = draw(st.one_of(st.just([]), st.lists(st.tuples(wire.texts, wire.texts).map(list), max_size=3)))
    s["new_id"] = draw(st.sampled_from(["id", "x y", "é", "0"]))
    s["read_id"] = draw(st.sampled_from(["id", "", None, "é"])) if s["read"] != ["give", None] else None
    s["mask"] = draw(st.one_of(st.just(METHODS), st.lists(st.sampled_from(METHODS), unique=True)))
    return s


@st.composite
def cases(draw, max_calls=6):
    provs = [draw(providers()) for _ in range(draw(st.integers(1, 3)))]
    calls = []
    for _ in range(draw(st.integers(1, max_calls))):
        m = draw(st.sampled_from(METHODS))
        calls.append({"m": m, "id": draw(st.sampled_from(["id", "x y", "é", "0", ""])), "p": draw(st.integers(0, len(provs) - 1)), "old_p": draw(st.integers(0, len(provs) - 1)),
                      "unknown_provider": m in ("check", "diff") and draw(st.integers(0, 3)) == 0, "news": draw(props()), "olds": draw(props()), "no_olds": draw(st.booleans())})
    return {"provs": provs, "calls": calls}


# ---------------------------------------------------------------- oracle
def expect(case, c):
    """(which provider, arguments, response or exception text) of one call"""
    m = c["m"]
    spec_i = c["old_p"] if c["unknown_provider"] else c["p"]
    spec = case["provs"][spec_i]
    keep = m in ("check", "diff")
    args_news = wire.dec(wire.norm(c["news_wire"]), False, keep_unknowns=keep, top=True)
    args_olds = wire.dec(wire.norm(c["olds_wire"]), False, keep_unknowns=keep, top=True)
    has = m in spec["mask"]
    a = {"check": [args_olds, args_news], "diff": [c["id"], args_olds, args_news], "create": [args_news], "read": [c["id"], args_news], "update": [c["id"], args_olds, args_news],
         "delete": [c["id"], args_news]}[m]
    if not has:
        if m == "create":
            return spec_i, None, ("error", "must implement 'create'")
        s = {"check": ["echo"], "diff": ["give", []], "read": ["echo"], "update": ["give", None], "delete": ["echo"]}[m]
    else:
        s = spec[m]
    if s[0] == "raise":
        return spec_i, a, ("error", s[1])
    given = undec(args_news) if s[0] == "echo" else undec(args_olds) if s[0] == "olds" else s[1]

    def state(g):
        g = {k: wire.norm(v) for k, v in (g or {}).items() if v is not None}
        g["__provider"] = c["news_wire"]["__provider"]
        return g

    if m == "check":
        r = (state(given), [list(f) for f in (spec["failures"] if has else [])])
    elif m == "diff":
        ch, rep, stable, dbr = (list(given) + [None] * 4)[:4]
        r = ({None: 0, False: 1, True: 2}[ch], rep or [], stable or [], bool(dbr))
    elif m == "create":
        r = (spec["new_id"], state(given))
    elif m == "read":
        r = ((spec["read_id"] if has else c["id"]) or "", state(given))
    elif m == "update":
        r = (state(given),)
    else:
        r = ()
    return spec_i, a if has else None, ("ok", r)


def undec(x):
    if isinstance(x, dict):
        return {k: undec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [undec(v) for v in x]
    if isinstance(x, wire.D):
        if x.kind == "UNK":
            return UNKNOWN
        kind, v = x.a
        return {engine.SIG: engine.ASSET_SIG if x.kind == "asset" else engine.ARCHIVE_SIG, kind: {k: undec(y) for k, y in v} if kind == "assets" else v}
    return x


def shown(v):
    """how the process part's log shows a decoded value"""
    if isinstance(v, dict):
        return {k: shown(x) for k, x in v.items()}
    if isinstance(v, list):
        return [shown(x) for x in v]
    if isinstance(v, wire.D):
        return {"UNK": "<Unknown>", "asset": {"text": "<StringAsset>", "path": "<FileAsset>"}.get(v.a[0] if v.a else "", "?"), "arch": "<AssetArchive>"}[v.kind]
    return v


def prepare(case):
    from pulumi.dynamic import dynamic
    from pulumi.runtime import proto

    m = module()
    ser = []
    for i, s in enumerate(case["provs"]):
        ser.append(dynamic.serialize_provider(m.cls(s["mask"])(i, s)))
    reqs = []
    for c in case["calls"]:
        c["news_wire"] = {**c["news"], "__provider": UNKNOWN if c["unknown_provider"] else ser[c["p"]]}
        c["olds_wire"] = {**c["olds"], "__provider": ser[c["old_p"]]}
        if c["m"] == "check" and c["no_olds"] and not c["unknown_provider"]:
            c["olds_wire"] = {}
        n, o = to_struct(c["news_wire"]), to_struct(c["olds_wire"])
        P = proto.provider_pb2
        reqs.append({"check": lambda: P.CheckRequest(urn="u", olds=o, news=n), "diff": lambda: P.DiffRequest(id=c["id"], urn="u", olds=o, news=n),
                     "create": lambda: P.CreateRequest(urn="u", properties=n), "read": lambda: P.ReadRequest(id=c["id"], urn="u", properties=n),
                     "update": lambda: P.UpdateRequest(id=c["id"], urn="u", olds=o, news=n), "delete": lambda: P.DeleteRequest(id=c["id"], urn="u", properties=n)}[c["m"]]())
    return reqs


def response(m, data):
    from google.protobuf import empty_pb2
    from pulumi.runtime import proto

    P = proto.provider_pb2
    t = {"check": P.CheckResponse, "diff": P.DiffResponse, "create": P.CreateResponse, "read": P.ReadResponse, "update": P.UpdateResponse, "delete": empty_pb2.Empty}[m]
    r = t.FromString(data)
    if m == "check":
        return from_struct(r.inputs), [[f.property, f.reason] for f in r.failures]
    if m == "diff":
        return r.changes, list(r.replaces), list(r.stables), r.deleteBeforeReplace
    if m == "create" or m == "read":
        return r.id, from_struct(r.properties)
    if m == "update":
        return (from_struct(r.properties),)
    return ()


def judge(case, c, got, log, rec, show=lambda x: x):
    i, args, want = expect(case, c)
    desc = f"{c} with provider {i}: {case['provs'][i]}"
    if want[0] == "error":
        if got[0] != "error" or want[1] not in got[1]:
            fail(f"{c['m']} gave {got}, the provider raised {want[1]!r}", desc)
    elif got[0] != "ok" or not same(got[1], want[1]):
        fail(f"{c['m']} gave {got}, expected {want}", desc)
    wl = [] if args is None else [(c["m"], i) + tuple(show(a) for a in args)]
    if len(log) != len(wl) or any(len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)) for a, b in zip(log, wl)):
        fail(f"the provider saw {log}, expected {wl}", desc)
    rec.label(c["m"])
    rec.label("unknown provider", c["unknown_provider"])
    rec.label("left out", args is None)
    rec.label("raises", want[0] == "error")


def run(case, rec):
    import asyncio
    import copy

    case = copy.deepcopy(case)
    reqs = prepare(case)
    m = module()
    for c, req in zip(case["calls"], reqs):
        del m.LOG[:]
        try:
            got = ("ok", response(c["m"], call(c["m"].capitalize(), req)))
        except (HarnessError, Violation):
            raise
        except Exception as e:  # noqa
            if isinstance(e, m.ProviderError) or "must implement" in str(e):
                got = ("error", str(e))
            else:
                raise

        # arguments are compared as decoded values
        async def dec_log():
            return [tuple([await wire.plain(a) for a in x]) for x in m.LOG]

        log = asyncio.run(dec_log())
        # a provider that echoes gets its own dictionary back with the provider added: same content
        judge(case, c, got, log, rec)
    if len(case["calls"]) > 1:
        rec.nontriv()


@part("lifecycle", quick=3000, thorough=100000, shards=6, rule="histories of at least two lifecycle calls")
def lifecycle():
    return cases(), run


# ---------------------------------------------------------------- the real process
class Proc:
    def __init__(self):
        import grpc
        from pulumi.runtime.proto import provider_pb2_grpc

        d = os.environ.get("VERIF_SCRATCH") or os.getcwd()
        self.dir = os.path.join(d, "c24-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.log = os.path.join(self.dir, "log")
        with open(os.path.join(self.dir, MOD + ".py"), "w") as f:
            f.write(SOURCE.replace("LOGFILE = None", "LOGFILE = %r" % self.log) + "\nimport itertools\nfor _n in range(7):\n    for _m in itertools.combinations(%r, _n):\n        cls(_m)\n" % METHODS)
        env = dict(os.environ)
        env["PYTHONPATH"] = self.dir + os.pathsep + env.get("PYTHONPATH", "")
        self.p = subprocess.Popen([sys.executable, "-u", "-m", "pulumi.dynamic"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env, cwd=self.dir)
        port = self.p.stdout.readline().strip().decode()
        big = 400 * 1024 * 1024
        self.ch = grpc.insecure_channel("127.0.0.1:" + port, options=[("grpc.max_receive_message_length", big), ("grpc.max_send_message_length", big)])
        self.stub = provider_pb2_grpc.ResourceProviderStub(self.ch)


_PROC = []


def run_process(case, rec):
    import ast
    import copy

    import grpc

    case = copy.deepcopy(case)
    reqs = prepare(case)
    if not _PROC:
        _PROC.append(Proc())
    pr = _PROC[0]
    for c, req in zip(case["calls"], reqs):
        open(pr.log, "w").close()
        try:
            r = getattr(pr.stub, c["m"].capitalize())(req, timeout=50)
            got = ("ok", response(c["m"], r.SerializeToString()))
        except grpc.RpcError as e:
            got = ("error", e.details())
        with open(pr.log) as f:
            log = [ast.literal_eval(l) for l in f]
        judge(case, c, got, log, rec, shown)
    rec.label("large", case.get("big", 0) > 1000000)
    if len(case["calls"]) > 1:
        rec.nontriv()


@st.composite
def process_cases(draw):
    c = draw(cases(4))
    if draw(st.integers(0, 5)) == 0:
        n = draw(st.sampled_from([5000000, 9000000]))
        c["calls"] = [{"m": "create", "id": "id", "p": 0, "old_p": 0, "unknown_provider": False, "news": {"a": "x" * n}, "olds": {}, "no_olds": True}]
        c["provs"][0]["mask"] = METHODS
        c["provs"][0]["create"] = ["echo"]
        c["big"] = n
    return c


@part("process", quick=120, thorough=4000, shards=2, batch=60, weight=2, rule="histories of at least two lifecycle calls")
def process():
    return process_cases(), run_process


# ---------------------------------------------------------------- the resource in the program
@st.composite
def resource_cases(draw):
    provs = [draw(providers()) for _ in range(draw(st.integers(1, 2)))]
    bags = [draw(plains()) for _ in range(draw(st.integers(1, 2)))]
    n = draw(st.integers(1, 4))
    return {"provs": provs, "bags": bags, "res": [[draw(st.integers(0, len(provs) - 1)), draw(st.integers(0, len(bags) - 1)), draw(st.integers(0, 3))] for _ in range(n)],
            "reserved": draw(st.integers(0, 5)) == 0, "dry": draw(st.booleans())}


def run_resources(case, rec):
    import copy

    import dill
    import pulumi
    from pulumi import dynamic
    from pulumi.runtime.proto import resource_pb2

    m = module()
    case = copy.deepcopy(case)
    eng = engine.FakeEngine(["secrets", "resourceReferences"], dry_run=case["dry"])
    before = copy.deepcopy(case["bags"])
    objs = [m.cls(s["mask"])(i, s) for i, s in enumerate(case["provs"])]

    class Named(dynamic.Resource, module="mod", name="Thing"):
        pass

    class Inherits(Named):
        pass

    class OnlyName(dynamic.Resource, name="Other"):
        pass

    kinds = [dynamic.Resource, Named, OnlyName, Inherits]
    types_ = [None, "pulumi-python:dynamic/mod:Thing", "pulumi-python:dynamic:Other", "pulumi-python:dynamic:Resource"]
    rejected, made, seen = [], [], {}

    def on_register(req):
        if req.name.startswith("r") and req.custom:
            # the provider computes what the program left open
            bag = before[case["res"][int(req.name[1:])][1]]
            return resource_pb2.RegisterResourceResponse(urn=eng.make_urn(req.parent, req.type, req.name), id="the-id", object=to_struct({k: "computed " + k for k in bag}))
        return None

    async def look(i, k, o):
        seen[i, k] = await o.future()

    eng.on_register = on_register

    def watch_all():
        for i, r in enumerate(made):
            for k in before[case["res"][i][1]]:
                if k not in ("id", "urn"):
                    engine.watch(look(i, k, getattr(r, k)))

    def body():
        for i, (p, b, k) in enumerate(case["res"]):
            if k == 0:
                class Plain(dynamic.Resource):
                    pass
                cls = Plain
            else:
                cls = kinds[k]
            made.append(cls(objs[p], "r%d" % i, case["bags"][b]))
        watch_all()
        if case["reserved"]:
            try:
                Named(objs[0], "bad", {"__provider": "x"})
            except Exception as e:
                rejected.append(e)

    err, _ = engine.run_program(eng, body)
    if err is not None:
        raise err
    if case["reserved"] and not rejected:
        fail("a resource that defines __provider was accepted")
    if not same(case["bags"], before):
        fail(f"creating dynamic resources changed the caller's properties from {before} to {case['bags']}")
    regs = {q.name: q for k, q in eng.log if k == "register" and q.type != "pulumi:pulumi:Stack"}
    if set(regs) != {"r%d" % i for i in range(len(case["res"]))}:
        fail(f"registered {sorted(regs)}")
    for i, (p, b, k) in enumerate(case["res"]):
        q = regs["r%d" % i]
        o = from_struct(q.object)
        s = o.pop("__provider", None)
        want = {k: wire.norm(v) for k, v in before[b].items() if v is not None}
        wt = types_[k] or "pulumi-python:dynamic:Resource"
        if q.type != wt or not same(o, want) or not q.custom:
            fail(f"r{i} registered as {q.type} {o}, expected {wt} {want}")
        back = dill.loads(base64.b64decode(s))
        if (back.tag, type(back)) != (p, type(objs[p])) or not same(back.spec, case["provs"][p]):
            fail(f"r{i} carries another provider: {back.spec}, expected {case['provs'][p]}")
        for k in before[b]:
            if k not in ("id", "urn") and seen.get((i, k)) != "computed " + k:
                fail(f"property {k} of r{i} (given {before[b][k]!r}) is {seen.get((i, k), 'unresolved')!r}, the provider computed 'computed {k}'")
    rec.label("shared properties", len({b for _, b, _ in case["res"]}) < len(case["res"]))
    if len(case["res"]) > 1:
        rec.nontriv()


@part("resources", quick=400, thorough=10000, shards=2, rule="at least two dynamic resources")
def resources():
    return resource_cases(), run_resources
