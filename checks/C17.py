"""C17 stack exports."""
import collections
import enum

import engine
from engine import SECRET_SIG, SIG, UNKNOWN
from harness import expect_equal, fail, part
from hypothesis import strategies as st
from wire import norm

# V: ("p", prim) ("enum", name) ("it", kind, [prim]) ("asset", kind, s) ("n", i) node i   ("res", i) resource i
# node: ("list"|"tuple", [V]) ("dict"|"odict", [(k, V)]) ("obj", [(k, V)]) ("out", V, known, secret) ("aw", V) ("args", V|None, V|None)
# resource: ("custom"|"comp", [(k, V)]) attributes set after construction
KEYS = ["a", "b", "_p", "items", "value", "aB", "c_d", "urn_of", "_", "keys", "append", "__x"]
NAMES = ["x", "y", "some-name", "aB", "c_d", "_hidden", "", "urn", "outputs"]
prims = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from([0.5, 1e300, -0.0]), st.sampled_from(["", "s", "_t", "\u00e9"]))


class E1(enum.IntEnum):
    ONE = 1


class E2(float, enum.Enum):
    HALF = 0.5


class E3(str, enum.Enum):
    ESS = "ess"


ENUMS = {"int": (E1.ONE, 1), "float": (E2.HALF, 0.5), "str": (E3.ESS, "ess")}
ITS = {"set": lambda x: set(x[:1]), "frozenset": lambda x: frozenset(x[:1]), "bytes": lambda x: bytes([7, 9]), "range": lambda x: range(3),
       "gen": lambda x: (y for y in x), "iter": lambda x: iter(list(x)), "deque": lambda x: collections.deque(x)}


def it_expect(kind, x):
    return {"set": lambda: list(x[:1]), "frozenset": lambda: list(x[:1]), "bytes": lambda: [7, 9], "range": lambda: [0, 1, 2]}.get(kind, lambda: list(x))()


@st.composite
def cases(draw):
    n = draw(st.sampled_from([4, 3, 5, 2, 6, 1, 0]))
    m = draw(st.integers(0, 2))

    def v():
        k = draw(st.sampled_from([0, 1, 2, 9, 3, 5, 4, 6, 2, 7, 1, 8, 5]))
        if k <= 4 and n:
            return ("n", draw(st.integers(0, n - 1)))
        if k == 5 and m:
            return ("res", draw(st.integers(0, m - 1)))
        if k == 6:
            return ("enum", draw(st.sampled_from(sorted(ENUMS))))
        if k == 7:
            return ("it", draw(st.sampled_from(sorted(ITS))), draw(st.lists(prims, max_size=2)))
        if k == 8:
            return ("asset", draw(st.sampled_from(["path", "text", "uri", "farch", "arch"])), draw(st.sampled_from(["f", ""])))
        return ("p", draw(prims))

    def pairs():
        if draw(st.integers(0, 19)) == 19:
            return [("w%d" % i, v()) for i in range(12)]
        return [(k, v()) for k in draw(st.lists(st.sampled_from(KEYS), min_size=draw(st.integers(0, 2)), max_size=3, unique=True))]

    nodes = []
    for _ in range(n):
        k = draw(st.sampled_from(["out", "list", "dict", "obj", "args", "out", "list", "dict", "obj", "tuple", "odict", "aw"]))
        if k in ("list", "tuple"):
            nodes.append((k, [v() for _ in range(draw(st.sampled_from([2, 1, 3, 0, 2, 1, 3, 0, 14])))]))
        elif k in ("dict", "odict", "obj"):
            nodes.append((k, pairs()))
        elif k == "out":
            nodes.append((k, v(), draw(st.sampled_from([True, True, False])), draw(st.booleans())))
        elif k == "aw":
            nodes.append((k, v()))
        else:
            nodes.append((k, v() if draw(st.booleans()) else None, v() if draw(st.booleans()) else None))
    # a tuple, typed input or awaitable exists only once what it holds does; Output.from_input needs acyclic input
    return {"dry": draw(st.booleans()), "features": draw(st.sampled_from([["secrets"], [], ["secrets", "resourceReferences", "outputValues"]])),
            "nodes": nodes, "res": [(draw(st.sampled_from(["custom", "comp"])), [p for p in pairs() if p[0] != "urn"]) for _ in range(m)],
            "exports": [(draw(st.sampled_from(NAMES)), v()) for _ in range(draw(st.integers(1, 4)))],
            "sched": draw(st.lists(st.integers(0, 5), max_size=8)), "raises": draw(st.sampled_from([False] * 5 + [True] + [False] * 5))}


class Skip(Exception):
    pass


def order(nodes):
    """immutable containers may reach only nodes that can be built before them"""

    def refs(nd):
        k = nd[0]
        vs = nd[1] if k == "tuple" else [x for x in (nd[1:] if k == "args" else [nd[1]]) if x]
        return [x[1] for x in vs if x[0] == "n"]

    state = {}

    def visit(i):
        if state.get(i) == 2:
            return
        if state.get(i) == 1:
            raise Skip()
        state[i] = 1
        if nodes[i][0] in ("tuple", "args"):
            for j in refs(nodes[i]):
                visit(j)
        state[i] = 2
        out.append(i)

    out = []
    for i in range(len(nodes)):
        visit(i)
    return out


class Ref:
    """what the engine must be told"""

    def __init__(self, case):
        self.c = case
        self.secrets = "secrets" in case["features"]
        self.size = 0
        self.shared = {}
        self.cut = 0

    def urn(self, i):
        return "urn:pulumi:stk::proj::t:m:%s::r%d" % ("C" if self.c["res"][i][0] == "custom" else "K", i)

    def ex(self, v, anc, copied=False):
        self.size += 1
        if self.size > 3000:
            raise Skip()
        t = v[0]
        if t == "p":
            return v[1]
        if t == "enum":
            return ENUMS[v[1]][1]
        if t == "it":
            return it_expect(v[1], v[2])
        if t == "asset":
            return {"path": {"path": v[2]}, "text": {"text": v[2]}, "uri": {"uri": v[2]}, "farch": {"path": v[2]}, "arch": {"assets": {"q": {"path": v[2]}}}}[v[1]]
        key = v[:2]
        if t == "res":
            if key in anc:
                self.cut += 1
                return self.urn(v[1])
            self.shared[key] = self.shared.get(key, 0) + 1
            kind, attrs = self.c["res"][v[1]]
            out = {"urn": self.urn(v[1]), "id": None}
            if kind == "custom":
                out["id"] = UNKNOWN if self.c["dry"] else "r%d-id" % v[1]
                out["prop"] = "val"
            if self.c["dry"]:
                out["@isPulumiResource"] = True
            for k, x in attrs:
                if not k.startswith("_"):
                    out[k] = self.ex(x, anc | {key})
            return out
        nd = self.c["nodes"][v[1]]
        k = nd[0]
        # resolving an awaitable copies the lists, dictionaries and typed inputs in its value
        copied = copied and k in ("list", "dict", "odict", "args")
        if copied:
            key += ("copy",)
        if key in anc:
            self.cut += 1
            return None
        self.shared[key] = self.shared.get(key, 0) + 1
        anc = anc | {key}
        if k in ("list", "tuple"):
            return [self.ex(x, anc, copied) for x in nd[1]]
        if k in ("dict", "odict", "obj"):
            return {kk: self.ex(x, anc, copied) for kk, x in nd[1] if not kk.startswith("_")}
        if k == "args":
            return {kk: self.ex(x, anc, copied) for kk, x in (("first", nd[1]), ("secondOne", nd[2])) if x is not None and not (x[0] == "p" and x[1] is None)}
        if k in ("out", "aw"):
            # an output of an output is flattened
            secret = False
            aw = k == "aw"
            while True:
                if k == "out":
                    secret = secret or nd[3]
                    if self.c["dry"] and not nd[2]:
                        return UNKNOWN
                v = nd[1]
                if v[0] != "n" or self.c["nodes"][v[1]][0] not in ("out", "aw") or v[:2] in anc:
                    break
                anc = anc | {v[:2]}
                nd = self.c["nodes"][v[1]]
                k = nd[0]
                aw = aw or k == "aw"
            x = self.ex(v, anc, aw)
            return {SIG: SECRET_SIG, "value": x} if secret and self.secrets else x
        raise AssertionError(k)


def cyclic_from(case, i):
    """from_input (which resolves awaitables) reaches a cycle, or a secret/unknown/iterator it flattens, from node i"""
    seen = []

    def go(v, path):
        if v[0] == "res":
            return False
        if v[0] == "it":
            return True
        if v[0] != "n":
            return False
        if v[1] in path:
            return True
        nd = case["nodes"][v[1]]
        if nd[0] in ("out", "aw"):
            return True
        vs = nd[1] if nd[0] in ("list", "tuple") else [x for _, x in nd[1]] if nd[0] in ("dict", "odict", "obj") else [x for x in nd[1:] if x]
        return any(go(x, path | {v[1]}) for x in vs)
    return go(case["nodes"][i][1], {i})


def run(case, rec):
    import asyncio
    import pulumi
    from outexpr import make_classes

    ref = Ref(case)
    try:
        todo = order(case["nodes"])
        for i, nd in enumerate(case["nodes"]):
            if nd[0] == "aw" and cyclic_from(case, i):
                raise Skip()
        want = {}
        for n, v in case["exports"]:
            if n.startswith("_"):
                continue
            want[n] = v
        want = {n: ref.ex(v, frozenset()) for n, v in want.items()}
    except Skip:
        rec.label("skipped: cannot be built or too big")
        return
    uses_gen = any("('it', %r" % k in repr(case) for k in ("gen", "iter"))
    want = norm({k: v for k, v in want.items() if v is not None})
    Args = make_classes()[0]
    eng = engine.FakeEngine(case["features"], dry_run=case["dry"])
    pend = []

    def idle(i):
        if i is None:
            return len(pend)
        pend.pop(i)()

    class Obj:
        pass

    def body():
        loop = asyncio.get_event_loop()

        def fut(x):
            f = loop.create_future()
            f.set_result(x)
            return f

        res = []
        for i, (k, attrs) in enumerate(case["res"]):
            res.append(pulumi.CustomResource("t:m:C", f"r{i}", {"prop": "val"}) if k == "custom" else pulumi.ComponentResource("t:m:K", f"r{i}"))
        objs = {}

        def val(v):
            t = v[0]
            if t == "p":
                return v[1]
            if t == "enum":
                return ENUMS[v[1]][0]
            if t == "it":
                return ITS[v[1]](v[2])
            if t == "asset":
                return {"path": pulumi.FileAsset, "text": pulumi.StringAsset, "uri": pulumi.RemoteAsset, "farch": pulumi.FileArchive,
                        "arch": lambda s: pulumi.AssetArchive({"q": pulumi.FileAsset(s)})}[v[1]](v[2])
            return res[v[1]] if t == "res" else objs[v[1]]

        fill = []
        for i, nd in enumerate(case["nodes"]):
            k = nd[0]
            if k == "list":
                objs[i] = o = []
                fill.append(lambda o=o, nd=nd: o.extend(val(x) for x in nd[1]))
            elif k in ("dict", "odict"):
                objs[i] = o = {} if k == "dict" else collections.OrderedDict()
                fill.append(lambda o=o, nd=nd: o.update({kk: val(x) for kk, x in nd[1]}))
            elif k == "obj":
                objs[i] = o = Obj()
                fill.append(lambda o=o, nd=nd: o.__dict__.update({kk: val(x) for kk, x in nd[1]}))
            elif k == "out":
                f = loop.create_future()
                objs[i] = pulumi.Output(fut({res[0]} if res else set()), f, fut(nd[2]), fut(nd[3]))
                pend.append(lambda f=f, nd=nd: f.set_result(val(nd[1])))
            elif k == "aw":
                f = loop.create_future()
                objs[i] = f
                pend.append(lambda f=f, nd=nd: f.set_result(val(nd[1])))
        for i in todo:
            nd = case["nodes"][i]
            if nd[0] == "tuple":
                objs[i] = tuple(val(x) for x in nd[1])
            elif nd[0] == "args":
                objs[i] = Args(first=val(nd[1]) if nd[1] else None, second_one=val(nd[2]) if nd[2] else None)
        for f in fill:
            f()
        for r, (k, attrs) in zip(res, case["res"]):
            for kk, x in attrs:
                r.__dict__[kk] = val(x)
        for n, v in case["exports"]:
            pulumi.export(n, val(v))
        if case["raises"]:
            raise RuntimeError("program failed")

    err, _ = engine.run_program(eng, body, case["sched"], extra_idle=idle)
    if case["raises"]:
        if err is None:
            fail("a failing program succeeded")
        rec.label("program raises")
    elif err is not None:
        fail(f"{type(err).__name__}: {err}")
    outs = [q for k, q in eng.log if k == "outputs" and "pulumi:pulumi:Stack" in q.urn]
    if len(outs) != 1 and not (case["raises"] and not outs):
        fail(f"{len(outs)} registrations of stack outputs")
    if outs:
        stack = [i for i, (k, q) in enumerate(eng.log) if k == "register" and q.type == "pulumi:pulumi:Stack"]
        if outs[0].urn != "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk" or len(stack) != 1:
            fail(f"outputs registered for {outs[0].urn}")
        got = engine.from_struct(outs[0].outputs)
        if not uses_gen or max(ref.shared.values(), default=0) <= 1:
            expect_equal("stack outputs", got, want)
    if len(ref.shared) >= 3 or ref.cut:
        rec.nontriv()
    rec.label("cycle cut", ref.cut > 0)
    rec.label("shared object", any(x > 1 for x in ref.shared.values()))
    rec.label("secret", SECRET_SIG in repr(want))
    rec.label("resource", any(k[0] == "res" for k in ref.shared))


@part("graphs", quick=5000, thorough=120000, shards=6, rule="at least three containers, outputs or resources reached, or a cycle cut off")
def graphs():
    return cases(), run
