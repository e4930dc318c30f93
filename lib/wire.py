"""Property values: AST, builder, independent reference encoder and decoder.

V:  ("p", prim) ("l", [V]) ("d", [(k, V)]) ("unk",)
    ("asset", kind, s)  kind: path text uri        ("arch", kind, s | [(k, asset/arch V)])  kind: path uri assets
    ("res", name)       a resource of the world
    ("rout", name, attr) the urn/id output of a resource
    ("out", V, known, secret, [resource names])     ("aw", V)
    ("bad", kind)       a value with no wire form
"""
from hypothesis import strategies as st

from engine import ARCHIVE_SIG, ASSET_SIG, OUTPUT_SIG, RESOURCE_SIG, SECRET_SIG, SIG, UNKNOWN, from_struct
from harness import Violation

# the world: name -> (kind, parent)
WORLD = {
    "r0": ("custom", None),
    "r1": ("custom", None),
    "nid": ("custom", None),  # its id is unknown in previews
    "c0": ("component", None),  # empty component
    "c1": ("component", None),
    "r2": ("custom", "c1"),
    "c2": ("component", "c1"),
    "r3": ("custom", "c2"),
    "r4": ("custom", "r3"),
    "m0": ("remote", None),
    "r5": ("custom", "m0"),
    "m1": ("remote", "c1"),
}
ORDER = list(WORLD)
TYPES = {"custom": "pkg:mod:Custom", "component": "pkg:mod:Comp", "remote": "pkg:mod:Remote"}


def urn_of(name, project="proj", stack="stk"):
    chain = []
    n = name
    while n is not None:
        kind, parent = WORLD[n]
        chain.append(TYPES[kind])
        n = parent
    return f"urn:pulumi:{stack}::{project}::{'$'.join(reversed(chain))}::{name}"


def id_of(name, dry):
    if WORLD[name][0] != "custom":
        return None
    if name == "nid" and dry:
        return ""
    return name + "-id"


def expand(names):
    """components stand for the custom resources (and remote components) below them"""
    out = set()
    for n in names:
        kind = WORLD[n][0]
        if kind == "component":
            out |= expand([c for c, (k, p) in WORLD.items() if p == n])
        else:
            out.add(n)
    return out


def define_classes():
    import pulumi

    class Custom(pulumi.CustomResource):
        def __init__(self, name, props=None, opts=None):
            super().__init__(TYPES["custom"], name, props or {}, opts)

    class Comp(pulumi.ComponentResource):
        def __init__(self, name, opts=None):
            super().__init__(TYPES["component"], name, {}, opts)

    class Remote(pulumi.ComponentResource):
        def __init__(self, name, props=None, opts=None):
            super().__init__(TYPES["remote"], name, props or {}, opts, True)

    return Custom, Comp, Remote


def build_world():
    import pulumi

    Custom, Comp, Remote = define_classes()
    w = {}
    for n, (kind, parent) in WORLD.items():
        opts = pulumi.ResourceOptions(parent=w[parent]) if parent else None
        w[n] = {"custom": Custom, "component": Comp, "remote": Remote}[kind](n, opts=opts)
    return w


def world_engine_hook(eng):
    """nid gets no id in previews; all others do."""
    from pulumi.runtime.proto import resource_pb2

    def on_register(req):
        urn = eng.make_urn(req.parent, req.type, req.name)
        id_ = ""
        if req.custom:
            id_ = id_of(req.name, eng.dry_run) if req.name in WORLD else ("" if eng.dry_run else req.name + "-id")
        return resource_pb2.RegisterResourceResponse(urn=urn, id=id_, object=req.object)

    return on_register


# ------------------------------------------------------------------ building real values
BAD = {
    "bytes": lambda: b"x", "tuple": lambda: (1, 2), "set": lambda: {1}, "object": lambda: object(), "range": lambda: range(2),
    "bytearray": lambda: bytearray(b"x"), "complex": lambda: 1j, "fn": lambda: len, "type": lambda: int, "memoryview": lambda: memoryview(b"x"),
}


class WBuilder:
    def __init__(self, world):
        import asyncio
        import pulumi
        from pulumi.output import UNKNOWN as UNK

        self.w, self.p, self.asyncio, self.UNK = world, pulumi, asyncio, UNK
        self.pending = []

    def fut(self, v, lazy=False):
        f = self.asyncio.Future()
        if lazy:
            self.pending.append(lambda: f.set_result(v))
        else:
            f.set_result(v)
        return f

    def idle(self, i):
        if i is None:
            return len(self.pending)
        self.pending.pop(i)()

    def build(self, v):
        p = self.p
        t = v[0]
        if t == "p":
            return v[1]
        if t == "l":
            return [self.build(x) for x in v[1]]
        if t == "d":
            return {k: self.build(x) for k, x in v[1]}
        if t == "unk":
            return self.UNK
        if t == "asset":
            return {"path": p.FileAsset, "text": p.StringAsset, "uri": p.RemoteAsset}[v[1]](v[2])
        if t == "arch":
            if v[1] == "assets":
                return p.AssetArchive({k: self.build(x) for k, x in v[2]})
            return {"path": p.FileArchive, "uri": p.RemoteArchive}[v[1]](v[2])
        if t == "res":
            return self.w[v[1]]
        if t == "rout":
            return getattr(self.w[v[1]], v[2])
        if t == "out":
            return p.Output(self.fut({self.w[n] for n in v[4]}), self.fut(self.build(v[1]), True), self.fut(v[2]), self.fut(v[3]))
        if t == "aw":
            return self.fut(self.build(v[1]), True)
        if t == "bad":
            return BAD[v[1]]()
        raise AssertionError(t)


# ------------------------------------------------------------------ reference encoder
class Bad(Exception):
    pass


class Enc:
    """features: set of names; returns JSON and collects the resources depended on"""

    def __init__(self, features, dry):
        self.f, self.dry = features, dry

    def id_json(self, name):
        i = id_of(name, self.dry)
        return i if i else UNKNOWN

    def has_unk(self, v):
        t = v[0]
        if t == "unk":
            return True
        if t == "l":
            return any(self.has_unk(x) for x in v[1])
        if t == "d":
            return any(self.has_unk(x) for _, x in v[1])
        return False

    def enc(self, v, deps, kov):
        t = v[0]
        if t == "p":
            return v[1]
        if t == "l":
            return [self.enc(x, deps, kov) for x in v[1]]
        if t == "d":
            return {k: self.enc(x, deps, kov) for k, x in v[1]}
        if t == "unk":
            return UNKNOWN
        if t == "asset":
            return {SIG: ASSET_SIG, v[1]: v[2]}
        if t == "arch":
            return {SIG: ARCHIVE_SIG, v[1]: v[2] if v[1] != "assets" else {k: self.enc(x, deps, False) for k, x in v[2]}}
        if t == "res":
            deps.add(v[1])
            custom = WORLD[v[1]][0] == "custom"
            if "resourceReferences" in self.f:
                r = {SIG: RESOURCE_SIG, "urn": urn_of(v[1])}
                if custom:
                    r["id"] = self.id_json(v[1])
                return r
            return self.id_json(v[1]) if custom else urn_of(v[1])
        if t == "aw":
            return self.enc(v[1], deps, kov)
        if t == "bad":
            raise Bad(v[1])
        if t == "rout":
            i = id_of(v[1], self.dry)
            known = v[2] == "urn" or bool(i)
            return self.output(("p", urn_of(v[1]) if v[2] == "urn" else i), known, False, [v[1]], deps, kov)
        if t == "out":
            return self.output(v[1], v[2], v[3], v[4], deps, kov)
        raise AssertionError(t)

    def output(self, inner, known, secret, res, deps, kov):
        deps |= set(res)
        mine = set(res)
        unk = self.has_unk(inner)
        value = None
        if not unk:
            value = self.enc(inner, mine, False)
        deps |= mine
        known = known and not unk
        if kov and "outputValues" in self.f:
            o = {SIG: OUTPUT_SIG}
            if known:
                o["value"] = value
            if secret:
                o["secret"] = True
            urns = sorted(urn_of(n) for n in expand(mine))
            if urns:
                o["dependencies"] = urns
            return o
        if not known:
            return UNKNOWN
        if secret and "secrets" in self.f:
            return {SIG: SECRET_SIG, "value": value}
        return value


def norm(j):
    """what a protobuf Struct holds: numbers are doubles"""
    if isinstance(j, bool) or j is None or isinstance(j, str):
        return j
    if isinstance(j, (int, float)):
        return float(j)
    if isinstance(j, list):
        return [norm(x) for x in j]
    return {k: norm(x) for k, x in j.items()}


# ------------------------------------------------------------------ reference decoder
class Sec:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Sec({self.v!r})"


class D:
    """a decoded non-plain value"""

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return f"{self.kind}{self.a!r}"

    def __eq__(self, o):
        return isinstance(o, D) and (self.kind, self.a) == (o.kind, o.a)

    def __hash__(self):
        return hash(self.kind)


DUNK = D("UNK")


class Malformed(Exception):
    pass


def dec(j, dry, modules=(), keep_unknowns=False, top=False):
    """modules: type tokens (pkg:mod) with a registered module"""
    if j == UNKNOWN:
        return DUNK if dry or keep_unknowns else None
    if isinstance(j, list):
        vs = [dec(x, dry, modules, keep_unknowns) for x in j]
        if any(isinstance(x, Sec) for x in vs):
            return Sec([x.v if isinstance(x, Sec) else x for x in vs])
        return vs
    if isinstance(j, dict):
        if SIG in j:
            sig = j[SIG]
            if sig == ASSET_SIG:
                for k in ("path", "text", "uri"):
                    if k in j:
                        return D("asset", k, j[k])
                raise Malformed("asset")
            if sig == ARCHIVE_SIG:
                if "assets" in j:
                    return D("arch", "assets", tuple(sorted(((k, dec(x, dry, modules, keep_unknowns)) for k, x in j["assets"].items()), key=lambda p: p[0])))
                for k in ("path", "uri"):
                    if k in j:
                        return D("arch", k, j[k])
                raise Malformed("archive")
            if sig == SECRET_SIG:
                if "value" not in j:
                    raise Malformed("secret")
                x = dec(j["value"], dry, modules, keep_unknowns)
                return x if isinstance(x, Sec) else Sec(x)
            if sig == RESOURCE_SIG:
                if "urn" not in j:
                    raise Malformed("resource")
                parts = j["urn"].split("::")
                typ = parts[2].split("$")[-1].split(":")
                if ":".join(typ[:2]) in modules or typ[:2] == ["pulumi", "providers"] and typ[2] in modules:
                    return D("res", j["urn"])
                if "id" in j:
                    return dec(UNKNOWN if j["id"] == "" else j["id"], dry, modules, keep_unknowns)
                return j["urn"]
            raise Malformed("signature")
        out = {}
        for k, x in j.items():
            if k.startswith("__") and k != "__provider":
                continue
            x = dec(x, dry, modules, keep_unknowns)
            if x is not None:
                out[k] = x
        if not top and any(isinstance(x, Sec) for x in out.values()):
            return Sec({k: x.v if isinstance(x, Sec) else x for k, x in out.items()})
        return out
    return j


def has_unk_d(v):
    if v == DUNK if isinstance(v, D) else False:
        return True
    if isinstance(v, dict):
        return any(has_unk_d(x) for x in v.values())
    if isinstance(v, list):
        return any(has_unk_d(x) for x in v)
    return False


def has_sig(v):
    """a wire wrapper left inside a delivered value"""
    if isinstance(v, dict):
        return SIG in v or any(has_sig(x) for x in v.values())
    if isinstance(v, list):
        return any(has_sig(x) for x in v)
    return False


async def plain(v):
    """a delivered Python value in the decoder's notation"""
    import pulumi
    from pulumi.output import Unknown

    if isinstance(v, Unknown):
        return DUNK
    if isinstance(v, dict):
        return {k: await plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [await plain(x) for x in v]
    if isinstance(v, pulumi.FileAsset):
        return D("asset", "path", v.path)
    if isinstance(v, pulumi.StringAsset):
        return D("asset", "text", v.text)
    if isinstance(v, pulumi.RemoteAsset):
        return D("asset", "uri", v.uri)
    if isinstance(v, pulumi.AssetArchive):
        return D("arch", "assets", tuple(sorted([(k, await plain(x)) for k, x in v.assets.items()], key=lambda p: p[0])))
    if isinstance(v, pulumi.FileArchive):
        return D("arch", "path", v.path)
    if isinstance(v, pulumi.RemoteArchive):
        return D("arch", "uri", v.uri)
    if isinstance(v, pulumi.Resource):
        return D("res", await v.urn.future())
    if isinstance(v, pulumi.Output):
        raise Violation(f"an output was left inside a delivered value")
    return v


# ------------------------------------------------------------------ generators
texts = st.one_of(st.sampled_from(["", "a", "x y", "id", "urn", "value", "secret", "\u00e9\u4e16", "4dabf18193072939515e22adb298388", "null", "true", "0", " ", "./dir/", "a//b/../c", "/"]),
                  st.text(st.characters(exclude_categories=["Cs"]), max_size=6))
keys = st.one_of(st.sampled_from(["a", "b", "value", "urn", "id", "secret", "path", "text", "items", "keys", "assets", "aB", "a_b", "A", "", "dependencies", "version", "_x", "__provider", "name", "type", "result", "self"]),
                 st.text(st.characters(exclude_categories=["Cs"]), max_size=4).filter(lambda s: not s.startswith("__")))
nums = st.one_of(st.integers(-5, 5), st.integers(-2**53, 2**53), st.floats(allow_nan=False, allow_infinity=False, width=64), st.sampled_from([0, 0.0, -0.0, 1e300, 5e-324, 2**31, 2**32 + 1]))
prims = st.one_of(st.none(), st.booleans(), nums, texts, texts)


@st.composite
def assets(draw, depth=2):
    k = draw(st.integers(0, 5 if depth > 0 else 4))
    s = draw(texts)
    if k <= 2:
        return ("asset", ["path", "text", "uri"][k], s)
    if k <= 4:
        return ("arch", ["path", "uri"][k - 3], s)
    return ("arch", "assets", draw(st.lists(st.tuples(keys, assets(depth - 1)), max_size=3, unique_by=lambda p: p[0])))


class VGen:
    def __init__(self, draw, dry, bad=False, outs=True):
        self.draw, self.dry, self.bad, self.outs = draw, dry, bad, outs

    def v(self, depth):
        d = self.draw
        k = d(st.sampled_from([9, 10, 1, 3, 5, 7, 6, 4, 11, 2, 8, 9, 0, 12, 13]))
        if depth <= 0 and k in (1, 2, 3, 8, 9, 10, 11):
            k = 0
        if k == 1 and d(st.integers(0, 5)) == 5:
            n, x = d(st.sampled_from([12, 70, 200, -20, -40])), self.v(depth - 1)
            if n < 0:
                for j in range(-n):
                    x = ("l", [x]) if j % 3 else ("d", [("k%d" % j, x)])
                return x
            i = d(st.integers(0, n - 1))
            return ("l", [x if j == i else ("p", j) for j in range(n)]) if n % 3 else ("d", [("w%d" % j, x if j == i else ("p", j)) for j in range(n)])
        if k in (1, 2):
            return ("l", [self.v(depth - 1) for _ in range(d(st.integers(0, 3)))])
        if k == 3 or k == 8:
            ks = d(st.lists(keys, max_size=3, unique=True))
            return ("d", [(x, self.v(depth - 1)) for x in ks])
        if k == 4:
            return d(assets())
        if k == 5:
            return ("res", d(st.sampled_from(ORDER)))
        if k == 6:
            if self.dry and self.outs:
                return ("unk",)
            return ("p", None)
        if k == 7 and self.outs:
            n = d(st.sampled_from(ORDER))
            return ("rout", n, "id" if WORLD[n][0] == "custom" and d(st.booleans()) else "urn")
        if k in (9, 10) and self.outs:
            return ("out", self.v(depth - 1), d(st.sampled_from([True, True, False])) if self.dry else True, d(st.booleans()),
                    d(st.lists(st.sampled_from(ORDER), max_size=3, unique=True)))
        if k == 11 and self.outs:
            return ("aw", self.v(depth - 1))
        if k in (0, 12, 13) and self.bad and d(st.integers(0, 2)):
            return ("bad", d(st.sampled_from(sorted(BAD))))
        return ("p", d(prims))


FEATURES = ["secrets", "resourceReferences", "outputValues"]


@st.composite
def encodings(draw, bad=False, depth=4, features=None, kov=None):
    dry = draw(st.booleans())
    g = VGen(draw, dry, bad)
    ks = draw(st.lists(st.sampled_from(["a", "b", "cD", "value", "e_f", "items"]), min_size=1, max_size=3, unique=True))
    return {"dry": dry, "features": draw(st.lists(st.sampled_from(FEATURES), unique=True)) if features is None else features,
            "remote": draw(st.booleans()) if kov is None else kov,
            "props": [(k, g.v(draw(st.integers(1, depth)))) for k in ks],
            "sched": draw(st.lists(st.integers(0, 6), max_size=8))}


def walk(v):
    yield v
    if v[0] in ("l",):
        for x in v[1]:
            yield from walk(x)
    elif v[0] == "d":
        for _, x in v[1]:
            yield from walk(x)
    elif v[0] in ("out", "aw"):
        yield from walk(v[1])
    elif v[0] == "arch" and v[1] == "assets":
        for _, x in v[2]:
            yield from walk(x)
