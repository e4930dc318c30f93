"""C38 runtime.to_json against json.dumps of an independently converted structure."""
import collections
import decimal
import enum
import json
import types as pytypes

from harness import fail, part
from hypothesis import strategies as st

PY = ["a", "b", "some_name", "items", "keys", "values", "get", "update", "x1", "name", "type_", "copy", "id"]
PUL = ["a", "b", "someName", "items", "keys", "aB", "x-y", "", "0", "id", "__x", "\u00e9", "get", "n" * 30]


class SE(str, enum.Enum):
    A = "va"
    B = "items"


class IE(int, enum.Enum):
    A = 7


class BE(enum.Enum):
    A = 1


BAD = ["bytes", "bytearray", "set", "enum", "object", "decimal", "complex", "range", "memoryview", "tuplekey", "outtype", "outtype"]
leaf = st.one_of(st.none(), st.booleans(), st.integers(-10, 10), st.integers(), st.floats(), st.text(max_size=5),
                 st.sampled_from(["", "a", "\ud800", "\u2028", "</", "\0", '"\\']))
plain_key = st.one_of(st.sampled_from(["a", "b", "items", "", "some_name", "someName"]), st.text(max_size=3), st.integers(-2, 2), st.booleans(), st.none(), st.floats(-1, 1))


def pairs(k, v, n=3):
    return st.lists(st.tuples(k, v).map(list), max_size=n)


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    classes = []
    for i in range(draw(st.integers(1, 3))):
        n = draw(st.integers(0, 4))
        py = draw(st.lists(st.sampled_from(PY), min_size=n, max_size=n, unique=True))
        pul = draw(st.lists(st.one_of(st.sampled_from(PUL[:7]), st.sampled_from([p for p in PUL if p])), min_size=n, max_size=n, unique=True))
        base = draw(st.integers(0, i - 1)) if i and draw(st.booleans()) else None
        classes.append({"kind": pick(["in", "in", "in", "out"]), "dict": draw(st.booleans()), "style": pick(["ann", "get"]),
                        "props": [[a, (b or a)] for a, b in zip(py, pul)], "base": base if base is None or classes[base]["base"] is None else None})
        c = classes[-1]
        if c["base"] is not None:
            # an undecorated plain base with getters: properties of both are declared
            b = classes[c["base"]]
            names, pulnames = {p for p, _ in c["props"]}, {q for _, q in c["props"]}
            c["inh"] = [[p, q] for p, q in b["props"] if p not in names and q not in pulnames and not b.get("inh")]
        else:
            c["inh"] = []
    ins = [i for i, c in enumerate(classes) if c["kind"] == "in" or c["dict"]]
    bad = draw(st.integers(0, 4)) == 0

    def val(depth, intuple=False):
        k = pick(["p", "p"] if depth <= 0 else ["p", "l", "l", "d", "d", "t"] + ([] if intuple else ["i"] * 5))
        if k == "i" and not ins:
            k = "l"
        if k == "p":
            if draw(st.integers(0, 9)) == 0:
                return ["e", pick(["SA", "SB", "IA"])]
            return ["p", draw(leaf)]
        if k == "t":
            return ["t", [val(depth - 1, True) for _ in range(draw(st.integers(0, 3)))]]
        if k == "l":
            return ["l", "list" if intuple else pick(["list", "list", "user", "deque", "sub"]), [val(depth - 1, intuple) for _ in range(draw(st.integers(0, 3)))]]
        if k == "d":
            return ["d", pick(["dict", "sub"]) if intuple else pick(["dict", "dict", "user", "proxy", "od", "sub"]),
                    [[a, val(depth - 1, intuple)] for a in dict.fromkeys(draw(st.lists(plain_key, max_size=3)))]]
        c = pick(ins)
        ps = classes[c]["props"] + classes[c]["inh"]
        return ["i", c, [[p, val(depth - 1)] for p, _ in ps if classes[c]["kind"] == "out" or draw(st.integers(0, 4))]]

    v = val(draw(st.integers(1, 4)))
    if bad:
        # put something unserialisable somewhere
        spots = []

        def walk(x):
            if x[0] in ("l", "t"):
                if x[0] == "l":
                    spots.append((x[2], None))
                for y in x[-1]:
                    walk(y)
            elif x[0] == "d":
                spots.append((x[2], "k"))
                for _, y in x[2]:
                    walk(y)
            elif x[0] == "i":
                for pr in x[2]:
                    spots.append((pr, 1))
                    walk(pr[1])

        walk(v)
        b = ["bad", pick(BAD)]
        if spots:
            where, how = pick(spots)
            if how is None:
                where.append(b)
            elif how == "k":
                where.append(["zz", b])
            else:
                where[1] = b
        else:
            v = b
    return {"classes": classes, "v": v}


def mk_classes(specs):
    import pulumi
    out = []
    for s in specs:
        bases = (dict,) if s["dict"] else ()
        if s["inh"]:
            out_base = {}
            for p, q in s["inh"]:
                out_base[p] = getter_prop(p, q)
            bases = (type("Base", (), out_base),) + bases
        ns = {"__module__": __name__}
        if s["style"] == "ann" and not s["inh"]:
            ns["__annotations__"] = {p: object for p, _ in s["props"]}
            for p, q in s["props"]:
                ns[p] = pulumi.property(q, default=None) if s["kind"] == "in" else pulumi.property(q)
        else:
            for p, q in s["props"]:
                ns[p] = getter_prop(p, q)
            ps = [p for p, _ in s["props"] + s["inh"]]

            def init(self, ps=tuple(ps), **kw):
                assert set(kw) <= set(ps)
                for p in ps:
                    if p in kw:
                        pulumi.set(self, p, kw[p])

            ns["__init__"] = init
        cls = type("C", bases, ns)
        out.append((pulumi.input_type if s["kind"] == "in" else pulumi.output_type)(cls))
    return out


def getter_prop(p, q):
    import pulumi

    def fn(self):
        ...
    fn.__name__ = p
    return property(pulumi.getter(name=q)(fn))


class LSub(list):
    pass


class DSub(dict):
    pass


def pset(d, pairs):
    for k, v in pairs:
        d[k] = v
    return d


def build(x, cl, specs):
    k = x[0]
    if k == "p":
        return x[1]
    if k == "e":
        return {"SA": SE.A, "SB": SE.B, "IA": IE.A}[x[1]]
    if k == "t":
        return tuple(build(y, cl, specs) for y in x[1])
    if k == "l":
        vs = [build(y, cl, specs) for y in x[2]]
        return {"list": list, "user": collections.UserList, "deque": collections.deque, "sub": LSub}[x[1]](vs)
    if k == "d":
        ps = pset({}, [(a, build(y, cl, specs)) for a, y in x[2]])
        return {"dict": dict, "user": collections.UserDict, "proxy": pytypes.MappingProxyType, "od": collections.OrderedDict, "sub": DSub}[x[1]](ps)
    if k == "i":
        return cl[x[1]](**{p: build(y, cl, specs) for p, y in x[2]})
    return bad(x[1])


def bad(k):
    if k == "tuplekey":
        return {(1, 2): 3}
    if k == "outtype":
        import pulumi
        c = type("O", (), {"__annotations__": {"a": int}, "a": pulumi.property("a"), "__module__": __name__})
        return pulumi.output_type(c)(a=1)
    return {"bytes": b"x", "bytearray": bytearray(b"x"), "set": {1}, "enum": BE.A, "object": object(), "decimal": decimal.Decimal(1), "complex": 1j,
            "range": range(3), "memoryview": memoryview(b"ab")}[k]


def expected(x, specs):
    """The structure as plain dicts and lists."""
    k = x[0]
    if k == "p":
        return x[1]
    if k == "e":
        return {"SA": "va", "SB": "items", "IA": 7}[x[1]]
    if k in ("t", "l"):
        return [expected(y, specs) for y in x[-1]]
    if k == "d":
        return pset({}, [(a, expected(y, specs)) for a, y in x[2]])
    if k == "i":
        s = specs[x[1]]
        given = {p: expected(y, specs) for p, y in x[2]}
        if s["kind"] == "out":
            return {p: given[p] for p, _ in s["props"] + s["inh"]}
        return {q: given[p] for p, q in s["inh"] + s["props"] if given.get(p) is not None}
    raise AssertionError(x)


def has(x, what):
    if x[0] == what:
        return True
    if x[0] in ("t", "l"):
        return any(has(y, what) for y in x[-1])
    if x[0] in ("d", "i"):
        return any(has(y, what) for _, y in x[2])
    return False


class Pairs(list):
    pass


def canon(text):
    def norm(v):
        if isinstance(v, Pairs):
            return ("obj", sorted(((k, norm(y)) for k, y in v), key=repr))
        if isinstance(v, list):
            return ["arr"] + [norm(y) for y in v]
        return (type(v).__name__, v)

    return repr(norm(json.loads(text, object_pairs_hook=Pairs, parse_constant=lambda c: ("const", c))))


@part("tojson", quick=6000, thorough=80000, rule="the structure contains a typed input and is at least two levels deep")
def _tojson():
    def run(case, rec):
        from pulumi import runtime
        cl = mk_classes(case["classes"])
        v = build(case["v"], cl, case["classes"])
        if has(case["v"], "bad"):
            rec.label("not serialisable")
            rec.nontriv()
            try:
                r = runtime.to_json(v)
            except TypeError:
                return
            fail(f"something JSON cannot represent was converted to {r!r}")
        want = json.dumps(expected(case["v"], case["classes"]))
        got = runtime.to_json(v)
        if not isinstance(got, str):
            fail(f"to_json returned {got!r}")
        if canon(got) != canon(want):
            fail(f"to_json gave {got}", f"expected {want}")
        if runtime.to_json(v) != got:
            fail("converting again gives something else")
        if has(case["v"], "i"):
            rec.label("typed")
            if case["v"][0] != "i" or any(y[0] in ("i", "d", "l") for _, y in case["v"][2]):
                rec.nontriv()

    return cases(), run
