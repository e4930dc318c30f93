"""C40 input and output types: generated declarations and access histories against a dictionary model."""
import itertools
import linecache
import sys
import types as pytypes

from harness import fail, part, same
from hypothesis import strategies as st

NAMES = ["a", "b", "first_arg", "second_arg", "items", "get", "keys", "values", "update", "name", "type_", "set", "value", "id", "prop", "default", "copy", "pop", "x"]
PULS = ["a", "b", "firstArg", "secondArg", "first_arg", "second_arg", "items", "get", "name", "type", "x-y", "$ref", "x"]
VALS = st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.text(max_size=2), st.lists(st.integers(0, 2), max_size=2), st.dictionaries(st.sampled_from(["a", "items"]), st.integers(0, 2), max_size=2), st.floats(-1, 1))
SCALARS = st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.text(max_size=2))
TYPES = ["str", "Optional[int]", "pulumi.Input[str]", "Optional[pulumi.Input[float]]", "Any", "'Later'", "Mapping[str, str]", "Sequence['Later']"]
EMPTY = ["...", "pass", '"""Doc."""', '"""Doc."""\n        ...', "return None"]
GETBODY = ["empty"] * 4 + ["plain", "wrap"]
counter = itertools.count()


@st.composite
def decls(draw, i):
    pick = lambda xs: draw(st.sampled_from(xs))
    d = {"io": pick(["in", "out", "out"]), "dict": draw(st.booleans()), "style": pick(["ann", "ann", "get"]), "base": None}
    names = draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True))
    d["tr"] = pick(["no", "no", "snake", "prefix"]) if d["io"] == "out" else "no"
    props, keys, puls = [], set(), set()
    for py in names:
        pul = pick([None, py, pick(PULS), pick(PULS)])
        p = {"py": py, "pul": pul, "type": pick(TYPES)}
        eff = pul or py
        k = key_of(d, py, eff)
        if eff in puls or k in keys:
            continue
        puls.add(eff), keys.add(k)
        props.append(p)
    # where the properties are declared: in the class, or (getters only) in an undecorated base
    d["split"] = draw(st.integers(1, len(props))) if props and draw(st.integers(0, 3)) == 0 else 0
    opt = False
    for n, p in enumerate(props):
        inbase = n < d["split"]
        p["style"] = "get" if inbase or d["style"] == "get" else "ann"
        opt = opt or draw(st.booleans())
        p["default"] = pick([["none"], ["none"], ["val", draw(VALS.filter(lambda v: v is not None))]]) if opt else ["missing"]
        p["get"] = pick(GETBODY) if p["style"] == "get" else "empty"
        p["gt"] = pick(EMPTY)
        p["paren"] = p["style"] == "get" and draw(st.booleans())
        p["set"] = ("no" if d["io"] == "out" else pick(["empty"] * 4 + ["plain", "wrap", "no"])) if p["style"] == "get" else ("auto" if d["io"] == "in" else "no")
        p["st"] = pick(EMPTY)
        # `x: int` and `x: int = 5` also declare a property; its default may not be a property object then
        p["bare"] = p["style"] == "ann" and p["pul"] is None and draw(st.booleans())
    d["props"] = props
    d["init"] = "auto" if d["style"] == "ann" and not d["split"] else "written"
    d["sub"] = draw(st.booleans())
    return d


def key_of(d, py, pul):
    return py if d["tr"] == "no" else translate(d["tr"], pul)


def translate(tr, pul):
    if tr == "prefix":
        return "k_" + pul
    return {"firstArg": "first_arg", "secondArg": "second_arg", "x-y": "x_y", "type": "type"}.get(pul, pul)


def source(ds):
    out = ["import pulumi", "from typing import *", ""]
    for i, d in enumerate(ds):
        b = d["props"][:d["split"]]
        own = d["props"][d["split"]:]
        bases = []
        if b:
            out.append(f"class B{i}:")
            for p in b:
                out += getter(p)
            bases.append(f"B{i}")
        if d["dict"]:
            bases.append("dict")
        out.append(f"@pulumi.{d['io']}put_type")
        out.append(f"class C{i}({', '.join(bases)}):")
        out.append("    marker = 1")
        if d["tr"] != "no":
            out.append("    def _translate_property(self, prop):")
            out.append(f"        return TRANSLATE({d['tr']!r}, prop)")
        if d["init"] == "written":
            ps = d["props"]
            sig = ["self"] + (["*"] if ps else []) + [f"{p['py']}" + ("" if p["default"][0] == "missing" else f"={p['default'][1] if p['default'][0] == 'val' else None!r}") for p in ps]
            # `self` may not be a property's name, so this is safe
            out.append(f"    def __init__({', '.join(sig)}):")
            out.append("        pass")
            for p in ps:
                ind = "        "
                if p["default"][0] == "none":
                    out.append(f"        if {p['py']} is not None:")
                    ind += "    "
                out.append(f"{ind}pulumi.set(self, {p['py']!r}, {p['py']})")
        for p in own:
            if p["style"] == "get":
                out += getter(p)
            else:
                dflt = "" if p["default"][0] == "missing" else repr(p["default"][1]) if p["default"][0] == "val" else "None"
                if p["bare"]:
                    out.append(f"    {p['py']}: {p['type']}" + (f" = {dflt}" if dflt else ""))
                else:
                    out.append(f"    {p['py']}: {p['type']} = pulumi.property({p['pul'] or p['py']!r}" + (f", default={dflt}" if dflt else "") + ")")
        if d["sub"]:
            out += [f"class S{i}(C{i}):", "    def extra(self):", "        return 7"]
    out += ["class Later:", "    pass", ""]
    return "\n".join(out)


def getter(p):
    dec = f"@pulumi.getter(name={p['pul']!r})" if p["pul"] else "@pulumi.getter()" if p["paren"] else "@pulumi.getter"
    py = p["py"]
    body = p["gt"] if p["get"] == "empty" else f"return pulumi.get(self, {py!r})" if p["get"] == "plain" else f"return ['got', pulumi.get(self, {py!r})]"
    out = ["    @property", f"    {dec}", f"    def {py}(self) -> {p['type']}:", "        " + body]
    if p["set"] != "no":
        body = p["st"] if p["set"] == "empty" else f"pulumi.set(self, {py!r}, value)" if p["set"] == "plain" else f"pulumi.set(self, {py!r}, ['set', value])"
        out += [f"    @{py}.setter", f"    def {py}(self, value: {p['type']}):", "        " + body]
    return out


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    ds = [draw(decls(i)) for i in range(draw(st.integers(1, 2)))]
    ops = []
    n = 0
    objs = []
    for _ in range(draw(st.integers(2, 14))):
        k = pick(["new", "new", "attr", "set", "set", "item", "check", "from", "eq", "bad"] if objs else ["new", "from"])
        if k == "new":
            c = draw(st.integers(0, len(ds) - 1))
            args = {}
            for p in ds[c]["props"]:
                if p["default"][0] == "missing" or draw(st.integers(0, 2)):
                    args[p["py"]] = draw(VALS)
            objs.append(c)
            ops.append(["new", c, ds[c]["sub"] and draw(st.booleans()), args])
            if draw(st.integers(0, 2)) == 0:
                objs.append(c)
                ops.append(["new", c, ops[-1][2] if draw(st.booleans()) else ds[c]["sub"], dict(args)])
                ops.append(["eq", len(objs) - 1, len(objs) - 2])
        elif k == "from":
            outs = [i for i, d in enumerate(ds) if d["io"] == "out"]
            if not outs:
                continue
            c = pick(outs)
            objs.append(c)
            ops.append(["from", c, {(p["pul"] or p["py"]): draw(SCALARS) for p in ds[c]["props"] if draw(st.integers(0, 3))}])
        elif k == "eq":
            ops.append(["eq", draw(st.integers(0, len(objs) - 1)), draw(st.integers(0, len(objs) - 1))])
        elif k == "bad":
            o = draw(st.integers(0, len(objs) - 1))
            ops.append(["bad", o, pick(["getempty", "setempty", "getint", "plain", "twice", "twicesub", "unknownarg", "missing", "order"])])
        else:
            o = draw(st.integers(0, len(objs) - 1))
            ps = ds[objs[o]]["props"]
            if not ps:
                continue
            p = pick(ps)
            if k == "item" and not ds[objs[o]]["dict"]:
                k = "set"
            ops.append([k, o, p["py"], draw(VALS)] if k != "check" else [k, o])
    return {"decls": ds, "ops": ops}


class Obj:
    def __init__(self, cls, d, real, store):
        self.cls, self.d, self.real, self.store = cls, d, real, store


def effective(p):
    return p["pul"] or p["py"]


@part("types", quick=5000, thorough=80000, rule="a renamed, inherited, translated or custom property is written after construction and read again")
def _types():
    def run(case, rec):
        import pulumi
        from pulumi.runtime import rpc
        src = source(case["decls"])
        name = f"verif_c40_{next(counter)}"
        fn = f"<{name}>"
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        mod = pytypes.ModuleType(name)
        mod.TRANSLATE = translate
        sys.modules[name] = mod
        try:
            try:
                exec(compile(src, fn, "exec"), mod.__dict__)
            except Exception as e:
                fail(f"the declaration is rejected: {type(e).__name__}: {e}", src)
            go(case, rec, mod, pulumi, rpc, src)
        finally:
            del sys.modules[name]
            linecache.cache.pop(fn, None)

    def go(case, rec, mod, pulumi, rpc, src):
        objs = []
        wrote = False

        def expect_error(what, errs, f):
            try:
                r = f()
            except errs:
                return
            except Exception as e:
                fail(f"{what} raised {type(e).__name__}: {e}", src)
            fail(f"{what} gave {r!r} instead of an error", src)

        def check(o):
            d = o.d
            for p in d["props"]:
                py = p["py"]
                k = key_of(d, py, effective(p))
                want = o.store.get(k)
                got = pulumi.get(o.real, py)
                if not same(got, want):
                    fail(f"pulumi.get of {py} gave {got!r}, expected {want!r}", src)
                w = ["got", want] if p["get"] == "wrap" else want
                got = getattr(o.real, py)
                if not same(got, w):
                    fail(f"attribute {py} is {got!r}, expected {w!r}", src)
                if d["dict"]:
                    if (k in o.real) != (k in o.store):
                        fail(f"{k!r} in the dictionary: {k in o.real}, expected {k in o.store}", src)
                    if k in o.store and not same(o.real[k], want):
                        fail(f"item {k!r} is {o.real[k]!r}, expected {want!r}", src)
            if d["dict"]:
                plain = {k: o.real[k] for k in dict.keys(o.real)}
                if not same(plain, o.store):
                    fail(f"the dictionary is {plain!r}, expected {o.store!r}", src)
            if getattr(o.real, "marker", None) != 1:
                fail("a class attribute was lost", src)

        for op in case["ops"]:
            k = op[0]
            if k == "new":
                _, c, sub, args = op
                d = case["decls"][c]
                cls = getattr(mod, ("S" if sub else "C") + str(c))
                try:
                    real = cls(**args)
                except Exception as e:
                    fail(f"C{c}(**{args!r}) raised {type(e).__name__}: {e}", src)
                store = {}
                for p in d["props"]:
                    t = p["default"][0]
                    if p["py"] in args:
                        v = args[p["py"]]
                        stored = not (v is None and none_skipped(d, p))
                    else:
                        v = p["default"][1] if t == "val" else None
                        stored = t == "val" and not (v is None and none_skipped(d, p))
                    if stored:
                        store[key_of(d, p["py"], effective(p))] = v
                objs.append(Obj((c, sub), d, real, store))
            elif k == "from":
                _, c, vals = op
                d = case["decls"][c]
                real = rpc.translate_output_properties(vals, lambda x: x, getattr(mod, f"C{c}"), True)
                if type(real) is not getattr(mod, f"C{c}"):
                    fail(f"the engine's dictionary became {real!r}", src)
                store = {}
                for p in d["props"]:
                    v = vals.get(effective(p))
                    if not (v is None and none_skipped(d, p)):
                        store[key_of(d, p["py"], effective(p))] = v
                objs.append(Obj((c, False), d, real, store))
            elif k == "eq":
                a, b = objs[op[1]], objs[op[2]]
                want = a is b or (a.cls == b.cls and a.store == b.store)
                if (a.real == b.real) is not want or (a.real != b.real) is want:
                    fail(f"== is {a.real == b.real} and != is {a.real != b.real} for {a.store!r} and {b.store!r} of {'the same class' if a.cls == b.cls else 'different classes'}", src)
                if a.d["dict"] and (a.real == dict(a.store) or dict(a.store) == a.real):
                    fail("an instance equals a plain dictionary", src)
                rec.label("equal" if want and a is not b else "eq")
            elif k == "check":
                check(objs[op[1]])
            elif k in ("attr", "set", "item"):
                o = objs[op[1]]
                p = [p for p in o.d["props"] if p["py"] == op[2]][0]
                key = key_of(o.d, p["py"], effective(p))
                v = op[3]
                special = p["get"] == "wrap" or p["set"] == "wrap" or effective(p) != p["py"] or o.d["tr"] != "no" or p in o.d["props"][:o.d["split"]] or o.cls[1]
                if k == "attr":
                    if p["set"] == "no":
                        expect_error(f"assigning {p['py']}, which has no setter,", AttributeError, lambda: setattr(o.real, p["py"], v))
                        check(o)
                        continue
                    setattr(o.real, p["py"], v)
                    o.store[key] = ["set", v] if p["set"] == "wrap" else v
                elif k == "set":
                    pulumi.set(o.real, p["py"], v)
                    o.store[key] = v
                else:
                    o.real[key] = v
                    o.store[key] = v
                check(o)
                if special:
                    rec.nontriv()
            elif k == "bad":
                o = objs[op[1]]
                c, d, b = o.cls[0], o.d, op[2]
                C = getattr(mod, f"C{c}")
                deco = pulumi.input_type if d["io"] == "in" else pulumi.output_type
                if b == "getempty":
                    expect_error("pulumi.get of ''", TypeError, lambda: pulumi.get(o.real, ""))
                elif b == "setempty":
                    expect_error("pulumi.set of ''", TypeError, lambda: pulumi.set(o.real, "", 1))
                elif b == "getint":
                    expect_error("pulumi.get of 1", TypeError, lambda: pulumi.get(o.real, 1))
                elif b == "plain":
                    expect_error("pulumi.get of an undecorated object", AssertionError, lambda: pulumi.get(mod.Later(), "a"))
                    expect_error("pulumi.set of an undecorated object", AssertionError, lambda: pulumi.set(mod.Later(), "a", 1))
                elif b == "twice":
                    expect_error("decorating twice", AssertionError, lambda: deco(C))
                    expect_error("decorating as both", AssertionError, lambda: (pulumi.output_type if d["io"] == "in" else pulumi.input_type)(C))
                elif b == "twicesub":
                    expect_error("decorating a subclass", AssertionError, lambda: deco(type("X", (C,), {})))
                elif b == "unknownarg":
                    expect_error("an unknown argument", TypeError, lambda: C(zzz=1, **{p["py"]: 1 for p in d["props"]}))
                elif b == "missing":
                    for p in d["props"]:
                        if p["default"][0] == "missing":
                            expect_error(f"omitting {p['py']}", TypeError, lambda: C(**{q["py"]: 1 for q in d["props"] if q is not p}))
                elif b == "order":
                    ns = {"__annotations__": {"a": int, "b": int}, "a": pulumi.property("a", default=op[1]), "__module__": mod.__name__}
                    expect_error("a property without default after one with", TypeError, lambda: deco(type("X", (dict,) if d["dict"] else (), dict(ns))))
        for o in objs:
            check(o)

    return cases(), run


def none_skipped(d, p):
    """Whether a None passed to the constructor leaves the property unset."""
    return p["default"][0] == "none"
