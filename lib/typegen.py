"""Generated type hierarchies, as the source text of a module, with values for them and a reference translation.

T:  ("str",) ("int",) ("num",) ("bool",) ("any",) ("enum", "S"|"I"|"F") ("list", spelling, T) ("map", spelling, T) ("cls", i)
Schema: {"classes": [{"style": "ann"|"get", "ostyle": "ann"|"get"|"tr", "props": [(py, pul, T, opt)]}], "props": [(py, pul, T, opt)], "rstyle"}
Input values V:  ("p", x) ("enum", kind, member) ("list", [V]) ("dict", [(k, V)]) ("inst", i, [(py, V)]) ("o", V) ("aw", V)
"""
import linecache
import sys

from engine import SECRET_SIG, SIG
from hypothesis import strategies as st

PY = ["first_arg", "second_arg", "name", "items", "get", "keys", "value", "a_b", "some_list", "type_", "values", "class_", "pop", "x", "tags_all", "arg0"]
PUL = {"first_arg": ["firstArg", "first_arg", "second_arg"], "second_arg": ["secondArg", "firstArg"], "name": ["name", "nameProp"], "a_b": ["aB", "a_b", "x"],
       "some_list": ["someList", "someLists"], "type_": ["type", "type_"], "class_": ["class", "kind"], "tags_all": ["tagsAll", "tags"], "x": ["x", "a_b", "X"],
       "arg0": ["arg0", "$ref", "a-b"]}
ALLKEYS = sorted(set(PY) | {p for v in PUL.values() for p in v} | {"k", "some-key", "", "a.b", "_q"})
ENUMS = {"S": [("ONE", "one"), ("TWO", "two-x")], "I": [("ONE", 1), ("BIG", 70000)], "F": [("HALF", 0.5), ("TWO", 2.0)]}
HEAD = """
import pulumi
from enum import Enum
from typing import Any, Dict, List, Mapping, Optional, Sequence

class S(str, Enum):
    ONE = "one"
    TWO = "two-x"

class I(int, Enum):
    ONE = 1
    BIG = 70000

class F(float, Enum):
    HALF = 0.5
    TWO = 2.0

def awaits(x):
    return x
"""


def inner(draw, n, depth):
    """the type of the elements: often a class of its own, the case in which the elements have names to translate"""
    if n and draw(st.integers(0, 2)) == 0:
        return ("cls", draw(st.integers(0, n - 1)))
    return draw(types(n, depth))


@st.composite
def types(draw, n, depth=2):
    k = draw(st.sampled_from(["cls", "list", "map", "map", "str", "int", "cls", "any", "enum", "num", "bool"] if depth > 0 else ["str", "int", "num", "bool", "any", "enum", "cls"]))
    if k == "cls" and n:
        return ("cls", draw(st.integers(0, n - 1)))
    if k == "list":
        return ("list", draw(st.sampled_from(["Sequence", "List", "list"])), inner(draw, n, depth - 1))
    if k == "map":
        return ("map", draw(st.sampled_from(["Mapping", "Mapping", "Dict", "dict"])), inner(draw, n, depth - 1))
    if k == "enum":
        return ("enum", draw(st.sampled_from(sorted(ENUMS))))
    return ("str",) if k == "cls" else (k,)


@st.composite
def props(draw, n, lo=1, hi=4):
    out, used = [], set()
    for py in draw(st.lists(st.sampled_from(PY), min_size=lo, max_size=hi, unique=True)):
        pul = draw(st.sampled_from(PUL.get(py, [py])))
        if pul in used:
            continue
        used.add(pul)
        out.append((py, pul, draw(types(n)), draw(st.booleans())))
    return out


@st.composite
def schemas(draw):
    n = draw(st.integers(1, 3))
    return {"classes": [{"style": draw(st.sampled_from(["ann", "get", "dict"])), "ostyle": draw(st.sampled_from(["ann", "get", "tr"])), "props": draw(props(n))} for _ in range(n)],
            "props": draw(props(n)), "rstyle": draw(st.sampled_from(["ann", "get"])), "astyle": draw(st.sampled_from(["ann", "get"]))}


# ---------------------------------------------------------------------- source
SCALAR = {"str": "str", "int": "int", "num": "float", "bool": "bool", "any": "Any"}


def in_text(t):
    if t[0] in SCALAR:
        return SCALAR[t[0]]
    if t[0] == "enum":
        return f"'{t[1]}'"
    if t[0] == "list":
        return f"{t[1]}[pulumi.Input[{in_text(t[2])}]]"
    if t[0] == "map":
        return f"{t[1]}[str, pulumi.Input[{in_text(t[2])}]]"
    return f"pulumi.InputType['A{t[1]}']"


def out_text(t, opt=False):
    if t[0] in SCALAR:
        x = SCALAR[t[0]]
    elif t[0] == "enum":
        x = f"'{t[1]}'"
    elif t[0] == "list":
        x = f"{t[1]}[{out_text(t[2])}]"
    elif t[0] == "map":
        x = f"{t[1]}[str, {out_text(t[2])}]"
    else:
        x = f"'O{t[1]}'"
    return f"Optional[{x}]" if opt else x


def input_class(name, style, ps):
    # properties without a default must come first
    ps = sorted(ps, key=lambda p: p[3])
    ty = lambda t, opt: f"Optional[pulumi.Input[{in_text(t)}]]" if opt else f"pulumi.Input[{in_text(t)}]"
    out = ["@pulumi.input_type", f"class {name}(dict):" if style == "dict" else f"class {name}:"]
    if style == "ann":
        for py, pul, t, opt in ps:
            out.append(f"    {py}: {ty(t, opt)} = pulumi.property({pul!r}{', default=None' if opt else ''})")
        return out or ["    pass"]
    out.append("    def __init__(self, *, " + ", ".join(f"{py}: {ty(t, opt)}" + (" = None" if opt else "") for py, pul, t, opt in ps) + "):")
    for py, pul, t, opt in ps:
        out.append(f"        if {py} is not None:" if opt else "        if True:")
        out.append(f"            pulumi.set(__self__, {py!r}, {py})".replace("__self__", "self"))
    for py, pul, t, opt in ps:
        dec = "@pulumi.getter" if py == pul else f"@pulumi.getter(name={pul!r})"
        out += ["    @property", "    " + dec, f"    def {py}(self) -> {ty(t, opt)}:", f"        return pulumi.get(self, {py!r})",
                f"    @{py}.setter", f"    def {py}(self, value: {ty(t, opt)}):", f"        pulumi.set(self, {py!r}, value)"]
    return out


def output_class(name, style, ps, table):
    ps = sorted(ps, key=lambda p: p[3])
    out = ["@pulumi.output_type", f"class {name}(dict):"]
    if style == "ann":
        for py, pul, t, opt in ps:
            out.append(f"    {py}: {out_text(t, opt)} = pulumi.property({pul!r}{', default=None' if opt else ''})")
        return out
    out.append("    def __init__(self, *, " + ", ".join(f"{py}: {out_text(t, opt)}" + (" = None" if opt else "") for py, pul, t, opt in ps) + "):")
    for py, pul, t, opt in ps:
        out.append(f"        if {py} is not None:" if opt else "        if True:")
        out.append(f"            pulumi.set(self, {py!r}, {py})")
    for py, pul, t, opt in ps:
        dec = "@pulumi.getter" if py == pul else f"@pulumi.getter(name={pul!r})"
        out += ["    @property", "    " + dec, f"    def {py}(self) -> {out_text(t, opt)}:", f"        return pulumi.get(self, {py!r})"]
    if style == "tr":
        out += ["    def _translate_property(self, prop):", f"        return {table!r}.get(prop) or prop"]
    return out


def tr_table(ps):
    return {pul: py for py, pul, _, _ in ps}


def source(sc):
    out = [HEAD]
    for i, c in enumerate(sc["classes"]):
        out += input_class(f"A{i}", c["style"], c["props"]) + [""]
        out += output_class(f"O{i}", c["ostyle"], c["props"], tr_table(c["props"])) + [""]
    out += input_class("ResArgs", sc["astyle"], [(py, pul, t, True) for py, pul, t, opt in sc["props"]])
    out += output_class("Result", sc["classes"][0]["ostyle"], sc["props"], tr_table(sc["props"]))
    for base in ("CustomResource", "ComponentResource"):
        out += ["", f"class {'Res' if base[1] == 'u' else 'Comp'}(pulumi.{base}):", "    def __init__(self, name, props, opts=None, **kw):",
                f"        super().__init__('pkg:mod:Res', name, props, opts, **kw)"]
        for py, pul, t, opt in sc["props"]:
            if sc["rstyle"] == "ann":
                out.append(f"    {py}: pulumi.Output[{out_text(t, opt)}] = pulumi.property({pul!r})")
            else:
                dec = "@pulumi.getter" if py == pul else f"@pulumi.getter(name={pul!r})"
                out += ["    @property", "    " + dec, f"    def {py}(self) -> pulumi.Output[{out_text(t, opt)}]:", f"        return pulumi.get(self, {py!r})"]
    return "\n".join(out)


class Module:
    n = 0

    def __init__(self, sc):
        import types as pytypes

        Module.n += 1
        self.name = f"verif_gen_{Module.n}"
        self.text = source(sc)
        self.m = pytypes.ModuleType(self.name)
        sys.modules[self.name] = self.m
        exec(compile(self.text, f"<{self.name}>", "exec"), self.m.__dict__)

    def close(self):
        sys.modules.pop(self.name, None)


# ---------------------------------------------------------------------- input values
prim = {"str": st.sampled_from(["", "s", "first_arg", "\u00e9"]), "int": st.sampled_from([0, 1, -7, 2**40]), "num": st.sampled_from([0.5, 2.0, 3, -1e10]),
        "bool": st.booleans()}


class InGen:
    def __init__(self, draw, sc, lazy=True):
        self.draw, self.sc, self.lazy = draw, sc, lazy

    def v(self, t, depth):
        d = self.draw
        k = d(st.integers(0, 11))
        if self.lazy and k in (6, 7) and depth > 0:
            return ("o" if k == 6 else "aw", self.v(t, depth - 1))
        if t[0] in prim:
            if k == 8 and depth > 0:
                return self.free(depth - 1, flat=True)  # a dictionary where the declaration says otherwise is passed through
            return ("p", d(prim[t[0]]))
        if t[0] == "any":
            return self.free(depth)
        if t[0] == "enum":
            m, x = d(st.sampled_from(ENUMS[t[1]]))
            return ("enum", t[1], m) if d(st.booleans()) else ("p", x)
        if t[0] == "list":
            if depth > 0 and d(st.integers(0, 15)) == 15:
                n = d(st.sampled_from([11, 40]))
                return ("list", [self.v(t[2], 0) for _ in range(3)] + [self.least(t[2]) for _ in range(n)] + [self.v(t[2], depth - 1)])
            return ("list", [self.v(t[2], depth - 1) for _ in range(d(st.integers(0, 2)) if depth > 0 else 0)])
        if t[0] == "map":
            ks = d(st.lists(st.sampled_from(ALLKEYS), max_size=3 if depth > 0 else 0, unique=True))
            if depth > 0 and d(st.integers(0, 15)) == 15:
                return ("dict", [("w%d" % i, self.least(t[2])) for i in range(d(st.sampled_from([11, 40])))] + [(x, self.v(t[2], depth - 1)) for x in ks])
            return ("dict", [(x, self.v(t[2], depth - 1)) for x in ks])
        return self.cls(t[1], depth)

    def cls(self, i, depth):
        d = self.draw
        ps = self.sc["classes"][i]["props"]
        if k_dict(d):
            names = d(st.lists(st.sampled_from([p[0] for p in ps]), max_size=3 if depth > 0 else 0, unique=True))
            out = [(n, self.v(next(p[2] for p in ps if p[0] == n), depth - 1)) for n in names]
            taken = {next(p[1] for p in ps if p[0] == n) for n in names} | {p[0] for p in ps}
            for x in d(st.lists(st.sampled_from(ALLKEYS), max_size=1)) if depth > 0 else []:
                if x not in taken:
                    # an engine name (typed like the property) or something the type does not declare
                    t = next((p[2] for p in ps if p[1] == x), ("any",))
                    out.append((x, self.v(t, depth - 1)))
            return ("dict", out)
        return ("inst", i, [(p[0], self.v(p[2], depth - 1)) for p in ps if not p[3] or depth > 0 and d(st.booleans())] if depth > 0 else
                [(p[0], self.least(p[2])) for p in ps if not p[3]])

    def least(self, t):
        if t[0] in prim:
            return ("p", {"str": "z", "int": 3, "num": 1.5, "bool": True}[t[0]])
        if t[0] == "any":
            return ("p", "z")
        if t[0] == "enum":
            return ("enum", t[1], ENUMS[t[1]][0][0])
        return ("list", []) if t[0] == "list" else ("dict", [])

    def free(self, depth, flat=False):
        d = self.draw
        k = d(st.integers(0, 5)) if depth > 0 else 0
        if flat:
            k = 3
        if k in (1, 2):
            return ("list", [self.free(depth - 1) for _ in range(d(st.integers(0, 2)))])
        if k in (3, 4):
            ks = d(st.lists(st.sampled_from(ALLKEYS), max_size=3, unique=True))
            return ("dict", [(x, ("p", d(prim["str"])) if flat else self.free(depth - 1)) for x in ks])
        if k == 5:
            return self.cls(d(st.integers(0, len(self.sc["classes"]) - 1)), depth - 1)
        return ("p", d(st.one_of(prim["str"], prim["num"], prim["bool"])))


def k_dict(d):
    return d(st.sampled_from([False, True]))


def enc(sc, t, v, tr=None):
    """reference: wire value of v declared as t (None: undeclared); tr: the resource's own translator for undeclared names"""
    k = v[0]
    if k in ("o", "aw"):
        return enc(sc, t, v[1], tr)
    if k == "p":
        return v[1]
    if k == "enum":
        return next(x for m, x in ENUMS[v[1]] if m == v[2])
    if k == "list":
        et = t[2] if t and t[0] == "list" else None
        return [enc(sc, et, x, tr) for x in v[1]]
    if k == "inst":
        ps = {p[0]: p for p in sc["classes"][v[1]]["props"]}
        return {ps[n][1]: enc(sc, ps[n][2], x, tr) for n, x in v[2]}
    if t and t[0] == "cls":
        ps = sc["classes"][t[1]]["props"]
        name = {p[0]: p[1] for p in ps}
        typ = {p[1]: p[2] for p in ps}
        out = {}
        for n, x in v[1]:
            e = name.get(n, n)
            out[e] = enc(sc, typ.get(e), x, tr)
        return out
    if t and t[0] == "map":
        return {n: enc(sc, t[2], x, tr) for n, x in v[1]}
    if t and t[0] not in ("any",):
        return {n: enc(sc, None, x, tr) for n, x in v[1]}
    return {(tr(n) if tr else n): enc(sc, None, x, tr) for n, x in v[1]}


class InBuild:
    def __init__(self, mod, sc):
        import asyncio
        self.m, self.sc, self.asyncio, self.pending = mod.m, sc, asyncio, []

    def idle(self, i):
        if i is None:
            return len(self.pending)
        self.pending.pop(i)()

    def b(self, v):
        import pulumi
        k = v[0]
        if k == "p":
            return v[1]
        if k == "enum":
            return getattr(getattr(self.m, v[1]), v[2])
        if k == "list":
            return [self.b(x) for x in v[1]]
        if k == "dict":
            return {n: self.b(x) for n, x in v[1]}
        if k == "inst":
            return getattr(self.m, f"A{v[1]}")(**{n: self.b(x) for n, x in v[2]})
        x = self.b(v[1])
        f = self.asyncio.get_event_loop().create_future()
        self.pending.append(lambda: f.set_result(x))
        if k == "aw":
            return f
        return pulumi.Output.from_input(f)


def walk_in(v):
    yield v
    if v[0] in ("o", "aw"):
        yield from walk_in(v[1])
    elif v[0] == "list":
        for x in v[1]:
            yield from walk_in(x)
    elif v[0] == "dict":
        for _, x in v[1]:
            yield from walk_in(x)
    elif v[0] == "inst":
        for _, x in v[2]:
            yield from walk_in(x)


# ---------------------------------------------------------------------- output values: ("sec", j) marks a secret, dicts as pairs
class OutGen:
    def __init__(self, draw, sc, bad=0, secret=True):
        self.draw, self.sc, self.secret = draw, sc, secret
        self.bad = bad  # number of non-conforming places still to plant

    def j(self, t, depth):
        d = self.draw
        k = d(st.integers(0, 15))
        if self.secret and k == 13:
            return ("sec", self.j(t, depth))
        if k == 14:
            return None
        if self.bad and k in (10, 11, 12) and t[0] != "any":
            x = self.misfit(t, depth)
            if x is not None:
                self.bad -= 1
                return x
        if t[0] == "str":
            return d(prim["str"])
        if t[0] == "int":
            return d(prim["int"])
        if t[0] == "num":
            return d(prim["num"])
        if t[0] == "bool":
            return d(prim["bool"])
        if t[0] == "enum":
            return d(st.sampled_from(ENUMS[t[1]]))[1]
        if t[0] == "any":
            return self.free(depth)
        if t[0] == "list":
            few = [self.j(t[2], depth - 1) for _ in range(d(st.integers(0, 2)) if depth > 0 else 0)]
            if few and d(st.integers(0, 9)) == 9:
                return few[:1] * d(st.sampled_from([11, 40])) + few
            return few
        if t[0] == "map":
            ks = d(st.lists(st.sampled_from(ALLKEYS), max_size=3 if depth > 0 else 0, unique=True))
            return ("d", [(x, self.j(t[2], depth - 1)) for x in ks])
        ps = self.sc["classes"][t[1]]["props"]
        out = [(p[1], self.j(p[2], depth - 1)) for p in ps if depth > 0 and d(st.integers(0, 3))]
        if d(st.integers(0, 3)) == 0 and not any(p[1] == "extra" for p in ps):
            out.append(("extra", self.free(0)))
        return ("d", out)

    def misfit(self, t, depth):
        """a value the type cannot have, of the kinds that must be reported"""
        if t[0] in ("str", "int", "num", "bool", "list", "enum"):
            return ("d", [(k, "v") for k in self.draw(st.lists(st.sampled_from(ALLKEYS), max_size=2, unique=True))])
        if t[0] in ("cls", "map"):
            return [self.free(0)] if self.draw(st.booleans()) else []
        return None

    def free(self, depth):
        d = self.draw
        k = d(st.integers(0, 4)) if depth > 0 else 0
        if k == 1:
            return [self.free(depth - 1) for _ in range(d(st.integers(0, 2)))]
        if k in (2, 3):
            return ("d", [(x, self.free(depth - 1)) for x in d(st.lists(st.sampled_from(ALLKEYS), max_size=3, unique=True))])
        return d(st.one_of(prim["str"], prim["num"], prim["bool"]))


def to_wire(j):
    if isinstance(j, tuple):
        if j[0] == "sec":
            return {SIG: SECRET_SIG, "value": to_wire(j[1])}
        return {k: to_wire(x) for k, x in j[1]}
    if isinstance(j, list):
        return [to_wire(x) for x in j]
    return j


def has_secret(j):
    if isinstance(j, tuple):
        return j[0] == "sec" or any(has_secret(x) for _, x in j[1])
    return isinstance(j, list) and any(has_secret(x) for x in j)


class Mismatch(Exception):
    """path: engine names and list positions down to the property"""


def check_out(sc, t, j, got, path, modns, tr=None):
    """compares a delivered value with what j must become when declared as t; yields problems"""
    while isinstance(j, tuple) and j[0] == "sec":
        j = j[1]
    where = ".".join(path)
    if j is None:
        if got is not None:
            yield f"{where}: null became {got!r}"
        return
    if isinstance(j, tuple):
        if t and t[0] == "cls":
            cls = getattr(modns, f"O{t[1]}") if isinstance(t[1], int) else getattr(modns, t[1])
            if type(got) is not cls:
                yield f"{where}: declared as {cls.__name__}, got {type(got).__name__} {got!r}"
                return
            ps = sc["classes"][t[1]]["props"] if isinstance(t[1], int) else sc["props"]
            c = sc["classes"][t[1] if isinstance(t[1], int) else 0]
            vals = dict(j[1])
            n = 0
            for py, pul, pt, opt in ps:
                x = vals.get(pul)
                a = getattr(got, py)
                yield from check_out(sc, pt, x, a, path + [py], modns, tr)
                if not same_obj(dict.get(got, py), a):
                    yield f"{where}: dictionary entry {py!r} is {dict.get(got, py)!r}, attribute is {a!r}"
            extra = set(got) - {p[0] for p in ps}
            if extra:
                yield f"{where}: undeclared entries {extra}"
            return
        et = t[2] if t and t[0] == "map" else None
        vals = [(k, x) for k, x in j[1] if strip(x) is not None or isinstance(x, tuple)]
        if type(got) is not dict:
            yield f"{where}: expected a dictionary, got {got!r}"
            return
        keys = [(tr(k) if tr and not (t and t[0] == "map") else k) for k, _ in vals]
        if set(got) != set(keys):
            yield f"{where}: keys {sorted(got)}, expected {sorted(keys)}"
            return
        if len(set(keys)) == len(keys):
            for kk, (k, x) in zip(keys, vals):
                yield from check_out(sc, et, x, got[kk], path + [k], modns, tr)
        return
    if isinstance(j, list):
        et = t[2] if t and t[0] == "list" else None
        if type(got) is not list or len(got) != len(j):
            yield f"{where}: expected a list of {len(j)}, got {got!r}"
            return
        for i, (x, y) in enumerate(zip(j, got)):
            yield from check_out(sc, et, x, y, path + [str(i)], modns, tr)
        return
    if t and t[0] == "enum":
        m = getattr(modns, t[1])(j)
        if got is not m:
            yield f"{where}: expected {m!r}, got {got!r}"
        return
    want = j
    if isinstance(j, bool):
        pass
    elif isinstance(j, (int, float)):
        want = int(j) if t and t[0] == "int" else float(j)
    if type(got) is not type(want) or got != want:
        yield f"{where}: expected {want!r}, got {got!r}"


def strip(j):
    while isinstance(j, tuple) and j[0] == "sec":
        j = j[1]
    return j


def same_obj(a, b):
    return a is b or a == b


def mismatches(sc, t, j, path):
    """paths of the values that cannot have their declared type"""
    while isinstance(j, tuple) and j[0] == "sec":
        j = j[1]
    if isinstance(j, tuple):
        if t is None or t[0] == "any":
            return
        if t[0] == "map":
            for k, x in j[1]:
                yield from mismatches(sc, t[2], x, path + [k])
        elif t[0] == "cls":
            ps = {p[1]: p[2] for p in (sc["classes"][t[1]]["props"] if isinstance(t[1], int) else sc["props"])}
            for k, x in j[1]:
                yield from mismatches(sc, ps.get(k), x, path + [k])
        else:
            yield "dict", path
    elif isinstance(j, list):
        if t is None or t[0] == "any":
            return
        if t[0] == "list":
            for i, x in enumerate(j):
                yield from mismatches(sc, t[2], x, path + [str(i)])
        else:
            yield "list", path
