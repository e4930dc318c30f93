"""C14 aliases: own aliases x parent's aliases."""
import asyncio

import engine
from harness import fail, part
from hypothesis import strategies as st

NAMES = ["app", "newapp", "app-x", "a", "newapp-fn", "x", "zz"]
TYPES = ["pkg:mod:T", "pkg:mod/sub:U", "oth:index:V"]
URNS = ["urn:pulumi:old::oldproj::pkg:mod:T::app", "urn:pulumi:stk::proj::pkg:mod:C$oth:index:V::newapp", "urn:pulumi:stk::proj::pkg:mod:T::newapp-fn",
        "urn:pulumi:s::p::pkg:mod:A$pkg:mod:B$pkg:mod/sub:U::x"]


@st.composite
def alias(draw, i, parents):
    pick = lambda xs: draw(st.sampled_from(xs))
    if draw(st.integers(0, 3)) == 0:
        a = {"urn": pick(URNS)}
    else:
        a = {}
        fields = draw(st.lists(st.sampled_from(["name", "type_", "parent", "stack", "project"]), max_size=4, unique=True))
        for f in fields:
            if f == "name":
                a[f] = pick(NAMES)
            elif f == "type_":
                a[f] = pick(TYPES)
            elif f == "parent":
                k = pick(["none", "res", "res", "urn", "ourn", "uurn"])
                a[f] = [k, pick(parents) if parents else None] if k == "res" else [k, pick(URNS)] if k != "none" else [k]
                if a[f] == ["res", None]:
                    a[f] = ["none"]
            else:
                a[f] = [pick(["plain", "plain", "out", "unk"]), pick(["s1", "p1"])]
    return [pick(["plain", "plain", "plain", "out", "coro", "applied", "unk"]), a]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    res = []
    for i in range(n):
        pick = lambda xs: draw(st.sampled_from(xs))
        name = pick(NAMES)
        parent = None
        if i and draw(st.integers(0, 4)):
            parent = draw(st.integers(0, i - 1)) if draw(st.integers(0, 2)) == 0 else i - 1
            if draw(st.booleans()):
                name = res[parent]["name"] + pick(["", "-fn", "x"])
        als = draw(st.one_of(st.none(), st.lists(alias(i, list(range(i))), max_size=3 if i < 2 else 2)))
        if als and draw(st.integers(0, 5)) == 0:
            als.append(als[0])
        res.append({"name": name, "type": pick(TYPES), "kind": pick(["comp", "custom", "remote"]), "parent": parent, "aliases": als})
    return {"res": res, "tuple": draw(st.booleans()), "dry": draw(st.booleans())}


def prefix_of(u):
    """everything of a parent's URN but its name"""
    head, name = u.rsplit("::", 1)
    return head


def own_urn(case, i, name=None, typ=None):
    r = case["res"][i]
    t = typ or r["type"]
    n = name or r["name"]
    if r["parent"] is None:
        return f"urn:pulumi:stk::proj::{t}::{n}"
    return f"{prefix_of(own_urn(case, r['parent']))}${t}::{n}"


def single(case, i, a):
    """URN of one explicit alias of resource i (None: not known in this preview)"""
    how, a = a
    if case["dry"] and (how == "unk" or a.get("parent", [0])[0] == "uurn"):
        return None
    if "urn" in a:
        return a["urn"]
    r = case["res"][i]
    name, typ = a.get("name", r["name"]), a.get("type_", r["type"])
    if "parent" not in a:
        par = None if r["parent"] is None else own_urn(case, r["parent"])
    elif a["parent"][0] == "none":
        par = None
    elif a["parent"][0] == "res":
        par = own_urn(case, a["parent"][1])
    else:
        par = a["parent"][1]
    if par is None:
        where = [a.get("stack", ["plain", "stk"]), a.get("project", ["plain", "proj"])]
        if case["dry"] and any(h == "unk" for h, _ in where):
            return None
        return f"urn:pulumi:{where[0][1]}::{where[1][1]}::{typ}::{name}"
    return f"{prefix_of(par)}${typ}::{name}"


def child_of_alias(name, typ, pname, palias):
    """where a child called name/typ of a resource called pname was when that resource was palias"""
    if name.startswith(pname):
        name = palias.rsplit("::", 1)[1] + name[len(pname):]
    return f"{prefix_of(palias)}${typ}::{name}"


def model(case):
    out = []
    for i, r in enumerate(case["res"]):
        own = [single(case, i, a) for a in r["aliases"] or []]
        own = [u for u in own if u is not None]
        urns = list(own)
        if r["parent"] is not None:
            p = case["res"][r["parent"]]
            for pa in out[r["parent"]]:
                urns.append(child_of_alias(r["name"], r["type"], p["name"], pa))
                for u in own:
                    chain, nm = u.split("::")[2:4]
                    urns.append(child_of_alias(nm, chain.split("$")[-1], p["name"], pa))
        out.append(list(dict.fromkeys(urns)))
    return out


def run(case, rec):
    eng = engine.FakeEngine(["secrets"], dry_run=case["dry"])

    def body():
        import pulumi
        made = []
        probe = pulumi.CustomResource("z:z:Probe", "probe", {})  # its id is not known in previews
        unk = lambda v: probe.id.apply(lambda _: v)
        put = {"plain": lambda v: v, "out": pulumi.Output.from_input, "unk": unk}

        def mk(a):
            if "urn" in a:
                return a["urn"]
            kw = {k: put[v[0]](v[1]) if k in ("stack", "project") else v for k, v in a.items() if k != "parent"}
            if "parent" in a:
                p = a["parent"]
                kw["parent"] = None if p[0] == "none" else made[p[1]] if p[0] == "res" else p[1] if p[0] == "urn" else unk(p[1]) if p[0] == "uurn" else pulumi.Output.from_input(p[1])
            return pulumi.Alias(**kw)

        for i, r in enumerate(case["res"]):
            als = None
            if r["aliases"] is not None:
                als = []
                for how, a in r["aliases"]:
                    v = mk(a)
                    if how == "out":
                        v = pulumi.Output.from_input(v)
                    elif how == "unk":
                        v = unk(v)
                    elif how == "applied":
                        v = pulumi.Output.from_input(1).apply(lambda _, v=v: v)
                    elif how == "coro":
                        f = asyncio.get_event_loop().create_future()
                        asyncio.get_event_loop().call_soon(f.set_result, v)
                        v = f
                    als.append(v)
                if case["tuple"]:
                    als = tuple(als)
            o = pulumi.ResourceOptions(parent=None if r["parent"] is None else made[r["parent"]], aliases=als)
            if r["kind"] == "custom":
                made.append(pulumi.CustomResource(r["type"], r["name"], {}, o))
            else:
                made.append(pulumi.ComponentResource(r["type"], r["name"], {}, o, remote=r["kind"] == "remote"))

    err, _ = engine.run_program(eng, body)
    if err is not None:
        fail(f"program failed: {type(err).__name__}: {err}")
    want = model(case)
    # requests can arrive in any order; identify by (name, type, parent), duplicates compared as multisets
    got = {}
    for k, q in eng.log:
        if k == "register" and q.type not in ("pulumi:pulumi:Stack", "z:z:Probe"):
            if len(set(q.aliases)) != len(q.aliases):
                fail(f"{q.name}: aliases sent twice: {list(q.aliases)}")
            got.setdefault(eng.make_urn(q.parent, q.type, q.name), []).append(sorted(q.aliases))
    exp = {}
    for i, w in enumerate(want):
        exp.setdefault(own_urn(case, i), []).append(sorted(w))
    for u in exp:
        if sorted(got.get(u, [])) != sorted(exp[u]):
            fail(f"aliases of {u}: sent {got.get(u)}", f"expected {exp[u]}")
    n = max(len(w) for w in want)
    rec.label("max aliases >= 10", n >= 10)
    if any(r["parent"] is not None and want[r["parent"]] for r in case["res"]):
        rec.nontriv()


@part("aliases", quick=6000, thorough=150000, shards=8, rule="a resource has a parent that has aliases")
def aliases():
    return cases(), run
