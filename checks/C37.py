"""C37 create_urn against the URN grammar and the engine's own URNs."""
import asyncio
import itertools

import engine
from harness import fail, part
from hypothesis import strategies as st

word = st.one_of(st.sampled_from(["a", "ab", "x-y", "dev", "my.stack", "org/stk", "A", "0", "a b", "a:b", "\u00e9", "$", "a$b", "Stack", "pulumi", "urn"]),
                 st.text(st.characters(exclude_categories=["Cs"], exclude_characters=":\0"), min_size=1, max_size=6))
types = st.one_of(st.sampled_from(["pkg:mod:T", "pkg:index:T", "pkg:mod/sub:T", "pulumi:providers:aws", "my:Comp", "a:b:c", "Comp", "pulumi:pulumi:StackReference", "x:pulumi:pulumi:Stack", "pulumi:pulumi:Stacks"]),
                  st.tuples(*[st.text("abcAB01/-_.", min_size=1, max_size=4)] * 3).map(":".join))
HOW = ["str", "str", "out", "future", "coro"]


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    res = []
    for i in range(draw(st.integers(0, 4))):
        res.append({"name": draw(word), "type": draw(types), "parent": draw(st.one_of(st.none(), st.integers(0, i - 1))) if i else None,
                    "kind": pick(["comp", "custom", "remote"])})
    if len(res) > 1 and draw(st.booleans()):
        for i in range(1, len(res)):
            res[i]["parent"] = i - 1
    qs = []
    for _ in range(draw(st.integers(1, 4))):
        k = pick(["none", "none", "res", "res", "str", "out", "stack", "stackurn"])
        if k in ("res",) and not res:
            k = "str"
        p = [k]
        if k == "res":
            p.append(draw(st.integers(0, len(res) - 1)))
        elif k in ("str", "out"):
            p.append([draw(word), draw(word), draw(st.lists(types, min_size=1, max_size=3)), draw(word)])
        qs.append({"name": draw(word), "type": draw(types), "nhow": pick(HOW), "thow": pick(HOW), "parent": p,
                   "project": draw(st.one_of(st.none(), word)), "stack": draw(st.one_of(st.none(), word)), "opt": draw(st.booleans())})
    if draw(st.booleans()):
        # the neighbours of a query: the same but for one part
        q = dict(pick(qs))
        q[pick(["name", "type"])] = draw(types)
        qs.append(q)
    return {"project": draw(word), "stack": draw(word), "res": res, "qs": qs, "dry": draw(st.booleans())}


def fmt(stack, project, chain, name):
    return f"urn:pulumi:{stack}::{project}::{'$'.join(chain)}::{name}"


def run(case, rec):
    import pulumi
    from pulumi import urn as urn_mod

    eng = engine.FakeEngine([], project=case["project"], stack=case["stack"], dry_run=case["dry"])
    got, engine_urns = {}, {}
    create = getattr(pulumi, "create_urn", None) or pulumi.resource.create_urn

    def chain_of(i):
        r = case["res"][i]
        return (chain_of(r["parent"]) if r["parent"] is not None else []) + [r["type"]]

    def wrap(v, how):
        if how == "out":
            return pulumi.Output.from_input(v)
        if how == "future":
            f = asyncio.get_event_loop().create_future()
            f.set_result(v)
            return f
        if how == "coro":
            async def c():
                await asyncio.sleep(0)
                return v
            return c()
        return v

    def body():
        from pulumi.runtime.settings import get_root_resource
        made = []
        for r in case["res"]:
            o = pulumi.ResourceOptions(parent=None if r["parent"] is None else made[r["parent"]])
            made.append(pulumi.CustomResource(r["type"], r["name"], {}, o) if r["kind"] == "custom" else
                        pulumi.ComponentResource(r["type"], r["name"], {}, o, remote=r["kind"] == "remote"))

        async def see(store, k, o):
            store[k] = (await o.future(), await o.is_known(), await o.is_secret())

        for i, m in enumerate(made):
            engine.watch(see(engine_urns, i, m.urn))
            r = case["res"][i]
            # the same resource's URN as a user would build it
            engine.watch(see(got, ("self", i), create(r["name"], r["type"], None if r["parent"] is None else made[r["parent"]])))
        for i, q in enumerate(case["qs"]):
            p = q["parent"]
            par = {"none": lambda: None, "res": lambda: made[p[1]], "str": lambda: fmt(*p[1]), "out": lambda: pulumi.Output.from_input(fmt(*p[1])),
                   "stack": lambda: get_root_resource(), "stackurn": lambda: get_root_resource().urn}[p[0]]()
            kw = {}
            if q["project"] is not None or q["opt"]:
                kw["project"] = q["project"]
            if q["stack"] is not None or q["opt"]:
                kw["stack"] = q["stack"]
            if par is not None or q["opt"]:
                kw["parent"] = par
            engine.watch(see(got, i, create(wrap(q["name"], q["nhow"]), wrap(q["type"], q["thow"]), **kw)))

    err, _ = engine.run_program(eng, body)
    if err is not None:
        fail(f"program failed: {type(err).__name__}: {err}")
    for i, r in enumerate(case["res"]):
        want = fmt(case["stack"], case["project"], chain_of(i), r["name"])
        if engine_urns[i][0] != want:
            fail(f"the URN of resource {i} is {engine_urns[i][0]!r}, the engine assigned {want!r}")
        if got[("self", i)] != (want, True, False):
            fail(f"create_urn gave {got[('self', i)]} for resource {i}, the engine assigned {want!r}")
    seen = {}
    for i, q in enumerate(case["qs"]):
        p = q["parent"]
        if p[0] == "none":
            parts = (q["stack"] or case["stack"], q["project"] or case["project"], [q["type"]])
        elif p[0] == "res":
            parts = (case["stack"], case["project"], chain_of(p[1]) + [q["type"]])
        elif p[0] in ("stack", "stackurn"):
            parts = (case["stack"], case["project"], [q["type"]])
        else:
            s, pr, ch, _ = p[1]
            parts = (s, pr, (ch if ch != ["pulumi:pulumi:Stack"] else []) + [q["type"]])
        want = fmt(*parts, q["name"])
        if got.get(i) != (want, True, False):
            fail(f"create_urn gave {got.get(i)}, expected {want!r}", q)
        key = (parts[0], parts[1], tuple(parts[2]), q["name"])
        if "::" not in "".join(map(str, key)) and seen.setdefault(want, key) != key and not any("$" in t for k in (key, seen[want]) for t in k[2]):
            fail(f"{key} and {seen[want]} have the same URN {want}")
        if any(x.endswith(":") or x.startswith(":") for x in (parts[0], parts[1], q["name"])):
            continue
        if hasattr(urn_mod, "_parse_urn"):  # private: stated where it exists
            u = urn_mod._parse_urn(got[i][0])
            t = q["type"].split("$")[-1]
            tp = t.split(":") + ["", ""]
            if tuple(u) != (q["name"], t, tp[0], tp[1], tp[2]):
                fail(f"{want!r} parses as {u}", q)
        rec.label("parent " + p[0])
        rec.label("explicit stack or project", q["stack"] is not None or q["project"] is not None)
    rec.nontriv()


@part("urns", quick=4000, thorough=120000, shards=6, rule="every case")
def urns():
    return cases(), run
