"""C18 merging resource and invoke options."""
import asyncio

import engine
from harness import fail, part
from hypothesis import strategies as st

PROV = [("pkg1", "p0"), ("pkg1", "p1"), ("pkg2", "p2"), ("pkg3", "p3")]
opt = lambda s: st.one_of(st.none(), st.none(), s)
strs = st.sampled_from(["a", "b_c", ""])
lists = st.tuples(st.sampled_from(["list", "list", "tuple"]), st.one_of(st.lists(strs, max_size=3), st.lists(strs, max_size=3), st.lists(strs, max_size=3), st.lists(st.sampled_from(["a", "b_c", "", "d", "e"]), min_size=10, max_size=14)))
items = st.tuples(st.sampled_from(["r", "o", "u"]), st.integers(0, 3))
deps = st.one_of(st.tuples(st.just("one"), st.integers(0, 3)),
                 st.tuples(st.sampled_from(["list", "tuple", "coro", "fut", "out", "unk"]), st.lists(items, max_size=3)))
SCALARS = {"parent": st.integers(0, 3), "protect": st.booleans(), "delete_before_replace": st.booleans(), "version": st.sampled_from(["1.0.0", "2.0.0", ""]),
           "plugin_download_url": strs, "custom_timeouts": st.sampled_from(["t1", "t2"]), "id": strs, "import_": strs, "urn": strs,
           "retain_on_delete": st.booleans(), "provider": st.integers(0, 3)}
LISTS = ["ignore_changes", "replace_on_changes", "aliases", "additional_secret_outputs", "transformations"]
one = st.fixed_dictionaries({**{k: opt(s) for k, s in SCALARS.items()}, **{k: opt(lists) for k in LISTS}, "depends_on": opt(deps),
                             "providers": opt(st.tuples(st.sampled_from(["list", "tuple", "dict"]), st.lists(st.integers(0, 3), max_size=3)))})
operand = st.one_of(one, one, one, one, st.none())
cases = st.fixed_dictionaries({"o": st.tuples(operand, operand, operand).map(list), "dry": st.booleans(), "how": st.sampled_from(["fn", "method", "mixed"])})


def seq(kind, xs):
    return tuple(xs) if kind == "tuple" else list(xs)


def dep_names(d, dry):
    if d is None:
        return []
    if d[0] == "one":
        return [d[1]]
    if d[0] == "unk" and dry:
        return []
    return [j for t, j in d[1] if t != "u" or not dry]


def ref_merge(a, b):
    """reference on specs; list results as plain lists"""
    a, b = a or {}, b or {}
    out = {}
    for k in SCALARS:
        out[k] = b.get(k) if b.get(k) is not None else a.get(k)
    for k in LISTS:
        x, y = a.get(k), b.get(k)
        out[k] = ("list", list(x[1] if x else []) + list(y[1] if y else [])) if x or y else None
    ps = [j for o in (a, b) if o.get("providers") for j in o["providers"][1]]
    m = {}
    for o in (a, b):
        if o.get("providers"):
            m.update(expand(o["providers"]))
    out["providers"] = ("dict", list(m.values())) if ps else None
    return out


def expand(p):
    """package -> provider of a providers option; a mapping cannot hold two of a package"""
    out = {}
    for j in p[1]:
        out[PROV[j][0]] = j
    return out


def run(case, rec):
    import pulumi
    dry = case["dry"]
    eng = engine.FakeEngine(["secrets"], dry_run=dry)
    want_deps = {}
    checked = []

    def body():
        res = [pulumi.CustomResource("t:m:R", f"r{i}", {"x": f"v{i}"}) for i in range(4)]
        for r in res:
            r.__dict__["x"] = pulumi.Output.from_input("x")
        from pulumi.output import UNKNOWN
        unknown = (lambda: pulumi.Output({res[0]}, fut(UNKNOWN if dry else 1), fut(not dry), fut(False)))
        provs = [pulumi.ProviderResource(p, n) for p, n in PROV]
        tm = {"t1": pulumi.CustomTimeouts(create="1m"), "t2": pulumi.CustomTimeouts(update="2m")}
        trs = {k: (lambda args: None) for k in ["a", "b_c", "", "d", "e"]}

        def fut(v):
            f = asyncio.get_event_loop().create_future()
            f.set_result(v)
            return f

        def item(it):
            t, j = it
            if t == "r":
                return res[j]
            if t == "o":
                return pulumi.Output.from_input(res[j])
            return unknown().apply(lambda _: res[j])

        def dep(d):
            if d is None:
                return None
            if d[0] == "one":
                return res[d[1]]
            xs = [item(i) for i in d[1]]
            if d[0] in ("list", "tuple"):
                return seq(d[0], xs)
            if d[0] == "fut":
                return fut(xs)
            if d[0] == "out":
                return pulumi.Output.from_input(xs)
            if d[0] == "unk":
                return unknown().apply(lambda _: xs)

            async def co():
                await asyncio.sleep(0)
                return xs
            return co()

        def build(s):
            if s is None:
                return None
            kw = {}
            for k in SCALARS:
                v = s[k]
                if v is not None:
                    v = res[v] if k == "parent" else provs[v] if k == "provider" else tm[v] if k == "custom_timeouts" else v
                kw[k] = v
            for k in LISTS:
                v = s[k]
                kw[k] = None if v is None else seq(v[0], [trs[x] for x in v[1]] if k == "transformations" else v[1])
            kw["depends_on"] = dep(s["depends_on"])
            p = s["providers"]
            if p is not None:
                p = {provs[j].package: provs[j] for j in p[1]} if p[0] == "dict" else seq(p[0], [provs[j] for j in p[1]])
            return pulumi.ResourceOptions(providers=p, **kw)

        def snap(o):
            if o is None:
                return None
            return {k: (id(v), list(v.items()) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple)) else v)
                    for k, v in o.__dict__.items() if k != "merge"}

        def observe(o):
            out = {}
            for k in SCALARS:
                v = getattr(o, k)
                out[k] = res.index(v) if k == "parent" and v is not None else provs.index(v) if k == "provider" and v is not None else \
                    [x for x in tm if tm[x] is v][0] if k == "custom_timeouts" and v is not None else v
            for k in LISTS:
                v = getattr(o, k)
                out[k] = None if v is None else ("list", [[x for x in trs if trs[x] is y][0] for y in v] if k == "transformations" else list(v))
            p = o.providers
            if p is not None and len(p) == 0:
                p = None
            if p is not None:
                if isinstance(p, dict):
                    for k, v in p.items():
                        if k != v.package:
                            fail(f"merged providers map {k} to a provider of {v.package}")
                    p = list(p.values())
                p = ("dict", [provs.index(x) for x in expand_real(p).values()])
            out["providers"] = p
            return out

        ops = [build(s) for s in case["o"]]
        snaps = [snap(o) for o in ops]
        R = pulumi.ResourceOptions

        def merge(a, b, m):
            return a.merge(b) if m and a is not None else R.merge(a, b)

        how = case["how"]
        a, b, c = ops
        ab = merge(a, b, how != "fn")
        s_ab = snap(ab)
        abc = merge(ab, c, how == "method")
        # a coroutine can be awaited once only: other operands for the other association
        a1, b1, c1 = [build(s) for s in case["o"]]
        bc = merge(b1, c1, how == "mixed")
        a_bc = merge(a1, bc, how == "method")
        for o, s, n in ((a, snaps[0], "first"), (b, snaps[1], "second"), (c, snaps[2], "third"), (ab, s_ab, "merged")):
            if snap(o) != s:
                fail(f"merging changed its {n} operand: {s} is now {snap(o)}")
        want2 = ref_merge(case["o"][0], case["o"][1])
        want3 = ref_merge(want2, case["o"][2])
        for what, got, want in (("a+b", ab, want2), ("(a+b)+c", abc, want3), ("a+(b+c)", a_bc, want3)):
            g = observe(got)
            for k in want:
                x, y = g[k], want[k]
                if k in LISTS and (x or ("list", []))[1] == (y or ("list", []))[1] and (x is None) == (y is None):
                    continue
                if x != y and not (k == "providers" and x and y and sorted(x[1]) == sorted(y[1])):
                    fail(f"{what}: {k} is {x!r}, expected {y!r}")
            if not isinstance(got, R) or got in ops:
                fail(f"{what} is not a new ResourceOptions")
        for n, got in (("ab", ab), ("abc", abc), ("a_bc", a_bc)):
            specs = case["o"][:2] if n == "ab" else case["o"]
            want_deps[n] = {f"r{j}" for s in specs if s for j in dep_names(s["depends_on"], dry)}
            may = {f"r{0}"} if any(s and s["depends_on"] and (s["depends_on"][0] == "unk" or s["depends_on"][0] != "one" and any(t == "u" for t, _ in s["depends_on"][1]))
                                   for s in specs) else set()
            # a collection that is itself unknown during a preview makes the merged one unknown
            whole = dry and any(s and s["depends_on"] and (s["depends_on"][0] == "unk" or s["depends_on"][0] == "out" and
                                                            any(t == "u" for t, _ in s["depends_on"][1])) for s in specs)
            want_deps[n] = (want_deps[n] | may, may if whole else want_deps[n] | may)
            pulumi.CustomResource("t:m:D", n, {}, pulumi.ResourceOptions(depends_on=got.depends_on))
        if a is not None and b is not None:
            for bad in (1, {}, "x"):
                try:
                    R.merge(a, bad)
                except TypeError:
                    pass
                else:
                    fail(f"merging with {bad!r} accepted")
        checked.append(1)

    err, _ = engine.run_program(eng, body)
    if err is not None:
        if type(err).__name__ == "Violation":
            raise err
        fail(f"{type(err).__name__}: {err}")
    for k, q in eng.log:
        if k == "register" and q.name in want_deps:
            got = {u.split("::")[-1] for u in q.dependencies}
            if not want_deps[q.name][1] <= got <= want_deps[q.name][0]:
                fail(f"merged depends_on {q.name} resolves to {sorted(got)}, expected {sorted(want_deps[q.name][0])}")
    n = sum(1 for s in case["o"] if s for v in s.values() if v is not None)
    if n >= 6:
        rec.nontriv()
    rec.label("tuple somewhere", "tuple" in repr(case["o"]))


def expand_real(ps):
    out = {}
    for p in ps:
        out[p.package] = p
    return out


@part("resource", quick=4000, thorough=100000, shards=6, rule="at least six options set in the three operands")
def resource():
    return cases, run


# ------------------------------------------------------------------------------------ invoke options
iop = st.one_of(st.none(), *[st.fixed_dictionaries({"parent": opt(st.integers(0, 2)), "provider": opt(st.integers(0, 3)),
                                                    "version": st.sampled_from([..., ..., None, "1.0.0", "2.0.0"]).map(lambda x: "default" if x is ... else x),
                                                    "plugin_download_url": opt(st.sampled_from(["u", "v"]))})] * 3)
icases = st.fixed_dictionaries({"o": st.tuples(iop, iop, iop).map(list), "how": st.sampled_from(["fn", "method", "mixed"])})


def run_invoke(case, rec):
    import pulumi

    class T:
        pass

    res, provs = [T() for _ in range(3)], [T() for _ in range(4)]
    I = pulumi.InvokeOptions

    def build(s):
        if s is None:
            return None
        kw = {"parent": None if s["parent"] is None else res[s["parent"]], "provider": None if s["provider"] is None else provs[s["provider"]],
              "plugin_download_url": s["plugin_download_url"]}
        if s["version"] != "default":
            kw["version"] = s["version"]
        return I(**kw)

    def want(specs):
        out = {"parent": None, "provider": None, "version": "", "plugin_download_url": None}
        for s in specs:
            for k in out:
                v = None if s is None else s[k]
                if v is not None and v != "default":
                    out[k] = res[v] if k == "parent" else provs[v] if k == "provider" else v
        return out

    def obs(o):
        return {"parent": o.parent, "provider": o.provider, "version": o.version or "", "plugin_download_url": o.plugin_download_url}

    ops = [build(s) for s in case["o"]]
    before = [None if o is None else obs(o) for o in ops]
    how = case["how"]
    merge = lambda a, b, m: a.merge(b) if m and a is not None else I.merge(a, b)
    a, b, c = ops
    ab = merge(a, b, how != "fn")
    abc = merge(ab, c, how == "method")
    bc = merge(b, c, how == "mixed")
    a_bc = merge(a, bc, how == "method")
    for what, got, specs in (("a+b", ab, case["o"][:2]), ("(a+b)+c", abc, case["o"]), ("a+(b+c)", a_bc, case["o"])):
        if obs(got) != want(specs):
            fail(f"{what} of {specs}: {obs(got)}, expected {want(specs)}")
    if [None if o is None else obs(o) for o in ops] != before:
        fail("merging changed an operand")
    if sum(1 for s in case["o"] if s for v in s.values() if v not in (None, "default")) >= 3:
        rec.nontriv()


@part("invoke", quick=4000, thorough=60000, shards=2, rule="at least three options set in the three operands")
def invoke():
    return icases, run_invoke
