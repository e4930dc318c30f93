"""Generated Pulumi programs: AST, generator, interpreter over the real SDK, and reference model of what the engine must see.

A program is a list of statements
  ["new", i, kind, parent, props, dep, flags]   kind: custom comp remote read provider ; parent: None or index
  ["apply", j, stmts, chain]                     stmts run inside r_j.out.apply(...), after a chain of further applies
  ["outs", i, V]                                 r_i.register_outputs({"o": V}) (components)
  ["export", name, V]
Values V
  ["k", lit] ["out", j] ["id", j] ["urn", j] ["res", j] ["list", [V]] ["dict", {k: V}] ["all", [V]] ["apply", V] ["bind", V, W]
  ["ares", i, j] (r_i.out.apply(lambda _: r_j))  ["secret", V] ["await", V] ["fut", V] ["concat", [V]]
dep: None | ["one", j] | ["list"|"tuple"|"coro"|"outlist", [item]] (outlist: ["outlist", i, [j]])
  item: ["r", j] | ["o", j] | ["a", i, j]
flags: {"pv": out known on preview, "sec": out secret, "ext": [urns reported by the engine], "prov": provider index or None}
"""
import asyncio

from hypothesis import strategies as st

import engine
from engine import OUTPUT_SIG, RESOURCE_SIG, SECRET_SIG, SIG, UNKNOWN

EXT = ["urn:pulumi:stk::proj::x:y:Z::ext1", "urn:pulumi:stk::proj::x:y:Z$x:y:W::ext2", "urn:pulumi:stk::proj::x:y:Z::ext3"]
KINDS = ["custom", "comp", "remote", "read", "provider"]


def rname(i):
    return f"r{i}"


def rtype(i, kind):
    if kind == "provider":
        return "pulumi:providers:pkg"
    return f"pkg:mod:{'C' if kind == 'comp' else 'R' if kind == 'remote' else 'K'}{i % 3}"


# ------------------------------------------------------------------------------------------------ generator
class Gen:
    def __init__(self, draw, max_res=7, reads=False, applies=True, futs=True, exts=True, providers=True, outs=True, coupling=True):
        self.draw = draw
        self.n = 0
        self.max = max_res
        self.kinds = ["custom", "custom", "comp", "comp", "remote"] + (["read"] if reads else [])
        self.applies, self.futs, self.exts, self.providers, self.outs = applies, futs, exts, providers, outs
        self.info = {}
        self.outs_done = set()
        self.fut_n = 0

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def chance(self, n):
        return self.draw(st.integers(0, n - 1)) == 0

    def value(self, vis, depth, outputs_only=False):
        opts = ["k"]
        if vis:
            opts += ["out", "out", "out", "id", "urn"]
            if not outputs_only:
                opts += ["res", "ares"]
        if depth > 0:
            opts += ["list", "dict", "all", "apply", "bind", "secret", "await", "concat"]
            if self.futs:
                opts += ["fut"]
        k = self.pick(opts)
        d = depth - 1
        if k == "k":
            return ["k", self.pick(["s", "", 1, 2.5, True, "x y"])]
        if k == "id":
            cs = [j for j in vis if self.info[j]["kind"] not in ("comp", "remote")]
            if not cs:
                return ["out", self.pick(vis)]
            return ["id", self.pick(cs)]
        if k == "ares":
            return [k, self.pick(vis), self.pick(vis)]
        if k in ("out", "urn", "res"):
            return [k, self.pick(vis)]
        if k in ("list", "all", "concat"):
            n = self.draw(st.integers(1, 3))
            if k == "concat":
                return [k, [self.strvalue(vis) for _ in range(n)]]
            return [k, [self.value(vis, d, outputs_only or k == "all") for _ in range(n)]]
        if k == "dict":
            return [k, {x: self.value(vis, d, outputs_only) for x in self.pick([["a"], ["a", "b"], ["k_x", "kY"]])}]
        if k == "bind":
            return [k, self.value(vis, d, True), self.value(vis, d, True)]
        if k in ("await", "fut"):
            if outputs_only:
                return ["apply", self.value(vis, d, True)]
            return [k, self.value(vis, d, False)]
        return [k, self.value(vis, d, True)]

    def strvalue(self, vis):
        if vis and not self.chance(3):
            return [self.pick(["out", "urn"]), self.pick(vis)]
        return ["k", self.pick(["s", "-"])]

    def dep(self, vis):
        if not vis or not self.chance(3):
            return None
        k = self.pick(["one", "list", "list", "tuple", "coro", "outlist"])
        if k == "one":
            return [k, self.pick(vis)]
        if k == "outlist":
            return [k, self.pick(vis), [self.pick(vis) for _ in range(self.draw(st.integers(0, 2)))]]
        items = []
        for _ in range(self.draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3, 9]))):
            t = self.pick(["r", "r", "o", "a"])
            items.append([t, self.pick(vis)] if t != "a" else [t, self.pick(vis), self.pick(vis)])
        return [k, items]

    def new(self, vis, kind=None, parent="?"):
        i = self.n
        self.n += 1
        kind = kind or self.pick(self.kinds)
        if parent == "?":
            ps = [j for j in vis if self.info[j]["kind"] != "provider"]
            comps = [j for j in ps if self.info[j]["kind"] == "comp"]
            parent = None
            if comps and not self.chance(3):
                parent = self.pick(comps)
            elif ps and self.chance(4):
                parent = self.pick(ps)
        self.info[i] = {"kind": kind}
        props = {}
        if kind != "comp" or self.chance(2):
            for k in self.pick([[], ["p"], ["p", "q"], ["p", "q_r", "s"]]):
                props[k] = self.value(vis, self.draw(st.integers(0, 3)))
            if vis and self.draw(st.integers(0, 11)) == 11:  # many properties
                n = self.pick([12, 40])
                at = {self.draw(st.integers(0, n - 1)) for _ in range(3)}
                for j in range(n):
                    props["w%d" % j] = self.value(vis, 1) if j in at else ["k", j]
        flags = {"pv": self.draw(st.booleans()), "sec": self.chance(5), "ext": [], "prov": None}
        if self.exts and kind not in ("read",) and self.chance(4):
            flags["ext"] = [self.pick(EXT) for _ in range(self.draw(st.integers(1, 2)))]
        if self.providers and kind in ("custom", "read", "remote"):
            pv = [j for j in vis if self.info[j]["kind"] == "provider"]
            if pv and self.chance(2):
                flags["prov"] = self.pick(pv)
        dep = self.dep(vis)
        return ["new", i, kind, parent, props, dep, flags]

    def stmts(self, vis, depth, budget):
        out = []
        vis = list(vis)
        n = self.draw(st.integers(1, budget))
        for _ in range(n):
            if self.n >= self.max:
                break
            k = self.pick(["new"] * 6 + ["apply"] * (2 if self.applies and depth > 0 and vis else 0) + (["provider"] if self.providers else [])
                          + (["outs"] if self.outs else []))
            if k == "provider" and self.chance(2):
                s = self.new(vis, kind="provider", parent=None)
                s[4] = {}
                out.append(s)
                vis.append(s[1])
            elif k == "apply":
                j = self.pick(vis)
                out.append(["apply", j, self.stmts(vis, depth - 1, 3)])
                if self.chance(2):
                    out[-1].append([self.pick(["apply", "later"]) for _ in range(self.draw(st.integers(1, 4)))])
            elif k == "outs":
                cs = [j for j in vis if self.info[j]["kind"] == "comp" and j not in self.outs_done]
                if cs:
                    c = self.pick(cs)
                    self.outs_done.add(c)
                    out.append(["outs", c, self.value(vis, 2)])
            else:
                s = self.new(vis)
                out.append(s)
                vis.append(s[1])
        return out


@st.composite
def programs(draw, max_res=7, budget=7, **kw):
    g = Gen(draw, max_res=max_res, **kw)
    body = g.stmts([], 2, budget)
    feats = draw(st.sampled_from([[], ["secrets"], ["secrets", "resourceReferences"], ["secrets", "resourceReferences", "outputValues"],
                                  ["resourceReferences", "outputValues"]]))
    p = {"features": feats, "dry": draw(st.booleans()), "schedule": draw(st.lists(st.integers(0, 6), max_size=40)), "body": body}
    break_hazards(p)
    return p


# ------------------------------------------------------------------------------------------------ model
class Model:
    def __init__(self, p):
        self.p = p
        self.dry = p["dry"]
        self.feats = set(p["features"])
        self.res = {}  # i -> dict
        self.outs = {}
        self.exports = {}
        self.graph = None
        self.walk(p["body"], True, True, 0)
        for i, r in self.res.items():
            r["type"] = rtype(i, r["kind"])
            r["name"] = rname(i)
            if r["prov"] is None and r["parent"] is not None and r["kind"] != "provider":
                r["prov"] = self.res[r["parent"]]["prov"]  # inherited; parents precede their children
        self.alive = [i for i, r in self.res.items() if r["alive"]]

    def walk(self, stmts, alive, main, lvl):
        for s in stmts:
            if s[0] == "new":
                _, i, kind, parent, props, dep, flags = s
                self.res[i] = dict(kind=kind, parent=parent, props=props, dep=dep, alive=alive, main=main, lvl=lvl, **flags)
            elif s[0] == "apply":
                self.walk(s[2], alive and self.out_known(s[1]), False, lvl + 1)
            elif s[0] == "outs":
                self.outs[s[1]] = (s[2], alive)
            elif s[0] == "export":
                self.exports[s[1]] = s[2]

    def out_known(self, j):
        return not self.dry or self.res[j]["pv"]

    def id_known(self, j):
        r = self.res[j]
        return not self.dry or r["pv"] or r["kind"] == "read"

    def urn(self, i):
        return f"urn:pulumi:stk::proj::{self.typechain(i)}::{rname(i)}"

    def typechain(self, i):
        r = self.res[i]
        t = rtype(i, r["kind"])
        if r["parent"] is None:
            return t
        return self.typechain(r["parent"]) + "$" + t

    def idval(self, j):
        return "rd-" + rname(j) if self.res[j]["kind"] == "read" else rname(j) + "-id"

    # outputs as (value, known, secret)
    def mval(self, v):
        k = v[0]
        if k == "k":
            return v[1], True, False
        if k == "out":
            kn = self.out_known(v[1])
            # the engine omits `out` when it is not known, so there is nothing secret to see
            return (rname(v[1]) + "-out" if kn else None), kn, kn and self.res[v[1]]["sec"]
        if k == "id":
            kn = self.id_known(v[1])
            return (self.idval(v[1]) if kn else None), kn, False
        if k == "urn":
            return self.urn(v[1]), True, False
        if k == "secret":
            a = self.mval(v[1])
            return a[0], a[1], True
        if k == "apply":
            a = self.mval(v[1])
            return ({"t": a[0]} if a[1] else None), a[1], a[2]
        if k == "bind":
            a = self.mval(v[1])
            if not a[1]:
                return None, False, a[2]
            b = self.mval(v[2])
            return b[0], b[1], a[2] or b[2]
        if k in ("all", "list", "dict", "concat"):
            it = v[1].items() if k == "dict" else enumerate(v[1])
            xs = {x: self.mval(y) for x, y in it}
            kn = all(x[1] for x in xs.values())
            sec = any(x[2] for x in xs.values())
            if not kn:
                return None, False, sec
            val = {x: y[0] for x, y in xs.items()}
            if k == "dict":
                return val, True, sec
            if k == "concat":
                return "".join(val.values()), True, sec
            return list(val.values()), True, sec
        raise AssertionError(k)

    def deps(self, v):
        """{("r", j)} | {("u", urn)}"""
        k = v[0]
        if k == "k":
            return set()
        if k == "out":
            r = self.res[v[1]]
            return {("r", v[1])} | {("u", u) for u in r["ext"]}
        if k in ("id", "urn", "res"):
            return {("r", v[1])}
        if k == "ares":
            a = self.deps(["out", v[1]])
            return a | {("r", v[2])} if self.out_known(v[1]) else a
        if k in ("secret", "apply", "await", "fut"):
            return self.deps(v[1])
        if k == "bind":
            a = self.deps(v[1])
            if self.mval(v[1])[1]:
                a = a | self.deps(v[2])
            return a
        it = v[1].values() if k == "dict" else v[1]
        out = set()
        for x in it:
            out |= self.deps(x)
        return out

    def dep_deps(self, dep):
        if dep is None:
            return set()
        if dep[0] == "one":
            return {("r", dep[1])}
        if dep[0] == "outlist":
            out = self.deps(["out", dep[1]])
            if self.out_known(dep[1]):
                out |= {("r", j) for j in dep[2]}
            return out
        out = set()
        for it in dep[1]:
            if it[0] in ("r", "o"):
                out.add(("r", it[1]))
            else:
                out |= self.deps(["out", it[1]])
                if self.out_known(it[1]):
                    out.add(("r", it[2]))
        return out

    def children(self, j):
        return [i for i, r in self.res.items() if r["parent"] == j and r["alive"]]

    def expand(self, deps, sure):
        """URNs; sure=True: only the children that certainly exist when the dependency is computed."""
        out = set()
        for t, x in deps:
            if t == "u":
                out.add(x)
            else:
                out |= {self.urn(i) for i in self.expand_res(x, sure)}
        return out

    def expand_res(self, j, sure):
        if self.res[j]["kind"] != "comp":
            return {j}
        out = set()
        for c in self.children(j):
            if sure and not self.res[c]["main"]:
                continue
            out |= self.expand_res(c, sure)
        return out

    def bounds(self, deps):
        return self.expand(deps, True), self.expand(deps, False)

    # wire form; dependencies of kept output values are given as bounds
    def wire(self, v, kov, of=None):
        """of: the resource whose input this is."""
        k = v[0]
        if k == "k":
            return v[1]
        if k == "list":
            return [self.wire(x, kov, of) for x in v[1]]
        if k == "dict":
            return {x: self.wire(y, kov, of) for x, y in v[1].items()}
        if k in ("await", "fut"):
            return self.wire(v[1], kov, of)
        if k == "res":
            r = self.res[v[1]]
            custom = r["kind"] not in ("comp", "remote")
            idw = (self.idval(v[1]) if self.id_known(v[1]) else UNKNOWN) if custom else None
            if "resourceReferences" in self.feats:
                w = {SIG: RESOURCE_SIG, "urn": self.urn(v[1])}
                if custom:
                    w["id"] = idw
                return w
            return idw if custom else self.urn(v[1])
        if k == "ares":
            _, known, secret = self.mval(["out", v[1]])
            val = self.wire(["res", v[2]], False)
        else:
            val, known, secret = self.mval(v)
        if kov and "outputValues" in self.feats:
            w = {SIG: OUTPUT_SIG}
            if known:
                w["value"] = val
            if secret:
                w["secret"] = True
            lo, hi = self.bounds(self.deps(v))
            if of is not None:
                if self.graph is None:
                    a, b = edges(self, self.p)
                    self.graph = {i: a[i] | b[i] for i in a}
                lo -= {self.urn(j) for j in self.res if reaches(self.graph, j, of)}
            return _OutVal(w, lo, hi)
        if not known:
            return UNKNOWN
        if secret and "secrets" in self.feats:
            return {SIG: SECRET_SIG, "value": val}
        return val

    # edges for hazard analysis: (strong, dep) as sets of resource indices (over-approximated, apply nesting included)
    def value_refs(self, v):
        k = v[0]
        if k == "k":
            return set()
        if k in ("out", "id", "urn", "res"):
            return {v[1]}
        if k == "ares":
            return {v[1], v[2]}
        it = v[1].values() if k == "dict" else v[1] if k in ("list", "all", "concat") else v[1:]
        out = set()
        for x in it:
            out |= self.value_refs(x)
        return out


    def sure_refs(self, v):
        """the resources v certainly waits for: what is behind an apply that is not run does not count"""
        k = v[0]
        if k == "ares":
            return {v[1], v[2]} if self.out_known(v[1]) else {v[1]}
        if k == "bind" and not self.mval(v[1])[1]:
            return self.sure_refs(v[1])
        if k in ("k", "out", "id", "urn", "res"):
            return self.value_refs(v)
        it = v[1].values() if k == "dict" else v[1] if k in ("list", "all", "concat") else v[1:]
        return set().union(*(self.sure_refs(x) for x in it))


class _OutVal:
    def __init__(self, w, lo, hi):
        self.w, self.lo, self.hi = w, lo, hi

    def __repr__(self):
        return f"{self.w}+deps {sorted(self.lo)}..{sorted(self.hi)}"


def wire_match(got, want):
    if isinstance(want, _OutVal):
        if not isinstance(got, dict):
            return False
        g = dict(got)
        d = g.pop("dependencies", [])
        if d != sorted(d) or len(set(d)) != len(d) or not (want.lo <= set(d) <= want.hi):
            return False
        if "dependencies" in got and not d:
            return False
        return wire_match(g, want.w)
    if isinstance(want, dict):
        return isinstance(got, dict) and got.keys() == want.keys() and all(wire_match(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(wire_match(a, b) for a, b in zip(got, want))
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    return got == want


def edges(m, p, sure=()):
    """Over-approximated waiting edges between resources: (strong, dep); exact strong ones for the resources in sure."""
    strong, deps, scopes = {}, {}, {}

    def scope(stmts, ons):
        for s in stmts:
            if s[0] == "new":
                scopes[s[1]] = ons
            elif s[0] == "apply":
                scope(s[2], ons + [s[1]])

    scope(p["body"], [])
    for i, r in m.res.items():
        st_ = set(scopes[i])
        for v in r["props"].values():
            st_ |= m.sure_refs(v) if i in sure else m.value_refs(v)
        if r["parent"] is not None:
            st_.add(r["parent"])
        if r["prov"] is not None:
            st_.add(r["prov"])
        # computing a dependency list itself waits for the outputs it is applied to
        if r["dep"] is not None:
            if r["dep"][0] == "outlist":
                st_.add(r["dep"][1])
            elif r["dep"][0] == "faildep":
                st_ |= m.value_refs(r["dep"][1])
            elif r["dep"][0] != "one":
                st_ |= {it[1] for it in r["dep"][1] if it[0] == "a"}
        strong[i] = st_
        ex = set()
        for t, x in set().union(m.dep_deps(r["dep"]), *[m.deps(v) for v in r["props"].values()]):
            if t == "r":
                ex |= m.expand_res(x, False)
        deps[i] = ex
    return strong, deps


def reaches(graph, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += graph.get(x, ())
    return False


def break_hazards(p):
    """Drops explicit dependencies (latest first) until no waiting cycle contains a data, parent or provider edge: such a
    program waits for itself by construction."""
    while True:
        m = Model(dict(p, dry=False))
        strong, deps = edges(m, p)
        graph = {i: strong[i] | deps[i] for i in strong}
        if not any(reaches(graph, x, i) for i in strong for x in strong[i]):
            return p
        cands = []

        def collect(stmts):
            for s in stmts:
                if s[0] == "new":
                    cands.append(s)
                elif s[0] == "apply":
                    collect(s[2])

        collect(p["body"])
        c = [s for s in cands if s[5] is not None]
        if c:
            c[-1][5] = None
            continue
        c = [s for s in cands if s[4]]
        if not c:
            raise AssertionError("hazard without dependencies")
        c[-1][4] = {}


# ------------------------------------------------------------------------------------------------ interpreter
class Interp:
    """Runs the program over the real SDK."""

    def __init__(self, p, on_create=None):
        self.p = p
        self.res = {}
        self.pending = []
        self.applied = []
        self.calls = []

    def extra_idle(self, i):
        self.pending = [x for x in self.pending if not x[0].done()]
        if i is None:
            return len(self.pending)
        f, v = self.pending.pop(i)
        if isinstance(v, asyncio.CancelledError):
            f.cancel()
        elif isinstance(v, Exception):
            f.set_exception(v)
        else:
            f.set_result(v)

    def build(self, v):
        import pulumi
        k = v[0]
        if k == "k":
            return v[1]
        if k == "out":
            return self.res[v[1]].out
        if k == "id":
            return self.res[v[1]].id
        if k == "urn":
            return self.res[v[1]].urn
        if k == "res":
            return self.res[v[1]]
        if k == "ares":
            r = self.res[v[2]]
            return self.res[v[1]].out.apply(lambda _: r)
        if k == "list":
            return [self.build(x) for x in v[1]]
        if k == "dict":
            return {x: self.build(y) for x, y in v[1].items()}
        if k == "all":
            return pulumi.Output.all(*[self.build(x) for x in v[1]])
        if k == "concat":
            return pulumi.Output.concat(*[self.build(x) for x in v[1]])
        if k == "apply":
            return pulumi.Output.from_input(self.build(v[1])).apply(lambda x: {"t": x})
        if k == "bind":
            w = v[2]
            return pulumi.Output.from_input(self.build(v[1])).apply(lambda x: pulumi.Output.from_input(self.build(w)))
        if k == "secret":
            return pulumi.Output.secret(self.build(v[1]))
        if k == "await":
            x = self.build(v[1])

            async def co():
                await asyncio.sleep(0)
                return x

            return co()
        if k == "fut":
            f = asyncio.get_event_loop().create_future()
            self.pending.append((f, self.build(v[1])))
            return f
        return self.build_extra(v)

    def build_extra(self, v):
        raise AssertionError(v)

    def build_dep(self, dep):
        import pulumi
        if dep is None:
            return None
        if dep[0] == "one":
            return self.res[dep[1]]
        if dep[0] == "outlist":
            return self.res[dep[1]].out.apply(lambda _: [self.res[j] for j in dep[2]])
        items = []
        for it in dep[1]:
            if it[0] == "r":
                items.append(self.res[it[1]])
            elif it[0] == "o":
                items.append(pulumi.Output.from_input(self.res[it[1]]))
            else:
                j = it[2]
                items.append(self.res[it[1]].out.apply(lambda _, j=j: self.res[j]))
        if dep[0] == "tuple":
            return tuple(items)
        if dep[0] == "coro":
            async def co():
                await asyncio.sleep(0)
                return items
            return co()
        return items

    def run(self, stmts):
        for s in stmts:
            if s[0] == "new":
                self.new(s)
            elif s[0] == "apply":
                self.applied.append(self.res[s[1]].out.apply(lambda x, body=s[2], chain=tuple(s[3]) if len(s) > 3 else (): self.run_apply(body, chain)))
            elif s[0] == "outs":
                self.res[s[1]].register_outputs({"o": self.build(s[2])})
            elif s[0] == "export":
                import pulumi
                pulumi.export(s[1], self.build(s[2]))
            else:
                self.stmt_extra(s)

    def run_apply(self, body, chain=()):
        if chain:
            # further functions nothing waits for, each started by the one before
            import pulumi

            async def later():
                for _ in range(5):
                    await asyncio.sleep(0)

            self.applied.append(pulumi.Output.from_input(later() if chain[0] == "later" else 1).apply(lambda _: self.run_apply(body, chain[1:])))
            return "done"
        self.run(body)
        return "done"

    def stmt_extra(self, s):
        raise AssertionError(s)

    def options(self, s):
        import pulumi
        _, i, kind, parent, props, dep, flags = s
        return pulumi.ResourceOptions(parent=self.res[parent] if parent is not None else None, depends_on=self.build_dep(dep),
                                      provider=self.res[flags["prov"]] if flags["prov"] is not None else None,
                                      id="rd-" + rname(i) if kind == "read" else None)

    def new(self, s):
        import pulumi
        _, i, kind, parent, props, dep, flags = s
        opts = self.options(s)
        pr = {k: self.build(v) for k, v in props.items()}
        pr["out"] = None
        t = rtype(i, kind)
        if kind in ("custom", "read"):
            r = pulumi.CustomResource(t, rname(i), pr, opts)
        elif kind == "provider":
            r = pulumi.ProviderResource("pkg", rname(i), pr, opts)
        else:
            r = pulumi.ComponentResource(t, rname(i), pr, opts, remote=kind == "remote")
        self.res[i] = r

    def main(self):
        self.run(self.p["body"])


def make_engine(p, model):
    """Engine answering as the flags say."""
    from pulumi.runtime.proto import resource_pb2

    eng = engine.FakeEngine(p["features"], dry_run=p["dry"])

    def idx(name):
        return int(name[1:]) if name.startswith("r") and name[1:].isdigit() else None

    def out_obj(i, req_obj):
        o = resource_pb2.RegisterResourceResponse().object
        o.CopyFrom(req_obj)
        if model.out_known(i):
            v = rname(i) + "-out"
            engine.fill_value(o.fields["out"], {SIG: SECRET_SIG, "value": v} if model.res[i]["sec"] else v)
        return o

    def on_register(req):
        i = idx(req.name)
        if i is None or i not in model.res:
            return None
        kn = model.id_known(i)
        resp = resource_pb2.RegisterResourceResponse(urn=eng.make_urn(req.parent, req.type, req.name),
                                                     id=(model.idval(i) if kn and req.custom else ""), object=out_obj(i, req.object))
        if model.res[i]["ext"]:
            resp.propertyDependencies["out"].urns.extend(model.res[i]["ext"])
        return resp

    def on_read(req):
        i = idx(req.name)
        if i is None or i not in model.res:
            return None
        return resource_pb2.ReadResourceResponse(urn=eng.make_urn(req.parent, req.type, req.name), properties=out_obj(i, req.properties))

    eng.on_register, eng.on_read = on_register, on_read
    return eng


def run(p, model=None, interp=None, eng=None, after=None, schedule=None):
    model = model or Model(p)
    eng = eng or make_engine(p, model)
    interp = interp or Interp(p)
    err, res = engine.run_program(eng, interp.main, p["schedule"] if schedule is None else schedule, extra_idle=interp.extra_idle,
                                  after=after)
    return err, res, eng, interp, model
