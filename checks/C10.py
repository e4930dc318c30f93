"""C10 dependencies named by registration requests."""
import program
from harness import Violation, part


def check(case, rec):
    p = program.break_hazards(case)
    err, _, eng, interp, m = program.run(p)
    if err is not None:
        raise Violation(f"program failed: {type(err).__name__}: {err}")
    reqs = {}
    for kind, req in eng.log:
        if kind in ("register", "read") and req.name in {r["name"] for r in m.res.values()}:
            reqs[req.name] = req
    sent = {}
    for i in m.alive:
        req = reqs.get(program.rname(i))
        if req is None:
            raise Violation(f"{program.rname(i)} was never sent to the engine")
        d = list(req.dependencies)
        if len(d) != len(set(d)):
            raise Violation(f"{req.name}: dependency repeated: {d}")
        sent[m.urn(i)] = set(d)

    def reaches(a, b):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                todo += sent.get(x, ())
        return False

    nt = 0
    for i in m.alive:
        r = m.res[i]
        urn = m.urn(i)
        req = reqs[program.rname(i)]
        lo, hi = set(), set()

        def judge(what, got, lo, hi):
            if got - hi:
                raise Violation(f"{urn}: {what} name {sorted(got - hi)}, which nothing in the program depends on",
                                f"expected {sorted(hi)}")
            for x in lo - got - {urn}:
                if not reaches(x, urn):
                    raise Violation(f"{urn}: {what} lack {x}", f"got {sorted(got)}")
            if lo - got - {urn}:
                rec.label("cycle edge dropped")

        pd = {}
        for k, v in r["props"].items():
            d = m.deps(v)
            if any(t == "r" and m.res[x]["kind"] == "comp" for t, x in d):
                rec.label("component in property dependencies")
            a, b = m.bounds(d)
            pd[k] = (a, b)
            lo |= a
            hi |= b
        dd = m.dep_deps(r["dep"])
        if any(t == "r" and m.res[x]["kind"] == "comp" for t, x in dd):
            rec.label("component in depends_on")
        a, b = m.bounds(dd)
        lo |= a
        hi |= b
        if hi:
            nt += 1
        judge("dependencies", sent[urn], lo, hi)
        if r["kind"] != "read":
            got = {k: list(x.urns) for k, x in req.propertyDependencies.items()}
            if set(got) != set(pd):
                raise Violation(f"{urn}: property dependencies are for {sorted(got)}, expected {sorted(pd)}")
            for k, u in got.items():
                if len(u) != len(set(u)):
                    raise Violation(f"{urn}: property {k} repeats a dependency: {u}")
                judge(f"dependencies of property {k}", set(u), *pd[k])
    if nt >= 2:
        rec.nontriv()
    rec.label("dry", case["dry"])
    rec.label("apply-created", any(not r["main"] for r in m.res.values() if r["alive"]))
    rec.label("engine-reported dependencies", any(r["ext"] for r in m.res.values()))


@part("graphs", quick=5000, thorough=60000, shards=8,
      rule="at least two resources of the program have a non-empty expected dependency set")
def graphs():
    return program.programs(max_res=8, budget=8, reads=True), check
