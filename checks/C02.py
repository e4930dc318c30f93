"""C02 dependencies are the union of everything the output was computed from."""
import outexpr
from harness import Violation, part


def run(case, rec):
    want, _, mod = outexpr.predict(case)
    got, again, _ = outexpr.evaluate(case)
    for i, w in enumerate(want):
        for g in (got[i], again[i]):
            if "!exc" in g or "!exc" in w:
                # a failed computation may report fewer resources, never a stranger
                if not set(g["!deps"]) <= all_deps(case):
                    raise Violation(f"binding {i}: unrelated resources {g['!deps']}")
                continue
            check(g, w, f"binding {i}")
    rec.label("dry", case["dry"])
    rec.label(">=2 deps", any(len(m.deps) >= 2 for m in mod.lets))
    rec.label("unknown result with deps", any(m.deps and not m.known for m in mod.lets if not m.exc))
    if any(m.deps for m in mod.lets):
        rec.nontriv()


def all_deps(case):
    s = set()
    for l in case["lets"]:
        for e in outexpr.walk(l):
            if isinstance(e, tuple) and e and e[0] in ("leaf", "leaff", "outv"):
                s |= set(e[4] if e[0] == "leaf" else e[2] if e[0] == "leaff" else e[3])
    return s


def check(g, w, where):
    if g["!deps"] != w["!deps"]:
        raise Violation(f"{where}: depends on {g['!deps']}, expected {w['!deps']}\n  got {g}\n  want {w}")


@part("exprs", quick=12000, thorough=240000, shards=6, rule="random output expression programs; non-trivial: the result depends on a resource")
def exprs():
    return outexpr.programs(), run


@part("failing", quick=2500, thorough=60000, shards=2, rule="the same with failing leaves and functions")
def failing():
    return outexpr.programs(fails=True, depth=5), run


@part("large", quick=800, thorough=20000, shards=2, rule="one interesting element within a structure of up to some thousand nodes, combined and applied to; non-trivial as above")
def large():
    return outexpr.large(), run
