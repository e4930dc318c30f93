"""C03 functions never run on unknowns in a preview, run exactly once otherwise; known-ness is exact."""
import outexpr
from harness import Violation, part, same


def run(case, rec):
    want, wcalls, mod = outexpr.predict(case)
    got, again, calls = outexpr.evaluate(case)
    for i, w in enumerate(want):
        for g in (got[i], again[i]):
            if "!exc" in g or "!exc" in w:
                continue
            if g["!known"] != w["!known"]:
                raise Violation(f"binding {i}: known={g['!known']}, expected {w['!known']}\n  got {g}\n  want {w}")
    ids = set(calls) | set(wcalls)
    for i in sorted(ids):
        a, b = calls.get(i, []), wcalls.get(i, [])
        if not outexpr.agree_multiset(a, b):
            raise Violation(f"function {i} called with {a}, expected {b}")
    skipped = sum(1 for l in case["lets"] for e in outexpr.walk(l) if isinstance(e, tuple) and e and e[0] == "app") - len(wcalls)
    rec.label("dry", case["dry"])
    rec.label("some function not called", skipped > 0)
    rec.label("some function called", bool(wcalls))
    if wcalls or skipped:
        rec.nontriv()


@part("exprs", quick=12000, thorough=240000, shards=6, rule="random output expression programs; non-trivial: contains an applied user function")
def exprs():
    return outexpr.programs(), run


@part("failing", quick=2500, thorough=60000, shards=2, rule="the same with failing leaves and functions")
def failing():
    return outexpr.programs(fails=True, depth=5), run


@part("large", quick=800, thorough=20000, shards=2, rule="one interesting element within a structure of up to some thousand nodes, combined and applied to; non-trivial as above")
def large():
    return outexpr.large(), run
