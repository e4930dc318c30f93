"""C04 waiting on an output gives the value the same operation gives on plain values."""
import outexpr
from harness import Violation, part, same


def run(case, rec):
    want, _, mod = outexpr.predict(case)
    got, again, _ = outexpr.evaluate(case)
    for i, w in enumerate(want):
        for g in (got[i], again[i]):
            if "!exc" in w:
                if "!exc" not in g:
                    raise Violation(f"binding {i}: succeeded with {g}, expected failure {w['!exc']}")
                if g["!exc"] not in w["!exc"]:
                    raise Violation(f"binding {i}: failed with {g['!exc']!r}, expected one of {w['!exc']}")
            else:
                if "!exc" in g:
                    raise Violation(f"binding {i}: failed with {g['!exc']!r}, expected {w}")
                if not outexpr.agree(g["!value"], w["!value"]):
                    raise Violation(f"binding {i}: value {g['!value']!r}, expected {w['!value']!r}\n  got {g}\n  want {w}")
    rec.label("dry", case["dry"])
    rec.label("fails", any(m.exc for m in mod.lets))
    rec.label("container value", any(isinstance(m.value, (list, dict)) and m.value and m.known for m in mod.lets))
    if any(m.exc or isinstance(m.value, (list, dict, outexpr.MArgs)) and m.value for m in mod.lets):
        rec.nontriv()


@part("exprs", quick=9000, thorough=240000, shards=5, rule="random output expression programs; non-trivial: result is a container or a failure")
def exprs():
    return outexpr.programs(), run


@part("failing", quick=5000, thorough=100000, shards=3, rule="the same with failing leaves and functions")
def failing():
    return outexpr.programs(fails=True, depth=5), run


@part("large", quick=800, thorough=20000, shards=2, rule="one interesting element within a structure of up to some thousand nodes, combined and applied to; non-trivial as above")
def large():
    return outexpr.large(), run
