"""C01 secretness is never lost (and never invented)."""
import outexpr
from harness import Violation, expect_equal, part


def compare(got, want, where):
    if "!exc" in got or "!exc" in want:
        return
    if got["!secret"] != want["!secret"]:
        raise Violation(f"{where}: secret={got['!secret']}, expected {want['!secret']}\n  got {got}\n  want {want}")


def run(case, rec):
    want, _, mod = outexpr.predict(case)
    got, again, _ = outexpr.evaluate(case)
    for i, (g, w) in enumerate(zip(got, want)):
        compare(g, w, f"binding {i}")
        compare(again[i], w, f"binding {i} (second look)")
    nodes = [e for l in case["lets"] for e in outexpr.walk(l)]
    sec = any(isinstance(e, tuple) and e and (e[0] == "leaf" and e[3] is True or e[0] == "secret" or e[0] == "outv" and e[2]) for e in nodes)
    rec.label("dry", case["dry"])
    rec.label("secret source", sec)
    rec.label("result secret", any(m.secret for m in mod.lets))
    rec.label("unsecret", any(isinstance(e, tuple) and e and e[0] == "unsecret" for e in nodes))
    if sec:
        rec.nontriv()


RULE = "random output expression programs (1-3 bindings, depth<=4); non-trivial: contains a secret source"


@part("exprs", quick=12000, thorough=240000, shards=6, rule=RULE)
def exprs():
    return outexpr.programs(bias="secret"), run


@part("deep", quick=2500, thorough=80000, shards=2, rule="the same, depth<=7")
def deep():
    return outexpr.programs(bias="secret", depth=7, max_lets=2), run


@part("large", quick=800, thorough=20000, shards=2, rule="one interesting element within a structure of up to some thousand nodes, combined and applied to; non-trivial as above")
def large():
    return outexpr.large(bias="secret"), run
