"""C06 the encoding of secrets, unknowns, references and output values follows the negotiated features."""
import engine
import wire
from engine import from_struct
from harness import Violation, part, same


def run(case, rec):
    import pulumi

    enc = wire.Enc(set(case["features"]), case["dry"])
    want, bad = {}, False
    try:
        for k, v in case["props"]:
            j = enc.enc(v, set(), case["remote"])
            if j is not None:
                want[k] = wire.norm(j)
    except wire.Bad:
        bad = True
    eng = engine.FakeEngine(case["features"], dry_run=case["dry"])
    eng.on_register = wire.world_engine_hook(eng)
    b = {}

    def body():
        w = wire.build_world()
        Custom, Comp, Remote = wire.define_classes()
        b["b"] = wire.WBuilder(w)
        props = {k: b["b"].build(v) for k, v in case["props"]}
        (Remote if case["remote"] else Custom)("subject", props)

    err, _ = engine.run_program(eng, body, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else 0)
    regs = [r for k, r in eng.log if k == "register" and r.name == "subject"]
    nodes = [n for _, v in case["props"] for n in wire.walk(v)]
    for t in ("res", "rout", "out", "unk", "asset", "arch", "bad"):
        rec.label(t, any(n[0] == t for n in nodes))
    rec.label("secret", any(n[0] == "out" and n[3] for n in nodes))
    rec.label("nested out", any(n[0] == "out" and any(m[0] in ("out", "res", "rout") for m in wire.walk(n[1])) for n in nodes))
    rec.label("remote+outputValues", case["remote"] and "outputValues" in case["features"])
    if bad:
        if err is None:
            raise Violation("a value with no wire form was accepted")
        if regs:
            raise Violation("a registration was sent although a value has no wire form")
        rec.nontriv()
        return
    if err is not None:
        raise Violation(f"program failed: {err!r}")
    if len(regs) != 1:
        raise Violation(f"{len(regs)} registrations for the resource")
    got = from_struct(regs[0].object)
    if not same(got, want):
        raise Violation(f"encoded as {got!r}\n  expected  {want!r}")
    if any(n[0] in ("res", "rout", "out", "unk") for n in nodes):
        rec.nontriv()


RULE = "random property bags over a fixed world of 12 resources x engine features x local/remote; non-trivial: contains an output, resource or unknown"


@part("encode", quick=4000, thorough=120000, shards=6, rule=RULE)
def encode():
    return wire.encodings(), run


@part("reject", quick=800, thorough=20000, shards=2, rule="the same with values that have no wire form")
def reject():
    return wire.encodings(bad=True), run
