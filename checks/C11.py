"""C11 each resource is registered once, in order, whatever the engine's reply order."""
import sys

import engine
import grpc
import program
from engine import from_struct
from harness import fail, part
from hypothesis import strategies as st
from program import rname


def observe(p, schedule):
    """Runs p; returns (model, {name: request}, {urn: outputs}) after judging the history."""
    m = program.Model(p)
    left = []

    async def after(err):
        left.append((engine.outstanding(), len(eng.log)))

    eng = program.make_engine(p, m)
    err, _, _, interp, _ = program.run(p, model=m, eng=eng, schedule=schedule, after=after)
    if err is not None:
        fail(f"program failed: {type(err).__name__}: {err}")
    if left[0][0]:
        fail(f"{left[0][0]} engine calls still outstanding when the program ended")
    if len(eng.log) != left[0][1]:
        fail("engine calls made after the program ended")
    stack_urn = "urn:pulumi:stk::proj::pulumi:pulumi:Stack::proj-stk"
    regs, outs, ans = {}, {}, {}
    for (kind, req), (sent, answered) in zip(eng.log, eng.ticks):
        if kind in ("register", "read"):
            if req.name in regs:
                fail(f"{req.name} was registered twice")
            regs[req.name] = (kind, req, sent, answered)
            ans[eng.make_urn(req.parent, req.type, req.name)] = answered
        elif kind == "outputs":
            if req.urn in outs:
                fail(f"outputs of {req.urn} registered twice")
            outs[req.urn] = (req, sent)
        else:
            fail(f"unexpected engine call {kind}")
    if set(regs) != {rname(i) for i in m.alive} | {"proj-stk"}:
        fail(f"registered {sorted(regs)}, expected {[rname(i) for i in m.alive]} and the stack")
    kind, sreq = regs["proj-stk"][:2]
    if (kind, sreq.type, sreq.custom, sreq.remote, sreq.parent, len(sreq.object.fields)) != ("register", "pulumi:pulumi:Stack", False, False, "", 0):
        fail(f"stack registration {sreq}")
    want_out = {stack_urn: ({}, None)}
    for i, (v, alive) in m.outs.items():
        if alive:
            want_out[m.urn(i)] = ({"o": m.wire(v, False)}, i)
    if set(outs) != set(want_out):
        fail(f"outputs registered for {sorted(outs)}, expected {sorted(want_out)}")
    for urn, (req, sent) in outs.items():
        got = from_struct(req.outputs)
        if not program.wire_match(got, want_out[urn][0]):
            fail(f"outputs of {urn}: sent {got}", f"expected {want_out[urn][0]}")
        if sent <= ans[urn]:
            fail(f"outputs of {urn} sent before its registration was answered")
        if want_out[urn][1] is not None:
            for t, j in m.deps(m.outs[want_out[urn][1]][0]):
                if t == "r" and sent <= ans[m.urn(j)]:
                    fail(f"outputs of {urn} sent before the registration of {rname(j)} was answered")
    for i in m.alive:
        r = m.res[i]
        kind, req, sent, _ = regs[rname(i)]
        what = f"registration of {m.urn(i)}"
        if (kind == "read") != (r["kind"] == "read"):
            fail(f"{what} sent as {kind}")
        if req.type != r["type"]:
            fail(f"{what}: type {req.type}")
        par = stack_urn if r["parent"] is None else m.urn(r["parent"])
        if req.parent != par:
            fail(f"{what}: parent {req.parent}, expected {par}")
        if sent <= ans[par]:
            fail(f"{what} sent before its parent's was answered")
        for u in req.dependencies:
            if u in ans and sent <= ans[u]:
                fail(f"{what} sent before its dependency {u} was answered")
        prov = "" if r["prov"] is None or r["kind"] in ("comp", "remote") else prov_ref(m, r["prov"])
        if kind == "read":
            got = from_struct(req.properties)
            if req.id != "rd-" + rname(i):
                fail(f"{what}: id {req.id}")
        else:
            got = from_struct(req.object)
            if req.custom != (r["kind"] not in ("comp", "remote")) or req.remote != (r["kind"] == "remote"):
                fail(f"{what}: custom={req.custom} remote={req.remote} for a {r['kind']}")
            pm = dict(req.providers)
            want = {"pkg": prov_ref(m, r["prov"])} if r["kind"] == "remote" and r["prov"] is not None else {}
            if pm != want:
                fail(f"{what}: providers {pm}, expected {want}")
        if req.provider != prov:
            fail(f"{what}: provider {req.provider!r}, expected {prov!r}")
        if r["prov"] is not None and r["kind"] != "comp" and sent <= ans[m.urn(r["prov"])]:
            fail(f"{what} sent before its provider's was answered")
        want = {k: m.wire(v, r["kind"] == "remote", i) for k, v in r["props"].items()}
        if not program.wire_match(got, want):
            fail(f"{what}: inputs {got}", f"expected {want}")
    return m, regs, outs


def prov_ref(m, j):
    return m.urn(j) + "::" + (m.idval(j) if m.id_known(j) else engine.UNKNOWN)


def check(case, rec):
    p = case["p"]
    program.break_hazards(p)
    m, a, oa = observe(p, p["schedule"])
    m, b, ob = observe(p, case["schedule2"])
    cyclic = False
    for n in a:
        x, y = canon(a[n][1]), canon(b[n][1])
        dx, dy = x.pop("deps"), y.pop("deps")
        if x != y:
            fail(f"request for {n} depends on the reply order", x, y)
        if dx != dy:
            cyclic = True
    for u in oa:
        if from_struct(oa[u][0].outputs) != from_struct(ob[u][0].outputs):
            fail(f"outputs of {u} depend on the reply order")
    order = [n for n in a], [n for n in b]
    if order[0] != order[1]:
        rec.label("different registration order in the two schedules")
    if len(m.alive) >= 3 and (any(p["schedule"]) or any(case["schedule2"])):
        rec.nontriv()
    rec.label("dependencies differ (cycles)", cyclic)


def canon(req):
    o = from_struct(req.object if hasattr(req, "object") else req.properties)

    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if not (k == "dependencies" and x.get(engine.SIG) == engine.OUTPUT_SIG)}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x

    d = {"deps": sorted(req.dependencies), "obj": strip(o), "parent": req.parent, "provider": req.provider, "type": req.type}
    for f in ("custom", "remote", "protect", "version", "acceptSecrets", "acceptResources", "id"):
        if hasattr(req, f):
            d[f] = getattr(req, f)
    return d


# ---------------------------------------------------------------- an engine that refuses something
@st.composite
def refusals(draw):
    p = draw(program.programs(max_res=6, budget=6, reads=True))
    return {"p": p, "n": draw(st.integers(0, 6)), "code": draw(st.sampled_from(engine.CODES)),
            "what": draw(st.sampled_from(["resource", "resource", "outputs", "stack"]))}


def run_refusal(case, rec):
    p = case["p"]
    program.break_hazards(p)
    m = program.Model(p)
    if not m.alive:
        return
    eng = program.make_engine(p, m)
    reg0, read0 = eng.on_register, eng.on_read
    victim = "proj-stk" if case["what"] == "stack" else rname(m.alive[case["n"] % len(m.alive)])
    refused = []

    def refuse(name, inner, req):
        if name != victim or (case["what"] == "outputs") != hasattr(req, "outputs"):
            return inner and inner(req)
        refused.append(name)
        raise engine.FakeRpcError(getattr(grpc.StatusCode, case["code"]), "no")

    eng.on_register = lambda r: refuse(r.name, reg0, r)
    eng.on_read = lambda r: refuse(r.name, read0, r)
    eng.on_outputs = lambda r: refuse(r.urn.split("::")[-1], None, r)
    program.run(p, model=m, eng=eng, schedule=p["schedule"])
    names, outs = set(), set()
    for kind, req in eng.log:
        if kind in ("register", "read"):
            if req.name in names:
                fail(f"{req.name} was sent twice; {victim} was refused with {case['code']}")
            names.add(req.name)
        elif kind == "outputs":
            if req.urn in outs:
                fail(f"outputs of {req.urn} were sent twice; {victim} was refused with {case['code']}")
            outs.add(req.urn)
    extra = names - {rname(i) for i in m.alive} - {"proj-stk"}
    if extra:
        fail(f"registered {extra}, which the program does not make")
    if refused:
        rec.nontriv()
        rec.label("refused " + case["what"])


@part("refusals", quick=700, thorough=15000, shards=2, rule="a request was refused with one of the gRPC status codes")
def refusal_part():
    return refusals(), run_refusal


# ---------------------------------------------------------------- many resources
@st.composite
def long_programs(draw):
    kinds = st.sampled_from(["dep", "prop", "parent", "layer", "comp", "all"])
    times = draw(st.sampled_from([1, 5, 12, 20, 40]))
    if times == 40:  # one long chain
        segs = [(draw(st.sampled_from(["dep", "prop", "dep", "prop", "comp", "layer"])), draw(st.integers(28, 38)))]
    else:
        segs = draw(st.lists(st.tuples(kinds, st.integers(1, 40)), min_size=1, max_size=5))
    return {"segs": segs, "times": times, "schedule": draw(st.lists(st.integers(0, 30), max_size=20))}


def long_plan(case):
    """[(kind of resource, parent, depends_on, property sources)], indices into the list itself"""
    plan, last, depth = [], [], {None: 0}

    def add(kind, parent=None, deps=(), props=()):
        if parent is not None and depth[parent] >= 60:
            parent = None  # URNs hold the types of all the parents
        plan.append((kind, parent, list(deps), list(props)))
        depth[len(plan) - 1] = depth[parent] + 1
        return len(plan) - 1

    for kind, n in case["segs"]:
        if kind == "layer":
            for _ in range(max(1, n * case["times"] // 6)):
                last = [add("custom", None, last) for _ in range(6)]
        elif kind == "all":
            last = [add("custom", None, last, range(len(plan))[-300:])]
        else:
            for _ in range(n * case["times"]):
                prev = last[-1:]
                if kind == "dep":
                    last = [add("custom", None, prev)]
                elif kind == "prop":
                    last = [add("custom", None, (), prev)]
                elif kind == "parent":
                    last = [add("custom", *prev)]
                else:  # a component with a child, the next one depending on the component
                    c = add("comp", None, prev)
                    add("custom", c)
                    last = [c]
        if len(plan) > 2500:
            break
    return plan


def run_long(case, rec):
    plan = long_plan(case)
    eng = engine.FakeEngine(["secrets", "resourceReferences", "outputValues"])

    def body():
        import pulumi
        made = []
        for i, (kind, parent, deps, props) in enumerate(plan):
            o = pulumi.ResourceOptions(parent=None if parent is None else made[parent], depends_on=[made[d] for d in deps])
            if kind == "comp":
                made.append(pulumi.ComponentResource("t:m:C", f"r{i}", {}, o))
            else:
                made.append(pulumi.CustomResource("t:m:T", f"r{i}", {f"p{j}": made[j].urn for j in props}, o))

    frame, used, limit = sys._getframe(), 0, sys.getrecursionlimit()
    while frame:
        frame, used = frame.f_back, used + 1
    sys.setrecursionlimit(1000 + used)  # Python's own limit, which Hypothesis raises
    try:
        err, _ = engine.run_program(eng, body, schedule=case["schedule"])
    finally:
        sys.setrecursionlimit(limit)
    if err is not None:
        fail(f"a program of {len(plan)} resources failed: {type(err).__name__}: {str(err)[:200]}")
    regs, ans = {}, {}
    for (kind, req), (sent, answered) in zip(eng.log, eng.ticks):
        if kind == "register":
            if req.name in regs:
                fail(f"{req.name} was registered twice")
            regs[req.name] = req, sent, eng.make_urn(req.parent, req.type, req.name)
            ans[req.name] = answered
    if set(regs) != {f"r{i}" for i in range(len(plan))} | {"proj-stk"}:
        fail(f"{len(regs) - 1} resources registered of {len(plan)}")
    for i, (kind, parent, deps, props) in enumerate(plan):
        req, sent, _ = regs[f"r{i}"]
        up = "proj-stk" if parent is None else f"r{parent}"
        if req.parent != regs[up][2]:
            fail(f"parent of r{i}: {req.parent}")
        for j in deps + props:
            # what depends on a component depends on what the component holds
            for k in [j] if plan[j][0] == "custom" else [j + 1]:
                if regs[f"r{k}"][2] not in req.dependencies:
                    fail(f"r{i} depends on r{k}, which its registration does not name")
                if sent <= ans[f"r{k}"]:
                    fail(f"r{i} was sent before r{k} was answered")
        if sent <= ans[up]:
            fail(f"r{i} was sent before its parent was answered")
    rec.label("1000 resources or more", len(plan) >= 1000)
    if len(plan) >= 300:
        rec.nontriv()


@part("long", quick=40, thorough=1000, shards=4, rule="at least 300 resources")
def long_part():
    return long_programs(), run_long


@part("schedules", quick=3500, thorough=50000, shards=8,
      rule="at least three resources registered and at least one of the two schedules deviates from first-in first-out")
def schedules():
    s = st.fixed_dictionaries({"p": program.programs(max_res=8, budget=8, reads=True),
                               "schedule2": st.lists(st.integers(0, 6), max_size=40)})
    return s, check
