"""C13 transformations: order, what each sees, no leaks."""
import engine
from engine import from_struct
from harness import fail, part
from hypothesis import strategies as st

KINDS = ["custom", "comp", "remote", "provider", "read"]
acts = st.one_of(
    st.just(["none"]),
    st.tuples(st.just("set"), st.sampled_from("abc"), st.integers(0, 9)).map(list),  # a new props dict with one key changed
    st.tuples(st.just("only"), st.sampled_from("abc"), st.integers(0, 9)).map(list),  # replaces the props
    st.tuples(st.just("append"), st.sampled_from("abc"), st.sampled_from("xyz")).map(list),  # new value computed from the old
    st.tuples(st.just("protect"), st.booleans()).map(list),
    st.tuples(st.just("version"), st.sampled_from(["1.0.0", "2.0.0"])).map(list),
    st.tuples(st.just("ignore"), st.sampled_from("pq")).map(list),  # appends to ignore_changes
    st.tuples(st.just("same")).map(list),  # returns exactly what it was given
    st.tuples(st.just("iftype"), st.sampled_from(["T0", "T1"]), st.sampled_from("abc"), st.integers(0, 9)).map(list),
    st.tuples(st.just("ifname"), st.integers(0, 5), st.sampled_from("abc"), st.integers(0, 9)).map(list),
)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    pick = lambda xs: draw(st.sampled_from(xs))
    nprops = draw(st.integers(1, 2))
    props = [{k: draw(st.one_of(st.integers(0, 9), st.text("uvw", max_size=2))) for k in pick([[], ["a"], ["a", "b"], ["b", "c"]])} for _ in range(nprops)]
    pool, res, steps = [], [], []
    late = False
    for i in range(n):
        kind = pick(KINDS[:4] + KINDS[:3] + KINDS)
        if draw(st.integers(0, 5)) == 0:
            # parents created before this are off limits: whether they pass it on is not specified
            steps.append(["stack", draw(acts)])
            first = i
            late = True
        elif not late:
            first = 0
        usable = [k for k, o in enumerate(pool) if (o["parent"] is None or o["parent"] >= first) and (o["id"] is not None) == (kind == "read")]
        if usable and draw(st.integers(0, 2)) == 0:
            o = pick(usable)
        else:
            parents = [j for j in range(first, i) if res[j]["kind"] != "provider"]
            pool.append({"parent": pick(parents) if parents and draw(st.integers(0, 3)) else None, "trs": draw(st.one_of(st.none(), st.lists(acts, max_size=3), st.lists(acts, max_size=3) if draw(st.integers(0, 7)) else st.lists(acts, min_size=8, max_size=10))),
                         "protect": pick([None, None, True, False]), "version": pick([None, "0.1"]), "ignore": pick([None, ["i"]]),
                         "id": "id" if kind == "read" else None})
            o = len(pool) - 1
        res.append({"kind": kind, "opts": o, "props": draw(st.integers(0, nprops - 1))})
        steps.append(["new", i])
    bad = None
    if draw(st.integers(0, 9)) == 0:
        bad = draw(st.integers(0, n - 1))
        pool[res[bad]["opts"]]["trs"] = (pool[res[bad]["opts"]]["trs"] or []) + [["reparent"]]
    share = draw(st.integers(0, 4)) == 4
    if share:
        # the same few functions are given again and again
        few = draw(st.lists(acts, min_size=1, max_size=2))
        for o in pool:
            o["trs"] = o["trs"] and [a if a == ["reparent"] else draw(st.sampled_from(few)) for a in o["trs"]]
    return {"share": share, "props": props, "pool": pool, "res": res, "steps": steps, "bad": bad}


def fold(act, name, typ, props, opts):
    """reference: (props, opts) after one transformation; opts = (protect, version, ignore)"""
    k = act[0]
    p, v, g = opts
    if k == "set" or k == "iftype" and typ.endswith(act[1]) or k == "ifname" and name == f"r{act[1]}":
        return {**props, act[-2]: act[-1]}, opts
    if k == "only":
        return {act[1]: act[2]}, opts
    if k == "append":
        return {**props, act[1]: str(props.get(act[1])) + act[2]}, opts
    if k == "protect":
        return props, (act[1], v, g)
    if k == "version":
        return props, (p, act[1], g)
    if k == "ignore":
        return props, (p, v, (g or []) + [act[1]])
    return props, opts


def run(case, rec):
    eng = engine.FakeEngine(["secrets"])
    log = []
    made = {}

    def make(act, tid):
        import pulumi

        def tr(args):
            log.append((tid, args.resource, args.type_, args.name, dict(args.props), (args.opts.protect, args.opts.version, args.opts.ignore_changes and list(args.opts.ignore_changes)),
                        args.opts.parent))
            k = act[0]
            o, p = args.opts, args.props
            R = pulumi.ResourceTransformationResult
            if k == "none":
                return None
            if k == "same":
                return R(p, o)
            if k == "reparent":
                return R(p, pulumi.ResourceOptions(parent=eng_other[0]))
            if k == "set" or k == "iftype" and args.type_.endswith(act[1]) or k == "ifname" and args.name == f"r{act[1]}":
                return R({**p, act[-2]: act[-1]}, o)
            if k in ("iftype", "ifname"):
                return None
            if k == "only":
                return R({act[1]: act[2]}, o)
            if k == "append":
                return R({**p, act[1]: str(p.get(act[1])) + act[2]}, o)
            new = {"protect": dict(protect=act[1]), "version": dict(version=act[1]), "ignore": dict(ignore_changes=[act[1]])}
            return R(p, pulumi.ResourceOptions.merge(o, pulumi.ResourceOptions(**{x: y for x, y in new.get(k, {}).items()})))
        return tr

    eng_other = []
    objs, fns = {}, {}

    def reuse(a):
        if repr(a) not in fns:
            fns[repr(a)] = make(a, (repr(a), 0))
        return fns[repr(a)]

    def body():
        import pulumi
        eng_other.append(pulumi.ComponentResource("x:y:Z", "other"))
        shared = [dict(p) for p in case["props"]]
        snap = [dict(p) for p in case["props"]]
        sid = 0
        for s in case["steps"]:
            if s[0] == "stack":
                pulumi.runtime.register_stack_transformation(make(s[1], ("stack", sid)))
                sid += 1
                continue
            i = s[1]
            r = case["res"][i]
            o = case["pool"][r["opts"]]
            if r["opts"] not in objs:
                trs = None if o["trs"] is None else [reuse(a) if case.get("share") else make(a, (r["opts"], x)) for x, a in enumerate(o["trs"])]
                objs[r["opts"]] = pulumi.ResourceOptions(parent=None if o["parent"] is None else made[o["parent"]], transformations=trs,
                                                         protect=o["protect"], version=o["version"], ignore_changes=o["ignore"] and list(o["ignore"]), id=o["id"])
            opts = objs[r["opts"]]
            t = f"pkg:mod:T{i % 2}"
            p = shared[r["props"]]
            if r["kind"] == "provider":
                made[i] = pulumi.ProviderResource(f"pkg{i % 2}", f"r{i}", p, opts)
            elif r["kind"] in ("custom", "read"):
                made[i] = pulumi.CustomResource(t, f"r{i}", p, opts)
            else:
                made[i] = pulumi.ComponentResource(t, f"r{i}", p, opts, remote=r["kind"] == "remote")
            if shared != snap:
                fail(f"constructing r{i} changed the caller's inputs: {shared}, were {snap}")
            now = (opts.protect, opts.version, opts.ignore_changes, opts.parent, opts.transformations and len(opts.transformations))
            was = (o["protect"], o["version"], o["ignore"], None if o["parent"] is None else made[o["parent"]], o["trs"] and len(o["trs"]))
            if now != was:
                fail(f"constructing r{i} changed the caller's options: {now}, were {was}")

    err, _ = engine.run_program(eng, body)
    reqs = {}
    for k, q in eng.log:
        if k in ("register", "read"):
            reqs[q.name] = (k, q)
    # reference
    stack, chains, want_log, want = [], {}, [], {}
    protects = {}
    failed = None
    sid = 0
    deep = False
    again = False
    for s in case["steps"]:
        if s[0] == "stack":
            stack = stack + [(s[1], ("stack", sid))]
            sid += 1
            continue
        i = s[1]
        r = case["res"][i]
        o = case["pool"][r["opts"]]
        own = [(a, (repr(a), 0) if case.get("share") else (r["opts"], x)) for x, a in enumerate(o["trs"] or [])]
        chain = own + (chains[o["parent"]] if o["parent"] is not None else stack)
        chains[i] = chain
        typ = f"pulumi:providers:pkg{i % 2}" if r["kind"] == "provider" else f"pkg:mod:T{i % 2}"
        props, opts = dict(case["props"][r["props"]]), (o["protect"], o["version"], o["ignore"])
        for a, tid in chain:
            want_log.append((tid, i, typ, f"r{i}", props, opts, o["parent"]))
            if a == ["reparent"]:
                failed = i
                break
            props, opts = fold(a, f"r{i}", typ, props, opts)
        if failed is not None:
            break
        again |= len(chain) > len({repr(t) for _, t in chain})
        deep |= len({t[0] for _, t in chain}) >= 2
        prot = opts[0] if opts[0] is not None else (o["parent"] is not None and protects[o["parent"]])
        protects[i] = bool(prot)
        want[i] = (props, bool(prot), opts[1] or "", opts[2] or [])
    if failed is not None:
        if err is None:
            fail(f"a transformation changed the parent of r{failed} and the program succeeded")
        if f"r{failed}" in reqs:
            fail(f"r{failed} was registered although a transformation changed its parent")
        rec.label("reparented")
    elif err is not None:
        if isinstance(err, AssertionError) or type(err).__name__ == "Violation":
            raise err
        fail(f"program failed: {type(err).__name__}: {err}")
    if len(log) != len(want_log):
        fail(f"{len(log)} transformation calls, expected {len(want_log)}", [x[0] for x in log], [x[0] for x in want_log])
    for g, w in zip(log, want_log):
        if g[0] != w[0] or g[2:6] != w[2:6]:
            fail(f"transformation call {(g[0],) + g[2:6]}, expected {(w[0],) + w[2:6]}")
        if w[1] in made and g[1] is not made[w[1]]:
            fail(f"transformation of r{w[1]} was given another resource")
        if g[6] is not (None if w[6] is None else made[w[6]]):
            fail(f"transformation of r{w[1]} saw parent {g[6]}")
    for i, (props, prot, version, ignore) in want.items():
        k, q = reqs[f"r{i}"]
        got = from_struct(q.properties if k == "read" else q.object)
        wp = {a: (float(b) if isinstance(b, int) else b) for a, b in props.items()}
        if got != wp:
            fail(f"r{i} registered with {got}, expected {wp}")
        if q.version != version:
            fail(f"r{i} version {q.version!r}, expected {version!r}")
        if k == "register" and (q.protect, list(q.ignoreChanges)) != (prot, ignore):
            fail(f"r{i} protect/ignore {q.protect} {list(q.ignoreChanges)}, expected {prot} {ignore}")
    if deep:
        rec.nontriv()
    rec.label("the same function twice", again)
    rec.label("stack transformations", bool(stack))


@part("transformations", quick=6000, thorough=150000, shards=8, rule="some resource is transformed by at least two different owners (itself, ancestors, the stack)")
def transformations():
    return cases(), run
