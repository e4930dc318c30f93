"""C36 which registered module or package rehydrates a reference."""
import engine
from engine import RESOURCE_SIG, SIG
from harness import fail, part
from hypothesis import strategies as st

PARTS = ["index", "sub/thing", "providers", ""]
nums = st.sampled_from([0, 0, 1, 1, 2, 3, 10])
pre = st.sampled_from(["", "", "", "-alpha", "-alpha.1", "-alpha.10", "-alpha.2", "-beta", "-1", "-rc.1"])
build = st.sampled_from(["", "", "", "+b1", "+b2"])


@st.composite
def versions(draw):
    if draw(st.integers(0, 9)) == 0:
        return None
    return f"{draw(nums)}.{draw(nums)}.{draw(nums)}{draw(pre)}{draw(build)}"


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    regs = []
    target = pick([("module", "pkg", "mod"), ("package", "pkg", "")])
    for _ in range(draw(st.integers(0, 7))):
        kind, p, m = target if draw(st.integers(0, 3)) else (pick(["module", "package"]), pick(["pkg", "mod", "pulumi"]), pick(["mod", "pkg", "providers"]))
        regs.append([kind, p, m if kind == "module" else "", draw(versions())])
    refs = []
    have = [r[3] for r in regs if r[3]]
    for _ in range(draw(st.integers(1, 4))):
        v = pick(have) if have and draw(st.booleans()) else draw(versions()) or ""
        if have and draw(st.integers(0, 2)) == 0:
            # a neighbour of a registered version
            a, b, c = pick(have).split("-")[0].split("+")[0].split(".")
            v = pick([f"{a}.{b}.{int(c) + 1}", f"{a}.{int(b) + 1}.0", f"{int(a) + 1}.0.0", f"{a}.{max(0, int(b) - 1)}.{c}", f"{a}.{b}.{max(0, int(c) - 1)}", f"{a}.0.0"])
        k = pick(["target", "target", "target", "module", "package"])
        if k == "target":
            k = target[0]
            pkg, mod = target[1], target[2]
        else:
            pkg, mod = pick(["pkg", "mod", "other"]), pick(["mod", "pkg"])
        refs.append([k, pkg, mod, v if draw(st.integers(0, 4)) else None, pick([None, "", "the-id"]), draw(st.booleans())])
    return {"regs": regs, "order": draw(st.permutations(list(range(len(regs))))), "refs": refs}


# ---- semantic versions, written from semver.org
def key(v):
    core = v.split("+")[0]
    core, _, p = core.partition("-")
    ids = []
    for x in p.split(".") if p else []:
        ids.append((0, int(x), "") if x.isdigit() else (1, 0, x))
    return tuple(int(x) for x in core.split(".")), (0, tuple(ids)) if p else (1, ())


def mmp(v):
    return key(v)[0]


def choose(regs, want):
    ok = []
    for v in regs:
        if v is None or not want:
            ok.append(v)
        else:
            w, h = mmp(want), mmp(v)
            if h[0] == w[0] and h[1] >= w[1] and h[2] >= w[2]:
                ok.append(v)
    if not ok:
        return False
    if None in ok:
        return None
    return max(ok, key=key)


def store(regs):
    out, clash = {}, []
    for i, (kind, p, m, v) in enumerate(regs):
        xs = out.setdefault((kind, p, m), [])
        if any(x is None or v is None or key(x) == key(v) for x in xs):
            clash.append(i)
        else:
            xs.append(v)
    return out, clash


class Made:
    def __init__(self, *a):
        self.a = a


def registries():
    from pulumi.runtime import rpc
    return [getattr(rpc, n) for n in ("_RESOURCE_MODULES", "_RESOURCE_PACKAGES") if isinstance(getattr(rpc, n, None), dict)]


def run(case, rec):
    import pulumi
    from pulumi.runtime import rpc
    from semver import VersionInfo

    class Module(rpc.ResourceModule):
        def __init__(self, tag, v):
            self.tag, self.v = tag, None if v is None else VersionInfo.parse(v)

        def version(self):
            return self.v

        def construct(self, name, typ, urn):
            return Made("module", self.tag, name, typ, urn)

    class Package(rpc.ResourcePackage):
        def __init__(self, tag, v):
            self.tag, self.v = tag, None if v is None else VersionInfo.parse(v)

        def version(self):
            return self.v

        def construct_provider(self, name, typ, urn):
            return Made("package", self.tag, name, typ, urn)

    saved = [(r, dict(r)) for r in registries()]
    n = [0]

    def clear():
        for r in registries():
            r.clear()

    def play(regs, prefix):
        _, clash = store(regs)
        for i, (kind, p, m, v) in enumerate(regs):
            try:
                if kind == "module":
                    rpc.register_resource_module(prefix + p if p != "pulumi" else p, m, Module((kind, p, m, v), v))
                else:
                    rpc.register_resource_package(prefix + p if p != "pulumi" else p, Package((kind, p, m, v), v))
                bad = False
            except ValueError:
                bad = True
            if bad != (i in clash):
                fail(f"registering {kind} {p}:{m} {v} after {regs[:i]}: " + ("rejected" if bad else "accepted although that version is registered"))

    def lookup(ref, prefix):
        kind, pkg, mod, v, id_, sec = ref
        pkg = prefix + pkg
        typ = f"{pkg}:{mod}:Thing" if kind == "module" else f"pulumi:providers:{pkg}"
        urn = f"urn:pulumi:stk::proj::a:b:Parent${typ}::nm"
        d = {SIG: RESOURCE_SIG, "urn": urn}
        if v is not None:
            d["packageVersion"] = v
        if id_ is not None:
            d["id"] = id_
        s = engine.to_struct({"x": {"deep": [d]} if sec else d})
        got = rpc.deserialize_properties(s)["x"]
        return (got["deep"][0] if sec else got), typ, urn

    try:
        results = []
        for prefix, regs in (("", case["regs"]), ("zz", [case["regs"][i] for i in case["order"]])):
            clear()
            play(regs, prefix)
            have, _ = store(regs)
            engine.in_context(lambda: engine.configure(engine.FakeEngine(["secrets"], dry_run=True)))
            for ref in case["refs"]:
                kind, pkg, mod, v, id_, sec = ref

                def go():
                    engine.configure(engine.FakeEngine(["secrets"], dry_run=True))
                    return lookup(ref, prefix)

                got, typ, urn = engine.in_context(go)
                want = choose(have.get((kind, pkg, mod if kind == "module" else ""), []), v or "")
                if want is False:
                    rec.label("no qualifying version", bool(have.get((kind, pkg, mod))))
                    ok = isinstance(got, pulumi.output.Unknown) if id_ == "" else got == (urn if id_ is None else id_)
                    if not ok:
                        fail(f"reference {ref} gave {got!r} although nothing registered fits", f"registered {have}")
                    results.append("none")
                    continue
                if not isinstance(got, Made):
                    fail(f"reference {ref} gave {got!r}, expected the {kind} of version {want}", f"registered {have}")
                k2, tag, name, t2, u2 = got.a
                if (k2, name, t2, u2) != (kind, "nm", typ, urn) or tag[:3] != (kind, pkg, mod if kind == "module" else ""):
                    fail(f"reference {ref} was constructed with {got.a}")
                if tag[3] != want and (tag[3] is None or want is None or key(tag[3]) != key(want)):
                    fail(f"reference {ref} used version {tag[3]}, expected {want}", f"registered in the order {[r for r in regs]}")
                if v and want and key(v) != key(want):
                    rec.label("newer version chosen")
                rec.nontriv()
    finally:
        clear()
        for r, d in saved:
            r.update(d)


@part("select", quick=6000, thorough=200000, shards=6, rule="some reference resolves to a registered version")
def select():
    return cases(), run
