"""C32 only compatible CLI versions are accepted."""
import os
import re

from cli import cli
from harness import fail, part
from hypothesis import strategies as st

MIN = (3, 1, 0, "")
SKIP = "PULUMI_AUTOMATION_API_SKIP_VERSION_CHECK"
NUM = r"(0|[1-9]\d*)"
SEMVER = re.compile(r"^" + NUM + r"\." + NUM + r"\." + NUM + r"(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?$", re.A)


def parse(v):
    m = SEMVER.match(v)
    return None if not m or v.endswith("\n") else (int(m[1]), int(m[2]), int(m[3]), m[4] or "")


def pre_key(p):
    """numeric identifiers below others, compared as numbers; a longer list above its prefix; no prerelease above all"""
    if not p:
        return (1,)
    return (0, [(0, int(x), "") if x.isdigit() else (1, 0, x) for x in p.split(".")])


def order(v):
    return (v[0], v[1], v[2], pre_key(v[3]))


def compatible(minimum, v):
    return v is not None and v[0] == minimum[0] and order(v) >= order(minimum)


ident = st.sampled_from(["alpha", "beta", "rc", "dev", "0", "1", "2", "10", "9", "x-y", "-", "0a", "A", "1234567"])
pres = st.one_of(st.just(""), st.just(""), st.lists(ident, min_size=1, max_size=4).map(".".join))
builds = st.one_of(st.just(""), st.just(""), st.lists(st.sampled_from(["001", "g1a2b3c", "dirty", "2", "-"]), min_size=1, max_size=3).map(".".join))


@st.composite
def version(draw, near=None):
    if near is not None and draw(st.integers(0, 3)) > 0:
        n = [max(0, x + draw(st.sampled_from([0, 0, 0, 0, 1, -1, 9]))) for x in near[:3]]
        pre = draw(st.one_of(st.just(near[3]), pres, st.just("" if not near[3] else near[3] + ".0")))
    else:
        n = [draw(st.one_of(st.integers(0, 5), st.integers(0, 200), st.sampled_from([10, 3, 1, 0, 10 ** 9]))) for _ in range(3)]
        pre = draw(pres)
    b = draw(builds)
    return "%d.%d.%d" % tuple(n) + ("-" + pre if pre else "") + ("+" + b if b else "")


@st.composite
def broken(draw):
    v = draw(version(MIN))
    k = draw(st.integers(0, 9))
    return [v.rpartition(".")[0], v + ".0" if "-" not in v and "+" not in v else v.replace("-", "..").replace("+", "++"), "0" + v, v.replace(".", "-", 1), "x" + v, "", "unknown", v.split("-")[0].split("+")[0] + "-", "3.1", "3 .1.0"][k]


@st.composite
def cases(draw):
    return {"v": draw(st.one_of(version(MIN), version(MIN), version(), broken())), "prefix": draw(st.sampled_from(["v", "v", ""])), "env": draw(st.sampled_from([None, None, None, "true", "1"])),
            "own": draw(st.sampled_from([None, None, None, "true", "1"])), "other": draw(st.booleans()), "end": draw(st.sampled_from(["\n", "\n", "\r\n", "", " \n"]))}


def run(case, rec):
    from pulumi.automation import InvalidVersionError, LocalWorkspace

    c = cli()

    def handler(req):
        if req.argv[:1] != ["version"]:
            fail(f"ran {req.argv}")
        req.out(case["prefix"] + case["v"] + case["end"])
        req.exit(0)

    c.start(handler)
    off = case["env"] is not None or case["own"] is not None
    envs = {} if case["own"] is None else {SKIP: case["own"]}
    if case["other"]:
        envs["SOME_OTHER_VARIABLE"] = "x"
    if case["env"] is not None:
        os.environ[SKIP] = case["env"]
    got = ws = None
    try:
        try:
            ws = LocalWorkspace(work_dir=c.dir, env_vars=envs or None)
        except InvalidVersionError as e:
            got = e
    finally:
        os.environ.pop(SKIP, None)
    c.finish()
    v = parse(case["v"])
    ok = off or compatible(MIN, v)
    if ok and got is not None:
        fail(f"version {case['v']!r} was refused ({'check switched off' if off else 'check on'}): {got}")
    if not ok and got is None:
        fail(f"version {case['v']!r} was accepted")
    if got is not None and SKIP not in str(got) and v is None:
        fail(f"the error for an unreadable version does not say how to switch the check off: {got}")
    if ws is not None:
        try:
            seen = ws.pulumi_version
        except InvalidVersionError:
            seen = "no version"
        if seen != (case["v"] if v is not None else "no version"):
            fail(f"the workspace's version is {seen!r}, the tool's is {case['v']!r}")
    rec.label("refused", not ok)
    rec.label("switched off", off)
    rec.label("unreadable", v is None)
    if off != compatible(MIN, v):
        rec.nontriv()


@part("constructor", quick=1200, thorough=30000, shards=6, batch=150, rule="compatible versions with the check on, or incompatible ones with it off")
def constructor():
    return cases(), run


@st.composite
def pairs(draw):
    m = draw(version(MIN))
    return {"min": m, "v": draw(st.one_of(version(parse(m)), version(parse(m)), version(), broken())), "off": draw(st.booleans())}


def run_pair(case, rec):
    try:
        from pulumi.automation._local_workspace import _parse_and_validate_pulumi_version as f
        from semver import VersionInfo
    except ImportError:  # a private function: the other part decides without it
        return
    from pulumi.automation import InvalidVersionError

    v = parse(case["v"])
    m = parse(case["min"])
    got = err = None
    try:
        got = f(VersionInfo.parse(case["min"]), case["v"], case["off"])
    except InvalidVersionError as e:
        err = e
    ok = case["off"] or compatible(m, v)
    if ok != (err is None):
        fail(f"minimum {case['min']}, version {case['v']!r}, check {'off' if case['off'] else 'on'}: {'accepted' if err is None else err}")
    if err is None and (None if got is None else str(got)) != (case["v"] if v else None):
        fail(f"version {case['v']!r} was read as {got}")
    if v is not None and err is not None:
        rec.nontriv()


@part("ordering", quick=6000, thorough=200000, shards=2, batch=500, rule="readable versions that are refused")
def ordering():
    return pairs(), run_pair
