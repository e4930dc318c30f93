"""C23 configuration accessors against a reference store and parser."""
import contextvars
import json
import os
import re

import engine
from harness import fail, part, same
from hypothesis import strategies as st

NAMES = [None, "", "proj", "aws", "my-ns", "a:b", "Proj"]
KEYS = ["a", "a-b", "a_b", "A", "cfg.key", "deep:key", "k\u00e9", "0", "x y"]
text = st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=8)
js = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**60, 2**60), st.floats(allow_nan=False), text),
                  lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)), max_leaves=6)
values = st.one_of(
    st.sampled_from(["true", "True", "TRUE", "false", "False", "FALSE", "yes", "no", "1", "0", "", " ", "null", "None", " true", "true\n", "-0", "+5", "007", "0x10", "1_000",
                     "1__0", "_1", "1e3", "1.5", "1.", ".5", "nan", "inf", "-Infinity", "NaN", "Infinity", "1,5", "\u0663", " 12 ", "1 2", "{}", "[]", "[1", "{\"a\": 1}", "{'a': 1}", "\"s\"", "[1,]", "9" * 30, "1e400"]),
    st.integers(-2**70, 2**70).map(str), st.floats().map(repr), js.map(json.dumps), text)
maps = st.dictionaries(st.tuples(st.sampled_from(NAMES[2:]), st.sampled_from(KEYS)), values, max_size=5)

KINDS = ["", "bool", "int", "float", "object"]
DEFAULTS = {"": ["", "dflt"], "bool": [True, False], "int": [0, 7], "float": [0.0, 2.5], "object": [{}, [], {"d": 1}, 0]}


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    k = lambda: (pick(NAMES[2:]), pick(KEYS))
    ops = []
    fam = [(pick(NAMES), pick(KEYS)) for _ in range(2)]  # a small family of keys so that reads meet writes
    anykey = lambda: pick(fam) if draw(st.integers(0, 3)) else (pick(NAMES), pick(KEYS))
    full = lambda p: (p[0] or "proj", p[1])
    for _ in range(draw(st.integers(1, 8))):
        o = pick(["read", "read", "read", "read", "set", "setall", "context", "mutate"])
        if o == "read":
            kind = pick(KINDS)
            n, key = anykey()
            mode = pick(["get", "get", "require"])
            secret = draw(st.booleans())
            d = None
            if mode == "get" and not (secret and kind == ""):
                d = pick([None, None] + [(x,) for x in DEFAULTS[kind]])
            ops.append(("read", n, key, kind, mode, secret, d))
        elif o == "set":
            ops.append(("set", *full(anykey()), draw(values)))
        elif o == "setall":
            m = draw(maps)
            if draw(st.booleans()):
                m[full(anykey())] = draw(values)
            ops.append(("setall", sorted(m.items()), draw(st.one_of(st.none(), st.lists(st.tuples(st.sampled_from(NAMES[2:]), st.sampled_from(KEYS)), max_size=3)))))
        elif o == "context":
            ops.append(("context", pick(["copy", "copy", "back"])))
        else:
            ops.append(("mutate",))
    specific = {}
    for p in draw(st.lists(st.sampled_from(fam), max_size=2)):
        specific[full(p)] = draw(values)
    bag = draw(maps)
    for p in draw(st.lists(st.sampled_from(fam), max_size=2)):
        bag[full(p)] = draw(values)
    return {"env": sorted(specific.items()), "bag": sorted(bag.items()) if draw(st.booleans()) else None, "ops": ops}


def env_key(k):
    out = ""
    for c in k:
        if re.fullmatch(r"[A-Z0-9_]", c):
            out += c
        elif re.fullmatch(r"[a-z]", c):
            out += c.upper()
        else:
            out += "_"
    return "PULUMI_CONFIG_" + out


class Bad(Exception):
    pass


def parse(kind, v):
    if kind == "":
        return v
    if kind == "bool":
        if v in ("true", "True"):
            return True
        if v in ("false", "False"):
            return False
        raise Bad
    if kind == "int":
        try:
            return int(v)
        except ValueError:
            raise Bad
    if kind == "float":
        try:
            return float(v)
        except ValueError:
            raise Bad
    try:
        return json.loads(v)
    except ValueError:
        raise Bad


EXPECT = {"bool": "bool", "int": "int", "float": "float", "object": "JSON object"}


def run(case, rec):
    import pulumi
    from pulumi.runtime import config as rc
    from pulumi import config as pc

    eng = engine.FakeEngine(["secrets"])
    saved = {k: v for k, v in os.environ.items() if k.startswith("PULUMI_CONFIG")}
    for k in saved:
        del os.environ[k]
    env = {env_key(f"{n}:{k}"): v for (n, k), v in case["env"]}
    if case["bag"] is not None:
        env["PULUMI_CONFIG"] = json.dumps({f"{n}:{k}": v for (n, k), v in case["bag"]})
    bag = {f"{n}:{k}": v for (n, k), v in case["bag"] or []}

    def go():
        engine.configure(eng)
        rc.set_all_config({}, [])  # fresh map for this context
        state = [{}, set()]
        handed = []  # dicts given to set_all_config, mutated afterwards
        stack = []
        cur = contextvars.copy_context()

        async def main():
            nonlocal cur
            for o in case["ops"]:
                if o[0] == "set":
                    cur.run(rc.set_config, f"{o[1]}:{o[2]}", o[3])
                    # a copied context shares the map it was copied with
                    state[0][f"{o[1]}:{o[2]}"] = o[3]
                elif o[0] == "setall":
                    m = {f"{n}:{k}": v for (n, k), v in o[1]}
                    s = None if o[2] is None else [f"{n}:{k}" for n, k in o[2]]
                    if s is None:
                        cur.run(rc.set_all_config, m)
                    else:
                        cur.run(rc.set_all_config, m, s)
                        state[1] = set(s)
                    state[0] = dict(m)
                    handed.append((m, s))
                    for x in s or []:
                        if not cur.run(rc.is_config_secret, x):
                            fail(f"{x} is not a secret key after set_all_config")
                elif o[0] == "context":
                    if o[1] == "copy":
                        stack.append((cur, state[:]))
                        cur = cur.copy()
                        # from here on, writes by set_all_config stay in the copy
                    elif stack:
                        cur, old = stack.pop()
                        state[:] = old
                elif o[0] == "mutate":
                    for m, s in handed:
                        m["proj:a"] = "leaked"
                        if s is not None:
                            s.append("proj:a")
                else:
                    await read(o, cur, state)
                for k in ("proj:a", "aws:a-b"):
                    if cur.run(rc.is_config_secret, k) != (k in state[1]):
                        fail(f"is_config_secret({k!r}) is {k not in state[1]}, secret keys {state[1]}", f"after {o}")

        async def read(o, cur, state):
            _, n, key, kind, mode, secret, d = o
            name = n or "proj"
            full = f"{name}:{key}"
            v = state[0].get(full)
            if v is None:
                v = env.get(env_key(full))
            if v is None:
                v = bag.get(full)
            meth = mode + ("_secret" if secret else "") + ("_" + kind if kind else "")
            cfg = cur.run(pulumi.Config, n) if n is not None else cur.run(pulumi.Config)
            if cfg.name != name or cfg.full_key(key) != full:
                fail(f"the full key is {cfg.full_key(key)!r}, expected {full!r}")
            args = [key] + ([d[0]] if d is not None else [])
            try:
                got = ("ok", cur.run(getattr(cfg, meth), *args))
            except Exception as e:
                got = ("err", e)
            desc = f"Config({n!r}).{meth}{tuple(args)!r} with value {v!r}"
            try:
                want = None if v is None else parse(kind, v)
                bad = False
            except Bad:
                bad = True
            if bad:
                rec.label("ill-typed")
                if got[0] != "err" or not isinstance(got[1], pc.ConfigTypeError):
                    fail(f"{desc} gave {got[1]!r}")
                e = got[1]
                if full not in str(e) or (e.key, e.value, e.expect_type) != (full, v, EXPECT[kind]):
                    fail(f"{desc}: error {e} does not name the key")
                return
            if v is not None and want is None:
                return  # a JSON null
            if want is None and mode == "require":
                rec.label("missing")
                if got[0] != "err" or not isinstance(got[1], pc.ConfigMissingError) or full not in str(got[1]) or got[1].key != full:
                    fail(f"{desc} gave {got[1]!r}")
                return
            if got[0] == "err":
                fail(f"{desc} raised {got[1]!r}")
            if v is not None:
                rec.label("value found")
            if want is None and d is not None:
                want = d[0]
                rec.label("default")
            g = got[1]
            if secret and want is not None:
                if not isinstance(g, pulumi.Output):
                    fail(f"{desc} gave {g!r}, expected a secret output")
                if not await g.is_secret() or not await g.is_known() or await g.resources():
                    fail(f"{desc} gave an output that is secret={await g.is_secret()} known={await g.is_known()}")
                g = await g.future()
            if not same(g, want):
                fail(f"{desc} gave {g!r}, expected {want!r}")

        engine.run_loop(main)

    try:
        os.environ.update(env)
        engine.in_context(go)
    finally:
        for k in env:
            os.environ.pop(k, None)
        os.environ.update(saved)
    if any(o[0] == "read" for o in case["ops"]) and (case["env"] or case["bag"] or any(o[0].startswith("set") for o in case["ops"])):
        rec.nontriv()


@part("accessors", quick=8000, thorough=300000, shards=8, rule="some configuration is set and some key is read")
def accessors():
    return cases(), run
