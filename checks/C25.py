"""C25 serialised dynamic providers: determinism, losslessness, and what serialising leaves behind."""
import base64
import json
import os
import pickle
import subprocess
import sys

from harness import HarnessError, fail, part, same
from hypothesis import strategies as st

# a user's program: the provider is defined in it, so it travels by value
PROGRAM = '''
import json
import math
import re as regex
from pulumi.dynamic import *
from pulumi import dynamic as dyn


class Rec:
    """a plain user object"""

    def __init__(self, items):
        for k, v in items:
            setattr(self, k, v)

    def __len__(self):
        return len(self.__dict__)


LIMIT = 7
TABLE = {}
OTHER = {"unrelated": 1}


def norm(v):
    if isinstance(v, dict):
        return sorted((repr(k), norm(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [norm(x) for x in v]
    if isinstance(v, Rec):
        return [len(v)] + sorted((k, norm(x)) for k, x in v.__dict__.items())
    return repr(v)


def helper(x, depth=2, *, scale=1):
    return [x, norm(TABLE.get(x)), scale] if depth == 0 else helper(x, depth - 1, scale=scale + LIMIT)


def unused():
    return OTHER


def tagged(f):
    f.notes = {}
    return f


@tagged
def noted():
    return dict(noted.notes)


def make(state, captured, table, notes, attrs):
    TABLE.clear()
    for k, v in table:
        TABLE[k] = v
    noted.notes.clear()
    for k, v in notes:
        noted.notes[k] = v
    cells = {}
    for k, v in captured:
        cells[k] = v

    def outer(n):
        count = n

        def inner(x):
            return [count, norm(cells.get(x)), LIMIT]

        return inner

    class Base(ResourceProvider):
        LEVEL = {}

        def shared(self, x):
            return [type(self).__name__, norm(self.LEVEL), norm(self.state), x]

    for k, v in attrs:
        Base.LEVEL[k] = v

    class Mine(Base):
        def __init__(self):
            super().__init__()
            self.state = {}
            self.fn = outer(3)
            self.lam = lambda x, y=LIMIT: [x, y]

        def create(self, props):
            x = props["x"]
            return CreateResult(str(x), {"shared": self.shared(x), "inner": self.fn(x), "lam": self.lam(x), "helper": helper(x), "noted": norm(noted()),
                                         "mod": [math.floor(2.5), json.dumps({"a": 1}), bool(regex.match("a+", str(x)))]})

        def diff(self, _id, olds, news):
            return DiffResult(changes=olds != news, replaces=[k for k in news if k in cells])

        @staticmethod
        def stat():
            return sorted(repr(k) for k in TABLE)

        @property
        def prop(self):
            return norm(self.state)

    p = Mine()
    for k, v in state:
        p.state[k] = v
    return p


def behave(p, xs):
    out = []
    for x in xs:
        c = p.create({"x": x})
        d = p.diff("id", {"x": 1}, {"x": x, "a": 2})
        out.append([c.id, repr(c.outs), d.changes, d.replaces, repr(p.stat()), repr(p.prop), p.check({}, {"x": x}).inputs == {"x": x}, p.read("i", {}).id, p.update("i", {}, {}).outs])
    return out
'''

CHILD = r'''
import sys, json, ast, base64
import dill
ns_src = open(sys.argv[1]).read()
import types
main = sys.modules["__main__"]
exec(compile(ns_src, "program.py", "exec"), main.__dict__)
from pulumi.dynamic import dynamic
import pulumi.dynamic
def revive(items):
    return [(k, rv(v)) for k, v in items]
def rv(v):
    t = v[0]
    if t == "p": return v[1]
    if t == "l": return [rv(x) for x in v[1]]
    if t == "t": return tuple(rv(x) for x in v[1])
    if t == "d": return dict(revive(v[1]))
    if t == "o": return Rec(revive(v[1]))
for line in sys.stdin:
    req = ast.literal_eval(line)
    try:
        if req["do"] == "serialize":
            p = make(*[revive(x) for x in req["args"]])
            out = dynamic.serialize_provider(p)
        else:
            out = behave(dill.loads(base64.b64decode(req["data"])), req["xs"])
        res = ["ok", out]
    except Exception as e:
        res = ["error", type(e).__name__ + ": " + str(e)]
    print(repr(res), flush=True)
'''

_KIDS = {}


def child(kind):
    """a separate interpreter: 'b' builds providers under another hash seed, 'c' only unpickles (it defines nothing)"""
    if kind not in _KIDS:
        d = os.path.join(os.environ.get("VERIF_SCRATCH") or os.getcwd(), "c25-%d-%s" % (os.getpid(), kind))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "child.py"), "w") as f:
            f.write(CHILD)
        with open(os.path.join(d, "prog.src"), "w") as f:
            f.write(PROGRAM if kind != "c" else BEHAVE)
        env = dict(os.environ, PYTHONHASHSEED={"a": "0", "b": "12345", "c": "77"}[kind])
        _KIDS[kind] = subprocess.Popen([sys.executable, os.path.join(d, "child.py"), os.path.join(d, "prog.src")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                       stderr=open(os.path.join(d, "err"), "w"), text=True, env=env, cwd=d)
        _KIDS[kind].errfile = os.path.join(d, "err")
    return _KIDS[kind]


def ask(kind, req):
    p = child(kind)
    import ast
    try:
        p.stdin.write(repr(req) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except OSError:
        line = ""
    if not line:
        with open(p.errfile) as f:
            raise HarnessError("child died: " + f.read()[-2000:])
    r = ast.literal_eval(line)
    if r[0] != "ok":
        fail(f"{req['do']} failed: {r[1]}")
    return r[1]


BEHAVE = PROGRAM[PROGRAM.index("def behave"):]

# ---------------------------------------------------------------- cases
strs = st.one_of(st.sampled_from(["a", "b", "c", "x y", "", "é", "A", "10", "9"]), st.text(st.characters(exclude_categories=["Cs"]), max_size=3))
plain_keys = {"str": strs, "int": st.integers(-5, 30), "mixed": st.one_of(strs, st.integers(-5, 5), st.none(), st.floats(allow_nan=False, allow_infinity=False), st.tuples(strs, st.integers(0, 3)))}


@st.composite
def vals(draw, depth):
    k = draw(st.integers(0, 8))
    if depth > 0 and k == 1:
        return ["l", [draw(vals(depth - 1)) for _ in range(draw(st.integers(0, 3)))]]
    if depth > 0 and k == 2:
        return ["t", [draw(vals(depth - 1)) for _ in range(draw(st.integers(0, 3)))]]
    if depth > 0 and k in (3, 4):
        return ["d", draw(dicts(depth - 1))]
    if depth > 0 and k == 5:
        return ["o", [(x, draw(vals(depth - 1))) for x in draw(st.lists(st.sampled_from(["f", "g", "h", "zz", "aa"]), max_size=4, unique=True))]]
    return ["p", draw(st.one_of(strs, st.integers(-2**40, 2**40), st.booleans(), st.none(), st.floats(allow_nan=False, allow_infinity=False), st.binary(max_size=4)))]


@st.composite
def dicts(draw, depth):
    kind = draw(st.sampled_from(["str", "str", "str", "int", "mixed"]))
    ks = draw(st.lists(plain_keys[kind], max_size=5, unique_by=lambda x: x))
    return [(k, draw(vals(depth))) for k in ks]


def shuffled(draw, items):
    """the same dictionary filled in another order, at every depth"""
    def go(v):
        if v[0] in ("l", "t"):
            return [v[0], [go(x) for x in v[1]]]
        if v[0] in ("d", "o"):
            return [v[0], shuffled(draw, v[1])]
        return v
    return draw(st.permutations([(k, go(v)) for k, v in items]))


@st.composite
def cases(draw):
    args = [draw(dicts(2)), draw(dicts(1)), draw(dicts(1)), draw(dicts(1)), draw(dicts(1))]
    alt = [shuffled(draw, a) for a in args]
    return {"args": args, "alt": alt, "xs": draw(st.lists(st.one_of(strs, st.integers(-3, 30)), min_size=1, max_size=3)), "other": [draw(dicts(1))]}


def run(case, rec):
    args, alt = case["args"], case["alt"]
    s1 = ask("a", {"do": "serialize", "args": args})
    s2 = ask("a", {"do": "serialize", "args": args})
    if s1 != s2:
        fail("serialising a provider twice gave different results", diff(s1, s2))
    ask("a", {"do": "serialize", "args": case["other"] + args[1:]})
    s3 = ask("a", {"do": "serialize", "args": alt})
    if s1 != s3:
        fail("the order dictionaries were filled in changes the serialised provider", f"{args}", f"{alt}", diff(s1, s3))
    s4 = ask("b", {"do": "serialize", "args": alt})
    if s1 != s4:
        fail("another process serialises the same provider differently", diff(s1, s4))
    # behaviour: the original built in process b against what s1 unpickles to where the program does not exist
    want = ask("b", {"do": "behave", "data": s4, "xs": case["xs"]})
    got = ask("c", {"do": "behave", "data": s1, "xs": case["xs"]})
    model = expected(args, case["xs"])
    if got != model:
        fail(f"the deserialised provider behaves like {got}, the original like {model}")
    if want != got:
        fail(f"the deserialised provider behaves like {got}, another copy like {want}")
    if alt != args:
        rec.nontriv()
    rec.label("reordered", alt != args)


def diff(a, b):
    a, b = base64.b64decode(a), base64.b64decode(b)
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"first difference at byte {n}: {a[max(0, n - 40):n + 20]!r} / {b[max(0, n - 40):n + 20]!r}"


_NS = {}


def revive(ns, items):
    def rv(v):
        t = v[0]
        if t == "p":
            return v[1]
        if t == "l":
            return [rv(x) for x in v[1]]
        if t == "t":
            return tuple(rv(x) for x in v[1])
        if t == "d":
            return {k: rv(x) for k, x in v[1]}
        return ns["Rec"]([(k, rv(x)) for k, x in v[1]])
    return [(k, rv(v)) for k, v in items]


def program():
    if not _NS:
        _NS["__name__"] = "__main__"
        exec(compile(PROGRAM, "program.py", "exec"), _NS)
    return _NS


def expected(args, xs):
    """what the original does, never serialised"""
    ns = program()
    p = ns["make"](*[revive(ns, a) for a in args])
    return ns["behave"](p, xs)


@part("determinism", quick=700, thorough=30000, shards=6, batch=60, rule="providers whose dictionaries were filled in another order")
def determinism():
    return cases(), run


# ---------------------------------------------------------------- what serialising leaves behind
@st.composite
def leftovers(draw):
    return {"n": draw(st.sampled_from([1, 1, 2, 3, 25])), "fails": draw(st.booleans()), "data": draw(dicts(2)), "bulk": draw(st.integers(0, 14)) == 0}


def run_leftovers(case, rec):
    import io

    import dill
    from pulumi.dynamic import dynamic

    ns = program()
    data = dict(revive(ns, [(k, strip(v)) for k, v in case["data"]]))

    def pickles():
        out = []
        for f in (lambda: pickle.dumps(data), lambda: pickle._dumps(data), lambda: dill.dumps(data), lambda: via(pickle.Pickler), lambda: via(pickle._Pickler)):
            try:
                out.append(f())
            except Exception as e:  # noqa
                out.append(f"{type(e).__name__}: {e}")
        return out

    def via(cls):
        b = io.BytesIO()
        cls(b).dump(data)
        return b.getvalue()

    before = pickles()
    for b in before:
        if isinstance(b, str):
            fail(f"ordinary pickling of {data} fails after earlier serialisations: {b}")
        if not same(list(pickle.loads(b)), list(data)):
            fail(f"ordinary pickling of {data} changes the order of its keys")
    n = case["n"] if not case["bulk"] else 400
    p = ns["make"]([], [], [], [], [])
    first = None
    for i in range(n):
        try:
            s = dynamic.serialize_provider(p if not case["bulk"] else _simple())
        except RecursionError:
            fail(f"serialising providers fails after {i} repetitions")
        if first is not None and s != first:
            fail(f"the serialisation changed at repetition {i}")
        first = s
    if case["fails"]:
        p.bad = (x for x in [])
        try:
            dynamic.serialize_provider(p)
        except TypeError:
            pass
        else:
            fail("a provider holding a generator was serialised")
    after = pickles()
    if before != after:
        fail(f"ordinary pickling of {data} changed from {before} to {after}")
    if len(data) > 1:
        rec.nontriv()


def _simple():
    from pulumi import dynamic
    return dynamic.ResourceProvider()


def strip(v):
    """Rec objects cannot be pickled by reference"""
    if v[0] in ("l", "t"):
        return [v[0], [strip(x) for x in v[1]]]
    if v[0] in ("d", "o"):
        return ["d", [(k, strip(x)) for k, x in v[1]]]
    return v


@part("leftovers", quick=150, thorough=3000, shards=2, batch=50, rule="a dictionary of at least two keys pickled before and after")
def leftovers_part():
    return leftovers(), run_leftovers
