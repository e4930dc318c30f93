"""Output expressions: generator, builder on the real SDK, and reference interpreter.

Inputs I (anything a user may pass where an Input is expected):
  ("p", v)                 plain primitive
  ("unk",)                 the unknown sentinel (previews only)
  ("sh", i)                shared container (the same object each time)
  ("l", [I]) ("d", [(k, I)]) ("args", [I|None, I|None])     list, dict, typed input object
  ("argsd"|"ot"|"otm", [I|None, I|None])                        typed input object, typed result that are dictionaries
  ("aw", kind, I)          awaitable of I; kind: fut (completed by the schedule) | done | coro
  ("awf", msg)             awaitable that fails
  O                        any output expression
Outputs O:
  ("leaf", I, known, secret, deps, order)   an output with the given state
  ("leaff", msg, deps)                      an output that fails
  ("ref", i)                                the i-th earlier binding
  ("from", I) ("secret", I) ("unsecret", O)
  ("all", [I]) ("allkw", [(k, I)]) ("concat", [I])
  ("get", O, key) ("attr", O, name)
  ("app", id, O, F, rwu)   rwu: run_with_unknowns
Functions F:
  ("id",) ("wrap",) ("len",) ("const", v) ("raise", msg) ("aw", kind) ("awf", msg)
  ("out", O)               returns an output expression, ignoring its argument
  ("outv", known, secret, deps)  returns a fresh output holding its argument
Program: {"dry": bool, "lets": [O], "sched": [int]}
"""
from hypothesis import strategies as st

from harness import Violation

MAXDEP = 5


class R:
    """stands for a resource in dependency sets"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"R{self.n}"


RS = [R(i) for i in range(MAXDEP)]


def make_classes():
    """an input type, an input type that is a dictionary, output types that are dictionaries"""
    import pulumi

    def cls(base, deco, names):
        class T(base):
            def __init__(self, **kw):
                for k, v in kw.items():
                    if v is not None:
                        pulumi.set(self, k, v)

        for n in names:
            def get(self, n=n):
                return pulumi.get(self, n)

            get.__name__ = n
            setattr(T, n, property(pulumi.getter(get, name=n.replace("_o", "O"))))
        return deco(T)

    return (cls(object, pulumi.input_type, TNAMES["args"]), cls(dict, pulumi.input_type, TNAMES["argsd"]),
            cls(dict, pulumi.output_type, TNAMES["ot"]), cls(dict, pulumi.output_type, TNAMES["otm"]))


# ----------------------------------------------------------------- generator
KEYS = ["a", "b", "first", "value", "items", "args", "k1", "", "self", "val", "a b", "kwargs", "_p", "__q__", "\u8cc7", "0"]
DKEYS = KEYS + [7, None, 2.5, -1]  # of dictionaries that are values
TYPED = ["args", "argsd", "ot", "otm"]  # otm has properties named as methods of dictionaries
TNAMES = {t: ("items", "update") if t == "otm" else ("first", "second_one") for t in TYPED}
prims = st.one_of(
    st.integers(-3, 3), st.sampled_from(["", "x", "yy", "first"]), st.booleans(), st.none(), st.sampled_from([0.5, 2.0]))
depset = st.lists(st.integers(0, MAXDEP - 1), max_size=2, unique=True)


class Gen:
    def __init__(self, draw, dry, fails, bias):
        self.draw, self.dry, self.fails, self.bias = draw, dry, fails, bias
        self.nid = 0
        self.nlets = 0

    def pick(self, opts):
        return self.draw(st.sampled_from(opts))

    def plain(self, depth=2):
        k = self.draw(st.integers(0, 7)) if depth > 0 else 0
        if k == 6:
            return ("sh", self.draw(st.integers(0, 3 if self.dry else 2)))
        if k == 7:
            n = self.draw(st.sampled_from([4, 7, 8, 11, 4, 5, 6, 9, -3, -25, -60, 70, 131, 300]))
            x = self.plain(depth - 1)
            if n < 0:
                # deep rather than wide
                for j in range(-n):
                    x = ("l", [x]) if j % 3 else ("d", [("k%d" % j, x)])
                return x
            i = self.draw(st.integers(0, n - 1))
            return ("l", [x if j == i else ("p", j) for j in range(n)]) if n % 2 else ("d", [("w%d" % j, x if j == i else ("p", j)) for j in range(n)])
        if k <= 2:
            return ("p", self.draw(prims))
        if k == 3 and self.dry:
            return ("unk",)
        if k == 4:
            return ("l", [self.plain(depth - 1) for _ in range(self.draw(st.integers(0, 3)))])
        return ("d", [(key, self.plain(depth - 1)) for key in self.draw(st.lists(st.sampled_from(DKEYS), max_size=3, unique=True))])

    def inp(self, depth):
        k = self.draw(st.integers(0, 11))
        if depth <= 0 or k <= 1:
            return self.plain(1) if depth <= 0 else self.leaf(depth)
        if k == 2:
            n = self.draw(st.sampled_from([0, 1, 2, 2, 3, 3, 9]))
            if n == 9:
                n = self.draw(st.sampled_from([9, 9, 70, 140]))
                i = self.draw(st.integers(0, n - 1))
                x = self.inp(depth - 1)
                return ("l", [x if j == i else ("p", j) for j in range(n)])
            return ("l", [self.inp(depth - 1) for _ in range(n)])
        if k == 3:
            return ("d", [(key, self.inp(depth - 1)) for key in self.draw(st.lists(st.sampled_from(DKEYS), max_size=3, unique=True))])
        if k == 4:
            return (self.pick(TYPED), [self.inp(depth - 1) if self.draw(st.booleans()) else None for _ in range(2)])
        if k == 5:
            if self.fails and self.draw(st.integers(0, 3)) == 0:
                return ("awf", self.pick(["e1", "e2"]))
            return ("aw", self.pick(["fut", "done", "coro"]), self.inp(depth - 1))
        if k == 6:
            return self.plain(2)
        return self.out(depth - 1)

    def leaf(self, depth):
        if self.fails and self.draw(st.integers(0, 7)) == 0:
            return ("leaff", self.pick(["e1", "e2"]), self.draw(depset))
        known = self.draw(st.sampled_from([True, True, False]))
        c = self.inp(depth - 2) if depth >= 2 and self.draw(st.integers(0, 3)) == 0 else self.plain(2)
        return ("leaf", c, known, self.draw(st.sampled_from([False, False, True] if not self.bias == "secret" else [False, True])),
                self.draw(depset), self.draw(st.permutations([0, 1, 2, 3])) if self.draw(st.booleans()) else None)

    def strs(self, depth):
        """an input whose value is a string"""
        k = self.draw(st.integers(0, 4))
        s = ("p", self.draw(st.sampled_from(["", "x", "yy", "0"])))
        if k == 0:
            return s
        if k == 1:
            return ("leaf", s, self.draw(st.booleans()), self.draw(st.booleans()), self.draw(depset), None)
        if k == 2:
            return ("aw", self.pick(["fut", "done"]), s)
        if k == 3 and self.dry:
            return ("leaf", ("unk",), True, self.draw(st.booleans()), self.draw(depset), None)
        return ("from", s)

    def fn(self, depth):
        k = self.draw(st.integers(0, 11))
        if k <= 2:
            return ("id",)
        if k == 3:
            return ("wrap",)
        if k == 4:
            return ("const", self.draw(prims))
        if k == 5:
            return ("raise", self.pick(["f1", "f2"])) if self.fails and self.draw(st.booleans()) else ("len",)
        if k == 6:
            return ("awf", "f3") if self.fails and self.draw(st.integers(0, 2)) == 0 else ("aw", self.pick(["fut", "done", "coro"]))
        if k <= 8:
            return ("outv", self.draw(st.sampled_from([True, True, False])), self.draw(st.booleans()), self.draw(depset))
        return ("out", self.out(depth - 1))

    def out(self, depth):
        if depth <= 0:
            if self.nlets and self.draw(st.integers(0, 2)) == 0:
                return ("ref", self.draw(st.integers(0, self.nlets - 1)))
            return self.leaf(depth + 1)
        k = self.draw(st.integers(0, 12))
        if k == 0:
            return ("from", self.inp(depth))
        if k == 1:
            return ("secret", self.inp(depth))
        if k == 2:
            return ("unsecret", self.out(depth - 1))
        if k == 3:
            n = self.draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4, 10]))
            if n == 10:
                i = self.draw(st.integers(0, n - 1))
                x = self.inp(depth - 1)
                return ("all", [x if j == i else ("p", j) for j in range(n)])
            return ("all", [self.inp(depth - 1) for _ in range(n)])
        if k == 4:
            return ("allkw", [(key, self.inp(depth - 1)) for key in self.draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))])
        if k == 5:
            return ("concat", [self.strs(depth - 1) for _ in range(self.draw(st.integers(1, 3)))])
        if k == 6:
            # index into something that has the key, most of the time
            base = self.pick(["from", "allkw", "leaf"])
            key = self.pick(KEYS if base == "allkw" else DKEYS)
            d = [(key, self.inp(depth - 1))] + [(kk, self.inp(0)) for kk in self.draw(st.lists(st.sampled_from([x for x in KEYS if x != key]), max_size=1))]
            if base == "leaf":
                o = ("leaf", ("d", d), self.draw(st.booleans()), self.draw(st.booleans()), self.draw(depset), None)
            else:
                o = ("from", ("d", d)) if base == "from" else ("allkw", d)
            return ("get", o, key)
        if k == 7:
            n = self.draw(st.integers(1, 3))
            o = ("all", [self.inp(depth - 1) for _ in range(n)])
            return ("get", o, self.draw(st.integers(-n, n - 1)))
        if k == 8:
            x = (self.pick(TYPED), [self.inp(depth - 1) if self.draw(st.integers(0, 3)) else None for _ in range(2)])
            o = ("from", x)
            if self.draw(st.booleans()):
                n = self.draw(st.integers(0, 2))
                o = ("get", ("all", [self.inp(depth - 1) for _ in range(n)] + [x] + [self.inp(depth - 1) for _ in range(self.draw(st.integers(0, 1)))]), n)
            return ("attr", o, self.pick(TNAMES[x[0]]))
        if k == 9 and self.nlets:
            return ("ref", self.draw(st.integers(0, self.nlets - 1)))
        self.nid += 1
        i = self.nid
        return ("app", i, self.out(depth - 1), self.fn(depth), self.draw(st.integers(0, 6)) == 0)


@st.composite
def programs(draw, fails=False, bias=None, depth=4, max_lets=3):
    dry = draw(st.booleans())
    g = Gen(draw, dry, fails, bias)
    lets = []
    for _ in range(draw(st.integers(1, max_lets))):
        lets.append(g.out(draw(st.integers(1, depth))))
        g.nlets += 1
    return {"dry": dry, "lets": lets, "sched": draw(st.lists(st.integers(0, 5), max_size=6))}


@st.composite
def large(draw, bias=None):
    """one interesting element somewhere in a structure of up to some thousand nodes, combined and applied to"""
    dry = draw(st.sampled_from([True, True, False]))
    g = Gen(draw, dry, False, bias)
    plain = draw(st.booleans())  # the structure holds no outputs: it is the value of one

    def around(x):
        for _ in range(draw(st.integers(1, 3))):
            n = draw(st.sampled_from([1, 2, 9, 20, 33, 70, 131, 300]))
            i = draw(st.integers(max(0, n - 3), n - 1) if draw(st.booleans()) else st.integers(0, n - 1))
            sib = draw(st.sampled_from([("p", None), ("l", []), ("d", []), ("l", [("p", 1)]), ("d", [("a", ("p", "x"))])]))
            xs = [x if j == i else ("p", j) if sib[1] is None else sib for j in range(n)]
            x = ("l", xs) if draw(st.booleans()) else ("d", [("n%d" % j, y) for j, y in enumerate(xs)])
        return x

    if plain:
        core = ("unk",) if dry and draw(st.integers(0, 2)) else g.plain(2)
        o = ("leaf", around(core), draw(st.sampled_from([True, True, True, False])), draw(st.booleans()), draw(depset), None)
    else:
        core = draw(st.sampled_from([g.leaf, g.inp]))(1)
        big = around(core)
        k = draw(st.integers(0, 3))
        o = ("from", big) if k == 0 else ("secret", big) if k == 1 else ("all", [big, g.inp(1)]) if k == 2 else ("allkw", [("a", g.inp(1)), ("b", big)])
    lets = [o]
    for i in range(draw(st.integers(1, 2))):
        f = draw(st.sampled_from([("id",), ("wrap",), ("len",), ("const", 1), ("outv", True, False, [0]), ("out", ("ref", 0))]))
        lets.append(("app", i + 1, ("ref", draw(st.integers(0, i))), f, draw(st.integers(0, 6)) == 0))
    return {"dry": dry, "lets": lets, "sched": draw(st.lists(st.integers(0, 5), max_size=3))}


# ----------------------------------------------------------------- real
class Boom(Exception):
    pass


class Builder:
    def __init__(self, classes):
        import asyncio
        import pulumi
        from pulumi.output import UNKNOWN, Output

        self.asyncio, self.Output, self.UNK, self.T = asyncio, Output, UNKNOWN, dict(zip(TYPED, classes))
        self.pending = []  # thunks the schedule runs
        self.calls = {}
        self.lets = []
        a = [1]
        self.shared = [a, {"a": a, "b": a}, [a, a, {}], [a, self.UNK]]

    def idle(self, i):
        if i is None:
            return len(self.pending)
        self.pending.pop(i)()

    def _fut(self, value=None, exc=None, done=False):
        f = self.asyncio.Future()

        def go():
            if exc is not None:
                f.set_exception(exc)
            else:
                f.set_result(value)

        if done:
            go()
        else:
            self.pending.append(go)
        return f

    def inp(self, e):
        t = e[0]
        if t == "p":
            return e[1]
        if t == "unk":
            return self.UNK
        if t == "sh":
            return self.shared[e[1]]
        if t == "l":
            return [self.inp(x) for x in e[1]]
        if t == "d":
            return {k: self.inp(x) for k, x in e[1]}
        if t in TYPED:
            return self.T[t](**{n: self.inp(x) if x else None for n, x in zip(TNAMES[t], e[1])})
        if t == "aw":
            v = self.inp(e[2])
            if e[1] == "coro":
                async def co():
                    await self.asyncio.sleep(0)
                    return v
                return co()
            return self._fut(v, done=e[1] == "done")
        if t == "awf":
            return self._fut(exc=Boom(e[1]))
        return self.out(e)

    def leaf(self, value, known, secret, deps, order):
        fs = []

        def mk(v):
            f = self.asyncio.Future()
            fs.append((f, v))
            return f

        r, k, s, v = mk({RS[d] for d in deps}), mk(known), mk(secret), mk(value)
        if order is None:
            for f, x in fs:
                f.set_result(x)
        else:
            for i in order:
                f, x = fs[i]
                self.pending.append(lambda f=f, x=x: f.set_result(x))
        return self.Output(r, v, k, s)

    def out(self, e):
        O = self.Output
        t = e[0]
        if t == "leaf":
            return self.leaf(self.inp(e[1]), e[2], e[3], e[4], e[5])
        if t == "leaff":
            f = self._fut(exc=Boom(e[1]))
            k, s = self.asyncio.Future(), self.asyncio.Future()
            k.set_result(True)
            s.set_result(False)
            return O({RS[d] for d in e[2]}, f, k, s)
        if t == "ref":
            return self.lets[e[1]]
        if t == "from":
            return O.from_input(self.inp(e[1]))
        if t == "secret":
            return O.secret(self.inp(e[1]))
        if t == "unsecret":
            return O.unsecret(self.out(e[1]))
        if t == "all":
            return O.all(*[self.inp(x) for x in e[1]])
        if t == "allkw":
            return O.all(**{k: self.inp(x) for k, x in e[1]})
        if t == "concat":
            return O.concat(*[self.inp(x) for x in e[1]])
        if t == "get":
            return self.out(e[1])[e[2]]
        if t == "attr":
            return getattr(self.out(e[1]), e[2])
        if t == "app":
            o = self.out(e[2])
            fn = lambda v: self.call(e[1], e[3], v)
            return o.apply(fn, True) if e[4] else o.apply(fn)
        raise AssertionError(t)

    def call(self, i, F, v):
        self.calls.setdefault(i, []).append(v)
        t = F[0]
        if t == "id":
            return v
        if t == "wrap":
            return [v]
        if t == "len":
            return len(v) if type(v) in (list, dict, str) else -1
        if t == "const":
            return F[1]
        if t == "raise":
            raise Boom(F[1])
        if t == "aw":
            return self.inp(("aw", F[1], ("raw", v))) if False else self._aw(F[1], v)
        if t == "awf":
            return self._fut(exc=Boom(F[1]))
        if t == "outv":
            return self.leaf(v, F[1], F[2], F[3], None)
        if t == "out":
            return self.out(F[1])
        raise AssertionError(t)

    def _aw(self, kind, v):
        if kind == "coro":
            async def co():
                await self.asyncio.sleep(0)
                return v
            return co()
        return self._fut(v, done=kind == "done")


# ----------------------------------------------------------------- model
class Unk:
    def __repr__(self):
        return "UNK"


UNK = Unk()


class MArgs:
    def __init__(self, kind, d):
        self.kind, self.d = kind, d

    def __getitem__(self, k):
        if self.kind == "args":
            raise TypeError
        return self.d[k]

    def __repr__(self):
        return f"{self.kind}({self.d})"


class MAw:
    def __init__(self, v=None, exc=None):
        self.v, self.exc = v, exc


class M:
    """state of an output: exc (set of possible failure messages) or value/known/secret/deps"""

    def __init__(self, value=None, known=True, secret=False, deps=frozenset(), exc=None):
        self.value, self.secret, self.deps, self.exc = value, secret, frozenset(deps), exc
        self.known = known and not has_unk(value)

    def __repr__(self):
        return f"M(value={self.value!r}, known={self.known}, secret={self.secret}, deps={sorted(self.deps)}, exc={self.exc})"


def has_unk(v):
    if v is UNK:
        return True
    if isinstance(v, dict):
        return any(has_unk(x) for x in v.values())
    if isinstance(v, MArgs):
        return v.kind != "args" and has_unk(v.d)
    if isinstance(v, list):
        return any(has_unk(x) for x in v)
    return False


class Model:
    def __init__(self, dry):
        self.dry = dry
        self.lets = []
        self.calls = {}

    def inp(self, e):
        t = e[0]
        if t == "p":
            return e[1]
        if t == "unk":
            return UNK
        if t == "sh":
            return [[1], {"a": [1], "b": [1]}, [[1], [1], {}], [[1], UNK]][e[1]]
        if t == "l":
            return [self.inp(x) for x in e[1]]
        if t == "d":
            return {k: self.inp(x) for k, x in e[1]}
        if t in TYPED:
            d = {}
            for name, x in zip(TNAMES[t], e[1]):
                v = self.inp(x) if x else None
                if v is not None:
                    d[name] = v
            return MArgs(t, d)
        if t == "aw":
            return MAw(self.inp(e[2]))
        if t == "awf":
            return MAw(exc={e[1]})
        return self.out(e)

    def apply(self, o, f, rwu):
        if o.exc:
            return M(exc=o.exc, deps=o.deps)
        v = o.value
        if self.dry:
            if not (o.known or rwu):
                return M(UNK, False, o.secret, o.deps)  # no value: no one may take it for one
            if not o.known and not has_unk(v):
                v = UNK
        r = f(v)
        if isinstance(r, M):
            if r.exc:
                return M(exc=r.exc, deps=o.deps | r.deps)
            return M(r.value, r.known, o.secret or r.secret, o.deps | r.deps)
        if isinstance(r, MAw):
            if r.exc:
                return M(exc=r.exc, deps=o.deps)
            return M(r.v, True, o.secret, o.deps)
        return M(r, True, o.secret, o.deps)

    def all(self, items):
        ms = [self.from_input(x) for x in items]
        exc = set().union(*[m.exc for m in ms if m.exc]) if any(m.exc for m in ms) else None
        return ms, exc

    def all_list(self, items):
        ms, exc = self.all(items)
        deps = frozenset().union(*[m.deps for m in ms])
        if exc:
            return M(exc=exc, deps=deps)
        return M([m.value for m in ms], all(m.known for m in ms), any(m.secret for m in ms), deps)

    def all_dict(self, d):
        ms, exc = self.all(d.values())
        deps = frozenset().union(*[m.deps for m in ms])
        if exc:
            return M(exc=exc, deps=deps)
        return M(dict(zip(d, [m.value for m in ms])), all(m.known for m in ms), any(m.secret for m in ms), deps)

    def from_input(self, v):
        if isinstance(v, M):
            return self.apply(v, self.from_input, True)
        if isinstance(v, MArgs):
            if not v.d:
                return M(v)
            o = self.all_dict(v.d)
            return self.apply(o, lambda d: UNK if d is UNK else MArgs(v.kind, {k: x for k, x in d.items() if v.kind in ("ot", "otm") or x is not None}), v.kind in ("ot", "otm"))
        if isinstance(v, dict) and v:
            return self.all_dict(v)
        if isinstance(v, list) and v:
            return self.all_list(v)
        if isinstance(v, MAw):
            if v.exc:
                return M(exc=v.exc)
            return self.apply(M(v.v), self.from_input, True)
        return M(v)

    def out(self, e):
        t = e[0]
        if t == "leaf":
            return M(self.inp(e[1]), e[2], e[3], e[4])
        if t == "leaff":
            return M(exc={e[1]}, deps=e[2])
        if t == "ref":
            return self.lets[e[1]]
        if t == "from":
            return self.from_input(self.inp(e[1]))
        if t == "secret":
            m = self.from_input(self.inp(e[1]))
            return M(m.value, m.known, True, m.deps, m.exc)
        if t == "unsecret":
            m = self.out(e[1])
            return M(m.value, m.known, False, m.deps, m.exc)
        if t == "all":
            return self.all_list([self.inp(x) for x in e[1]])
        if t == "allkw":
            return self.all_dict({k: self.inp(x) for k, x in e[1]})
        if t == "concat":
            o = self.all_list([self.from_input(self.inp(x)) for x in e[1]])
            return self.apply(o, lambda v: "".join(v), False)
        if t == "get":
            def get(v):
                if v is UNK:
                    return UNK
                try:
                    return v[e[2]]
                except Exception as x:
                    return M(exc={type(x).__name__})
            return self.apply(self.out(e[1]), get, True)
        if t == "attr":
            def attr(v):
                if v is UNK:
                    return UNK
                return v.d.get(e[2])
            return self.apply(self.out(e[1]), attr, True)
        if t == "app":
            return self.apply(self.out(e[2]), lambda v: self.call(e[1], e[3], v), e[4])
        raise AssertionError(t)

    def call(self, i, F, v):
        self.calls.setdefault(i, []).append(v)
        t = F[0]
        if t == "id":
            return v
        if t == "wrap":
            return [v]
        if t == "len":
            return len(v) if type(v) in (list, dict, str) else -1
        if t == "const":
            return F[1]
        if t == "raise":
            return M(exc={F[1]})
        if t == "aw":
            return MAw(v)
        if t == "awf":
            return MAw(exc={F[1]})
        if t == "outv":
            return M(v, F[1], F[2], F[3])
        if t == "out":
            return self.out(F[1])
        raise AssertionError(t)


# ----------------------------------------------------------------- comparison
def evaluate(case):
    """Runs the program on the real SDK.  Returns (snapshots, call log snapshot)."""
    import asyncio
    import engine as eng
    from pulumi.output import Output, Unknown

    classes = make_classes()
    e = eng.FakeEngine(dry_run=case["dry"])

    async def snap_value(v, depth=0):
        if isinstance(v, Unknown):
            return "UNK"
        if type(v) in classes:
            t = TYPED[classes.index(type(v))]
            return (t, {k: await snap_value(x, depth) for k, x in dict.items(v.__dict__ if t == "args" else v)})
        if isinstance(v, dict):
            return {k: await snap_value(x, depth) for k, x in v.items()}
        if isinstance(v, list):
            return [await snap_value(x, depth) for x in v]
        if isinstance(v, Output):
            return await snap(v, depth + 1)
        if asyncio.isfuture(v) or asyncio.iscoroutine(v):
            return "AWAITABLE"
        return v

    async def snap(o, depth=0):
        try:
            v = await o.future()
        except Exception as x:
            return {"!exc": str(x) if isinstance(x, Boom) else type(x).__name__,
                    "!deps": sorted(r.n for r in await o.resources())}
        return {"!value": await snap_value(v, depth), "!known": await o.is_known(), "!secret": await o.is_secret(),
                "!deps": sorted(r.n for r in await o.resources())}

    b = {}

    def go():
        eng.configure(e)

        async def main():
            bld = b["b"] = Builder(classes)
            for l in case["lets"]:
                bld.lets.append(bld.out(l))
            snaps = [await snap(o) for o in bld.lets]
            # awaiting again, and later, must change nothing
            again = [await snap(o) for o in bld.lets]
            # a program waits for everything it started
            while True:
                rest = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
                if not rest:
                    break
                await asyncio.wait(rest)
            calls = {i: [await snap_value(v) for v in vs] for i, vs in bld.calls.items()}
            return snaps, again, calls

        return eng.run_loop(main, case["sched"], extra_idle=lambda i: b["b"].idle(i) if "b" in b else 0)

    return eng.in_context(go)


def msnap_value(v):
    if v is UNK:
        return "UNK"
    if isinstance(v, dict):
        return {k: msnap_value(x) for k, x in v.items()}
    if isinstance(v, list):
        return [msnap_value(x) for x in v]
    if isinstance(v, MArgs):
        return (v.kind, {k: msnap_value(x) for k, x in v.d.items()})
    if isinstance(v, M):
        return msnap(v)
    if isinstance(v, MAw):
        return "AWAITABLE"
    return v


def msnap(m):
    if m.exc:
        return {"!exc": m.exc, "!deps": sorted(m.deps)}
    return {"!value": None if has_unk(m.value) else msnap_value(m.value), "!known": m.known, "!secret": m.secret, "!deps": sorted(m.deps)}


def predict(case):
    mod = Model(case["dry"])
    for l in case["lets"]:
        mod.lets.append(mod.out(l))
    return [msnap(m) for m in mod.lets], {i: [msnap_value(v) for v in vs] for i, vs in mod.calls.items()}, mod


def walk(e):
    yield e
    if isinstance(e, (tuple, list)):
        for x in e:
            if isinstance(x, (tuple, list)):
                yield from walk(x)


def agree(g, w, skip=("!known", "!secret", "!deps")):
    """snapshot g equals predicted snapshot w (failure messages: one of the predicted ones; key order matters)"""
    from harness import same
    if isinstance(w, set):
        return g in w
    if isinstance(w, dict):
        if not isinstance(g, dict):
            return False
        gk, wk = [k for k in g if k not in skip], [k for k in w if k not in skip]
        return gk == wk and all(agree(g[k], w[k]) for k in wk)
    if isinstance(w, (list, tuple)):
        return type(g) is type(w) and len(g) == len(w) and all(agree(x, y) for x, y in zip(g, w))
    return same(g, w)


def agree_multiset(gs, ws):
    gs = list(gs)
    for w in ws:
        for i, g in enumerate(gs):
            if agree(g, w):
                gs.pop(i)
                break
        else:
            return False
    return not gs
