"""C45 lazily imported modules behave as imported ones."""
import builtins
import importlib
import itertools
import os
import shutil
import sys
import tempfile

from harness import fail, part
from hypothesis import strategies as st

_N = itertools.count()
LOADS = []


@st.composite
def cases(draw):
    """a tree of modules: index -> (parent, is package); every package binds its submodules, lazily or by an ordinary import,
    and any module may bind any other lazily under a name"""
    n = draw(st.integers(1, 7))
    mods = []
    for i in range(n):
        parents = [j for j in range(i) if mods[j]["pkg"]]
        mods.append({"up": draw(st.sampled_from(parents)) if parents and i else None, "pkg": i == 0 or draw(st.integers(0, 2)) == 0, "bind": draw(st.sampled_from(["lazy", "lazy", "lazy", "lazy", "from"])), "refs": [], "uses": []})
    for i, m in enumerate(mods):
        m["refs"] = draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True))
        m["where"] = draw(st.sampled_from(["top", "bottom"]))
    steps = draw(st.lists(st.tuples(st.sampled_from(["lazy", "lazy", "import", "call", "call", "via", "class", "set", "walk", "dir"]), st.integers(0, n - 1), st.integers(0, n - 1)), min_size=1, max_size=8))
    return {"mods": mods, "steps": steps}


def name_of(mods, i, root):
    m = mods[i]
    return root if m["up"] is None else name_of(mods, m["up"], root) + ".m%d" % i


def write(case, base, root):
    mods = case["mods"]
    for i, m in enumerate(mods):
        if i and m["up"] is None:
            raise AssertionError
        name = name_of(mods, i, root)
        path = os.path.join(base, *name.split("."))
        if m["pkg"]:
            os.makedirs(path)
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        subs = ["m%d = lazy_import('%s.m%d')" % (j, name, j) if s["bind"] == "lazy" else "from . import m%d" % j for j, s in enumerate(mods) if s["up"] == i]
        refs = ["r%d = lazy_import('%s')" % (j, name_of(mods, j, root)) for j in m["refs"]]
        code = ["import sys", "from pulumi._utils import lazy_import", "sys._verif_loads.append(__name__)", "VALUE = [__name__]", "def who():\n    return __name__", "class Kind:\n    home = __name__"]
        code += ["def via(n):\n    return globals()['r%d' % n].who()"]
        code = code[:3] + refs + code[3:] if m["where"] == "top" else code + refs
        with open(path, "w") as f:
            f.write("\n".join(code + subs) + "\n")


def run(case, rec):
    from pulumi._utils import lazy_import
    mods = case["mods"]
    root = "verif_pk%d" % next(_N)
    base = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    sys._verif_loads = loads = []
    try:
        write(case, base, root)
        sys.path.insert(0, base)
        importlib.invalidate_caches()
        held = {}
        marks = {}

        def hold(i, m, what):
            n = name_of(mods, i, root)
            if sys.modules.get(n) is not m:
                fail(f"{what}: {n} is not the module registered under that name")
            if held.setdefault(i, m) is not m:
                fail(f"{what}: {n} is another module than before")

        def check(i, what):
            """the module does what it should"""
            m, n = held[i], name_of(mods, i, root)
            if m.who() != n or m.Kind.home != n or m.VALUE[0] != n or m.__name__ != n:
                fail(f"{what}: module {n} says {m.who()}")
            if m.VALUE[1:] != marks.get(i, []):
                fail(f"{what}: module {n} has {m.VALUE}, it was left with {marks.get(i, [])}")
            if n not in loads:
                fail(f"{what}: module {n} was used before it ran")
            for j in [j for j, s in enumerate(mods) if s["up"] == i]:
                hold(j, getattr(m, "m%d" % j), what)
            for j in m_refs(i):
                hold(j, getattr(m, "r%d" % j), what)

        def m_refs(i):
            return mods[i]["refs"]

        for s, (k, i, j) in enumerate(case["steps"]):
            n = name_of(mods, i, root)
            what = f"step {s} ({k} {n})"
            if k == "lazy":
                before = list(loads)
                known = n in sys.modules
                hold(i, lazy_import(n), what)
                ran = loads[len(before):]
                # what ran is what the packages above it ran
                if not known and i and n in ran and not eager(mods, i):
                    fail(f"{what}: ran {n} before it was used")
                if known and ran:
                    fail(f"{what}: the module was known and yet {ran} ran")
            elif k == "import":
                # an ordinary import below a package that has not run yet makes a second copy of a module the package binds
                # lazily: the import system looks for the module before the package runs
                for a in reversed(parents(mods, i)):
                    hold(a, lazy_import(name_of(mods, a, root)), what)
                    check(a, what)
                hold(i, importlib.import_module(n), what)
                check(i, what)
            else:
                if i not in held:
                    hold(i, lazy_import(n), what)
                m = held[i]
                if k == "call":
                    check(i, what)
                elif k == "class":
                    if not isinstance(m.Kind(), held[i].Kind) or m.Kind.__module__ != n:
                        fail(f"{what}: {m.Kind.__module__}")
                elif k == "via":
                    for r in m_refs(i):
                        if m.via(r) != name_of(mods, r, root):
                            fail(f"{what}: the reference to {name_of(mods, r, root)} reached {m.via(r)}")
                elif k == "set":
                    m.VALUE.append(s)
                    marks.setdefault(i, []).append(s)
                    m.extra = s
                    if m.extra != s or sys.modules[n].extra != s:
                        fail(f"{what}: an attribute set on the module is lost")
                elif k == "dir":
                    if not {"who", "Kind", "VALUE", "via"} <= set(dir(m)):
                        fail(f"{what}: dir() gives {dir(m)}")
                elif k == "walk":  # down from the root, as users write it
                    x = lazy_import(root)
                    for p in n.split(".")[1:]:
                        x = getattr(x, p)
                    hold(i, x, what)
                    check(i, what)
            if len(loads) != len(set(loads)):
                fail(f"{what}: modules ran more than once: {loads}")
        for i in list(held):
            check(i, "at the end")
        if len(loads) != len(set(loads)):
            fail(f"modules ran more than once: {loads}")
        if any(m["refs"] for m in mods) and len(mods) > 2:
            rec.nontriv()
        rec.label("modules", len(mods))
    finally:
        if base in sys.path:
            sys.path.remove(base)
        for n in [n for n in sys.modules if n == root or n.startswith(root + ".")]:
            del sys.modules[n]
        shutil.rmtree(base, ignore_errors=True)


def parents(mods, i):
    out = []
    while mods[i]["up"] is not None:
        i = mods[i]["up"]
        out.append(i)
    return out


def eager(mods, i):
    """may module i run when packages above it run?  Finding a module runs the packages above it, and ordinary imports run
    anything"""
    return any(m["bind"] == "from" for m in mods) or any(i in parents(mods, r) for m in mods for r in m["refs"])


@part("packages", quick=2000, thorough=80000, shards=8, rule="at least three modules with references among them")
def packages():
    return cases(), run
