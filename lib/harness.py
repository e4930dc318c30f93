"""Parts, cases, recording: what a check module uses, and the worker that runs one shard of one part.

A check module defines parts with @part.  A part function returns (strategy, run) where the strategy yields cases that
are Python literals (repr/ast.literal_eval round-trip) and run(case, rec) raises Violation when the code disagrees with
the oracle.
"""
import ast
import hashlib
import json
import os
import sys
import threading
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __str__(self):
        return "\n  ".join(str(a) for a in self.args)


class HarnessError(Exception):
    """Never reported as a violation."""


def fail(msg, *more):
    raise Violation(msg + "".join("\n  " + str(m) for m in more))


def expect_equal(what, got, want, **ctx):
    if not same(got, want):
        raise Violation(f"{what}: got {got!r}, expected {want!r}" + "".join(f"\n  {k}={v!r}" for k, v in ctx.items()))


def same(a, b):
    """Equality that distinguishes bool/int/float and recurses."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    return type(a) is type(b) and a == b


class Part:
    def __init__(self, name, fn, quick, thorough, shards, rule, batch, weight):
        self.name, self.fn, self.quick, self.thorough, self.shards = name, fn, quick, thorough, shards
        self.rule, self.batch, self.weight = rule, batch, weight


_PARTS = {}


def part(name, quick, thorough, shards=4, rule="", batch=250, weight=1):
    """quick/thorough: total number of cases over all shards."""

    def deco(fn):
        assert name not in _PARTS
        _PARTS[name] = Part(name, fn, quick, thorough, shards, rule, batch, weight)
        return fn

    return deco


class Recorder:
    def __init__(self, listed=()):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self.listed = set(listed)
        self._case = None
        self._repr = None

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self._repr = None

    def nontriv(self, key=None):
        r = key if key is not None else self.case_repr()
        h = hashlib.blake2b(str(r).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            n = len(self.nontrivial)
            if n in (1, 10, 100, 1000) and len(self.samples) < 4:
                self.samples.append(self.case_repr()[:1500])

    def case_repr(self):
        if self._repr is None:
            self._repr = repr(self._case)
        return self._repr

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def known(self, fid):
        """True (and counted) if the finding is listed; the caller then leaves the discrepancy out."""
        if fid in self.listed:
            self.known_hits[fid] = self.known_hits.get(fid, 0) + 1
            return True
        return False


def load_findings(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


def load_check(prop):
    import importlib.util

    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in (root, os.path.join(root, "lib")):
        if p not in sys.path:
            sys.path.insert(0, p)
    _PARTS.clear()
    spec = importlib.util.spec_from_file_location("check_" + prop, os.path.join(root, "checks", prop + ".py"))
    mod = importlib.util.module_from_spec(spec)
    sys.modules["check_" + prop] = mod
    spec.loader.exec_module(mod)
    return dict(_PARTS)


def classify_exception(exc):
    """'violation' or 'harness' for an exception out of run()."""
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "harness"
    frames = traceback.extract_tb(exc.__traceback__)
    in_repo = any(f.filename.startswith(REPO + "/") for f in frames)
    if in_repo:
        return "violation"
    if isinstance(exc, (ImportError, NameError)):
        return "harness"
    if isinstance(exc, AttributeError) and type(getattr(exc, "obj", None)).__name__ in ("module", "type"):
        return "harness"
    return "violation"


class _Stop(BaseException):
    pass


HANG_SECONDS = float(os.environ.get("VERIF_HANG", "60"))


class Watchdog(threading.Thread):
    def __init__(self, on_hang):
        super().__init__(daemon=True)
        self.started_at = None
        self.on_hang = on_hang

    def run(self):
        while True:
            time.sleep(0.5)
            t = self.started_at
            if t is not None and time.monotonic() - t > HANG_SECONDS:
                self.on_hang()
                os._exit(3)


def run_shard(prop, part_name, shard, n_cases, seed, out_path, budget):
    import shim

    shim.install()
    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as ce

    ce.MAX_SHRINKING_SECONDS = 45
    # a compiled change of sys.exit etc. must not end the worker silently
    parts = load_check(prop)
    p = parts[part_name]
    strategy, run = p.fn()
    rec = Recorder(f["id"] for f in load_findings(prop))
    state = {"case": None, "fail": None}
    t0 = time.monotonic()

    def dump(**extra):
        d = {
            "part": part_name, "shard": shard, "evaluations": rec.evaluations,
            "nontrivial": sorted(rec.nontrivial), "labels": rec.labels, "samples": rec.samples,
            "known": rec.known_hits, "wall": time.monotonic() - t0, "seed": seed,
        }
        d.update(extra)
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(d, f)
        os.replace(tmp, out_path)

    wd = Watchdog(lambda: dump(hang=repr(state["case"])))
    wd.start()

    def body(case):
        state["case"] = case
        rec.begin(case)
        wd.started_at = time.monotonic()
        try:
            run(case, rec)
        except (KeyboardInterrupt, MemoryError, hypothesis.errors.HypothesisException):
            raise
        except BaseException as e:  # noqa
            kind = classify_exception(e) if isinstance(e, Exception) else "violation"
            msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            if isinstance(e, Violation):
                head = str(e)
            else:
                head = f"unexpected {type(e).__name__}: {e}"
            state["fail"] = {"kind": kind, "case": repr(case), "message": head[:6000], "trace": msg[-6000:]}
            raise Violation(head) from None
        finally:
            wd.started_at = None

    done = 0
    batch_no = 0
    while done < n_cases:
        n = min(p.batch, n_cases - done)
        test = given(strategy)(body)
        test = settings(
            max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        )(test)
        test = hypothesis.seed(seed * 1000003 + batch_no)(test)
        try:
            test()
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if state["fail"] is None:
                dump(error="".join(traceback.format_exception(type(e), e, e.__traceback__))[-8000:])
                return
            flaky = type(e).__name__ in ("Flaky", "FlakyFailure")
            dump(fail=dict(state["fail"], flaky=flaky))
            return
        done += n
        batch_no += 1
        if time.monotonic() - t0 > budget:
            break
    dump(ok=True)


def run_replay(prop, part_name, case_text):
    import shim

    shim.install()
    warnings.simplefilter("ignore")
    parts = load_check(prop)
    _, run = parts[part_name].fn()
    case = ast.literal_eval(case_text)
    rec = Recorder(f["id"] for f in load_findings(prop))
    rec.begin(case)
    wd = Watchdog(lambda: (print("HANG"), sys.stdout.flush()))
    wd.start()
    wd.started_at = time.monotonic()
    try:
        run(case, rec)
    except BaseException as e:  # noqa
        kind = classify_exception(e) if isinstance(e, Exception) else "violation"
        traceback.print_exc(file=sys.stdout)
        print("REPLAY-" + kind.upper())
        sys.stdout.flush()
        os._exit(1 if kind == "violation" else 2)
    print("REPLAY-OK")
    sys.stdout.flush()
    os._exit(0)
