"""The world a Pulumi program runs in, owned by the harness.

* `run_loop`: an asyncio loop that detects deadlock (idle with nothing outstanding) and hands every executor job
  (= engine call) to a scheduler that picks, by a generated sequence of numbers, which outstanding call is answered next.
* `FakeEngine`: a duck-typed ResourceMonitor + Engine that records every request.
"""
import asyncio
import concurrent.futures
import contextlib
import contextvars
import selectors

import grpc
from google.protobuf import struct_pb2


class Deadlock(Exception):
    pass


class _Selector(selectors.DefaultSelector):
    on_idle = None

    def select(self, timeout=None):
        if timeout is None:
            ev = super().select(0)
            if ev:
                return ev
            if self.on_idle():
                return super().select(0)
            raise Deadlock("event loop idle with nothing outstanding")
        return super().select(timeout)


CURRENT = [0, 0]  # ticks at which the call being executed was sent / is answered


LAST = []


def outstanding():
    """Engine calls sent and not yet answered in the running loop."""
    return len(LAST[0].queue)


_POOL = []


def _on_thread(fn, *a, **k):
    if not _POOL:
        _POOL.append(concurrent.futures.ThreadPoolExecutor(max_workers=1))
    return _POOL[0].submit(fn, *a, **k).result()


class _Executor(concurrent.futures.ThreadPoolExecutor):
    """Queues jobs instead of running them in threads."""

    def __init__(self):
        super().__init__(max_workers=1)
        self.queue = []
        self.tick = 0
        self.threads = False

    def submit(self, fn, /, *args, **kwargs):
        f = concurrent.futures.Future()
        self.tick += 1
        self.queue.append((f, fn, args, kwargs, self.tick))
        return f

    def run_job(self, i):
        f, fn, args, kwargs, sent = self.queue.pop(i)
        if not f.set_running_or_notify_cancel():
            return
        self.tick += 1
        CURRENT[:] = [sent, self.tick]
        try:
            if self.threads:
                r = _on_thread(contextvars.Context().run, fn, *args, **kwargs)
            else:
                r = contextvars.Context().run(fn, *args, **kwargs)
        except BaseException as e:  # noqa
            f.set_exception(e)
        else:
            f.set_result(r)


@contextlib.contextmanager
def open_loop(schedule=(), extra_idle=None, before_close=None, threads=False):
    """A fresh loop, set but not running; schedule = ints choosing the next outstanding engine call (0 = oldest,
    exhausted -> oldest).  extra_idle() may make progress of its own: returns number of choices it has, extra_idle(i) takes
    choice i.  With threads, engine calls run on another thread, as in a real program (still one at a time)."""
    sel = _Selector()
    loop = asyncio.SelectorEventLoop(sel)
    ex = _Executor()
    ex.threads = threads
    LAST[:] = [ex]
    loop.set_default_executor(ex)
    it = iter(schedule)
    loop.set_exception_handler(lambda l, c: None)

    def on_idle():
        n = len(ex.queue)
        m = extra_idle(None) if extra_idle else 0
        if n + m == 0:
            return False
        i = next(it, 0) % (n + m)
        if i < n:
            ex.run_job(i)
        else:
            extra_idle(i - n)
        return True

    sel.on_idle = on_idle
    try:
        old = asyncio.get_event_loop_policy()._local._loop  # may not exist
    except Exception:
        old = None
    asyncio.set_event_loop(loop)
    try:
        yield loop
    finally:
        try:
            sel.on_idle = lambda: False
            for t in asyncio.all_tasks(loop):
                t.cancel()
            for _ in range(3):
                loop.call_soon(loop.stop)
                loop.run_forever()
            if before_close:
                before_close(loop)
        except BaseException:  # noqa
            pass
        asyncio.set_event_loop(old)
        ex.queue.clear()
        loop.close()


def run_loop(main, schedule=(), extra_idle=None, before_close=None):
    """Runs the coroutine function `main()` in a fresh loop (see open_loop)."""
    with open_loop(schedule, extra_idle, before_close) as loop:
        return loop.run_until_complete(main())


# every way a call can be refused; the engine being gone first
CODES = ["UNAVAILABLE"] + sorted(c.name for c in grpc.StatusCode if c.name not in ("OK", "UNAVAILABLE"))


class FakeRpcError(grpc.RpcError):
    def __init__(self, code, details):
        self._c, self._d = code, details

    def code(self):
        return self._c

    def details(self):
        return self._d


def to_struct(d):
    s = struct_pb2.Struct()
    fill_struct(s, d)
    return s


def fill_value(v, x):
    if x is None:
        v.null_value = 0
    elif isinstance(x, bool):
        v.bool_value = x
    elif isinstance(x, (int, float)):
        v.number_value = x
    elif isinstance(x, str):
        v.string_value = x
    elif isinstance(x, (list, tuple)):
        v.list_value.Clear()
        v.list_value.SetInParent()
        for e in x:
            fill_value(v.list_value.values.add(), e)
    elif isinstance(x, dict):
        v.struct_value.SetInParent()
        fill_struct(v.struct_value, x)
    else:
        raise TypeError(type(x))


def fill_struct(s, d):
    for k, x in d.items():
        fill_value(s.fields[k], x)


def from_value(v):
    k = v.WhichOneof("kind")
    if k is None or k == "null_value":
        return None
    if k == "bool_value":
        return v.bool_value
    if k == "number_value":
        return v.number_value
    if k == "string_value":
        return v.string_value
    if k == "list_value":
        return [from_value(e) for e in v.list_value.values]
    return from_struct(v.struct_value)


def from_struct(s):
    return {k: from_value(v) for k, v in s.fields.items()}


SECRET_SIG = "1b47061264138c4ac30d75fd1eb44270"
ASSET_SIG = "c44067f5952c0a294b673a41bacd8c17"
ARCHIVE_SIG = "0def7320c3a5731c473e5ecbe6d01bc7"
RESOURCE_SIG = "5cf8f73096256a8f31e491e813e4eb8e"
OUTPUT_SIG = "d0e6a833031e9bbcd3f4e8bde6ca49a4"
SIG = "4dabf18193072939515e22adb298388d"
UNKNOWN = "04da6b54-80e4-46f7-96ec-b56ff0331ba9"


class Resp:
    pass


class _Log(list):
    def __init__(self, eng):
        super().__init__()
        self.eng = eng

    def append(self, x):
        super().append(x)
        self.eng.ticks.append(tuple(CURRENT))


class FakeEngine:
    """Records requests as plain dicts.  Behaviour comes from the hooks."""

    def __init__(self, features=(), project="proj", stack="stk", dry_run=False):
        self.features = set(features)
        self.project, self.stack, self.dry_run = project, stack, dry_run
        self.ticks = []  # (sent, answered) of each log entry
        self.log = _Log(self)  # (kind, request protobuf) in the order they were *executed*
        self.logs = []  # engine log requests
        self.urns = {}
        self.on_register = None
        self.on_read = None
        self.on_invoke = None
        self.on_call = None
        self.on_outputs = None
        self.feature_queries = []

    # --- engine
    def Log(self, req):
        self.logs.append(req)

    def visible_logs(self):
        return [r for r in self.logs if r.severity != 0]

    def GetRootResource(self, req):
        from pulumi.runtime.proto import engine_pb2
        return engine_pb2.GetRootResourceResponse(urn="")

    def SetRootResource(self, req):
        from pulumi.runtime.proto import engine_pb2
        return engine_pb2.SetRootResourceResponse()

    # --- monitor
    def SupportsFeature(self, req):
        from pulumi.runtime.proto import resource_pb2
        self.feature_queries.append(req.id)
        return resource_pb2.SupportsFeatureResponse(hasSupport=req.id in self.features)

    def make_urn(self, parent, typ, name):
        chain = typ
        if parent:
            ptype = parent.split("::")[2]
            if ptype != "pulumi:pulumi:Stack":
                chain = ptype + "$" + typ
        return f"urn:pulumi:{self.stack}::{self.project}::{chain}::{name}"

    def RegisterResource(self, req):
        from pulumi.runtime.proto import resource_pb2
        self.log.append(("register", req))
        if self.on_register:
            r = self.on_register(req)
            if r is not None:
                return r
        urn = self.make_urn(req.parent, req.type, req.name)
        return resource_pb2.RegisterResourceResponse(
            urn=urn, id=("" if self.dry_run or not req.custom else req.name + "-id"), object=req.object)

    def RegisterResourceOutputs(self, req):
        from google.protobuf import empty_pb2
        self.log.append(("outputs", req))
        if self.on_outputs:
            self.on_outputs(req)
        return empty_pb2.Empty()

    def ReadResource(self, req):
        from pulumi.runtime.proto import resource_pb2
        self.log.append(("read", req))
        if self.on_read:
            r = self.on_read(req)
            if r is not None:
                return r
        return resource_pb2.ReadResourceResponse(urn=self.make_urn(req.parent, req.type, req.name), properties=req.properties)

    def Invoke(self, req):
        from pulumi.runtime.proto import provider_pb2
        self.log.append(("invoke", req))
        if self.on_invoke:
            r = self.on_invoke(req)
            if r is not None:
                return r
        return provider_pb2.InvokeResponse()

    def Call(self, req):
        from pulumi.runtime.proto import provider_pb2
        self.log.append(("call", req))
        if self.on_call:
            r = self.on_call(req)
            if r is not None:
                return r
        return provider_pb2.CallResponse()


def in_context(fn, *a, **k):
    """Runs fn in an empty context so that one case's ambient settings never reach the next."""
    return contextvars.Context().run(fn, *a, **k)


def configure(engine, parallel=None, organization=None, **kw):
    import pulumi
    from pulumi.runtime import settings
    from pulumi.runtime.rpc_manager import RPC_MANAGER

    RPC_MANAGER.clear()
    settings.reset_options(project=engine.project, stack=engine.stack, preview=engine.dry_run)
    s = settings.Settings(project=engine.project, stack=engine.stack, monitor=engine, engine=engine,
                          parallel=parallel, dry_run=engine.dry_run, organization=organization, **kw)
    settings.configure(s)
    reset_globals()
    return s


def reset_globals():
    """Global, non-context state the SDK keeps."""
    try:
        from pulumi.runtime import resource_cycle_breaker
        for n, v in list(vars(resource_cycle_breaker).items()):
            if not n.startswith("__") and type(v).__name__ in ("dict", "defaultdict", "set"):
                v.clear()
    except Exception:
        pass


WATCHED = []


def watch(coro):
    """A task of the harness that looks at the program's values.  The program does not wait for it; run_program does, for a while."""
    WATCHED.append(asyncio.ensure_future(coro))


async def seen_all():
    for _ in range(300):
        if all(t.done() for t in WATCHED):
            return
        await asyncio.sleep(0)


def run_program(engine, body, schedule=(), stack=True, extra_idle=None, settings_kw=None, after=None):
    """Runs body() as a Pulumi program.  Returns (error or None, result of `after`)."""
    from pulumi.runtime import stack as rtstack

    def go():
        configure(engine, **(settings_kw or {}))
        out = {}
        WATCHED.clear()

        async def main():
            try:
                if stack:
                    await rtstack.run_in_stack(body)
                else:
                    await rtstack.run_pulumi_func(body)
            except (Deadlock, KeyboardInterrupt, SystemExit):
                raise
            except (Exception, asyncio.CancelledError) as e:
                out["err"] = e
            await seen_all()
            if after:
                out["after"] = await after(out.get("err"))
            return out

        run_loop(main, schedule, extra_idle)
        return out.get("err"), out.get("after")

    return in_context(go)
