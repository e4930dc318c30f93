"""C35 inline programs run with the stack and config the engine names."""
import os
import shutil
import sys
import threading
import time
from concurrent import futures

from cli import cli, gojson, read_command
from engine import FakeRpcError
from grpcengine import BIG, CODES, GrpcEngine
from harness import fail, part, same
from hypothesis import strategies as st

KEYS = ["p1:k", "p1:secret", "p2:k", "other:k"]
names = st.sampled_from(["a", "b", "c"])
vals = st.sampled_from(["v", "w", "", "7", "é", '{"a": 1}'])


@st.composite
def program(draw):
    acts, made = [], []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(["res", "res", "comp", "export", "export", "export_res", "log", "later", "invoke", "config", "sleep"]))
        if k in ("res", "comp"):
            left = [n for n in "abcd" if n not in made]
            if not left:
                continue
            a = {"k": k, "name": left[0], "parent": draw(st.sampled_from([None] + made)) if made else None, "v": draw(vals)}
            made.append(left[0])
        elif k == "export":
            a = {"k": k, "name": draw(st.sampled_from(["x", "y"])), "v": draw(st.sampled_from(["v", 1, True, [1, "a"], {"m": "n"}]))}
        elif k == "export_res":
            if not made:
                continue
            a = {"k": k, "name": draw(st.sampled_from(["x", "y", "z"])), "of": draw(st.sampled_from(made))}
        elif k == "config":
            a = {"k": k, "key": draw(st.sampled_from(KEYS)), "v": draw(vals)}
        else:
            a = {"k": k, "n": draw(st.integers(0, 2))}
        acts.append(a)
    end = draw(st.sampled_from(["ok"] * 6 + ["raise", "run_error", "later_raise", "fault", "fault", "rpc_error", "exit", "unavailable"]))
    if end in ("fault", "unavailable") and not made:
        end = "raise"
    return {"acts": acts, "end": end, "at": draw(st.integers(0, len(acts))), "victim": draw(st.sampled_from(made)) if made else None, "code": draw(st.sampled_from(CODES)), "msg": draw(st.sampled_from(["boom", "é: 100%", "two\nlines", "{x}", ""]))}


@st.composite
def request(draw, i):
    cfg = draw(st.dictionaries(st.sampled_from(KEYS), vals, max_size=4))
    return {"project": draw(st.sampled_from(["p1", "p2"])), "stack": "s%d" % i, "org": draw(st.sampled_from(["org", "é"])), "dry": draw(st.booleans()), "config": cfg,
            "secrets": draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True)), "prog": draw(program()), "big": draw(st.sampled_from([""] * 14 + ["config", "invoke"]))}


class Die(Exception):
    pass


def make(spec, seen, meet=None):
    """the program: does what the specification says and notes what it sees"""
    import grpc
    import pulumi

    def look(where):
        try:
            org = pulumi.get_organization()
        except Exception as e:  # noqa
            org = repr(e)
        cfg, sec = {}, {}
        for k in KEYS:
            ns, n = k.split(":")
            cfg[k] = pulumi.Config(ns).get(n)
            sec[k] = pulumi.runtime.is_config_secret(k)
        seen.append({"where": where, "project": pulumi.get_project(), "stack": pulumi.get_stack(), "org": org, "dry": pulumi.runtime.is_dry_run(), "config": cfg, "secret": sec, "default": pulumi.Config().get("k")})

    p = spec["prog"]

    def body():
        look("start")
        if spec["big"]:
            n = len(pulumi.Config("other").get("big") or "") if spec["big"] == "config" else len(pulumi.runtime.invoke("t:m:big", {"q": "x" * BIG}).value["q"])
            if n != BIG:
                seen.append({"where": "invoke", "got": "%s characters of %s" % (n, BIG)})
        made = {}
        for i, a in enumerate(p["acts"] + [None]):
            if i == p["at"]:
                if meet:
                    meet()
                if p["end"] == "raise":
                    raise Die(p["msg"])
                if p["end"] == "run_error":
                    raise pulumi.RunError(p["msg"])
                if p["end"] == "rpc_error":
                    raise FakeRpcError(getattr(grpc.StatusCode, p["code"]), p["msg"])
                if p["end"] == "exit":
                    sys.exit(p["msg"])
                if p["end"] == "later_raise":
                    def die(_):
                        raise Die(p["msg"])
                    pulumi.Output.from_input(1).apply(die)
            if a is None:
                break
            k = a["k"]
            if k == "res":
                made[a["name"]] = pulumi.CustomResource("t:m:R", a["name"], {"v": a["v"]}, pulumi.ResourceOptions(parent=made.get(a["parent"])))
            elif k == "comp":
                made[a["name"]] = pulumi.ComponentResource("t:m:C", a["name"], {}, pulumi.ResourceOptions(parent=made.get(a["parent"])))
            elif k == "export":
                pulumi.export(a["name"], a["v"])
            elif k == "export_res":
                pulumi.export(a["name"], made[a["of"]].urn)
            elif k == "log":
                pulumi.log.info("message %d" % a["n"])
            elif k == "later":
                src = next((r.urn for r in made.values()), pulumi.Output.from_input(1))
                src.apply(lambda _: look("later"))
            elif k == "invoke":
                r = pulumi.runtime.invoke("t:m:f%d" % a["n"], {"q": spec["stack"]})
                if r.value != {"q": spec["stack"]}:
                    seen.append({"where": "invoke", "got": repr(r.value)})
            elif k == "config":
                pulumi.runtime.set_config(a["key"], a["v"])
            elif k == "sleep":
                time.sleep(0.005 * a["n"])
        look("end")
    return body


def engine_for(spec):
    p = spec["prog"]
    faults = {}
    if p["end"] in ("fault", "unavailable"):
        faults[("register", p["victim"])] = ("UNAVAILABLE" if p["end"] == "unavailable" else p["code"], "engine says " + p["msg"])
    return GrpcEngine(spec["project"], spec["stack"], faults)


def run_request(spec, eng):
    from pulumi.runtime.proto import language_pb2
    return language_pb2.RunRequest(project=spec["project"], stack=spec["stack"], pwd="/", program=".", args=[eng.engine], config=dict(spec["config"], **({"other:big": "x" * BIG} if spec["big"] == "config" else {})), dryRun=spec["dry"], parallel=4, monitor_address=eng.monitor,
                                   configSecretKeys=spec["secrets"], organization=spec["org"])


def judge(spec, eng, resp, seen, what):
    p = spec["prog"]
    what = f"{what} ({spec['stack']}, {p['end']})"
    ok = p["end"] == "ok"
    # what the program saw
    set_ = {}
    for s in seen:
        if s["where"] == "invoke":
            fail(f"{what}: an invoke returned {s['got']}")
        want = {"project": spec["project"], "stack": spec["stack"], "org": spec["org"], "dry": spec["dry"]}
        got = {k: s[k] for k in want}
        if got != want:
            fail(f"{what}: the program ({s['where']}) saw {got}, the engine asked for {want}")
        if s["where"] == "start":
            if s["config"] != {k: spec["config"].get(k) for k in KEYS}:
                fail(f"{what}: the program's config is {s['config']}, the engine gave {spec['config']}")
            if s["default"] != spec["config"].get(spec["project"] + ":k"):
                fail(f"{what}: the project's k is {s['default']!r}, the engine gave {spec['config']}")
        if s["secret"] != {k: k in spec["secrets"] for k in KEYS}:
            fail(f"{what}: secret keys {s['secret']}, the engine gave {spec['secrets']}")
        if s["where"] == "end":
            want = dict(spec["config"], **{a["key"]: a["v"] for a in p["acts"] if a["k"] == "config"})
            if s["config"] != {k: want.get(k) for k in KEYS}:
                fail(f"{what}: the program's config ended as {s['config']}, expected {want}")
    n = [s["where"] for s in seen].count("start")
    if n != 1:
        fail(f"{what}: the program ran {n} times")
    # what the engine saw
    regs = [(r.type, r.name) for r in eng.of("register")]
    stack_name = spec["project"] + "-" + spec["stack"]
    stacks = [r for r in regs if r[0] == "pulumi:pulumi:Stack"]
    if stacks != [("pulumi:pulumi:Stack", stack_name)] and (ok or stacks):
        fail(f"{what}: registered {regs}")
    want = [({"res": "t:m:R", "comp": "t:m:C"}[a["k"]], a["name"]) for a in p["acts"] if a["k"] in ("res", "comp")]
    got = [r for r in regs if r[0] != "pulumi:pulumi:Stack"]
    if (sorted(got) != sorted(want)) if ok else any(g not in want or got.count(g) > 1 for g in got):
        fail(f"{what}: registered {got}, the program made {want}")
    for r in eng.of("register"):
        if r.type == "pulumi:pulumi:Stack":
            continue
        a = next(a for a in p["acts"] if a.get("name") == r.name and a["k"] in ("res", "comp"))
        parent = eng.urn("pulumi:pulumi:Stack", stack_name, "") if not a["parent"] else None
        if (parent and r.parent != parent) or (a["parent"] and not r.parent.endswith("::" + a["parent"])):
            fail(f"{what}: {r.name} has the parent {r.parent}, expected {a['parent'] or parent}")
    wrong = [r.parent or r.urn for r in eng.of("register") + eng.of("outputs") if hasattr(r, "urn") and f":{spec['stack']}::{spec['project']}::" not in r.urn or hasattr(r, "parent") and r.parent and f":{spec['stack']}::{spec['project']}::" not in r.parent]
    if wrong:
        fail(f"{what}: resources of another stack: {wrong}")
    inv = [r.tok for r in eng.of("invoke") if r.tok != "t:m:big"]
    if ok and sorted(inv) != sorted("t:m:f%d" % a["n"] for a in p["acts"] if a["k"] == "invoke"):
        fail(f"{what}: invoked {inv}")
    logs = eng.logs()
    want_logs = ["message %d" % a["n"] for i, a in enumerate(p["acts"]) if a["k"] == "log"]
    infos = [m for s, m in logs if s == "info"]
    if infos != want_logs if ok else infos != want_logs[:len(infos)]:
        fail(f"{what}: logged {infos}, the program logged {want_logs}")
    errors = [m for s, m in logs if s == "error"]
    outs = eng.stack_outputs()
    if ok:
        if resp.error or errors:
            fail(f"{what}: answered {resp.error!r}, errors {errors}")
        exports = {}
        for a in p["acts"]:
            if a["k"] == "export":
                exports[a["name"]] = a["v"]
            elif a["k"] == "export_res":
                b = next(b for b in p["acts"] if b.get("name") == a["of"] and b["k"] in ("res", "comp"))
                chain = []
                x = b
                while x:
                    chain.insert(0, {"res": "t:m:R", "comp": "t:m:C"}[x["k"]])
                    x = next((y for y in p["acts"] if y["k"] in ("res", "comp") and y["name"] == x["parent"]), None)
                exports[a["name"]] = f"urn:pulumi:{spec['stack']}::{spec['project']}::{'$'.join(chain)}::{a['of']}"
        if len(outs) != 1 or not loosely(outs[0], exports):
            fail(f"{what}: stack outputs {outs}, the program exported {exports}")
    elif p["end"] == "unavailable":
        pass  # the engine is gone: nothing is left to tell
    else:
        if not resp.error:
            fail(f"{what}: a failed program was answered as a success; the engine was told {errors}")
        if p["msg"] not in resp.error:
            fail(f"{what}: the program failed with {p['msg']!r}, the answer says {resp.error!r}")
        if len(errors) != 1 or p["msg"] not in errors[0]:
            fail(f"{what}: the program failed with {p['msg']!r}, the engine was told {errors}")


def loosely(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(loosely(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(map(loosely, a, b))
    return a == b


# ---------------------------------------------------------------- one server, several requests
@st.composite
def server_cases(draw):
    n = draw(st.integers(1, 4))
    return {"runs": [draw(request(i if draw(st.integers(0, 3)) else 0)) for i in range(n)]}


def run_server(case, rec):
    import grpc
    from pulumi.automation._server import LanguageServer
    from pulumi.runtime.proto import language_pb2_grpc

    cur = {}
    server = grpc.server(futures.ThreadPoolExecutor(max_workers=4), options=[("grpc.max_receive_message_length", -1)])
    language_pb2_grpc.add_LanguageRuntimeServicer_to_server(LanguageServer(lambda: cur["body"]()), server)
    port = server.add_insecure_port("127.0.0.1:0")
    server.start()
    engines = []
    try:
        with grpc.insecure_channel("127.0.0.1:%d" % port) as ch:
            stub = language_pb2_grpc.LanguageRuntimeStub(ch)
            for i, spec in enumerate(case["runs"]):
                eng = engine_for(spec)
                engines.append(eng)
                seen = []
                cur["body"] = make(spec, seen)
                try:
                    resp = stub.Run(run_request(spec, eng), timeout=15)
                except grpc.RpcError as e:
                    fail(f"run {i} ({spec['prog']['end']}): the request was answered with {e.code()} {e.details()}")
                judge(spec, eng, resp, seen, f"run {i}")
        if len(case["runs"]) > 1 and any(r["config"] != case["runs"][0]["config"] for r in case["runs"]):
            rec.nontriv()
        rec.label("a big message", any(r["big"] for r in case["runs"]))
        rec.label("after a failure", any(r["prog"]["end"] != "ok" for r in case["runs"][:-1]))
    finally:
        server.stop(None)
        for e in engines:
            e.close()


@part("server", quick=500, thorough=20000, shards=8, batch=60, rule="several run requests with different config")
def server_part():
    return server_cases(), run_server


# ---------------------------------------------------------------- operations of several stacks, one after another or at the same time
@st.composite
def op_cases(draw):
    n = draw(st.integers(1, 3))
    ops = []
    for i in range(n):
        o = draw(request(i))
        o.update(op=draw(st.sampled_from(["up", "preview"])), own=draw(st.booleans()), runs=draw(st.sampled_from([1, 1, 1, 2])))
        ops.append(o)
    return {"ops": ops, "together": draw(st.booleans()) and n > 1, "share": draw(st.booleans())}


def listening():
    """the addresses this process listens on"""
    mine = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            mine.add(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass
    out = set()
    with open("/proc/self/net/tcp") as f:
        for line in f.readlines()[1:]:
            w = line.split()
            if w[3] == "0A" and f"socket:[{w[9]}]" in mine:
                ip, port = w[1].split(":")
                out.add("%s:%d" % (".".join(str(x) for x in reversed(bytes.fromhex(ip))), int(port, 16)))
    return out


def run_ops(case, rec):
    import grpc
    import pulumi.automation as auto
    from pulumi.runtime.proto import language_pb2_grpc

    c = cli()
    state = {o["stack"]: {"spec": o, "resp": [], "seen": [], "engines": []} for o in case["ops"]}
    ports = set()
    barrier = threading.Barrier(len(case["ops"])) if case["together"] else None

    def handler(req):
        cmd = read_command(req)
        if cmd.name in (("up",), ("preview",)):
            s = state[cmd.flags["stack"]]
            o = s["spec"]
            ports.add(cmd.flags["client"])
            with grpc.insecure_channel(cmd.flags["client"]) as ch:
                stub = language_pb2_grpc.LanguageRuntimeStub(ch)
                for _ in range(o["runs"]):
                    eng = engine_for(o)
                    s["engines"].append(eng)
                    del s["seen"][:]
                    try:
                        r = stub.Run(run_request(o, eng), timeout=20, wait_for_ready=True)
                    except grpc.RpcError as e:
                        fail(f"{o['stack']}: the request to run the program was answered with {e.code()} {e.details()}")
                    judge(o, eng, r, s["seen"], "together" if case["together"] else "in turn")
            if "event-log" in cmd.flags:
                with open(cmd.flags["event-log"], "a") as f:
                    f.write('{"sequence":0,"timestamp":0,"summaryEvent":{"maybeCorrupt":false,"durationSeconds":1,"resourceChanges":{},"PolicyPacks":{}}}\n{"sequence":1,"timestamp":0,"cancelEvent":{}}\n')
            return req.exit(1 if r.error else 0)
        if cmd.name == ("version",):
            req.out("v3.40.0\n")
        elif cmd.name == ("stack", "output"):
            req.out("{}\n")
        elif cmd.name == ("stack", "history"):
            req.out(gojson([{"version": 1, "kind": "update", "startTime": "2022-01-01T00:00:00.000Z", "message": "", "environment": {}, "config": {}, "result": "succeeded", "endTime": "2022-01-01T00:00:01.000Z"}]))
        req.exit(0)

    c.start(handler)
    dirs, stacks = [], []
    failed = {}

    def perform(o, stack, body):
        try:
            getattr(stack, o["op"])(**({"program": body} if o["own"] else {}))
        except auto.CommandError as e:
            failed[o["stack"]] = e
        except BaseException as e:  # noqa
            failed[o["stack"]] = e
            raise

    try:
        ws = None
        for o in case["ops"]:
            def meet():
                try:
                    barrier and barrier.wait(0.3)
                except threading.BrokenBarrierError:
                    pass
            body = make(o, state[o["stack"]]["seen"], meet)
            if ws is None or not (case["share"] and o["own"]):
                d = c.scratch()
                dirs.append(d)
                ws = auto.LocalWorkspace(work_dir=d, program=None if o["own"] else body)
            stacks.append((o, auto.Stack.select(o["stack"], ws), body))
        c.finish()
        threads = []
        for x in stacks:
            if case["together"]:
                threads.append(threading.Thread(target=perform, args=x, daemon=True))
                threads[-1].start()
            else:
                perform(*x)
                c.finish()
        for t in threads:
            t.join(50)
            if t.is_alive():
                fail("an operation does not end")
        c.finish()
        for o in case["ops"]:
            err = failed.get(o["stack"])
            if o["prog"]["end"] == "unavailable":
                continue
            if (err is not None) != (o["prog"]["end"] != "ok") or err is not None and not isinstance(err, auto.CommandError):
                fail(f"{o['op']} of {o['stack']} ({o['prog']['end']}) raised {err!r}")
        for _ in range(100):  # the server that ran the program is gone
            left = ports & listening()
            if not left:
                break
            time.sleep(0.05)
        else:
            fail(f"the servers of ended operations still listen on {left}")
        rec.label("a big message", any(o["big"] for o in case["ops"]))
        if case["together"]:
            rec.nontriv()
    finally:
        for s in state.values():
            for e in s["engines"]:
                e.close()
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


@part("operations", quick=240, thorough=8000, shards=8, batch=30, rule="operations going on at the same time")
def op_part():
    return op_cases(), run_ops
