"""C34 stack operations pass every option and return the whole result."""
import json
import os
import shutil
import time

import apievents as ev
from cli import cli, gojson, read_command
from harness import fail, part, same
from hypothesis import strategies as st

texts = st.one_of(st.sampled_from(["m", "-m", "--yes", "--", "a b", "a=b", "two\nlines", "é", "'", "x,y", "--stack=other", "-"]), st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), min_size=1, max_size=6))
urns = st.sampled_from(["urn:pulumi:dev::p::t:m:T::n", "urn:pulumi:dev::p::t:m:C$t:m:T::a b", "urn:pulumi:dev::p::t:m:T::a,b", "urn:pulumi:dev::p::t:m:T::--all", "--all", "**", "urn:pulumi:dev::p::t:m:T::é"])
paths = st.sampled_from(["/packs/a", "./b", "-c", "a b", "c=d", "--debug"])
bools = st.sampled_from([True, True, False, None])
OPTIONS = {
    "parallel": ("parallel", st.integers(1, 300)), "message": ("message", texts), "target": ("target", st.lists(urns, max_size=3)), "policy_packs": ("policy-pack", st.lists(paths, max_size=3)),
    "policy_pack_configs": ("policy-pack-config", st.lists(paths, max_size=3)), "expect_no_changes": ("expect-no-changes", bools), "diff": ("diff", bools), "target_dependents": ("target-dependents", bools),
    "replace": ("replace", st.lists(urns, max_size=3)), "color": ("color", st.sampled_from(["always", "never", "raw", "auto"])), "log_flow": ("logflow", bools), "log_verbosity": ("verbose", st.integers(1, 11)),
    "log_to_std_err": ("logtostderr", bools), "tracing": ("tracing", st.sampled_from(["file:./t.trace", "http://x/y?z=1", "-odd"])), "debug": ("debug", bools), "plan": (None, st.sampled_from(["plan.json", "a b", "--plan", "é"])),
}
COMMON = ["parallel", "message", "target", "color", "log_flow", "log_verbosity", "log_to_std_err", "tracing", "debug"]
TAKES = {"up": COMMON + ["policy_packs", "policy_pack_configs", "expect_no_changes", "diff", "target_dependents", "replace", "plan"], "refresh": COMMON + ["expect_no_changes"], "destroy": COMMON + ["target_dependents"]}
TAKES["preview"] = TAKES["up"]

lines = st.lists(st.sampled_from(["Updating (dev)", "", "  + x", "é \U0001f600", "tail  ", "\ttab", "100%", "Resources:\r"]), max_size=4)
summaries = st.fixed_dictionaries({"version": st.integers(1, 99), "kind": st.sampled_from(["update", "preview", "refresh", "destroy"]), "message": st.sampled_from(["", "m", "é"]), "config": st.dictionaries(st.sampled_from(["a:b", "c:d"]),
                                   st.sampled_from([{"value": "x", "secret": False}, {"value": "y", "secret": True}]), max_size=2), "result": st.sampled_from(["succeeded", "failed"]),
                                   "environment": st.dictionaries(st.sampled_from(["git.head", "exec.kind"]), st.sampled_from(["x", ""]), max_size=2), "resourceChanges": st.dictionaries(st.sampled_from(ev.OPS), st.integers(0, 9), max_size=3)})


@st.composite
def operation(draw):
    op = draw(st.sampled_from(["up", "up", "preview", "preview", "refresh", "destroy"]))
    names = [n for n in TAKES[op] if draw(st.integers(0, 3)) == 0]
    o = {"op": op, "options": {n: draw(OPTIONS[n][1]) for n in names}, "inline": draw(st.sampled_from([False, False, False, True])) and op in ("up", "preview"), "listen": draw(st.integers(0, 3)) != 0, "on_output": draw(st.booleans()),
         "code": draw(st.sampled_from([0, 0, 0, 0, 1, 255])), "out": draw(lines), "err": draw(st.sampled_from(["", "warning: x\n", "a\n\n  b \nno newline", "é\n"])), "entry": draw(summaries), "older": draw(st.booleans()),
         "outputs": draw(st.dictionaries(st.sampled_from(["o1", "é", "o-2"]), st.tuples(st.sampled_from(["v", 1, 2.5, [1, {"a": None}], {"b": "c"}, True, None]), st.booleans()), max_size=3)),
         "show": draw(st.sampled_from([None, True, False])) if op != "preview" else None}
    es = draw(st.lists(ev.event(draw(st.sampled_from([None, "diagnosticEvent", "stdoutEvent"]))), max_size=5))
    es = [e for e in es if "cancelEvent" not in e and "summaryEvent" not in e]
    if op == "preview" and (o["code"] == 0 or draw(st.booleans())):
        e = draw(ev.event("summaryEvent"))
        e["summaryEvent"]["resourceChanges"] = e["summaryEvent"]["resourceChanges"] or {}
        es.insert(draw(st.integers(0, len(es))), e)
    if draw(st.integers(0, 4)):
        es.append(draw(ev.event("cancelEvent")))
    o["events"] = es
    # where the log's writes are split, as parts of the whole, and how long each pauses
    o["cuts"] = draw(st.lists(st.tuples(st.one_of(st.floats(0, 1), st.sampled_from(["char", "char", "line", "newline"])), st.sampled_from([0, 0, 0.01, 0.13])), max_size=4))
    o["late"] = draw(st.booleans())
    o["slow"] = draw(st.sampled_from([0] * 8 + [0.09]))
    return o


@st.composite
def cases(draw):
    return {"ops": draw(st.lists(operation(), min_size=1, max_size=2)), "extra": draw(st.sampled_from([[], [], ["--profiling", "a b"], ["--emoji"]])), "ws_program": draw(st.sampled_from([False, False, True])),
            "stack": draw(st.sampled_from(["dev", "org/p/dev", "a.b_c-d"]))}


def chunks(o):
    text = "".join(json.dumps(e, ensure_ascii=False, separators=(",", ":")) + "\n" for e in o["events"]).encode()
    at = {}
    for where, pause in o["cuts"]:
        if not text:
            break
        if isinstance(where, float):
            i = int(where * len(text))
        elif where == "char":
            multi = [i for i, b in enumerate(text) if b & 0xC0 == 0x80]
            i = multi[len(multi) // 2] if multi else 1
        elif where == "line":
            i = text.find(b"\n") + 1
        else:
            i = text.rfind(b"\n")
        at[min(max(i, 0), len(text))] = pause
    out, last = [], 0
    for i in sorted(at):
        out.append((text[last:i], at[i]))
        last = i
    return out + [(text[last:], 0)]


def run(case, rec):
    import pulumi.automation as auto
    from pulumi.automation import events

    c = cli()
    cur = {}

    def handler(req):
        cmd = read_command(req)
        req.cmd = cmd
        o = cur.get("o")
        if cmd.name == ("version",):
            req.out("v3.40.0\n")
        elif o and cmd.name == (o["op"],):
            req.out("".join(x + "\n" for x in o["out"]))
            req.err(o["err"])
            if "client" in cmd.flags:
                run_inline(cmd.flags["client"], case["stack"], o["op"] == "preview")
            if "event-log" in cmd.flags:
                if not os.path.exists(os.path.dirname(cmd.flags["event-log"])):
                    fail(f"no directory for the event log {cmd.flags['event-log']}")
                if req.env.get("PULUMI_DEBUG_COMMANDS") not in ("true", "1"):
                    fail("the tool does not accept --event-log without PULUMI_DEBUG_COMMANDS")
                with open(cmd.flags["event-log"], "ab", buffering=0) as f:
                    for b, pause in chunks(o):
                        f.write(b)
                        if pause:
                            time.sleep(pause)
            if o["late"]:
                time.sleep(0.03)
            return req.exit(o["code"])
        elif cmd.name == ("stack", "output"):
            req.out(gojson({k: "[secret]" if s and not cmd.flags.get("show-secrets") else v for k, (v, s) in o["outputs"].items()}))
        elif cmd.name == ("stack", "history"):
            h = [entry(o["entry"])] + ([entry(dict(o["entry"], version=100, message="older"))] if o["older"] else [])
            n, p = cmd.flags.get("page-size", len(h)), cmd.flags.get("page", 1)
            req.out(gojson(h[(p - 1) * n:p * n]))
        req.exit(0)

    c.start(handler)
    d = c.scratch()
    done, ran = [], []

    class Extended(auto.LocalWorkspace):
        def serialize_args_for_op(self, stack_name):
            return list(case["extra"])

        def post_command_callback(self, stack_name):
            done.append(stack_name)

    try:
        ws = Extended(work_dir=d, program=(lambda: ran.append("workspace")) if case["ws_program"] else None)
        stack = auto.Stack.select(case["stack"], ws)
        c.finish()
        for o in case["ops"]:
            cur["o"] = o
            c.start(handler)
            del done[:], ran[:]
            op, heard, told = o["op"], [], []
            kw = dict(o["options"])
            if o["show"] is not None:
                kw["show_secrets"] = o["show"]
            if o["inline"]:
                kw["program"] = lambda: ran.append("operation")
            if o["on_output"]:
                kw["on_output"] = told.append
            if o["listen"]:
                def listen(e):
                    if o["slow"]:
                        time.sleep(o["slow"])
                    heard.append(e)
                kw["on_event"] = listen
            given = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
            err = res = None
            try:
                res = getattr(stack, op)(**kw)
            except auto.CommandError as e:
                err = e
            n_heard = len(heard)
            c.finish()
            what = f"{op} of {case['stack']}"
            if kw != given:
                fail(f"{what} changed the caller's options to {kw}")
            if (err is not None) != (o["code"] != 0):
                fail(f"{what} raised {err!r}; the tool exited with {o['code']}")
            # the command line
            mine = [r for r in c.requests if r.cmd.name == (op,)]
            if len(mine) != 1:
                fail(f"{what} ran the tool {len(mine)} times: {[r.argv for r in c.requests]}")
            inline = case["ws_program"] or o["inline"]
            want = {"stack": case["stack"], "non-interactive": True, "exec-kind": "auto.inline" if inline else "auto.local"}
            if op != "preview":
                want.update({"yes": True, "skip-preview": True})
            for k, v in o["options"].items():
                f = OPTIONS[k][0] or {"up": "plan", "preview": "save-plan"}[op]
                if v or (k == "plan"):
                    want[f] = v
            if case["extra"]:
                want[case["extra"][0][2:]] = case["extra"][1] if len(case["extra"]) > 1 else True
            got = dict(mine[0].cmd.flags)
            log = got.pop("event-log", None)
            client = got.pop("client", None)
            if (client is not None) != (bool(inline) and op in ("up", "preview")):
                fail(f"{what}: inline {inline} but --client {client}")
            if ran != (["operation" if o["inline"] else "workspace"] if client else []):
                fail(f"{what}: ran the programs {ran}; the operation has {'one' if o['inline'] else 'none'}, the workspace {'one' if case['ws_program'] else 'none'}")
            if got != want or mine[0].cmd.args:
                fail(f"{what} with options {o['options']} ran {mine[0].argv}", f"flags {got}", f"expected {want}")
            if log is None and o["listen"]:
                fail(f"{what}: events were asked for, but not logged")
            if log and os.path.exists(log):
                fail(f"{what} left {log}")
            # the events
            if o["listen"]:
                if n_heard != len(o["events"]):
                    fail(f"{what} delivered {n_heard} of {len(o['events'])} events before it returned (log written as {[(len(b), p) for b, p in chunks(o)]})")
                for g, w in zip(heard, o["events"]):
                    ev.check_event(g, w)
            # the result
            out = "\n".join(x.rstrip() for x in o["out"])
            if o["on_output"] and told != [x.rstrip() for x in o["out"]]:
                fail(f"{what}: on_output was called with {told}")
            r = res or err
            if err is not None:
                if out not in str(err) or o["err"] not in str(err):
                    fail(f"{what}: the error {err} lacks the output {out!r} or {o['err']!r}")
                continue
            if res.stdout != out or res.stderr != o["err"]:
                fail(f"{what} returned stdout {res.stdout!r} and stderr {res.stderr!r}, the tool wrote {out!r} and {o['err']!r}")
            if op == "preview":
                want_c = next(e for e in o["events"] if "summaryEvent" in e)["summaryEvent"]["resourceChanges"]
                if {getattr(k, "value", k): v for k, v in res.change_summary.items()} != want_c or not all(res.change_summary.get(events.OpType(k)) == v for k, v in want_c.items()):
                    fail(f"{what}: change summary {res.change_summary}, the engine reported {want_c}")
                if done != [case["stack"]] or len(c.requests) != 1:
                    fail(f"{what}: ran {[r.argv for r in c.requests]}, hooks {done}")
                continue
            s, w = res.summary, o["entry"]
            for k, x in (("kind", "kind"), ("message", "message"), ("environment", "environment"), ("result", "result"), ("version", "version"), ("resourceChanges", "resource_changes")):
                if not same(getattr(s, x), w[k]):
                    fail(f"{what}: summary {x} is {getattr(s, x)!r}, the history says {w[k]!r}")
            if set(s.config) != set(w["config"]):
                fail(f"{what}: summary config {s.config}")
            for r in c.requests:
                if r.cmd.name == ("stack", "history") and (r.cmd.flags.get("show-secrets", False) != (o["show"] is not False) or r.cmd.flags.get("stack") != case["stack"]):
                    fail(f"{what} with show_secrets={o['show']} ran {r.argv}")
            if op == "up":
                got = {k: (v.value, v.secret) for k, v in res.outputs.items()}
                if not same(got, {k: tuple(v) for k, v in o["outputs"].items()}):
                    fail(f"{what}: outputs {got}, the stack has {o['outputs']}")
            if o["listen"] and len([1 for _, p in chunks(o)]) > 1 and o["events"]:
                rec.nontriv()
            rec.label("inline", bool(client))
            rec.label("no cancel event", o["listen"] and not any("cancelEvent" in e for e in o["events"]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def entry(e):
    return dict(e, startTime="2022-01-01T00:00:00.000Z", endTime="2022-01-01T00:00:01.000Z")


def run_inline(address, stack, dry):
    """the tool has the program run by the server at the address it was given"""
    import grpc
    from google.protobuf import empty_pb2
    from grpcengine import GrpcEngine
    from pulumi.runtime.proto import language_pb2, language_pb2_grpc
    if not address.startswith("127.0.0.1:"):
        fail(f"the program is served at {address}")
    eng = GrpcEngine("proj", stack)
    try:
        with grpc.insecure_channel(address) as ch:
            stub = language_pb2_grpc.LanguageRuntimeStub(ch)
            stub.GetPluginInfo(empty_pb2.Empty(), timeout=20, wait_for_ready=True)
            r = stub.Run(language_pb2.RunRequest(project="proj", stack=stack, pwd="/", program=".", args=[eng.engine], dryRun=dry, parallel=4, monitor_address=eng.monitor), timeout=20)
            if r.error or r.bail:
                fail(f"the program failed: {r.error}")
    finally:
        eng.close()


@part("operations", quick=400, thorough=16000, shards=8, batch=50, rule="successful operations whose event log is written in several pieces")
def operations():
    return cases(), run
