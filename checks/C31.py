"""C31 CLI failures become the right error with full detail."""
from cli import cli, gojson, read_command
from harness import fail, part
from hypothesis import strategies as st

# what the tool says, per kind: (stream, text)
SAYS = {
    "StackNotFoundError": [("err", "error: no stack named 'dev' found"), ("err", "no stack named org/proj/dev found"), ("err", "error: no stack named 'a b' could be found")],
    "StackAlreadyExistsError": [("err", "error: stack 'dev' already exists"), ("err", "stack already exists"), ("err", "error: stack 'org/p/x' (prod) already exists, choose another")],
    "ConcurrentUpdateError": [("err", "error: [409] Conflict: Another update is currently in progress."), ("err", "[409] Conflict: Another update is currently in progress. To learn more")],
    "CompilationError": [("out", "Build FAILED."), ("out", "    Unable to compile TypeScript:"), ("out", "main.go:3:1: syntax error: unexpected"), ("out", "./main.go:9:2: undefined: foo"), ("out", "# x\nBuild FAILED.\n1 Error")],
    "InlineSourceRuntimeError": [("out", "    python inline source runtime error: boom"), ("out", "error: python inline source runtime error")],
    "RuntimeError": [("out", "failed with an unhandled exception:"), ("out", "panic: runtime error: index out of range"), ("out", "error: an unhandled error occurred: Program exited")],
}
NEAR = ["no stack named", "found", "stack", "already", "exists", "[409] Conflict: Another update", "is currently in progress.", "Build", "FAILED", "Unable to compile", "TypeScript", ": syntax", "error:", ": undefined",
        "panic:", "runtime error", "python inline source", "an unhandled", "unhandled exception", "No Stack Named 'x' Found", "STACK already EXISTS", "build failed.", "no stack named 'x'\nwas found elsewhere", "already exists a stack", "409", "an unhandled error occurred"]


def kinds(out, err):
    """the kinds the texts allow: the recognised messages and the stream each is reported on"""
    ks = set()
    for line in err.split("\n"):
        i = line.find("no stack named")
        if i >= 0 and "found" in line[i + 14:]:
            ks.add("StackNotFoundError")
        i = line.find("stack")
        if i >= 0 and "already exists" in line[i + 5:]:
            ks.add("StackAlreadyExistsError")
    if "[409] Conflict: Another update is currently in progress." in err:
        ks.add("ConcurrentUpdateError")
    if any(m in out for m in ("Unable to compile TypeScript", ": syntax error:", ": undefined:")) or any(out[i:i + 12].startswith("Build FAILED") and len(out) > i + 12 and out[i + 12] != "\n" for i in range(len(out))):
        ks.add("CompilationError")
    if "python inline source runtime error" in out:
        ks.add("InlineSourceRuntimeError")
    if any(m in out for m in ("failed with an unhandled exception", "panic: runtime error", "an unhandled error occurred:")):
        ks.add("RuntimeError")
    return ks or {"CommandError"}


words = st.one_of(st.sampled_from(["ok", "Updating (dev)", " + resource", "é ü", "日本", "tab\there", "", " ", "x" * 50, "a\rb", "{\"k\": 1}", "%s", "\U0001f600", "error: boom", "[secret]"]), st.text(st.characters(exclude_categories=["Cs"]), max_size=6))


@st.composite
def stream(draw, name):
    bits = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 9))
        if k == 0:
            bits.append(draw(st.sampled_from([t for v in SAYS.values() for s, t in v if s == name])))
        elif k == 1:
            bits.append(draw(st.sampled_from([t for v in SAYS.values() for s, t in v if s != name])))  # the other stream's message
        elif k == 2:
            bits.append(draw(st.sampled_from(NEAR)))
        else:
            bits.append(draw(words))
        bits.append(draw(st.sampled_from(["\n", "\n", "\n", "", "\r\n", " \n", "\n\n", "  "])))
    return "".join(bits)


@st.composite
def cases(draw):
    out, err = draw(stream("out")), draw(stream("err"))
    n, m = len(out.encode()), len(err.encode())
    cuts = lambda k: sorted(draw(st.lists(st.integers(0, k), max_size=4))) if k else []
    return {"out": out, "err": err, "cuts": [cuts(n), cuts(m)], "order": draw(st.lists(st.booleans(), max_size=8)), "code": draw(st.sampled_from([0, 0, 1, 1, 2, 255, 127, 137, -9, -15])),
            "op": draw(st.sampled_from(["refresh", "refresh", "destroy", "select", "set", "cancel", "create", "rm", "ls", "config"])), "bulk": draw(st.sampled_from([0] * 12 + [4000])), "cb": draw(st.booleans()),
            "close": draw(st.integers(0, 9)) == 0}


def pieces(b, cuts):
    at = [0] + cuts + [len(b)]
    return [b[i:j] for i, j in zip(at, at[1:]) if i < j]


def run(case, rec):
    import pulumi.automation as auto

    c = cli()
    bulk = "".join("line %d of many, with some text to fill the pipe\n" % i for i in range(case["bulk"]))
    out, err = case["out"] + ("\n" if bulk else "") + bulk, case["err"] + bulk
    state = {"main": 0, "armed": False}
    op, code = case["op"], case["code"]
    MAIN = {"refresh": ("refresh",), "destroy": ("destroy",), "select": ("stack", "select"), "set": ("config", "set"), "cancel": ("cancel",), "create": ("stack", "init"), "rm": ("stack", "rm"), "ls": ("stack", "ls"), "config": ("config", "get")}[op]
    if code == 0 and op in ("ls", "config"):  # the result is read from the output
        out = {"ls": "[]\n", "config": gojson({"value": "x", "secret": False})}[op]

    def handler(req):
        cmd = read_command(req)
        if cmd.name == MAIN and state["armed"]:
            state["main"] += 1
            o, e = pieces(out.encode(), [x for x in case["cuts"][0]]), pieces(err.encode(), case["cuts"][1])
            for first in case["order"]:
                if first and o:
                    req.out(o.pop(0))
                elif e:
                    req.err(e.pop(0))
            for x in o:
                req.out(x)
            if case["close"]:
                req.close_stdout()
                req.wait(0.02)
            for x in e:
                req.err(x)
            if code < 0:
                req.kill(-code)
            else:
                req.exit(code)
            return
        if cmd.name == ("version",):
            req.out("v3.40.0\n")
        elif cmd.name == ("stack", "history"):
            req.out(gojson([{"version": 1, "kind": "refresh", "startTime": "2022-01-01T00:00:00.000Z", "message": "", "environment": {}, "config": {}, "result": "succeeded", "endTime": "2022-01-01T00:00:01.000Z"}]))
        req.exit(0)

    c.start(handler)
    ws = auto.LocalWorkspace(work_dir=c.dir)
    stack = auto.Stack.select("dev", ws)
    state["armed"] = True
    seen = []
    cb = seen.append if case["cb"] else None
    res = exc = None
    try:
        if op == "refresh":
            res = stack.refresh(on_output=cb)
        elif op == "destroy":
            res = stack.destroy(on_output=cb)
        elif op == "select":
            ws.select_stack("dev")
        elif op == "set":
            ws.set_config("dev", "k", auto.ConfigValue("v"))
        elif op == "cancel":
            stack.cancel()
        elif op == "create":
            ws.create_stack("new")
        elif op == "rm":
            ws.remove_stack("dev")
        elif op == "ls":
            ws.list_stacks()
        elif op == "config":
            ws.get_config("dev", "k")
    except auto.CommandError as e:
        exc = e
    c.finish()
    if state["main"] != 1:
        fail(f"the command ran {state['main']} times")
    text = out
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    lines = [x.rstrip() for x in lines]
    if code == 0:
        if exc is not None:
            fail(f"a command that exited with 0 raised {exc!r}")
        if res is not None:
            if res.stderr != err:
                fail(f"standard error was {short(err)}, the result has {short(res.stderr)}")
            if [x.rstrip() for x in res.stdout.split("\n")] != (lines or [""]):
                fail(f"standard output was {short(out)}, the result has {short(res.stdout)}")
    else:
        if exc is None:
            fail(f"a command that exited with {code} did not raise")
        want = kinds("\n".join(lines), err)
        if type(exc).__name__ not in want:
            fail(f"standard output {short(out)}, standard error {short(err)}: raised {type(exc).__name__}, expected {sorted(want)}")
        msg = str(exc)
        if str(code) not in msg or err not in msg or "\n".join(lines) not in "\n".join(x.rstrip() for x in msg.split("\n")):
            fail(f"the error does not carry exit code {code}, standard output {short(out)} and standard error {short(err)}", short(msg))
        rec.label(type(exc).__name__)
    if case["cb"] and op in ("refresh", "destroy") and [x.rstrip() for x in seen] != lines:
        fail(f"standard output was {short(out)}, the callback was given {short(repr(seen))}")
    if (code != 0 and kinds(out, err) != {"CommandError"}) or (code == 0 and kinds(out, err) != {"CommandError"}) or (len(lines) > 1 and any(case["cuts"])):
        rec.nontriv()


def short(x):
    x = repr(x) if not x.startswith("'") else x
    return x if len(x) < 400 else x[:200] + "..." + x[-200:]


@part("command", quick=900, thorough=30000, shards=8, batch=120, rule="failures with a recognised message, successes printing one, or output of several lines in several writes")
def command():
    return cases(), run
