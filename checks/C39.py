"""C39 pulumi.log: generated logging programs against a recording engine, and standard error without one."""
import asyncio
import contextlib
import io

import engine
from harness import fail, part
from hypothesis import strategies as st

SEV = ["debug", "info", "warn", "error"]
text = st.one_of(st.sampled_from(["", "m", "two\nlines", "\r\n", "  ", "info: x", "%s {}", "\u00e9\U0001f600", "\0", "x" * 3000]), st.text(st.characters(exclude_categories=["Cs"]), max_size=8))


@st.composite
def cases(draw):
    pick = lambda xs: draw(st.sampled_from(xs))
    n = [0]
    ids = [0]
    budget = [draw(st.integers(2, 14))]

    def log(vis):
        ids[0] += 1
        r = pick(vis) if vis and draw(st.integers(0, 2)) else None
        return ["log", ids[0], pick(SEV), draw(text), r, draw(st.one_of(st.none(), st.integers(0, 3), st.integers(-2**31, 2**31 - 1))), draw(st.one_of(st.none(), st.booleans())),
                draw(st.booleans())]

    def stmts(vis, depth):
        vis = list(vis)
        out = []
        for _ in range(draw(st.integers(1, 4))):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            k = pick(["log", "log", "log", "new", "apply", "urn", "chain", "outs"])
            if k == "new":
                i = n[0]
                n[0] += 1
                out.append(["new", i, pick(["custom", "custom", "comp", "read", "remote"]), pick(vis) if vis and draw(st.booleans()) else None])
                vis.append(i)
            elif k in ("apply", "urn", "outs") and vis and depth > 0:
                out.append([k, pick(vis), stmts(vis, depth - 1)])
            elif k == "chain" and depth > 0:
                out.append(["chain", draw(st.integers(1, 4)), stmts(vis, depth - 1)])
            else:
                out.append(log(vis))
        return out

    return {"body": stmts([], 3), "schedule": draw(st.lists(st.integers(0, 5), max_size=12)), "dry": draw(st.booleans())}


@part("engine", quick=4000, thorough=60000, rule="at least two messages about resources, one logged before its resource's registration was answered")
def _engine():
    def run(case, rec):
        import pulumi
        from pulumi.runtime.proto import engine_pb2
        eng = engine.FakeEngine(["secrets", "resourceReferences", "outputValues"], dry_run=case["dry"])
        res, parents, kinds, want, early = {}, {}, {}, [], 0

        def urn(i):
            p = parents[i]
            t = f"pkg:mod:T{i}"
            chain = [t]
            while p is not None:
                chain.insert(0, f"pkg:mod:T{p}")
                p = parents[p]
            return f"urn:pulumi:stk::proj::{'$'.join(chain)}::r{i}"

        class Mark(Exception):
            pass

        def go(stmts):
            nonlocal early
            for s in stmts:
                if s[0] == "new":
                    _, i, kind, parent = s
                    parents[i], kinds[i] = parent, kind
                    o = pulumi.ResourceOptions(parent=None if parent is None else res[parent], id="some-id" if kind == "read" else None)
                    if kind in ("comp", "remote"):
                        res[i] = pulumi.ComponentResource(f"pkg:mod:T{i}", f"r{i}", {"p": i}, o, kind == "remote")
                    else:
                        res[i] = pulumi.CustomResource(f"pkg:mod:T{i}", f"r{i}", {"p": i}, o)
                elif s[0] == "log":
                    _, n, sev, msg, r, stream, eph, kw = s
                    msg = f"#{n}#{msg}"
                    f = getattr(pulumi.log, sev)
                    entry = (n, getattr(engine_pb2, {"warn": "WARNING"}.get(sev, sev.upper())), msg, "" if r is None else urn(r), stream or 0, bool(eph), r)
                    want.append(entry)
                    before = len(mine(eng))
                    if kw:
                        f(msg, **({} if r is None else {"resource": res[r]}), **({} if stream is None else {"stream_id": stream}), **({} if eph is None else {"ephemeral": eph}))
                    elif eph is not None:
                        f(msg, None if r is None else res[r], stream, eph)
                    elif stream is not None:
                        f(msg, None if r is None else res[r], stream)
                    elif r is not None:
                        f(msg, res[r])
                    else:
                        f(msg)
                    if r is None:
                        now = mine(eng)
                        if len(now) != before + 1 or now[-1].message != msg:
                            fail(f"the message {msg!r} about no resource was not sent when it was logged")
                    elif not any(k in ("register", "read") and q.name == f"r{r}" for k, q in eng.log):
                        early += 1
                elif s[0] == "chain":
                    link(s[1], s[2])
                elif s[0] == "outs":
                    # once what the resource's own function returns is known
                    res[s[1]].urn.apply(lambda u: pulumi.Output.from_input(later(u))).apply(lambda _, body=s[2]: go(body))
                elif s[0] == "urn":
                    res[s[1]].urn.apply(lambda _, body=s[2]: go(body))
                else:
                    pulumi.Output.all(res[s[1]].urn, 1).apply(lambda _, body=s[2]: go(body))

        def link(k, body):
            if k == 0:
                go(body)
            else:
                pulumi.Output.from_input(k).apply(lambda k: link(k - 1, body))

        async def later(u):
            for _ in range(3):
                await asyncio.sleep(0)
            return u

        seen = {}

        async def after(err):
            seen["n"] = len(eng.logs)
            for _ in range(20):
                await asyncio.sleep(0)

        err, _ = engine.run_program(eng, lambda: go(case["body"]), case["schedule"], after=after)
        if err is not None:
            fail(f"the program failed: {type(err).__name__}: {err}")
        got = mine(eng)
        if len(mine(eng, seen["n"])) != len(got):
            fail("a message was delivered after the program had ended")
        gots = {}
        for q in got:
            n = int(q.message.split("#")[1])
            if n in gots:
                fail(f"message {n} was sent twice")
            gots[n] = (n, q.severity, q.message, q.urn, q.streamId, q.ephemeral)
        for w in want:
            if w[0] not in gots:
                fail(f"message {w[:6]} was never sent")
            if gots[w[0]] != w[:6]:
                fail(f"message sent as {gots[w[0]]}", f"expected {w[:6]}")
        if len(gots) != len(want):
            fail(f"{len(gots)} messages sent, {len(want)} logged")
        for r in set(w[6] for w in want):
            a = [w[0] for w in want if w[6] == r]
            b = [int(q.message.split("#")[1]) for q in got if int(q.message.split("#")[1]) in a]
            if a != b:
                fail(f"messages about {'no resource' if r is None else 'resource %d' % r} logged in the order {a} were sent in the order {b}")
        if early:
            rec.label("logged before registration")
        if early and len([w for w in want if w[6] is not None]) >= 2:
            rec.nontriv()

    return cases(), run


def mine(eng, upto=None):
    return [q for q in eng.logs[:upto] if q.message.startswith("#")]


@part("stderr", quick=1500, thorough=20000, rule="messages of at least two severities")
def _stderr():
    strat = st.lists(st.tuples(st.sampled_from(SEV), text, st.booleans(), st.one_of(st.none(), st.integers(0, 4)), st.one_of(st.none(), st.booleans())).map(list), max_size=8)

    def run(case, rec):
        def go():
            import pulumi
            from pulumi.runtime import settings
            engine.configure(engine.FakeEngine())
            settings.configure(settings.Settings(project="proj", stack="stk"))
            r = pulumi.resource.DependencyResource("urn:pulumi:stk::proj::a:b:C::d") if any(c[2] for c in case) else None
            err, out = io.StringIO(), io.StringIO()
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
                for sev, msg, res, stream, eph in case:
                    getattr(pulumi.log, sev)(msg, r if res else None, stream, eph)
            want = "".join({"info": "info: ", "warn": "warning: ", "error": "error: "}[s] + m + "\n" for s, m, *_ in case if s != "debug")
            if err.getvalue() != want:
                fail(f"standard error got {err.getvalue()!r}", f"expected {want!r}")
            if out.getvalue():
                fail(f"standard output got {out.getvalue()!r}")
            if len({c[0] for c in case}) > 1:
                rec.nontriv()

        async def main():
            engine.in_context(go)

        engine.run_loop(main)

    return strat, run
