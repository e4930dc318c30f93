"""C42 a provider process serves what its author wrote."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from grpcengine import BIG, GrpcEngine
from harness import REPO, fail, part, same
from hypothesis import strategies as st

PROGRAM = r'''
import json, os, sys
import pulumi
from pulumi.provider import CallResult, CheckFailure, ConstructResult, Provider, main
SPEC = json.load(open(os.environ["VERIF_SPEC"]))
class Die(Exception):
    pass
def do(name, inputs, options):
    r = next(r for r in SPEC["reqs"] if r.get("name") == name)
    if r["log"]:
        pulumi.log.info("about " + name)
    if r["end"] == "raise":
        raise Die(r["msg"])
    out = dict(inputs, grown="g" * SPEC["size"]) if r["end"] == "grow" else dict(inputs)
    if r["end"] == "child":
        kid = pulumi.CustomResource("t:m:R", name + "-kid", {"v": 1}, options)
        out["kid"] = kid.urn
    return r, out
class Base(Provider):
    def __init__(self):
        super().__init__(SPEC["version"], SPEC["schema"]) if SPEC["schema"] is not None else super().__init__(SPEC["version"])
class Construct(Base):
    def construct(self, name, resource_type, inputs, options=None):
        class Comp(pulumi.ComponentResource):
            def __init__(self):
                super().__init__(resource_type, name, {}, options)
        c = Comp()
        r, out = do(name, inputs, pulumi.ResourceOptions(parent=c))
        return ConstructResult(c.urn, out)
class Call(Base):
    def call(self, token, args):
        r, out = do(token, args, None)
        return CallResult(out, [CheckFailure(p, w) for p, w in r["failures"]] if r["failures"] else None)
class Both(Construct, Call):
    pass
main({"": Base, "construct": Construct, "call": Call, "both": Both}[SPEC["does"]](), sys.argv[1:])
'''
texts = st.sampled_from(["v", "", "é", "two\nlines", "{x}"])
values = st.recursive(st.one_of(texts, st.booleans(), st.sampled_from([0, 1, -2.5, 1e300])), lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(["a", "snake_case", "camelCase", "é"]), x, max_size=3)), max_leaves=6)


@st.composite
def request(draw, i):
    kind = draw(st.sampled_from(["info", "schema", "schema", "configure", "construct", "construct", "call", "call"]))
    r = {"kind": kind}
    if kind == "schema":
        r["version"] = draw(st.sampled_from([0, 0, 1, 7]))
    if kind in ("construct", "call"):
        r.update(name="t:m:M%d" % i if kind == "call" else "c%d" % i, inputs=draw(st.dictionaries(st.sampled_from(["a", "b", "snake_case", "camelCase", "資"]), values, max_size=3)), log=draw(st.booleans()),
                 end=draw(st.sampled_from(["ok", "ok", "child", "raise", "grow"])), msg=draw(st.sampled_from(["boom", "é: 100%"])), size=BIG if draw(st.integers(0, 4)) == 0 else 0, dry=draw(st.booleans()),
                 failures=draw(st.lists(st.tuples(st.sampled_from(["a", "é"]), st.sampled_from(["bad", ""])), max_size=2)) if kind == "call" else [])
    return r


@st.composite
def cases(draw):
    return {"version": draw(st.sampled_from(["1.2.3", "0.0.1-alpha.1+b", ""])), "schema": draw(st.sampled_from([None, "", "{}", '{"name": "é"}', "big"])), "does": draw(st.sampled_from(["both", "both", "both", "", "construct", "call"])),
            "flags": draw(st.lists(st.sampled_from(["--logflow", "--logtostderr", "-v=9", "--tracing=x"]), max_size=2, unique=True)), "first": draw(st.booleans()), "reqs": [draw(request(i)) for i in range(draw(st.integers(1, 6)))]}


def run(case, rec):
    import grpc
    from google.protobuf import empty_pb2, json_format, struct_pb2
    from pulumi.runtime.proto import provider_pb2, provider_pb2_grpc

    base = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH") or None)
    eng = GrpcEngine("p", "s")
    schema = '{"name": "%s"}' % ("x" * BIG) if case["schema"] == "big" else case["schema"]
    proc = None
    try:
        spec = os.path.join(base, "spec.json")
        with open(spec, "w") as f:
            json.dump(dict(case, schema=schema, size=BIG), f)
        with open(os.path.join(base, "__main__.py"), "w") as f:
            f.write(PROGRAM)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI_")}
        env.update(PYTHONPATH=os.path.join(REPO, "sdk/python/lib"), VERIF_SPEC=spec, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
        errs = open(os.path.join(base, "stderr"), "w+b")
        proc = subprocess.Popen([sys.executable, base] + (case["flags"] + [eng.engine] if case["first"] else [eng.engine] + case["flags"]), cwd=base, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=errs)
        line = proc.stdout.readline()

        def stderr():
            errs.seek(0)
            return errs.read()[-800:].decode("utf-8", "replace")
        if not line.strip().isdigit() or not line.endswith(b"\n"):
            fail(f"the provider announced {line!r} as its port; stderr {stderr()}")
        logged = []
        with grpc.insecure_channel("127.0.0.1:%d" % int(line), options=[("grpc.max_receive_message_length", -1), ("grpc.max_send_message_length", -1)]) as ch:
            stub = provider_pb2_grpc.ResourceProviderStub(ch)
            for i, r in enumerate(case["reqs"]):
                what = f"request {i} ({r['kind']} of a provider that implements {case['does'] or 'nothing'})"

                def ask(method, req):
                    try:
                        return getattr(stub, method)(req, timeout=40), None
                    except grpc.RpcError as e:
                        return None, f"{e.code().name}: {e.details()}"
                if r["kind"] == "info":
                    got, err = ask("GetPluginInfo", empty_pb2.Empty())
                    if err or got.version != case["version"]:
                        fail(f"{what}: {got} {err}, the version is {case['version']!r}")
                elif r["kind"] == "schema":
                    got, err = ask("GetSchema", provider_pb2.GetSchemaRequest(version=r["version"]))
                    if r["version"]:
                        if not err or str(r["version"]) not in err:
                            fail(f"{what}: schema version {r['version']} is unknown, the answer is {err!r}")
                    elif err or got.schema != (schema or "{}"):
                        fail(f"{what}: {str(got)[:200]} {err}, the schema is {str(schema)[:200]!r}")
                elif r["kind"] == "configure":
                    got, err = ask("Configure", provider_pb2.ConfigureRequest(variables={"a": "b"}))
                    if err or not (got.acceptSecrets and got.acceptResources and got.acceptOutputs):
                        fail(f"{what}: {got} {err}")
                else:
                    s = struct_pb2.Struct()
                    s.update(dict(r["inputs"], **({"large": "x" * r["size"]} if r["size"] else {})))
                    common = dict(project="p", stack="s", dryRun=r["dry"], parallel=4, monitorEndpoint=eng.monitor)
                    if r["kind"] == "construct":
                        got, err = ask("Construct", provider_pb2.ConstructRequest(type="t:m:C", name=r["name"], inputs=s, **common))
                    else:
                        got, err = ask("Call", provider_pb2.CallRequest(tok=r["name"], args=s, **common))
                    if case["does"] not in ("both", r["kind"]):
                        if not err or ("construct" if r["kind"] == "construct" else r["name"]) not in err:
                            fail(f"{what}: {str(got)[:200]} {err}")
                        continue
                    if r["log"]:
                        logged.append("about " + r["name"])
                    if r["end"] == "raise":
                        if not err or r["msg"] not in err:
                            fail(f"{what}: it raises {r['msg']!r}, the answer is {str(got)[:200]} {err}")
                        continue
                    if err:
                        fail(f"{what}: answered with {err}; stderr {stderr()}")
                    want = json_format.MessageToDict(s)
                    if r["end"] == "grow":
                        want["grown"] = "g" * BIG
                    kids = [x for x in eng.of("register") if x.name == r["name"] + "-kid"]
                    if r["end"] == "child":
                        want["kid"] = "urn:pulumi:s::p::%st:m:R::%s-kid" % ("t:m:C$" if r["kind"] == "construct" else "", r["name"])
                        if len(kids) != 1:
                            fail(f"{what}: registered {len(kids)} children")
                    ret = json_format.MessageToDict(got.state if r["kind"] == "construct" else getattr(got, "return"))
                    if ret != want or not same(sorted(ret), sorted(want)):
                        fail(f"{what}: returned {str(ret)[:300]}, expected {str(want)[:300]}")
                    if r["kind"] == "construct" and got.urn != "urn:pulumi:s::p::t:m:C::" + r["name"]:
                        fail(f"{what}: answered with the URN {got.urn}")
                    if r["kind"] == "call" and [(x.property, x.reason) for x in got.failures] != [tuple(x) for x in r["failures"]]:
                        fail(f"{what}: failures {got.failures}, expected {r['failures']}")
        if proc.poll() is not None:
            fail(f"the provider ended with {proc.poll()}; stderr {stderr()}")
        infos = [m for s, m in eng.logs() if s == "info"]
        if infos != logged:
            fail(f"the provider logged {logged}, the engine was told {infos}")
        proc.kill()
        rest, _ = proc.communicate()
        if rest:
            fail(f"the provider wrote {rest!r} after its port")
        if len(case["reqs"]) > 1:
            rec.nontriv()
        rec.label("a big message", any(r.get("size") or r.get("end") == "grow" for r in case["reqs"]) or case["schema"] == "big")
        rec.label("an error", any(r.get("end") == "raise" for r in case["reqs"]))
    finally:
        if proc:
            proc.kill()
            proc.wait()
            proc.stdout.close()
            errs.close()
        eng.close()
        shutil.rmtree(base, ignore_errors=True)


@part("process", quick=160, thorough=5000, shards=8, batch=20, rule="histories of at least two requests")
def process():
    return cases(), run
