"""A recording engine reached over loopback gRPC: resource monitor and engine services at two addresses."""
import itertools
import os
import threading
import time
from concurrent import futures

import grpc
from google.protobuf import empty_pb2, json_format, struct_pb2

CODES = [c.name for c in grpc.StatusCode if c.name not in ("OK", "UNAVAILABLE")]
_N = itertools.count()


def fresh_host():
    """an address of its own for every server of every process: a request still under way when its server stops must not
    reach another server that was given the same port"""
    n, pid = next(_N), os.getpid()
    return "127.%d.%d.%d" % (1 + pid // 250 % 250, 1 + pid % 250, 1 + n % 250)


BIG = 5 << 20  # more than the size of a message gRPC takes when not told otherwise

SEVERITY = ["debug", "info", "warning", "error"]


class GrpcEngine:
    """faults: {("register" | "outputs" | "invoke" | "read", name): (code, details)}; delay: {name: seconds}."""

    def __init__(self, project="p", stack="s", faults=None, delay=None, features=("secrets", "resourceReferences", "outputValues")):
        from pulumi.runtime.proto import engine_pb2, engine_pb2_grpc, provider_pb2, resource_pb2, resource_pb2_grpc
        self.project, self.stack, self.faults, self.delay, self.features = project, stack, faults or {}, delay or {}, features
        self.lock = threading.Lock()
        self.calls = []
        self.ids = {}  # of the resources that can be looked up
        self.refused = []
        me = self

        def note(kind, req, context, name):
            with me.lock:
                me.calls.append((kind, req))
            if name in me.delay:
                time.sleep(me.delay[name])
            f = me.faults.get((kind, name))
            if f:
                with me.lock:
                    me.refused.append((kind, name))
                context.abort(getattr(grpc.StatusCode, f[0]), f[1])

        class Monitor(resource_pb2_grpc.ResourceMonitorServicer):
            def SupportsFeature(self, req, context):
                note("feature", req, context, req.id)
                return resource_pb2.SupportsFeatureResponse(hasSupport=req.id in me.features)

            def RegisterResource(self, req, context):
                note("register", req, context, req.name)
                return resource_pb2.RegisterResourceResponse(urn=me.urn(req.type, req.name, req.parent), id=(req.importId or req.name + "_id") if req.custom else "", object=req.object)

            def RegisterResourceOutputs(self, req, context):
                note("outputs", req, context, req.urn.split("::")[-1])
                return empty_pb2.Empty()

            def ReadResource(self, req, context):
                note("read", req, context, req.name)
                return resource_pb2.ReadResourceResponse(urn=me.urn(req.type, req.name, req.parent), properties=req.properties)

            def Invoke(self, req, context):
                note("invoke", req, context, req.tok)
                if req.tok == "pulumi:pulumi:getResource":
                    urn = req.args["urn"]
                    r = provider_pb2.InvokeResponse()
                    getattr(r, "return").update({"urn": urn, "id": me.ids.get(urn, "found"), "state": {}})
                    return r
                return provider_pb2.InvokeResponse(**{"return": req.args})

        class Engine(engine_pb2_grpc.EngineServicer):
            def Log(self, req, context):
                note("log", req, context, None)
                return empty_pb2.Empty()

        def serve(add, servicer):
            s = grpc.server(futures.ThreadPoolExecutor(max_workers=16), options=[("grpc.so_reuseport", 0), ("grpc.max_receive_message_length", -1)])
            add(servicer, s)
            host = fresh_host()
            port = s.add_insecure_port(host + ":0")
            s.start()
            return s, "%s:%d" % (host, port)

        self.mserver, self.monitor = serve(resource_pb2_grpc.add_ResourceMonitorServicer_to_server, Monitor())
        self.eserver, self.engine = serve(engine_pb2_grpc.add_EngineServicer_to_server, Engine())

    def urn(self, type_, name, parent):
        chain = type_
        if parent:
            t = parent.split("::")[2]
            if t != "pulumi:pulumi:Stack":
                chain = t + "$" + type_
        return f"urn:pulumi:{self.stack}::{self.project}::{chain}::{name}"

    def of(self, kind):
        with self.lock:
            return [r for k, r in self.calls if k == kind]

    def logs(self):
        """(severity, message) of everything but debug messages"""
        return [(SEVERITY[r.severity], r.message) for r in self.of("log") if r.severity]

    def stack_outputs(self):
        """the outputs of the stack, None if it had none registered"""
        out = [json_format.MessageToDict(r.outputs) for r in self.of("outputs") if "::pulumi:pulumi:Stack::" in r.urn]
        return out

    def close(self):
        self.mserver.stop(None)
        self.eserver.stop(None)
