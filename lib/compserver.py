"""A component provider served over loopback gRPC inside the worker process."""
import asyncio
import threading

import grpc
import grpc.aio

from grpcengine import fresh_host

_LOOP = []


def loop():
    """one event loop per worker, on a thread of its own"""
    if not _LOOP:
        lp = asyncio.new_event_loop()
        lp.set_exception_handler(lambda l, c: None)
        t = threading.Thread(target=lp.run_forever, daemon=True)
        t.start()
        _LOOP.append(lp)
    return _LOOP[0]


class CompServer:
    def __init__(self, provider, engine_address):
        self.provider, self.engine = provider, engine_address

    def __enter__(self):
        from pulumi.provider.server import ProviderServicer
        from pulumi.runtime.proto import provider_pb2_grpc

        async def start():
            self.server = grpc.aio.server(options=[("grpc.so_reuseport", 0)])
            provider_pb2_grpc.add_ResourceProviderServicer_to_server(ProviderServicer(self.provider, [], self.engine), self.server)
            host = fresh_host()
            port = self.server.add_insecure_port(host + ":0")
            await self.server.start()
            return "%s:%d" % (host, port)

        target = asyncio.run_coroutine_threadsafe(start(), loop()).result(20)
        self.channel = grpc.insecure_channel(target)
        self.stub = provider_pb2_grpc.ResourceProviderStub(self.channel)
        return self

    def __exit__(self, *a):
        self.channel.close()

        async def stop():
            await self.server.stop(0)
        asyncio.run_coroutine_threadsafe(stop(), loop()).result(20)
