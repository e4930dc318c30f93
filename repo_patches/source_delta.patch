From 2522529dbb551f19d5da3cf1d1ab044dfe9f8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 01/74] fix: Output.from_input of an input type instance with
 no properties set

---
 sdk/python/lib/pulumi/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..63541ab 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -289,8 +289,9 @@ class Output(Generic[T_co]):
         if _types.is_input_type(typ):
             # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
             # via `type(**d)` from the (unwrapped) properties.
+            # An instance with no properties set has an empty `__dict__`, for which `all` produces an empty list.
             o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
-                lambda d: typ(**d)
+                lambda d: typ(**d) if d else typ()
             )
             return cast(Output[T_co], o_typ)
 
-- 
2.43.0


From 129b5dc6d3a0bdc3494f7f9bd86d6f41a84cb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 02/74] fix: accept a coroutine as the depends_on resource
 option

---
 sdk/python/lib/pulumi/resource.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..799537b 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -575,7 +575,13 @@ class ResourceOptions:
         self.transformations = transformations
         self.urn = urn
         self.replace_on_changes = replace_on_changes
-        self.depends_on = depends_on
+        # A coroutine can be awaited only once, but `depends_on` is read repeatedly: here, when merging options and when
+        # registering the resource. Turn it into a future, which can.
+        self.depends_on = (
+            asyncio.ensure_future(depends_on)
+            if asyncio.iscoroutine(depends_on)
+            else depends_on
+        )
         self.retain_on_delete = retain_on_delete
 
         # Proactively check that `depends_on` values are of type
-- 
2.43.0


From 4f1d5807391771acc49465319edf0c0a6edd7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 03/74] fix: children added to a component while its
 dependencies are being computed

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..720a457 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -800,7 +800,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Iterate over a copy, as awaiting a child lets other code (e.g. an `apply`) add more children to the set.
+        for child in set(res._childResources):
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From 9cecbdb2623e569c24ee7a647e6c25f8ab9bf0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 04/74] fix: deadlock when a remote component's input depends
 on its own parent component

---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 36 +++++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 720a457..adedccc 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..7f2c9f7 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,9 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param Optional[Resource] from_resource: The resource whose inputs are serialized, if any. The dependencies of kept
+           output values leave out those that would make this resource wait for itself.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +209,12 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v,
+            deps,
+            input_transformer,
+            get_type(k),
+            keep_output_values,
+            from_resource,
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +241,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -261,7 +271,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +375,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -394,7 +414,7 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(value_resources, from_resource)
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -423,7 +443,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -479,6 +504,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From 69d777d975d4cde6f2fa839d944af94cbca49369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 05/74] fix: serializing an output added dependencies to
 outputs sharing its resources

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 7f2c9f7..7e05a3c 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -385,7 +385,8 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        # Copy the set, which belongs to the output and may be shared with others, as it is added to below.
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From 89823664b0095c6e2d2ce3c8a36dfb0afa395e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 06/74] fix: hang when the outputs of a read resource cannot be
 resolved

---
 sdk/python/lib/pulumi/runtime/resource.py | 45 +++++++++++++++--------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index adedccc..b0042a9 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -285,14 +285,20 @@ def get_resource(
             is_known = bool(resp["id"])
             resolve_id(resp["id"], is_known, False, None)
 
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        # As in `register_resource`, fail the outputs if they cannot be resolved, so that nothing waits for them forever.
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -455,14 +461,21 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+
+        # As in `register_resource`, fail the outputs if they cannot be resolved, so that nothing waits for them forever.
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From 06b50826db3894b84b68c9be3de0e627b6a49176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 07/74] fix: an exception raised by an apply that nothing waits
 for was lost

---
 sdk/python/lib/pulumi/output.py              |  2 ++
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 37 ++++++++++++++++++++
 sdk/python/lib/pulumi/runtime/stack.py       | 10 +++++-
 3 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 63541ab..56b40a9 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -35,6 +35,7 @@ from typing import (
 from . import _types
 from . import runtime
 from .runtime import rpc
+from .runtime.rpc_manager import RPC_MANAGER
 
 if TYPE_CHECKING:
     from .resource import Resource
@@ -230,6 +231,7 @@ class Output(Generic[T_co]):
                     result_is_secret.set_result(False)
 
         run_fut = asyncio.ensure_future(run())
+        RPC_MANAGER.watch_output(run_fut)
         return Output(result_resources, run_fut, result_is_known, result_is_secret)
 
     def __getattr__(self, item: str) -> "Output[Any]":  # type: ignore
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..18a99bf 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -41,6 +41,16 @@ class RPCManager:
     The traceback associated with unhandled_exception, if any.
     """
 
+    output_exception: Optional[BaseException]
+    """
+    The first exception raised by an output of the running program, if any. Nothing else may be waiting for that output.
+    """
+
+    watching_outputs: bool
+    """
+    Whether a program is running, whose outputs are being watched.
+    """
+
     def __init__(self):
         self.clear()
 
@@ -80,11 +90,38 @@ class RPCManager:
 
         return rpc_wrapper
 
+    def watch_outputs(self) -> None:
+        """Starts watching the outputs the program creates."""
+        self.output_exception = None
+        self.watching_outputs = True
+
+    def unwatch_outputs(self) -> Optional[BaseException]:
+        """Stops watching outputs, and returns the first exception any of them ended with."""
+        exception = self.output_exception
+        self.output_exception = None
+        self.watching_outputs = False
+        return exception
+
+    def watch_output(self, future: asyncio.Future) -> None:
+        """
+        Remembers the exception `future`, which computes an output of the running program, ends with.
+        """
+
+        def done(fut: asyncio.Future) -> None:
+            if fut.cancelled() or self.output_exception is not None:
+                return
+            self.output_exception = fut.exception()
+
+        if self.watching_outputs:
+            future.add_done_callback(done)
+
     def clear(self) -> None:
         """Clears any tracked state."""
         self.rpcs = []
         self.exception_traceback = None
         self.unhandled_exception = None
+        self.output_exception = None
+        self.watching_outputs = False
 
 
 RPC_MANAGER: RPCManager = RPCManager()
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..33600f9 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -123,7 +123,15 @@ async def run_in_stack(func: Callable):
     will end up as output properties on the resulting stack component in the checkpoint file.  This
     is meant for internal runtime use only and is used by the Python SDK entrypoint program.
     """
-    await run_pulumi_func(lambda: Stack(func))
+    RPC_MANAGER.watch_outputs()
+    try:
+        await run_pulumi_func(lambda: Stack(func))
+    finally:
+        output_exception = RPC_MANAGER.unwatch_outputs()
+
+    # An output may have failed while other work was going on, with nothing waiting for it.
+    if output_exception is not None:
+        raise output_exception
 
 
 class Stack(ComponentResource):
-- 
2.43.0


From a9d5c309586a87c4fd86dbb8eb7dfe07f8c69a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 08/74] fix: a component's provider was inherited under the
 component's package instead of its own

---
 sdk/python/lib/pulumi/resource.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 799537b..e05b956 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -989,14 +989,17 @@ class Resource:
 
         provider = opts.provider or ambient_provider or parent_provider
 
-        if pkg and opts.provider:
-            if pkg in opts_providers:
-                message = f"There is a conflict between the `provider` field ({pkg}) and a member of the `providers` map"
+        if opts.provider:
+            # The package of the provider, which need not be the package of this resource (a component can be given a
+            # provider for its children).
+            provider_pkg = opts.provider.package
+            if provider_pkg in opts_providers:
+                message = f"There is a conflict between the `provider` field ({provider_pkg}) and a member of the `providers` map"
                 depreciation = "This will become an error by the end of July 2022. See https://github.com/pulumi/pulumi/issues/8799 for more details"
                 warnings.warn(f"{message} for resource {t}. " + depreciation)
                 log.warn(f"{message}. {depreciation}", resource=self)
             else:
-                opts_providers[pkg] = opts.provider
+                opts_providers[provider_pkg] = opts.provider
 
         # opts_providers takes priority over self._providers
         providers = {**self._providers, **opts_providers}
-- 
2.43.0


From 85e4d9275b5e5192f2abbe18b4f202b3a0ed3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 09/74] fix: the providers option of a remote component was
 dropped when one was for its own package

---
 sdk/python/lib/pulumi/runtime/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b0042a9..ba30f64 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -763,7 +763,7 @@ def convert_providers(
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
     if provider is not None:
-        return convert_providers(None, [provider])
+        return {**convert_providers(None, providers), provider.package: provider}
 
     if providers is None:
         return {}
-- 
2.43.0


From 7262768ee1edb6ff7dd85e96c60b494908dd1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 10/74] fix: inputs a remote component's reply leaves out
 resolved to an output inside the output

---
 sdk/python/lib/pulumi/runtime/rpc.py | 39 +++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 7e05a3c..3e8aa92 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -522,10 +522,14 @@ def deserialize_properties(
     props_struct: struct_pb2.Struct,
     keep_unknowns: Optional[bool] = None,
     keep_internal: Optional[bool] = None,
+    keep_outputs: bool = True,
 ) -> Any:
     """
     Deserializes a protobuf `struct_pb2.Struct` into a Python dictionary containing normal
     Python types.
+
+    If `keep_outputs` is False, output values are deserialized as the plain, secret or unknown values they hold instead
+    of as Outputs.
     """
     # Check out this link for details on what sort of types Protobuf is going to generate:
     # https://developers.google.com/protocol-buffers/docs/reference/python-generated
@@ -565,10 +569,14 @@ def deserialize_properties(
                 "Invalid archive encountered when unmarshalling resource property"
             )
         if props_struct[_special_sig_key] == _special_secret_sig:
-            return wrap_rpc_secret(deserialize_property(props_struct["value"]))
+            return wrap_rpc_secret(
+                deserialize_property(props_struct["value"], keep_outputs=keep_outputs)
+            )
         if props_struct[_special_sig_key] == _special_resource_sig:
             return deserialize_resource(props_struct, keep_unknowns)
         if props_struct[_special_sig_key] == _special_output_value_sig:
+            if not keep_outputs:
+                return _deserialize_held_value(props_struct, keep_unknowns)
             return deserialize_output_value(props_struct)
         raise AssertionError(
             "Unrecognized signature when unmarshalling resource property"
@@ -587,7 +595,7 @@ def deserialize_properties(
         if not keep_internal and k.startswith("__") and k != "__provider":
             continue
 
-        value = deserialize_property(v, keep_unknowns)
+        value = deserialize_property(v, keep_unknowns, keep_outputs)
         # We treat values that deserialize to "None" as if they don't exist.
         if value is not None:
             output[k] = value
@@ -660,6 +668,19 @@ def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
     return Output(resources, value_future, is_known_future, is_secret_future)
 
 
+def _deserialize_held_value(
+    ref_struct: struct_pb2.Struct, keep_unknowns: Optional[bool] = None
+) -> Any:
+    """
+    Deserializes the value an output value holds.
+    """
+    held = ref_struct["value"] if "value" in ref_struct else UNKNOWN
+    value = deserialize_property(held, keep_unknowns, False)
+    if "secret" in ref_struct and ref_struct["secret"] is True:
+        return value if is_rpc_secret(value) else wrap_rpc_secret(value)
+    return value
+
+
 def is_rpc_secret(value: Any) -> bool:
     """
     Returns if a given python value is actually a wrapped secret.
@@ -694,10 +715,12 @@ def unwrap_rpc_secret(value: Any) -> Any:
     return value
 
 
-def deserialize_property(value: Any, keep_unknowns: Optional[bool] = None) -> Any:
+def deserialize_property(
+    value: Any, keep_unknowns: Optional[bool] = None, keep_outputs: bool = True
+) -> Any:
     """
     Deserializes a single protobuf value (either `Struct` or `ListValue`) into idiomatic
-    Python values.
+    Python values. See `deserialize_properties` for `keep_outputs`.
     """
     from ..output import Unknown  # pylint: disable=import-outside-toplevel
 
@@ -707,7 +730,7 @@ def deserialize_property(value: Any, keep_unknowns: Optional[bool] = None) -> An
     # ListValues are projected to lists
     if isinstance(value, struct_pb2.ListValue):
         # values has no __iter__ defined but this works.
-        values = [deserialize_property(v, keep_unknowns) for v in value]  # type: ignore
+        values = [deserialize_property(v, keep_unknowns, keep_outputs) for v in value]  # type: ignore
         # If there are any secret values in the list, push the secretness "up" a level by returning
         # an array that is marked as a secret with raw values inside.
         if any(is_rpc_secret(v) for v in values):
@@ -717,7 +740,7 @@ def deserialize_property(value: Any, keep_unknowns: Optional[bool] = None) -> An
 
     # Structs are projected to dictionaries
     if isinstance(value, struct_pb2.Struct):
-        props = deserialize_properties(value, keep_unknowns)
+        props = deserialize_properties(value, keep_unknowns, keep_outputs=keep_outputs)
         # If there are any secret values in the dictionary, push the secretness "up" a level by returning
         # a dictionary that is marked as a secret with raw values inside. Note: the isinstance check here is
         # important, since deserialize_properties will return either a dictionary or a concret type (in the case of
@@ -1074,7 +1097,9 @@ def resolve_outputs(
                 # input prop the engine didn't give us a final value for.Just use the value passed into the resource by
                 # the user.
                 all_properties[translated_key] = translate_output_properties(
-                    deserialize_property(value),
+                    # The inputs of remote components are serialized keeping their outputs. The property is an
+                    # output itself, so what it resolves to is what they hold.
+                    deserialize_property(value, keep_outputs=False),
                     translate_to_pass,
                     types.get(key),
                     transform_using_type_metadata,
-- 
2.43.0


From c568916e5351f9840d98c0d039400b6d58017b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 11/74] fix: joining two outputs ignored whether the first is
 known or secret

---
 sdk/python/lib/pulumi/output.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 56b40a9..f26fe52 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -573,11 +573,21 @@ def _map2_output(
         r2 = await o2.resources()
         return r1 | r2
 
+    async def is_known() -> bool:
+        k1 = await o1.is_known()
+        k2 = await o2.is_known()
+        return k1 and k2
+
+    async def is_secret() -> bool:
+        s1 = await o1.is_secret()
+        s2 = await o2.is_secret()
+        return s1 or s2
+
     return Output(
         resources=asyncio.ensure_future(res()),
         future=asyncio.ensure_future(fut()),
-        is_known=o1.is_known() and o2.is_known(),
-        is_secret=o2.is_secret() or o2.is_secret(),
+        is_known=asyncio.ensure_future(is_known()),
+        is_secret=asyncio.ensure_future(is_secret()),
     )
 
 
-- 
2.43.0


From 3eec5b09f642a07a558d6f7d64ce699a6019a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 12/74] fix: merging options given as tuples lost providers or
 failed

---
 sdk/python/lib/pulumi/resource.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index e05b956..c10a756 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -732,12 +732,12 @@ def _collapse_providers(opts: "ResourceOptions"):
             opts.providers = None
         else:
             opts.providers = {}
-            if isinstance(providers, list):
+            if isinstance(providers, Mapping):
+                for key, prov in providers.items():
+                    opts.providers[key] = prov
+            else:
                 for prov in providers:
                     opts.providers[prov.package] = prov
-            elif isinstance(providers, dict):
-                for key, prov in providers:
-                    opts.providers[key] = prov
 
 
 def _merge_lists(dest, source):
@@ -747,7 +747,7 @@ def _merge_lists(dest, source):
     if source is None:
         return dest
 
-    return dest + source
+    return [*dest, *source]
 
 
 # !!! IMPORTANT !!! If you add a new attribute to this type, make sure to verify that ResourceOptions.merge
-- 
2.43.0


From 1764035233dfa37d2069052d04c37f4805dd35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 13/74] fix: merging a third options object with the merge
 method lost the second

---
 sdk/python/lib/pulumi/invoke.py   |  2 ++
 sdk/python/lib/pulumi/resource.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..a90bbe0 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -115,6 +115,8 @@ class InvokeOptions:
             raise TypeError("Expected opts2 to be a InvokeOptions instance")
 
         dest = copy.copy(opts1)
+        # The instance 'merge' must merge into the copy, not into the object copied from.
+        dest.merge = dest._merge_instance  # type: ignore
         source = opts2
 
         dest.parent = dest.parent if source.parent is None else source.parent
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index c10a756..7bcc48c 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -598,6 +598,12 @@ class ResourceOptions:
     def _merge_instance(self, opts: "ResourceOptions") -> "ResourceOptions":
         return ResourceOptions.merge(self, opts)
 
+    def _copy(self) -> "ResourceOptions":
+        # The instance 'merge' must merge into the copy, not into the object copied from.
+        result = copy.copy(self)
+        result.merge = result._merge_instance  # type: ignore
+        return result
+
     def _depends_on_list(self) -> "Input[List[Input[Resource]]]":
 
         if self.depends_on is None:
@@ -648,8 +654,8 @@ class ResourceOptions:
         if not isinstance(opts2, ResourceOptions):
             raise TypeError("Expected opts2 to be a ResourceOptions instance")
 
-        dest = copy.copy(opts1)
-        source = copy.copy(opts2)
+        dest = opts1._copy()
+        source = opts2._copy()
 
         # This makes merging simple.
         def expand_providers(providers) -> Optional[Sequence["ProviderResource"]]:
@@ -888,7 +894,7 @@ class Resource:
         self._name = name
 
         # Make a shallow clone of opts to ensure we don't modify the value passed in.
-        opts = copy.copy(opts)
+        opts = opts._copy()
 
         self._providers = {}
         self._childResources = set()
-- 
2.43.0


From 94985ab4d4b039f0f4fdd473ecd60ed86c9da231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:18 +0000
Subject: [PATCH 14/74] fix: merging invoke options without a version dropped
 the version

---
 sdk/python/lib/pulumi/invoke.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index a90bbe0..ecf25b8 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -126,6 +126,7 @@ class InvokeOptions:
             if source.plugin_download_url is None
             else source.plugin_download_url
         )
-        dest.version = dest.version if source.version is None else source.version
+        # The default version is the empty string, which stands for no version.
+        dest.version = dest.version if not source.version else source.version
 
         return dest
-- 
2.43.0


From fd1960b38b2954da79a0eb912f60fe28ea021919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:45 +0000
Subject: [PATCH 15/74] fix: an object exported in several places was left out
 in all but one

---
 sdk/python/lib/pulumi/runtime/stack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 33600f9..9075e09 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -182,8 +182,8 @@ def massage(attr: Any, seen: List[Any]):
     if is_primitive(attr):
         return attr
 
-    # from this point on, we have complex objects.  If we see them again, we don't want to emit them
-    # again fully or else we'd loop infinitely.
+    # from this point on, we have complex objects.  If we see one again inside itself, we don't want
+    # to emit it again fully or else we'd loop infinitely.
     if reference_contains(attr, seen):
         # Note: for Resources we hit again, emit their urn so cycles can be easily understood in
         # the popo objects.
@@ -193,7 +193,8 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # Note: a new list, since an object that is only reached on several paths isn't a cycle.
+    seen = [*seen, attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From 3dedaca289e13cb1f7f888a7df8a98092e8fa585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 16/74] fix: exporting a number enumeration or an input type
 lost its value

---
 sdk/python/lib/pulumi/runtime/stack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 9075e09..821d919 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -29,6 +29,7 @@ from .settings import (
 )
 from .rpc_manager import RPC_MANAGER
 from .sync_await import _all_tasks, _get_current_task
+from .. import _types
 from .. import log
 
 if TYPE_CHECKING:
@@ -225,6 +226,10 @@ def massage(attr: Any, seen: List[Any]):
             result["@isPulumiResource"] = True
         return result
 
+    if _types.is_input_type(type(attr)):
+        # the values of an input type aren't in its __dict__.
+        return massage(_types.input_type_to_dict(attr), seen)
+
     if hasattr(attr, "__dict__"):
         # recurse on the dictionary itself.  It will be handled above.
         return massage(attr.__dict__, seen)
@@ -245,7 +250,8 @@ def is_primitive(attr: Any) -> bool:
     if attr is None:
         return True
 
-    if isinstance(attr, str):
+    # Note: members of enumerations of strings or numbers have a '__dict__' as well.
+    if isinstance(attr, (str, int, float)):
         return True
 
     # dictionaries, lists and dictionary-like things are not primitive.
-- 
2.43.0


From b3a309dcef4d3fd0c0d5594967a90a1061901d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:56 +0000
Subject: [PATCH 17/74] fix: the error for a secret property of the wrong type
 did not name the property

---
 sdk/python/lib/pulumi/runtime/rpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 3e8aa92..39a4c0b 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -877,7 +877,11 @@ def translate_output_properties(
     if is_rpc_secret(output):
         unwrapped = unwrap_rpc_secret(output)
         result = translate_output_properties(
-            unwrapped, output_transformer, typ, transform_using_type_metadata
+            unwrapped,
+            output_transformer,
+            typ,
+            transform_using_type_metadata,
+            path=path,
         )
         return wrap_rpc_secret(result)
 
-- 
2.43.0


From defebd0fbb472f2b6f04eafd013131b95303b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 18/74] fix: a function's empty result was not converted to the
 declared result type

---
 sdk/python/lib/pulumi/runtime/invoke.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..520de5a 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -116,8 +116,9 @@ def invoke(
             )
 
         # Otherwise, return the output properties.
+        # Note: the return message is falsy when no property is set.
         ret_obj = getattr(resp, "return")
-        if ret_obj:
+        if ret_obj or typ:
             deserialized = rpc.deserialize_properties(ret_obj)
             # If typ is not None, call translate_output_properties to instantiate any output types.
             return (
@@ -234,8 +235,9 @@ def call(
             is_known = True
             is_secret = False
             deps: Set["Resource"] = set()
+            # Note: the return message is falsy when no property is set.
             ret_obj = getattr(resp, "return")
-            if ret_obj:
+            if ret_obj or typ:
                 deserialized = rpc.deserialize_properties(ret_obj)
                 is_known = not rpc.contains_unknowns(deserialized)
 
-- 
2.43.0


From ad80b4071714391525735e4803e4a83efaa9d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 19/74] fix: invoking a function changed the caller's options
 to the provider of that function's package

---
 sdk/python/lib/pulumi/runtime/invoke.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index 520de5a..e729da9 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,16 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        # Note: the caller may use the same options to invoke functions of other packages.
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From dc2fcee97d3c8e25a81a17d2ab5b111c67042563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:50 +0000
Subject: [PATCH 20/74] fix: create_urn no longer puts the stack's type in its
 children's type chain

---
 sdk/python/lib/pulumi/resource.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 7bcc48c..fae1bb7 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1268,7 +1268,7 @@ def create_urn(
         else:
             parent_urn = Output.from_input(parent)
 
-        parent_prefix = parent_urn.apply(lambda u: u[0 : u.rfind("::")] + "$")
+        parent_prefix = parent_urn.apply(_child_urn_prefix)
     else:
         if stack is None:
             stack = get_stack()
@@ -1283,6 +1283,18 @@ def create_urn(
     return Output.all(*all_args).apply(lambda arr: arr[0] + arr[1] + "::" + arr[2])  # type: ignore
 
 
+def _child_urn_prefix(parent_urn: str) -> str:
+    """
+    Returns what the URNs of the children of the given parent start with, up to the child's type.
+    """
+    prefix = parent_urn[0 : parent_urn.rfind("::")]
+    # The engine doesn't prefix the stack type as a parent type.
+    stack_type = "::pulumi:pulumi:Stack"
+    if prefix.endswith(stack_type):
+        return prefix[: -len(stack_type)] + "::"
+    return prefix + "$"
+
+
 def _parse_resource_reference(ref: str) -> Tuple[str, str]:
     """
     Parses the URN and ID out of the provider reference.
-- 
2.43.0


From dc2d04cc5c84b6b8081ed669c18281031d6024f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 21/74] fix: a program ended before tasks started by its last
 tasks had run

---
 sdk/python/lib/pulumi/runtime/stack.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 821d919..8158863 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -112,9 +112,12 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
-        # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
-        # Break if no RPCs remain.
-        if len(RPC_MANAGER.rpcs) == 0:
+        # Check to see if any more RPCs have been scheduled, and repeat the cycle if so. The tasks that completed may also
+        # have started other tasks, which may yet schedule RPCs.
+        # Break if neither remain.
+        if len(RPC_MANAGER.rpcs) == 0 and not (
+            await_all_outstanding_tasks and _get_running_tasks()
+        ):
             break
 
 
-- 
2.43.0


From 43717472c49897803a12d0e94d8a59e47bddb6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:56 +0000
Subject: [PATCH 22/74] fix: an exception raised by the very last apply of a
 program was lost

---
 sdk/python/lib/pulumi/runtime/stack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 8158863..070527c 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -130,6 +130,8 @@ async def run_in_stack(func: Callable):
     RPC_MANAGER.watch_outputs()
     try:
         await run_pulumi_func(lambda: Stack(func))
+        # Let the outputs that ended last be noticed.
+        await asyncio.sleep(0)
     finally:
         output_exception = RPC_MANAGER.unwatch_outputs()
 
-- 
2.43.0


From 959adf4a8ecc757173b4543d398a9950d5f6eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 23/74] fix: converting a dictionary type with a property named
 items to JSON failed

---
 sdk/python/lib/pulumi/runtime/_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/_json.py b/sdk/python/lib/pulumi/runtime/_json.py
index 64e1d4a..64dffd9 100644
--- a/sdk/python/lib/pulumi/runtime/_json.py
+++ b/sdk/python/lib/pulumi/runtime/_json.py
@@ -34,7 +34,8 @@ def _to_json_serializable_obj(obj: Any) -> Any:
         obj = _types.input_type_to_dict(obj)
 
     if isinstance(obj, abc.Mapping):
-        return {k: _to_json_serializable_obj(v) for k, v in obj.items()}
+        # We're deliberately not using `obj.items()` here in case obj is a subclass of `dict` that redefines items.
+        return {k: _to_json_serializable_obj(obj[k]) for k in obj}
 
     return obj
 
-- 
2.43.0


From 4e854c484af265cded4e6d649673a261a10b1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 24/74] fix: comparing two dictionary types for inequality
 ignored their classes

---
 sdk/python/lib/pulumi/_types.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/_types.py b/sdk/python/lib/pulumi/_types.py
index 1829708..d201975 100644
--- a/sdk/python/lib/pulumi/_types.py
+++ b/sdk/python/lib/pulumi/_types.py
@@ -403,7 +403,8 @@ def _process_class(
         setattr(cls, "__init__", init_fn)
 
     # Add an __eq__() method if the class doesn't have one.
-    # There's no need for a __ne__ method, since Python will call __eq__ and negate it.
+    # There's no need for a __ne__ method, since Python will call __eq__ and negate it, except for subclasses of dict,
+    # which has one of its own.
     if "__eq__" not in cls.__dict__:
         if issubclass(cls, dict):
 
@@ -412,6 +413,12 @@ def _process_class(
                     other, self
                 )
 
+            def ne_fn(self, other):
+                return not self == other
+
+            if "__ne__" not in cls.__dict__:
+                setattr(cls, "__ne__", ne_fn)
+
         else:
 
             def eq_fn(self, other):
-- 
2.43.0


From 4afac6aadc03dd4aaeaf5e3a7b9d92957ba4bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:13 +0000
Subject: [PATCH 25/74] fix: an attribute of a base class was taken for a
 property's default

---
 sdk/python/lib/pulumi/_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/_types.py b/sdk/python/lib/pulumi/_types.py
index d201975..350dcc8 100644
--- a/sdk/python/lib/pulumi/_types.py
+++ b/sdk/python/lib/pulumi/_types.py
@@ -354,6 +354,9 @@ def _properties_from_annotations(cls: type) -> Dict[str, _Property]:
 
     def get_property(cls: type, a_name: str, a_type: Any) -> _Property:
         default = getattr(cls, a_name, MISSING)
+        # What a base class (e.g. dict, which has an `items`) happens to have under that name isn't a default.
+        if not isinstance(default, _Property) and a_name not in cls.__dict__:
+            default = MISSING
         p = (
             default
             if isinstance(default, _Property)
-- 
2.43.0


From 8a92788e1305c81b9ca3815b76eaa20872671a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 26/74] fix: the project, stack and features of a set_mocks
 call did not reach the mocks' threads

---
 sdk/python/lib/pulumi/runtime/mocks.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..09583c2 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -18,7 +18,7 @@ Mocks for testing.
 import functools
 import logging
 from abc import ABC, abstractmethod
-from typing import Dict, List, NamedTuple, Optional, Tuple, TYPE_CHECKING
+from typing import Any, Dict, List, NamedTuple, Optional, Tuple, TYPE_CHECKING
 from google.protobuf import empty_pb2
 from . import rpc, rpc_manager
 from .settings import (
@@ -281,7 +281,17 @@ class MockEngine:
 # We use this MockSettings class in the case where test setup needs to stub in settings objects
 # Because ContextVars are context-sensitive, asyncio threads lose track of external settings meddling
 class MockSettings(Settings):
+    # Plain attributes instead of context properties: the mocks run in other threads, whose contexts have not been
+    # told about these settings, and each installation of mocks has its own.
+    monitor: Any = None
+    engine: Any = None
+    project: Any = None
+    stack: Any = None
+    dry_run: Any = None
+    feature_support: Any = None
+
     def __init__(self, *_, **kwargs):  # pylint: disable=super-init-not-called
+        self.feature_support = {}
         for key, value in kwargs.items():
             setattr(self, key, value)
 
-- 
2.43.0


From be7686312f0214c15ab3895905b4f48ae7f5aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 27/74] fix: a mocked call without failures failed

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 09583c2..5bc5c9b 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -192,7 +192,7 @@ class MockMonitor:
         else:
             (ret, failures) = tup[0], [
                 provider_pb2.CheckFailure(property=failure[0], reason=failure[1])
-                for failure in tup[1]
+                for failure in tup[1] or []
             ]
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
-- 
2.43.0


From 018215fa63b9222d5063c89344ff5db8987d7f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 28/74] fix: looking up a mocked resource without an id failed

---
 sdk/python/lib/pulumi/runtime/mocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 5bc5c9b..0d577b1 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -219,7 +219,7 @@ class MockMonitor:
 
         urn = self.make_urn(request.parent, request.type, request.name)
 
-        self.resources[urn] = MockMonitor.ResourceRegistration(urn, id_, state)
+        self.resources[urn] = MockMonitor.ResourceRegistration(urn, id_ or "", state)
 
         return resource_pb2.ReadResourceResponse(urn=urn, properties=props_proto)
 
@@ -246,7 +246,7 @@ class MockMonitor:
 
         obj_proto = _sync_await(rpc.serialize_properties(state, {}))
 
-        self.resources[urn] = MockMonitor.ResourceRegistration(urn, id_, state)
+        self.resources[urn] = MockMonitor.ResourceRegistration(urn, id_ or "", state)
 
         return resource_pb2.RegisterResourceResponse(urn=urn, id=id_, object=obj_proto)
 
-- 
2.43.0


From 6693653c753bbb9ec1285f738a62437a24308411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:36 +0000
Subject: [PATCH 29/74] fix: creating a dynamic resource added the provider to
 the caller's properties

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..2073a3f 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -277,7 +277,7 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        # Leave the caller's properties alone: they may be used for other resources.
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From dc593355c10fa644e4474ba45f7a879f3ae79c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 30/74] fix: the dynamic provider failed on a provider that is
 not known yet

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..a843e75 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -21,6 +21,7 @@ import time
 import dill
 import grpc
 from google.protobuf import empty_pb2
+from pulumi.output import Unknown
 from pulumi.runtime import proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.dynamic import ResourceProvider
@@ -61,7 +62,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if isinstance(news[PROVIDER_KEY], Unknown):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -131,7 +132,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if isinstance(news[PROVIDER_KEY], Unknown):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
-- 
2.43.0


From 93ed69e08b8d4f30758813a57fd473bdffe6caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 31/74] fix: reading a dynamic resource that is gone failed

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index a843e75..9b19ff7 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -174,7 +174,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From e2913e92811032562b3316d3cce8e0e510639686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 32/74] fix: the dynamic provider failed on a check result
 without inputs

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 9b19ff7..fd209c9 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -138,7 +138,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = result.inputs
+        inputs = result.inputs if result.inputs is not None else {}
         failures = result.failures
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
-- 
2.43.0


From d0581e3405145b7aa6f2d10bef811c342b470755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 33/74] fix: the stable properties of a dynamic provider's diff
 were not sent

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index fd209c9..6238ec0 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -83,6 +83,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From 2a80db071e9a400a783cea63240c22d5d5126de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 34/74] fix: serializing a dynamic provider left the process's
 pickling changed and failed after many times

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 2073a3f..363d4fd 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -221,9 +221,18 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
+    unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
-        unsorted_batch_setitems(self, sorted(items))
+        items = list(items)
+        try:
+            items = sorted(items, key=lambda item: item[0])
+        except TypeError:
+            # The keys cannot be compared with one another.
+            items = sorted(
+                items, key=lambda item: (type(item[0]).__name__, repr(item[0]))
+            )
+        unsorted_batch_setitems(self, items)
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
@@ -244,6 +253,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
         return base64.b64encode(byts).decode("utf-8")
     finally:
         # Restore the original pickler
+        pickle.Pickler._batch_setitems = unsorted_batch_setitems
+        pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From df8b3ff911ff53b92dd14f38dba34566f81fc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 35/74] fix: a serialized dynamic provider depended on what had
 been pickled before

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 363d4fd..5f98d42 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -224,7 +224,9 @@ def serialize_provider(provider: ResourceProvider) -> str:
     unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
-        items = list(items)
+        # Pickling an instance leaves a cache on its class. Skip it so that a class does not depend on whether one of
+        # its instances has been pickled before.
+        items = [item for item in items if item[0] != "__slotnames__"]
         try:
             items = sorted(items, key=lambda item: item[0])
         except TypeError:
-- 
2.43.0


From bb338f0b753e1c8d2723f3ac15c33ea0d30326d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 36/74] fix: a CLI that printed no version failed the workspace
 with an index error

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..e5cfb11 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -371,7 +371,7 @@ class LocalWorkspace(Workspace):
     def _get_pulumi_version(self) -> str:
         result = self._run_pulumi_cmd_sync(["version"])
         version_string = result.stdout.strip()
-        if version_string[0] == "v":
+        if version_string.startswith("v"):
             version_string = version_string[1:]
         return version_string
 
-- 
2.43.0


From 897f35ab20f97451bf1f8d4a8e9fda2fb427c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 37/74] fix: loading stack settings dropped structured config
 values and failed on numbers and booleans

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..60af142 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,16 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                # A secret is an object that holds nothing but its ciphertext. Any other
+                # value (a number, boolean, list or object) is kept as it is.
+                if (
+                    isinstance(val, dict)
+                    and list(val) == ["secure"]
+                    and isinstance(val["secure"], str)
+                ):
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From cd5e8f7f88e9ba8bbd7f0a8dc9cbfab5923e7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 38/74] fix: the runtime, template and backend of project
 settings were not saved and loaded

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +--
 .../pulumi/automation/_project_settings.py    | 49 ++++++++++++++++++-
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index e5cfb11..b7c0afc 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -146,11 +146,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -645,7 +641,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..364b05d 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from typing import Optional, Mapping, Any, Union
+from typing import Optional, Mapping, Any, Dict, Union
 
 
 class ProjectRuntimeInfo:
@@ -121,3 +121,50 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: dict) -> "ProjectSettings":
+        settings = dict(data)
+
+        runtime = settings.get("runtime")
+        if isinstance(runtime, dict):
+            settings["runtime"] = ProjectRuntimeInfo(**runtime)
+
+        template = settings.get("template")
+        if isinstance(template, dict):
+            template_config = {
+                key: ProjectTemplateConfigValue(**(val or {}))
+                for key, val in (template.get("config") or {}).items()
+            }
+            settings["template"] = ProjectTemplate(
+                **{**template, "config": template_config}
+            )
+
+        backend = settings.get("backend")
+        if isinstance(backend, dict):
+            settings["backend"] = ProjectBackend(**backend)
+
+        return cls(**settings)
+
+    def _serialize(self) -> Dict[str, Any]:
+        serializable = _present(self)
+
+        if isinstance(self.runtime, ProjectRuntimeInfo):
+            serializable["runtime"] = _present(self.runtime)
+        if isinstance(self.template, ProjectTemplate):
+            template = _present(self.template)
+            template["config"] = {
+                key: _present(val) for key, val in self.template.config.items()
+            }
+            if not template["config"]:
+                del template["config"]
+            serializable["template"] = template
+        if isinstance(self.backend, ProjectBackend):
+            serializable["backend"] = _present(self.backend)
+
+        return serializable
+
+
+def _present(settings: Any) -> Dict[str, Any]:
+    # Only add the keys that are present to avoid writing nulls to the settings file.
+    return {key: val for key, val in settings.__dict__.items() if val is not None}
-- 
2.43.0


From 197c03f58932c03d072da211abf6961d9bd33565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 39/74] fix: loading the settings of a stack from an empty file
 failed

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index b7c0afc..6c2155e 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -161,7 +161,7 @@ class LocalWorkspace(Workspace):
                 continue
             with open(path, "r", encoding="utf-8") as file:
                 settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-                return StackSettings._deserialize(settings)
+                return StackSettings._deserialize(settings or {})
         raise FileNotFoundError(
             f"failed to find stack settings file in workdir: {self.work_dir}"
         )
-- 
2.43.0


From e1de8f967d1425c231deff63936471d48cd758c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 40/74] fix: the stream of a diagnostic event was lost

---
 sdk/python/lib/pulumi/automation/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..f203e4c 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
-- 
2.43.0


From 009bdfa3cf49e6e2f6c9cc69d0a75b112382fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 41/74] fix: the resource of a policy event was lost

---
 sdk/python/lib/pulumi/automation/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index f203e4c..f033b28 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
-- 
2.43.0


From 3e1e1768fc73ed15b6891bf9592535415545146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 42/74] fix: the detailed diff of a step event was lost

---
 sdk/python/lib/pulumi/automation/events.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index f033b28..098391c 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,11 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                key: PropertyDiff.from_json(diff) for key, diff in detailed_diff.items()
+            }
+            if detailed_diff is not None
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From af9db8063f416b360e82194cd09348b9ffcccacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 43/74] fix: an engine event with a field this version does not
 know failed

---
 sdk/python/lib/pulumi/automation/events.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 098391c..776c9a0 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -82,7 +82,10 @@ class StdoutEngineEvent(BaseEvent):
 
     @classmethod
     def from_json(cls, data: dict) -> "StdoutEngineEvent":
-        return cls(**data)
+        return cls(
+            message=data.get("message", ""),
+            color=data.get("color", ""),
+        )
 
 
 class DiagnosticEvent(BaseEvent):
@@ -213,7 +216,7 @@ class PreludeEvent(BaseEvent):
 
     @classmethod
     def from_json(cls, data: dict) -> "PreludeEvent":
-        return cls(**data)
+        return cls(config=data.get("config", {}))
 
 
 class SummaryEvent(BaseEvent):
-- 
2.43.0


From f8840c87f7f4cbd99a9576b41ec8c0857114f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 44/74] fix: a failed import left the state of the stack in a
 temporary file

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 6c2155e..ca31391 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -344,10 +344,12 @@ class LocalWorkspace(Workspace):
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
             json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+        try:
+            self._run_pulumi_cmd_sync(
+                ["stack", "import", "--file", file.name, "--stack", stack_name]
+            )
+        finally:
+            os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From cc3b6790777fba6d9bd8ed33584fa2d615ac0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 45/74] fix: listing plugins failed on one that was never used

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 4 +++-
 sdk/python/lib/pulumi/automation/_workspace.py       | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index ca31391..bd58fa5 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -323,7 +323,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..dca2c89 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -64,7 +64,7 @@ class PluginInfo:
     name: str
     kind: str
     size: int
-    last_used_time: datetime
+    last_used_time: Optional[datetime]
     install_time: Optional[datetime]
     version: Optional[str]
 
@@ -73,7 +73,7 @@ class PluginInfo:
         name: str,
         kind: str,
         size: int,
-        last_used_time: datetime,
+        last_used_time: Optional[datetime],
         install_time: Optional[datetime] = None,
         version: Optional[str] = None,
     ) -> None:
-- 
2.43.0


From 34f98c02813abeca27fa255a072a02d2d91d0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 46/74] fix: the history of a stack failed on secret
 configuration that is not shown

---
 sdk/python/lib/pulumi/automation/_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..0689706 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -79,7 +79,9 @@ class UpdateSummary:
         for key in config:
             config_value = config[key]
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                # The value of a secret is left out unless secrets are shown.
+                value=config_value.get("value"),
+                secret=config_value["secret"],
             )
 
     def __repr__(self):
-- 
2.43.0


From a2d8cf343baea9e00f3772e65ebf13ae8908dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 47/74] fix: the history of a stack failed on an update in
 progress

---
 sdk/python/lib/pulumi/automation/_stack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 0689706..474faf1 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime],
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -661,7 +661,9 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
-- 
2.43.0


From ff52b9914e9176d1f970f5e4c42631d8106c25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 48/74] fix: workspace options reused for another stack kept
 the first one's project and program

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index bd58fa5..6982f68 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -560,7 +560,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # Copied, so that options given for another stack too are not changed.
+    workspace_options = LocalWorkspaceOptions(**opts.__dict__) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -587,7 +588,7 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    workspace_options = LocalWorkspaceOptions(**opts.__dict__) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From 74b46dc5af764bafc7cae69567386f84f22ce920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 49/74] fix: verbosity of an operation's logs could not be
 given

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 474faf1..10a1bc0 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -775,7 +775,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From d2dcfa35c0f7269bfa701b561b086df1947c41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 50/74] fix: events of an operation were lost when a line was
 read before all of it was written, or handled slowly

---
 sdk/python/lib/pulumi/automation/_stack.py | 70 ++++++++++++----------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 10a1bc0..46a70fe 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -15,7 +15,6 @@
 import json
 import os
 import tempfile
-import time
 import threading
 from concurrent import futures
 from enum import Enum
@@ -293,9 +292,7 @@ class Stack:
         if on_event:
             log_file, temp_dir = _create_log_file("up")
             args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
+            log_watcher_thread = _LogWatcher(log_file, on_event)
             log_watcher_thread.start()
 
         try:
@@ -411,9 +408,7 @@ class Stack:
                 on_event(event)
 
         # Start watching logs in a thread
-        log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback)
-        )
+        log_watcher_thread = _LogWatcher(log_file, on_event_callback)
         log_watcher_thread.start()
 
         try:
@@ -480,9 +475,7 @@ class Stack:
         if on_event:
             log_file, temp_dir = _create_log_file("refresh")
             args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
+            log_watcher_thread = _LogWatcher(log_file, on_event)
             log_watcher_thread.start()
 
         try:
@@ -545,9 +538,7 @@ class Stack:
         if on_event:
             log_file, temp_dir = _create_log_file("destroy")
             args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
+            log_watcher_thread = _LogWatcher(log_file, on_event)
             log_watcher_thread.start()
 
         try:
@@ -816,35 +807,54 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     return filepath, log_dir
 
 
-def _watch_logs(filename: str, callback: OnEvent):
-    with open(filename, encoding="utf-8") as f:
-        while True:
-            line = f.readline()
+class _LogWatcher(threading.Thread):
+    """Calls a function with each event that the CLI writes to its event log."""
+
+    def __init__(self, filename: str, callback: OnEvent):
+        super().__init__()
+        self._filename = filename
+        self._callback = callback
+        self._cli_done = threading.Event()
+
+    def finish(self) -> None:
+        """Called when the CLI has ended; returns when all it logged has been handled."""
+        self._cli_done.set()
+        self.join()
+
+    def run(self) -> None:
+        with open(self._filename, "rb") as f:
+            line = b""
+            while True:
+                cli_done = self._cli_done.is_set()
+                line += f.readline()
 
-            # sleep if file hasn't been updated
-            if not line:
-                time.sleep(0.1)
-                continue
+                # sleep if the rest of the line hasn't been written
+                if not line.endswith(b"\n"):
+                    if cli_done:
+                        break
+                    self._cli_done.wait(0.1)
+                    continue
 
-            event = EngineEvent.from_json(json.loads(line))
-            callback(event)
+                event = EngineEvent.from_json(json.loads(line))
+                line = b""
+                self._callback(event)
 
-            # if this is the cancel event, stop watching logs.
-            if event.cancel_event:
-                break
+                # if this is the cancel event, stop watching logs.
+                if event.cancel_event:
+                    break
 
 
 def _cleanup(
     temp_dir: Optional[tempfile.TemporaryDirectory],
-    thread: Optional[threading.Thread],
+    log_watcher: Optional[_LogWatcher],
     on_exit_fn: Optional[Callable[[], None]] = None,
 ) -> None:
     # If there's an on_exit function, execute it (used in preview/up to shut down server)
     if on_exit_fn:
         on_exit_fn()
-    # If we started a thread to watch logs, wait for it to terminate, timing out after 5 seconds.
-    if thread:
-        thread.join(5)
+    # If we started a thread to watch logs, wait for it to handle what is left of them.
+    if log_watcher:
+        log_watcher.finish()
     # If we created a temp_dir for the logs, clean up.
     if temp_dir:
         temp_dir.cleanup()
-- 
2.43.0


From 787c6175ecfd0513d2bdc4965a12d244cc8ace3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 51/74] fix: an inline program run without config saw the
 config of an earlier run

---
 sdk/python/lib/pulumi/automation/_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a714e3b..693d5b6 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -58,9 +58,8 @@ class LanguageServer(LanguageRuntimeServicer):
             organization=request.organization,
         )
 
-        if request.config:
-            secret_keys = request.configSecretKeys if request.configSecretKeys else None
-            set_all_config(request.config, secret_keys)
+        # Set even if there is none, so that nothing of an earlier run is left.
+        set_all_config(request.config, request.configSecretKeys)
 
         # The strategy here is derived from sdk/python/cmd/pulumi-language-python-exec
         result = language_pb2.RunResponse()
-- 
2.43.0


From c1cb7764aefc42935cdb75a14f20c81bde61f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 52/74] fix: an inline program that exited hung the operation

---
 sdk/python/lib/pulumi/automation/_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 693d5b6..4c60495 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -83,7 +83,8 @@ class LanguageServer(LanguageRuntimeServicer):
                 log.error(msg)
                 result.error = msg
                 return result
-        except Exception as exn:
+        except BaseException as exn:  # pylint: disable=broad-except
+            # Note: a program that exits must be answered as well, or the engine would wait forever.
             msg = str(
                 f"python inline source runtime error: {exn}\n{traceback.format_exc()}"
             )
-- 
2.43.0


From 0947922130e925af3f142b719c4b2a324f6164c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 53/74] fix: a failed inline program's error was lost when one
 of its tasks failed while being cancelled

---
 sdk/python/lib/pulumi/automation/_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 4c60495..7f7a36a 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -106,7 +106,8 @@ class LanguageServer(LanguageRuntimeServicer):
             log.debug(f"Cancelling {len(pending)} tasks.")
             for task in pending:
                 task.cancel()
-                with suppress(asyncio.CancelledError):
+                # Note: a task may also fail for want of what other cancelled ones would have done.
+                with suppress(asyncio.CancelledError, Exception):
                     loop.run_until_complete(task)
             loop.close()
             sys.stdout.flush()
-- 
2.43.0


From 29e7b04382e1f50efcc3dd700cd471c920983ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 54/74] fix: inline programs running in parallel took each
 other's engine calls and failures

---
 sdk/python/lib/pulumi/automation/_server.py  |  1 +
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 79 +++++++++++++-------
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 7f7a36a..4f02aa3 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -45,6 +45,7 @@ class LanguageServer(LanguageRuntimeServicer):
 
     def Run(self, request, context):
         _suppress_unobserved_task_logging()
+        RPC_MANAGER.isolate()
 
         # Configure the runtime so that the user program hooks up to Pulumi as appropriate.
         engine_address = request.args[0] if request.args else ""
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 18a99bf..408a6a4 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -12,12 +12,43 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import asyncio
+from contextvars import ContextVar
 import sys
 import traceback
 from typing import Callable, Awaitable, Tuple, Any, Optional, List
 from .. import log
 
 
+class _ProgramState:
+    """
+    What is tracked for one program.
+    """
+
+    def __init__(self):
+        self.clear()
+
+    def clear(self) -> None:
+        self.rpcs: List[Awaitable] = []
+        self.unhandled_exception: Optional[Exception] = None
+        self.exception_traceback: Optional[Any] = None
+        self.output_exception: Optional[BaseException] = None
+        self.watching_outputs = False
+
+
+# Note: a program that others may run in parallel with has a state of its own; all others share one.
+_STATE: ContextVar[_ProgramState] = ContextVar(
+    "rpc_manager_state", default=_ProgramState()
+)
+
+
+def _tracked(name: str, doc: str) -> property:
+    return property(
+        lambda self: getattr(_STATE.get(), name),
+        lambda self, v: setattr(_STATE.get(), name, v),
+        doc=doc,
+    )
+
+
 class RPCManager:
     """
     RPCManager is responsible for keeping track of RPCs that are dispatched
@@ -26,30 +57,28 @@ class RPCManager:
     outstanding RPCs.
     """
 
-    rpcs: List[Awaitable]
-    """
-    The active RPCs.
-    """
+    rpcs = _tracked("rpcs", "The active RPCs.")
 
-    unhandled_exception: Optional[Exception]
-    """
-    The first unhandled exception encountered during an RPC, if any occurs.
-    """
+    unhandled_exception = _tracked(
+        "unhandled_exception",
+        "The first unhandled exception encountered during an RPC, if any occurs.",
+    )
 
-    exception_traceback: Optional[Any]
-    """
-    The traceback associated with unhandled_exception, if any.
-    """
+    exception_traceback = _tracked(
+        "exception_traceback",
+        "The traceback associated with unhandled_exception, if any.",
+    )
 
-    output_exception: Optional[BaseException]
-    """
-    The first exception raised by an output of the running program, if any. Nothing else may be waiting for that output.
-    """
+    output_exception = _tracked(
+        "output_exception",
+        "The first exception raised by an output of the running program, if any. "
+        "Nothing else may be waiting for that output.",
+    )
 
-    watching_outputs: bool
-    """
-    Whether a program is running, whose outputs are being watched.
-    """
+    watching_outputs = _tracked(
+        "watching_outputs",
+        "Whether a program is running, whose outputs are being watched.",
+    )
 
     def __init__(self):
         self.clear()
@@ -117,11 +146,11 @@ class RPCManager:
 
     def clear(self) -> None:
         """Clears any tracked state."""
-        self.rpcs = []
-        self.exception_traceback = None
-        self.unhandled_exception = None
-        self.output_exception = None
-        self.watching_outputs = False
+        _STATE.get().clear()
+
+    def isolate(self) -> None:
+        """Tracks what the current context does apart from programs running in others."""
+        _STATE.set(_ProgramState())
 
 
 RPC_MANAGER: RPCManager = RPCManager()
-- 
2.43.0


From eb730650fbc8573288f7e4620b2e633ab9fc96e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 55/74] fix: the traceback of a failed program in a directory
 with a dot in its name started with Pulumi's code

---
 sdk/python/cmd/pulumi-language-python-exec | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sdk/python/cmd/pulumi-language-python-exec b/sdk/python/cmd/pulumi-language-python-exec
index bac77d0..a83c75f 100755
--- a/sdk/python/cmd/pulumi-language-python-exec
+++ b/sdk/python/cmd/pulumi-language-python-exec
@@ -29,10 +29,9 @@ PYTHON_PROCESS_EXITED_AFTER_SHOWING_USER_ACTIONABLE_MESSAGE_CODE = 32
 def _get_user_stacktrace(user_program_abspath: str) -> str:
     '''grabs the current stacktrace and truncates it to show the only stacks pertaining to a user's program'''
     def get_abs_module_path(mod_path):
-        path, ext = os.path.splitext(mod_path)
-        if not ext:
-            path = os.path.join(path, '__main__')
-        return os.path.abspath(path)
+        if os.path.isdir(mod_path):
+            mod_path = os.path.join(mod_path, '__main__.py')
+        return os.path.abspath(mod_path)
 
     tb = traceback.extract_tb(sys.exc_info()[2])
 
-- 
2.43.0


From bbfd79c077f8b1f4e4109d78665d7c2ed0708acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 56/74] fix: component providers ignored the parent of the
 components they construct

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 sdk/python/lib/pulumi/resource.py        | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..261a6bf 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -162,7 +162,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent):
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index fae1bb7..4f9250f 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -835,6 +835,10 @@ class Resource:
         if dependency:
             self._protect = False
             self._providers = {}
+            self._transformations = []
+            self._aliases = []
+            self._name = name
+            self._childResources = set()
             return
 
         if props is None:
-- 
2.43.0


From a5f5c080a99ef5a779850c235c0fe6b6bb6edc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 57/74] fix: pulumi.get_organization() failed inside component
 providers

---
 sdk/python/lib/pulumi/provider/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 261a6bf..38f6079 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -89,6 +89,7 @@ class ProviderServicer(ResourceProviderServicer):
             engine_address=self.engine_address,
             monitor_address=_empty_as_none(request.monitorEndpoint),
             preview=request.dryRun,
+            organization=_empty_as_none(request.organization),
         )
 
         pulumi.runtime.config.set_all_config(
@@ -218,6 +219,7 @@ class ProviderServicer(ResourceProviderServicer):
             engine_address=self.engine_address,
             monitor_address=_empty_as_none(request.monitorEndpoint),
             preview=request.dryRun,
+            organization=_empty_as_none(request.organization),
         )
 
         pulumi.runtime.config.set_all_config(
-- 
2.43.0


From 08f971a1bece4ad73b3339c5fbb3f2338c6f0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 58/74] fix: a component provider that failed one request
 failed all later ones

---
 sdk/python/lib/pulumi/provider/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 38f6079..156b850 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -34,7 +34,7 @@ from pulumi.resource import (
     DependencyProviderResource,
     _parse_resource_reference,
 )
-from pulumi.runtime import known_types, proto, rpc
+from pulumi.runtime import known_types, proto, rpc, rpc_manager
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
@@ -82,6 +82,7 @@ class ProviderServicer(ResourceProviderServicer):
             request, proto.ConstructRequest
         ), f"request is not ConstructRequest but is {type(request)} instead"
 
+        rpc_manager.RPC_MANAGER.isolate()
         pulumi.runtime.settings.reset_options(
             project=_empty_as_none(request.project),
             stack=_empty_as_none(request.stack),
@@ -212,6 +213,7 @@ class ProviderServicer(ResourceProviderServicer):
             request, proto.CallRequest
         ), f"request is not CallRequest but is {type(request)} instead"
 
+        rpc_manager.RPC_MANAGER.isolate()
         pulumi.runtime.settings.reset_options(
             project=_empty_as_none(request.project),
             stack=_empty_as_none(request.stack),
-- 
2.43.0


From be4fc6ce58befa1c7a76ddcd9a668766e061a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 59/74] fix: a secret nested in an output passed to a component
 provider arrived as its wire encoding

---
 sdk/python/lib/pulumi/runtime/rpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 39a4c0b..6f86159 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -645,11 +645,11 @@ def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
     if is_known:
         value = deserialize_property(ref_struct["value"])
     value_future: "asyncio.Future" = asyncio.Future()
-    value_future.set_result(value)
+    value_future.set_result(unwrap_rpc_secret(value))
 
-    is_secret = False
+    is_secret = is_rpc_secret(value)
     if "secret" in ref_struct:
-        is_secret = deserialize_property(ref_struct["secret"]) is True
+        is_secret = is_secret or deserialize_property(ref_struct["secret"]) is True
     is_secret_future: "asyncio.Future" = asyncio.Future()
     is_secret_future.set_result(is_secret)
 
-- 
2.43.0


From 6aed606a31feff2ad25137f65138561d2cf06eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 60/74] fix: an inline program that ends with a RunError
 without a message has failed

---
 sdk/python/lib/pulumi/automation/_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 4f02aa3..2ccdcdf 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -69,7 +69,8 @@ class LanguageServer(LanguageRuntimeServicer):
         try:
             loop.run_until_complete(run_in_stack(self.program))
         except RunError as exn:
-            msg = str(exn)
+            # Note: an empty error would tell the engine that the program succeeded.
+            msg = str(exn) or "python inline source failed without a message"
             log.error(msg)
             result.error = str(msg)
             return result
-- 
2.43.0


From f87fb1a7204474cf4e23b2ff79f5ef325fc85379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 61/74] fix: the dynamic provider launcher split and expanded
 its arguments

---
 sdk/python/dist/pulumi-resource-pulumi-python | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/dist/pulumi-resource-pulumi-python b/sdk/python/dist/pulumi-resource-pulumi-python
index f21cd4c..82968cf 100755
--- a/sdk/python/dist/pulumi-resource-pulumi-python
+++ b/sdk/python/dist/pulumi-resource-pulumi-python
@@ -20,7 +20,7 @@ if [ -n "${PULUMI_RUNTIME_VIRTUALENV:-}" ] ; then
         fi
 
         # Run python from the virtual environment.
-        "$PULUMI_RUNTIME_VIRTUALENV/bin/python" -u -m pulumi.dynamic $@
+        "$PULUMI_RUNTIME_VIRTUALENV/bin/python" -u -m pulumi.dynamic "$@"
     else
         if [ -d "$PULUMI_RUNTIME_VIRTUALENV" ]; then
             1>&2 echo "The 'virtualenv' option in Pulumi.yaml is set to \"$PULUMI_RUNTIME_VIRTUALENV\", but \"$PULUMI_RUNTIME_VIRTUALENV\" doesn't appear to be a virtual environment."
@@ -36,5 +36,5 @@ if [ -n "${PULUMI_RUNTIME_VIRTUALENV:-}" ] ; then
     fi
 else
     # Otherwise, run either PULUMI_PYTHON_CMD (if set) or python3.
-    "${PULUMI_PYTHON_CMD:-python3}" -u -m pulumi.dynamic $@
+    "${PULUMI_PYTHON_CMD:-python3}" -u -m pulumi.dynamic "$@"
 fi
-- 
2.43.0


From 84e688acde5aa3cbc9b8819a37ac11955c3ad6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 62/74] fix: lazily importing a module below a package that had
 not run yet could run modules twice

---
 sdk/python/lib/pulumi/_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sdk/python/lib/pulumi/_utils.py b/sdk/python/lib/pulumi/_utils.py
index e8c3ddf..7e35ee2 100644
--- a/sdk/python/lib/pulumi/_utils.py
+++ b/sdk/python/lib/pulumi/_utils.py
@@ -99,6 +99,18 @@ def lazy_import(fullname):
     if m is not None:
         return m
 
+    # Run the parent packages, outermost first. A parent may be lazily imported itself: find_spec would run it only after
+    # looking for the module below it, and import a second copy of a module that the parent imports as it runs.
+    names = fullname.split(".")
+    for i in range(1, len(names)):
+        parent = importlib.import_module(".".join(names[:i]))
+        getattr(parent, "__path__", None)
+
+    # Return early if a parent package has imported the module.
+    m = sys.modules.get(fullname, None)
+    if m is not None:
+        return m
+
     spec = importlib.util.find_spec(fullname)
 
     # Return early if find_spec has recursively called lazy_import
-- 
2.43.0


From fb4a481f56f8be6a6d177fdc8a2dfa57c165ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 63/74] fix: an input that is cancelled left the program
 hanging

asyncio.CancelledError is no Exception since Python 3.8, so a resource or call whose input was a cancelled future (or an
output whose function raised CancelledError) left its outputs unresolved and the program waited for them forever.
---
 sdk/python/lib/pulumi/runtime/invoke.py   |  2 +-
 sdk/python/lib/pulumi/runtime/resource.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index e729da9..35d83e1 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -276,7 +276,7 @@ def call(
             resolve_is_secret.set_result(is_secret)
             resolve_deps.set_result(deps)
 
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
             )
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index ba30f64..6099c1f 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -263,7 +263,7 @@ def get_resource(
                     f"getResource failed: {resp.failures[0].reason} ({resp.failures[0].property})"
                 )
 
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
             )
@@ -295,7 +295,7 @@ def get_resource(
                 resolvers,
                 transform_using_type_metadata,
             )
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(f"exception after executing rpc: {traceback.format_exc()}")
             rpc.resolve_outputs_due_to_exception(resolvers, exn)
             raise
@@ -449,7 +449,7 @@ def read_resource(
 
             resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
 
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
             )
@@ -472,7 +472,7 @@ def read_resource(
                 resolvers,
                 transform_using_type_metadata,
             )
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(f"exception after executing rpc: {traceback.format_exc()}")
             rpc.resolve_outputs_due_to_exception(resolvers, exn)
             raise
@@ -619,7 +619,7 @@ def register_resource(
                     return None
 
             resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
             )
@@ -674,7 +674,7 @@ def register_resource(
             )
             resolve_outputs_called = True
 
-        except Exception as exn:
+        except (Exception, asyncio.CancelledError) as exn:
             log.debug(f"exception after executing rpc: {traceback.format_exc()}")
 
             if not resolve_outputs_called:
-- 
2.43.0


From dfdfd7bb5a0d3e13a822d2666ef318ab49eb785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 64/74] fix: a program that failed by a cancellation was not
 reported to the engine

asyncio.CancelledError is no Exception since Python 3.8: the process ended with status one and the engine was told nothing.
---
 sdk/python/cmd/pulumi-language-python-exec | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/cmd/pulumi-language-python-exec b/sdk/python/cmd/pulumi-language-python-exec
index a83c75f..a0b24b7 100755
--- a/sdk/python/cmd/pulumi-language-python-exec
+++ b/sdk/python/cmd/pulumi-language-python-exec
@@ -151,7 +151,7 @@ if __name__ == "__main__":
         exit_code = 0
     except pulumi.RunError as e:
         pulumi.log.error(str(e))
-    except Exception:
+    except (Exception, asyncio.CancelledError):
         error_msg = "Program failed with an unhandled exception:\n" + _get_user_stacktrace(user_program_abspath)
         pulumi.log.error(error_msg)
         exit_code = PYTHON_PROCESS_EXITED_AFTER_SHOWING_USER_ACTIONABLE_MESSAGE_CODE
-- 
2.43.0


From 4c9927ee58b415c5038dfdb47da8fbed580706fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 65/74] fix: a construct or call request that failed by a
 cancellation was never answered

gRPC takes an asyncio.CancelledError raised by the handler for the cancellation of the request, so a cancelled input of a
child resource left the engine waiting forever.
---
 sdk/python/lib/pulumi/provider/server.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 156b850..ab718ee 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -71,6 +71,10 @@ class ProviderServicer(ResourceProviderServicer):
         await self.lock.acquire()
         try:
             return await self._construct(request, context)
+        except asyncio.CancelledError as exn:
+            # Note: one that comes from what the provider did, such as a cancelled input of a resource, would make gRPC
+            # take the request for cancelled, and never answer it.
+            raise RuntimeError("Construct was cancelled") from exn
         finally:
             self.lock.release()
 
@@ -204,6 +208,10 @@ class ProviderServicer(ResourceProviderServicer):
         await self.lock.acquire()
         try:
             return await self._call(request, context)
+        except asyncio.CancelledError as exn:
+            # Note: one that comes from what the provider did, such as a cancelled input of a resource, would make gRPC
+            # take the request for cancelled, and never answer it.
+            raise RuntimeError("Call was cancelled") from exn
         finally:
             self.lock.release()
 
-- 
2.43.0


From f9352a5870444f5219a1d8a57302ba28282919cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 66/74] fix: a call was answered before the resources it had
 created were registered

wait_for_rpcs did not let the registrations that were queued last start before it looked whether any was outstanding.
---
 sdk/python/lib/pulumi/runtime/stack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 070527c..d4b3571 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -66,6 +66,7 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
         # https://github.com/python/asyncio/issues/284#issuecomment-154180935
         #
         # We await each RPC in turn so that this loop will actually block rather than busy-wait.
+        await asyncio.sleep(0)
         while len(RPC_MANAGER.rpcs) > 0:
             await asyncio.sleep(0)
             log.debug(
-- 
2.43.0


From ceed5dfde717e9faa2bb55268bcc45070ea39465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 67/74] fix: a long chain of dependent resources exhausted the
 stack

---
 .../pulumi/runtime/resource_cycle_breaker.py  | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py b/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py
index 5bb49d6..55342d4 100644
--- a/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py
+++ b/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from typing import TYPE_CHECKING, Set, Iterable
+from typing import TYPE_CHECKING, List, Set
 
 if TYPE_CHECKING:
     from .. import Resource
@@ -47,24 +47,17 @@ def _add_dep(from_resource: "Resource", to_resource: "Resource") -> None:
 
 
 def _reachable(from_resource: "Resource", to_resource: "Resource") -> bool:
-    visited: Set["Resource"] = set()
+    # Not recursive, as the chain of dependencies may be longer than the interpreter's stack.
+    visited: Set["Resource"] = {from_resource}
+    pending: List["Resource"] = [from_resource]
 
-    for x in _with_transitive_deps(from_resource, visited):
-        if x == to_resource:
+    while pending:
+        r = pending.pop()
+        if r == to_resource:
             return True
 
-    return False
-
-
-def _with_transitive_deps(
-    r: "Resource", visited: Set["Resource"]
-) -> Iterable["Resource"]:
-    if r in visited:
-        return
+        unvisited = _deps(r) - visited
+        visited |= unvisited
+        pending.extend(unvisited)
 
-    visited.add(r)
-    yield r
-
-    for x in _deps(r):
-        for y in _with_transitive_deps(x, visited):
-            yield y
+    return False
-- 
2.43.0


From a54e5abd23c12cc03861d09594de2fa7092cb4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 68/74] fix: the id of a resource read by an unknown id was
 taken for known

---
 sdk/python/lib/pulumi/runtime/resource.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 6099c1f..d84a6cc 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -460,7 +460,9 @@ def read_resource(
 
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
+        # The ID is known unless it is computed from something that is not, such as a resource yet to be created.
+        is_known = resolved_id != rpc.UNKNOWN
+        resolve_id(resolved_id if is_known else None, is_known, False, None)
 
         # As in `register_resource`, fail the outputs if they cannot be resolved, so that nothing waits for them forever.
         try:
-- 
2.43.0


From 49338b644182e32edc06cb45a72bba6862cd00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 69/74] fix: an alias that is not known in a preview, or with a
 stack or project given as an output, failed the program

---
 sdk/python/lib/pulumi/resource.py         | 2 +-
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 4f9250f..37f6541 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1280,7 +1280,7 @@ def create_urn(
         if project is None:
             project = get_project()
 
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = Output.concat("urn:pulumi:", stack, "::", project, "::")
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index d84a6cc..64e27dd 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -179,7 +179,8 @@ async def prepare_resource(
     aliases: List[Optional[str]] = []
     for alias in res._aliases:
         alias_val = await Output.from_input(alias).future()
-        if not alias_val in aliases:
+        # An alias may depend on what is not known in a preview: there is nothing to send for it then.
+        if alias_val is not None and not alias_val in aliases:
             aliases.append(alias_val)
 
     return ResourceResolverOperations(
-- 
2.43.0


From fd42c019b07e219735357bf3296087efe228f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 70/74] fix: Output.from_input takes dictionaries whose keys
 are not strings

---
 sdk/python/lib/pulumi/output.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index f26fe52..afd9d04 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -299,7 +299,8 @@ class Output(Generic[T_co]):
 
         # Is a (non-empty) dict or list? Recurse into the values within them.
         if val and isinstance(val, dict):
-            o_dict: Output[dict] = Output.all(**val)
+            # The keys need not be strings, so they cannot be passed to `all` as keyword arguments.
+            o_dict: Output[dict] = Output._all((), {**val})
             return cast(Output[T_co], o_dict)
 
         if val and isinstance(val, list):
@@ -419,6 +420,18 @@ class Output(Generic[T_co]):
         :return: An output of list or dict, converted from unnamed or named Inputs respectively.
         """
 
+        if args and kwargs:
+            raise ValueError(
+                "Output.all() was supplied a mix of named and unnamed inputs"
+            )
+        return Output._all(args, kwargs)
+
+    @staticmethod
+    def _all(args: tuple, kwargs: Mapping[Any, Any]) -> "Output[Any]":
+        """
+        Like `all`, but the keys of `kwargs` need not be strings.
+        """
+
         # Three asynchronous helper functions to assist in the implementation:
         # is_known, which returns True if all of the input's values are known,
         # and false if any of them are not known,
@@ -457,10 +470,6 @@ class Output(Generic[T_co]):
             Callable[[Union[T, Awaitable[T], Output[T]]], Output[T]], Output.from_input
         )
 
-        if args and kwargs:
-            raise ValueError(
-                "Output.all() was supplied a mix of named and unnamed inputs"
-            )
         # First, map all inputs to outputs using `from_input`.
         all_outputs: Union[list, dict] = (
             {k: from_input(v) for k, v in kwargs.items()}
-- 
2.43.0


From d951022e062bfab7dcf7b8ac0234c50c1e8832d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 71/74] fix: combining outputs lost the properties of input
 types that are dictionaries

---
 sdk/python/lib/pulumi/output.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index afd9d04..45a996a 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -289,10 +289,11 @@ class Output(Generic[T_co]):
         # Is it an input type (i.e. args class)? Recurse into the values within.
         typ = type(val)
         if _types.is_input_type(typ):
-            # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
-            # via `type(**d)` from the (unwrapped) properties.
-            # An instance with no properties set has an empty `__dict__`, for which `all` produces an empty list.
-            o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
+            # We know that any input type can safely be decomposed into it's `__dict__` (or its items, if it is a dict),
+            # and then reconstructed via `type(**d)` from the (unwrapped) properties.
+            # An instance with no properties set is empty, for which `all` produces an empty list.
+            props = _types.input_type_to_untranslated_dict(val)
+            o_typ: Output[typ] = Output.all(**props).apply(  # type:ignore
                 lambda d: typ(**d) if d else typ()
             )
             return cast(Output[T_co], o_typ)
-- 
2.43.0


From dbeb145ca02e98fbadd3fee58dd56c4bd4d5b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:19 +0000
Subject: [PATCH 72/74] fix: in previews, combining an input type with unknown
 properties and an unknown value gave a known None

---
 sdk/python/lib/pulumi/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 45a996a..0270d42 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -296,7 +296,9 @@ class Output(Generic[T_co]):
             o_typ: Output[typ] = Output.all(**props).apply(  # type:ignore
                 lambda d: typ(**d) if d else typ()
             )
-            return cast(Output[T_co], o_typ)
+            # If that did not run because a value is not known in a preview, there is no value: make it the unknown value,
+            # so that no one takes its absence for a (known) None.
+            return cast(Output[T_co], o_typ.apply(lambda v: v, True))
 
         # Is a (non-empty) dict or list? Recurse into the values within them.
         if val and isinstance(val, dict):
-- 
2.43.0


From 8e391a3b4fae8a956e3309d2bb49c357b1d492b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 73/74] fix: combining outputs turned typed results into plain
 dictionaries

---
 sdk/python/lib/pulumi/output.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 0270d42..6f6150e 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 import asyncio
 import contextlib
+import copy
 from functools import reduce
 from inspect import isawaitable
 from typing import (
@@ -304,6 +305,9 @@ class Output(Generic[T_co]):
         if val and isinstance(val, dict):
             # The keys need not be strings, so they cannot be passed to `all` as keyword arguments.
             o_dict: Output[dict] = Output._all((), {**val})
+            if _types.is_output_type(typ):
+                # A typed result: keep its class, as its properties are looked up with its getters.
+                o_dict = o_dict.apply(lambda d: _with_items(val, d), True)
             return cast(Output[T_co], o_dict)
 
         if val and isinstance(val, list):
@@ -542,6 +546,15 @@ def contains_unknowns(val: Any) -> bool:
     return rpc.contains_unknowns(val)
 
 
+def _with_items(val: dict, items: Any) -> Any:
+    """Returns a copy of the dict (of a derived class) with the given values for its items."""
+    if isinstance(items, Unknown):
+        return UNKNOWN
+    result = copy.copy(val)
+    result.update(items)
+    return result
+
+
 def _is_prompt(value: Input[T]) -> bool:
     """Checks if the value is prompty available."""
 
-- 
2.43.0


From 89946de6b0cbd301dc9c6f47e35f9e0aef936b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 74/74] fix: typed results with properties named like methods
 of dictionaries could not be combined

---
 sdk/python/lib/pulumi/output.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 6f6150e..db96a25 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -13,7 +13,6 @@
 # limitations under the License.
 import asyncio
 import contextlib
-import copy
 from functools import reduce
 from inspect import isawaitable
 from typing import (
@@ -550,8 +549,10 @@ def _with_items(val: dict, items: Any) -> Any:
     """Returns a copy of the dict (of a derived class) with the given values for its items."""
     if isinstance(items, Unknown):
         return UNKNOWN
-    result = copy.copy(val)
-    result.update(items)
+    # Not copied with its own methods, as it may have properties of the same names (e.g. `items`).
+    result = type(val).__new__(type(val))
+    dict.update(result, items)
+    result.__dict__.update(val.__dict__)
     return result
 
 
-- 
2.43.0

