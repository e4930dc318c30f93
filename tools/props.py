"""The property table.  tools/gen.py turns it into properties.jsonl and MANIFEST.json."""

S = "sdk/python/lib/pulumi/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[f if f.startswith("sdk/") else S + f for f in files],
                  mech=mech, observe=observe, technique=technique, note=note, state=state))


# ---------------------------------------------------------------- outputs
prop("C01", "Combining outputs never loses secretness",
     "An output computed from other outputs - by applying a function, combining positional or named outputs, wrapping a nested structure, concatenating, indexing or attribute access, or a function returning another output - is secret whenever any output it was computed from (the ones nested inside its inputs and the one returned by the function included) is secret. It is not secret when none is, and only an explicit unsecret operation on a value turns a secret output into a plain one.",
     ["inputs", "programs"], "every composition of combinators over leaves of every (secret, known, awaitable) kind, preview and update",
     "Tests sample a dozen two-step compositions; secretness must survive every composition, including paths where an input is unknown and the applied function never runs.",
     ["output.py"], [("futures carry the secret flag beside the value", "output.py Output.apply/from_input/all/concat/secret/unsecret")],
     ["Output.is_secret()", "secret wrapper on the wire"],
     "model-based PBT: random output expression trees vs reference interpreter")
prop("C02", "Combining outputs keeps every dependency",
     "The set of resources an output reports depending on is exactly the union of the resources of every output it was computed from, including outputs nested in its inputs and the output returned by an applied function. It never contains a resource that took no part in computing it.",
     ["inputs", "programs"], "every composition of combinators over leaves with arbitrary dependency sets, preview and update",
     "The existing tests check a handful of unions; a single combinator that drops its inner output's resources only shows in particular compositions.",
     ["output.py"], [("resource sets are unioned by each combinator", "output.py Output.apply/all/from_input")],
     ["Output.resources()", "registration request dependencies"],
     "model-based PBT: random output expression trees vs reference interpreter")
prop("C03", "Previews never run functions on unknown values",
     "During a preview a function applied to an output whose value is not known, or contains something unknown at any depth, is never called and the result is unknown; outside a preview it is called with the value. A function applied to a known value is called exactly once with exactly that value, however many outputs or waiters are derived from the result, and the result is known exactly when what the function returned is known.",
     ["inputs", "programs", "configurations"], "every composition of combinators, unknown markers at every depth, dry_run on and off, run_with_unknowns on and off",
     "Tests fix one shape per case; unknown-ness has to be right for every nesting and every composition.",
     ["output.py"], [("dry-run test before calling the function; unknown detection in nested values", "output.py Output.apply, contains_unknowns")],
     ["calls recorded by the applied function", "Output.is_known()"],
     "model-based PBT: random output expression trees vs reference interpreter, call log compared")
prop("C04", "Combinators deliver the fully unwrapped value",
     "Waiting on a combination of outputs yields the same value as doing the same operation on plain values: nested outputs, awaitables, lists, dictionaries (whatever their keys are) and typed input objects are unwrapped to any depth with order, keys and element identity preserved (typed inputs and results keep their class), and concatenation, indexing, attribute access and JSON-like nesting agree with Python's own. An exception raised by an input or an applied function reaches everyone waiting on the result.",
     ["inputs", "programs"], "every composition of combinators over nested inputs up to a bounded size, including failing leaves",
     "Tests cover particular nestings; the value must be right for all shapes.",
     ["output.py", "_types.py"], [("recursive unwrapping in from_input/all", "output.py Output.from_input")],
     ["Output.future()"],
     "model-based PBT: random output expression trees vs reference interpreter")

# ---------------------------------------------------------------- wire
prop("C05", "Property values survive a trip over the engine wire",
     "Serialising a structure of property values - nulls, booleans, numbers, strings, lists, dictionaries, assets, archives, outputs, awaitables, resource references, secrets, unknowns, nested to any depth - and deserialising the result gives back the same structure, with outputs and awaitables resolved, numbers as doubles and null-valued dictionary entries reading as absent. Values that have no wire form are rejected with an error and never sent as something else.",
     ["inputs"], "every nested property value over the supported kinds, with and without each negotiated engine feature",
     "Round-tripping is an all-inputs property; tests pin some tens of examples.",
     ["runtime/rpc.py", "asset.py"], [("serialize_property / deserialize_property", "runtime/rpc.py")],
     ["google.protobuf Struct produced", "deserialised Python value"],
     "PBT round trip plus differential against an independent encoder/decoder")
prop("C06", "Secrets, unknowns and references are encoded as the engine negotiated",
     "A secret output is sent wrapped in the secret signature exactly when the engine supports secrets, otherwise its bare value is sent; an unknown is always sent as the unknown sentinel; a resource is sent as a resource reference (URN, and id for custom resources, unknown ids as the empty string or sentinel the protocol uses) exactly when the engine supports references, otherwise as its id (custom) or URN (component). When output values are kept and supported, every output is sent as an output value carrying its value if known, its secret flag and the sorted URNs it depends on.",
     ["inputs", "configurations"], "every nested property value crossed with every combination of engine features and keep-output-values",
     "Tests fix the feature vector per example; the encoding has to be right for the cross product.",
     ["runtime/rpc.py", "runtime/settings.py"], [("monitor feature flags consulted by serialize_property", "runtime/rpc.py"), ("SupportsFeature negotiation", "runtime/settings.py")],
     ["google.protobuf Struct produced"],
     "differential PBT against an independent reference encoder")
prop("C07", "Decoded engine values keep secrets and unknowns where users see them",
     "When properties from the engine are decoded, a property containing a secret at any depth is delivered as secret as a whole with no secret wrapper left inside it, a property containing an unknown is unknown, and a resource reference becomes the resource registered for its type and version, carrying the referenced URN and id, or falls back to the id or URN string when no such resource type is known. Malformed or unrecognised signatures are rejected with an error.",
     ["inputs"], "every nested wire value with secrets, unknowns, references and assets at every depth",
     "Secret push-up and references nest arbitrarily; tests pin a few shapes.",
     ["runtime/rpc.py"], [("secret push-up in deserialize_property, resource module/package lookup in deserialize_resource", "runtime/rpc.py")],
     ["deserialised values", "resolved outputs' is_secret/is_known"],
     "differential PBT against an independent reference decoder")
prop("C08", "Property names are translated both ways and user keys are left alone",
     "Input names declared by an input type or resource are sent to the engine under their declared engine names, at every depth reached through nested typed inputs, lists and optional values, and engine names in results are translated back so each typed attribute reads the right value. The keys of free-form dictionaries are user data and reach the engine and come back exactly as written.",
     ["inputs", "programs"], "every generated hierarchy of input/output types with clashing snake/camel names and map-typed properties",
     "The existing tests pin particular types; translation has to be right for each type shape, where mistakes only show on map keys that look like property names.",
     ["runtime/rpc.py", "_types.py", "resource.py"], [("translate functions passed through serialize_property/translate_output_properties", "runtime/rpc.py")],
     ["wire keys", "attribute reads on resource outputs"],
     "PBT over generated type hierarchies with a reference translator")
prop("C09", "Engine results are converted to the declared output types",
     "Values from the engine are converted to the declared type of the output at every depth: numbers to int or float, enumerations to their member, dictionaries to output-type instances, lists, mappings and optionals element by element, with missing and null values left as None. A dictionary, list or enumeration value that cannot have the declared type is reported as an error (for a dictionary one naming the resource, if there is one, and the property) rather than delivered; scalars of another kind are delivered unchanged.",
     ["inputs", "programs"], "every generated output type and every conforming or non-conforming value",
     "All-types/all-values property; tests pin single examples.",
     ["runtime/rpc.py", "_types.py"], [("translate_output_properties typed conversion", "runtime/rpc.py")],
     ["types and values of resource outputs"],
     "PBT over generated type annotations with a reference converter")

# ---------------------------------------------------------------- registration
prop("C10", "Registration requests name every dependency of a resource",
     "The dependencies sent for a resource contain the URN of every custom resource reachable from its inputs and its explicit depends-on list, with a component standing for all the custom resources below it (remote components for themselves), and nothing else; the per-property dependencies list the same thing property by property. Dependencies flow through output combinators, nested inputs, and components, and a cycle of explicit dependencies through a component is ignored rather than deadlocking.",
     ["programs", "schedules"], "every generated program of nested components and resources with arbitrary data and explicit dependencies, under every completion order of the engine's replies",
     "Depends on graph shape and reply order; tests cover a dozen fixed programs with immediate replies.",
     ["runtime/rpc.py", "runtime/resource.py", "runtime/resource_cycle_breaker.py"], [("component expansion and cycle breaking", "runtime/rpc.py _expand_dependencies, resource_cycle_breaker.py")],
     ["RegisterResourceRequest.dependencies", "RegisterResourceRequest.propertyDependencies"],
     "model-based PBT: generated programs against a fake engine with generated reply schedules")
prop("C11", "Every resource is registered once, in dependency order, in every schedule",
     "For every order in which the engine answers, a program that completes has sent exactly one registration for each resource it created, with its type, name, parent URN and inputs equal to what the program wrote, and never before the registrations of its parent and of everything it depends on have been answered. Every component's outputs are sent exactly once and the requests' contents do not depend on the reply order. When the engine refuses a request, with whatever status, nothing is sent a second time.",
     ["programs", "schedules"], "every generated program crossed with generated reply orders",
     "Tests reply immediately and in one order; ordering guarantees are over schedules.",
     ["runtime/resource.py", "runtime/rpc_manager.py", "runtime/stack.py"], [("awaiting parent/dependency URNs before the RPC", "runtime/resource.py prepare_resource")],
     ["sequence of engine RPCs"],
     "model-based PBT with harness-owned scheduler (replies released in generated order)")
prop("C12", "Resource options reach the engine and are inherited correctly",
     "Every resource option a program sets (protect, delete-before-replace, ignore and replace changes, custom timeouts, version, plugin URL, import id, additional secret outputs, retain-on-delete, provider and the provider map of components) reaches the engine on that resource's registration with property names translated. Unset options are inherited from the parent where inheritance applies - protection and providers by package - explicit options always winning, an explicit false included.",
     ["programs", "configurations"], "every generated tree of resources with option sets at each level",
     "Interaction of options across levels is combinatorial; tests sample single options.",
     ["resource.py", "runtime/resource.py"], [("option inheritance in Resource construction", "resource.py Resource.__init__")],
     ["RegisterResourceRequest fields"],
     "model-based PBT: option trees vs reference inheritance model at the engine boundary")
prop("C13", "Transformations run in order on every descendant",
     "A resource is registered with the inputs and options obtained by folding its own transformations, then its parent's and each further ancestor's, then those registered on the stack, each seeing the previous one's result; a transformation that returns nothing changes nothing. Each transformation is called exactly once per resource, with that resource, its type and its name, and one resource's transformed inputs or options never leak to another.",
     ["programs"], "every generated tree with transformations at each level that edit, replace or decline",
     "Ordering and leakage need trees with several transformations; tests cover fixed trees.",
     ["resource.py", "runtime/stack.py"], [("transformation list concatenation", "resource.py Resource.__init__")],
     ["transformation call log", "RegisterResourceRequest fields"],
     "model-based PBT: generated transformation trees vs reference fold")
prop("C14", "Aliases cover every former identity of a resource and its ancestors",
     "The aliases sent for a resource are exactly the URNs formed by its own explicit aliases (each with its given or inherited name, type and parent, and its stack and project where it has no parent) together with those implied by every alias of its parent, with no duplicates of the combination rule and the child's name rewritten when it is prefixed by the parent's name. An alias specified as a plain URN is passed through unchanged.",
     ["inputs", "programs"], "every generated chain of resources with generated alias sets",
     "The cross product over ancestor aliases is combinatorial; tests list a few expected URNs.",
     ["resource.py", "urn.py"], [("collapse_alias_to_urn, all_aliases inheritance", "resource.py")],
     ["RegisterResourceRequest.aliases"],
     "model-based PBT: generated alias trees vs reference URN cross product")
prop("C15", "Resource outputs resolve to what the engine returned",
     "After registration each output property resolves to the engine's value for it, otherwise on an update to the input the program gave and on a preview to unknown; secret results and properties named by additional secret outputs that came back secret are secret outputs, unknown results are unknown, and every output depends on the resource itself and on the dependencies the engine reported. The URN and id resolve to the engine's, an empty id on preview being unknown.",
     ["inputs", "programs", "configurations"], "every generated input/engine-reply pair, preview and update",
     "All replies; tests use a fixed monitor that echoes.",
     ["runtime/rpc.py", "runtime/resource.py"], [("resolve_outputs", "runtime/rpc.py")],
     ["resource output attributes"],
     "model-based PBT: generated engine replies vs reference resolution")
prop("C16", "A failing program fails, promptly and completely",
     "If any input, applied function, engine call or resource construction fails, the program run ends with an error - never hangs and never succeeds - even though other resources depend on the failed one, and everything waiting on the failed resource fails too. A run that succeeds has waited for every outstanding engine call, including those started by functions applied to earlier results.",
     ["programs", "schedules", "fault_sequences"], "every generated program with a fault injected at any engine call or user function, under generated reply orders",
     "Tests inject two or three faults in fixed programs; any call may fail at any time.",
     ["runtime/stack.py", "runtime/rpc_manager.py", "runtime/resource.py", "runtime/settings.py"], [("outstanding RPC counting and exception propagation", "runtime/stack.py run_pulumi_func / wait_for_rpcs")],
     ["result of run_in_stack/run_pulumi_func", "engine RPC log"],
     "PBT with generated fault sequences and harness-owned reply schedule; deadlock detected by idle loop")
prop("C17", "Stack exports reach the engine complete and faithful",
     "The stack's outputs are registered once, after the program finished, with exactly the exported names and values: nested outputs resolved, secrets kept secret, unknowns kept unknown, objects exported by their public attributes and resources by reference or attributes, later exports of a name replacing earlier ones. An object that contains itself is cut off rather than recursing forever, but an object merely exported in several places appears in full at each.",
     ["inputs", "programs"], "every generated graph of exported values, sharing and cycles included",
     "All value graphs; tests cover fixed ones.",
     ["runtime/stack.py"], [("massage of exported values", "runtime/stack.py")],
     ["RegisterResourceOutputs for the stack"],
     "model-based PBT: generated export graphs vs reference flattening")
prop("C18", "Merging resource options obeys its documented rules",
     "Merging two sets of resource or invoke options gives, for each option, the second's value if it set one and the first's otherwise; list options are concatenated and provider and dependency collections are combined, scalars and collections interchangeably. Merging changes neither operand, treats an absent set as empty, is associative, and the result can itself be merged further, as a method or a function, with nothing lost.",
     ["inputs"], "all pairs and triples of option sets",
     "Algebraic laws over all option sets; tests merge a few pairs.",
     ["resource.py", "invoke.py"], [("ResourceOptions.merge", "resource.py"), ("InvokeOptions.merge", "invoke.py")],
     ["merged options' fields"],
     "algebraic-law PBT and differential against a reference merge")
prop("C19", "Reading an existing resource behaves like registering it",
     "Looking up an existing resource by id sends one read request with its type, name, parent, provider, inputs, dependencies, version, download URL, additional secret outputs (under the engine's names) and the given id, registers nothing, and resolves its outputs, URN and id from the reply with the same secret, unknown and dependency rules as registration. Rehydrating a resource by URN sends no registration either and resolves it from the engine's stored state; a failed lookup fails the program.",
     ["inputs", "programs", "fault_sequences"], "every generated program mixing reads, registrations and rehydrations with generated replies and faults",
     "Tests read one resource in a fixed program.",
     ["runtime/resource.py"], [("read_resource / get_resource", "runtime/resource.py")],
     ["ReadResource requests", "resource outputs"],
     "model-based PBT against fake engine with fault injection")
prop("C20", "Function calls carry their arguments and results faithfully",
     "Invoking a provider function sends its arguments with inputs unwrapped, with the provider and version the options (or the parent) select for that function's package, and returns the engine's result converted and typed, secret results not losing their values; calls on resources additionally carry each argument's dependencies and give outputs that are secret, unknown or dependent exactly as the reply and arguments say. Failures the provider reports are raised, never returned as results, and using the same options object for several calls gives each the same treatment.",
     ["inputs", "programs", "histories"], "every generated sequence of calls with generated arguments, options, replies and failures, synchronous and asynchronous",
     "Tests call single functions with fixed arguments.",
     ["runtime/invoke.py", "invoke.py", "runtime/sync_await.py"], [("invoke / call", "runtime/invoke.py")],
     ["Invoke/Call requests", "results"],
     "stateful/model-based PBT against fake engine")

# ---------------------------------------------------------------- providers
prop("C21", "Component construction requests do not influence one another",
     "A component provider serving a sequence of construct and call requests handles each with exactly that request's inputs, options, project, stack, config and preview flag, whatever was served before, whether or not earlier requests failed. The reply carries that component's URN, state and dependencies, and a failing request reports its error and leaves the server serving.",
     ["histories", "inputs", "fault_sequences"], "every generated sequence of construct/call requests with generated options, config and failures",
     "Tests serve no sequences; leaked state only shows from the second request on.",
     ["provider/server.py", "runtime/settings.py", "runtime/config.py", "runtime/rpc_manager.py"], [("runtime reset per request, request serialised by a lock", "provider/server.py")],
     ["ConstructResponse/CallResponse", "requests made to the engine while constructing"],
     "stateful PBT: request sequences vs per-request reference and fresh-server differential")
prop("C22", "Component inputs arrive as the caller's outputs",
     "Each input of a remote component or method call arrives in the provider as an input with the same value, known, secret and dependency status the caller's output had: plain values plain, secrets secret, unknowns unknown, and dependencies preserved per property and, for output values, at each nested position. Nothing becomes secret, unknown or dependent that was not.",
     ["inputs", "configurations"], "every nested structure of outputs crossed with engine feature sets and per-property dependencies",
     "End-to-end round trips over all nested structures; tests pin about thirty wire examples.",
     ["provider/server.py", "runtime/rpc.py"], [("input construction from wire values", "provider/server.py _construct_inputs/_select_value")],
     ["inputs seen by Provider.construct/call"],
     "PBT round trip (caller serialisation composed with provider deserialisation)")
prop("C23", "Configuration accessors are typed, required and secret as asked",
     "Configuration values are looked up under the namespaced key, typed accessors parse booleans, integers, numbers and JSON objects and reject anything else with an error naming the key, absent optional values give the default and absent required values an error, and the secret accessors behave identically but return secret outputs. Values set programmatically take effect for all later readers of that context.",
     ["inputs", "histories"], "every string value and key, every accessor, sequences of sets and reads",
     "All strings; tests pin tens of literals.",
     ["config.py", "runtime/config.py"], [("Config accessors", "config.py"), ("context-local configuration", "runtime/config.py")],
     ["accessor results, exceptions, warnings"],
     "differential PBT against a reference parser, stateful over set/get histories")
prop("C24", "Dynamic providers see and return resource state faithfully",
     "For every lifecycle call the user's dynamic provider is called with exactly the ids and properties the engine sent and the engine receives exactly what it returned: check results and failures, the tri-state change verdict with its replaces, stables and delete-before-replace, new ids and outputs. The serialised provider always travels with the returned state, a provider marked unknown falls back to the previous one, and a provider that leaves a method out gets the documented default. Creating a dynamic resource registers its properties and its serialised provider and leaves the caller's dictionary as it was.",
     ["inputs", "histories"], "every generated provider implementation and lifecycle sequence",
     "Tests do not drive the dynamic provider server.",
     ["dynamic/__main__.py", "dynamic/dynamic.py"], [("DynamicResourceProviderServicer", "dynamic/__main__.py")],
     ["gRPC responses of the dynamic provider", "arguments received by the user's provider"],
     "stateful PBT: generated providers and lifecycle sequences vs reference semantics over real servicer")
prop("C25", "Serialising a dynamic provider is deterministic and lossless",
     "Serialising the same dynamic provider twice gives identical bytes however its dictionaries and closures were built up, and the deserialised provider behaves the same as the original. Serialising leaves the process's pickling otherwise unchanged and can be repeated any number of times.",
     ["inputs", "histories"], "every generated provider state, insertion order permutations, repeated serialisations",
     "Tests do not serialise permutations or repeat.",
     ["dynamic/dynamic.py"], [("serialize_provider", "dynamic/dynamic.py")],
     ["serialised provider string"],
     "metamorphic PBT (permutation invariance) and round trip")

# ---------------------------------------------------------------- test runtime etc
prop("C26", "The mock engine tells the program exactly what the mocks answer",
     "Under mocks every created resource and call reaches the user's mocks with its type, name, inputs, provider and id, the resource's id and outputs are exactly those the mock returned, every resource can later be looked up by its URN, which names stack, project, the types of parent and resource, and the name, and calls return the mock's result or raise its failures. Each installation of mocks is independent of earlier ones in features, project, stack, preview mode and registered resources.",
     ["programs", "histories", "inputs"], "every generated program and mocks answers, sequences of installations",
     "The mock runtime is the tests' own scaffolding and is not itself quantified over.",
     ["runtime/mocks.py", "runtime/settings.py"], [("MockMonitor, set_mocks", "runtime/mocks.py")],
     ["MockResourceArgs/MockCallArgs", "resource outputs"],
     "model-based PBT: generated programs and histories of mock installations")
prop("C27", "Stack references return outputs and never reveal secrets",
     "An output read from another stack has that stack's value, none for a missing name (an error when required), and is secret exactly when that name is listed as secret by the stack, or when the name or the list is not yet known and some output is secret. The reference is read, never created.",
     ["inputs"], "every generated set of outputs, secret names (present, absent, unknown) and requested names (plain or output)",
     "Tests cover fixed outputs.",
     ["stack_reference.py"], [("secret name test", "stack_reference.py")],
     ["StackReference.get_output/require_output"],
     "model-based PBT against fake engine")
prop("C28", "Project and stack settings survive being saved and loaded",
     "Saving project or stack settings through a workspace and loading them again gives equal settings, for every field, every config value (plain, secret, structured, numeric, boolean) and both file formats, and saving what was loaded leaves the content equivalent. Existing files of either extension are found and updated in place.",
     ["inputs", "histories"], "all settings values, YAML and JSON, save/load sequences",
     "Tests round-trip two fixed files.",
     ["automation/_project_settings.py", "automation/_stack_settings.py", "automation/_local_workspace.py"], [("to/from dict codecs", "automation/_stack_settings.py, automation/_project_settings.py")],
     ["files on disk", "loaded settings"],
     "round-trip PBT in scratch directories")
prop("C29", "Workspace operations run exactly the CLI command asked for",
     "Each workspace and stack operation runs the CLI once in the workspace's directory with the workspace's environment (home, secrets provider, user variables) and arguments naming exactly the stack, keys, values, flags, targets and options the caller gave, values that look like flags, contain spaces, equals signs or newlines included. Secret config values are always passed as secret and plain ones as plain. The arguments and callbacks a workspace subclass adds are used for every operation, and options reused to create or select several stacks give each stack its own project and program and stay as the caller wrote them.",
     ["inputs", "configurations"], "all operations crossed with generated names, values and options",
     "The stable tests need no CLI; automation tests that do cannot run everywhere and use fixed values.",
     ["automation/_local_workspace.py", "automation/_stack.py", "automation/_cmd.py"], [("argument construction", "automation/_local_workspace.py, automation/_stack.py")],
     ["argv, cwd and environment seen by the CLI process"],
     "differential PBT against a recording CLI stand-in and a reference command model")
prop("C30", "Stack outputs and config read back values with the right secrecy",
     "Reading all outputs of a stack marks an output secret exactly when the CLI masks it, and returns its real value; config reads return each key's value and secret flag exactly as the CLI reports them, and stacks, plugins, history and user information are parsed without loss. Applying a read config back sets the same values and flags, and importing an exported state gives the CLI the same state, leaving no file behind.",
     ["inputs"], "all output and config maps, including values equal to the mask or structured",
     "Tests need a real CLI for these paths and use fixed values.",
     ["automation/_local_workspace.py", "automation/_stack.py"], [("masked/plaintext comparison", "automation/_local_workspace.py stack_outputs")],
     ["OutputMap/ConfigMap returned"],
     "round-trip PBT against a stateful CLI stand-in")
prop("C31", "CLI failures become the right error with full detail",
     "A CLI command that exits non-zero always raises, and one that exits zero never does; the error raised is the specific kind (stack not found, already exists, concurrent update, compilation, runtime, inline program) when and only when the CLI's output says so, and always carries the exit code, standard output and standard error. Output is delivered to the caller's callback line by line, complete and in order.",
     ["inputs", "fault_sequences"], "all exit codes and outputs, including the recognised messages embedded in other text",
     "Tests need a real CLI failing in fixed ways.",
     ["automation/_cmd.py", "automation/errors.py", "automation/_stack.py"], [("create_command_error", "automation/errors.py")],
     ["exception type, fields, callback lines"],
     "PBT against a scripted CLI stand-in with reference classifier")
prop("C32", "Only compatible CLI versions are accepted",
     "A CLI older than the minimum version or of a different major version is refused with an error unless the check is switched off, any other is accepted, and an unparsable version is refused unless the check is switched off. Versions order by semantic-version rules including prereleases.",
     ["inputs", "configurations"], "all version triples with prerelease/build parts, opt-out on and off",
     "Tests pin seven versions.",
     ["automation/_local_workspace.py", "automation/_minimum_version.py"], [("_parse_and_validate_pulumi_version", "automation/_local_workspace.py")],
     ["constructor of a local workspace"],
     "PBT against reference semver comparison")
prop("C33", "Engine events are parsed without loss",
     "Every engine event in the CLI's event log is delivered to the caller in order with its sequence number, timestamp and exactly the payload kind it has, every field of every payload preserved under its documented name, optional and unknown fields tolerated. Operation results, policy violations, diagnostics and detailed diffs carry all their data.",
     ["inputs"], "all events conforming to the engine's JSON event schema",
     "Tests parse fixed events of a few kinds.",
     ["automation/events.py"], [("from_json constructors", "automation/events.py")],
     ["EngineEvent objects given to on_event"],
     "PBT: events generated from the engine's API schema vs field-by-field oracle")
prop("C34", "Stack operations pass every option and return the whole result",
     "Up, preview, refresh and destroy pass each given option to the CLI and none other, deliver every event the CLI logged to the event callback in order before returning, however the log's writes are split, and return the CLI's standard output and error, the outputs and the latest history entry. A preview's change summary equals the one the engine reported.",
     ["inputs", "schedules"], "all option sets, event logs and write chunkings",
     "Needs a real CLI in existing tests.",
     ["automation/_stack.py"], [("_parse_extra_args, _run_pulumi_cmd_sync, log watcher", "automation/_stack.py")],
     ["argv", "event callback", "results"],
     "PBT against a scripted CLI stand-in that chunks its event log")
prop("C35", "Inline programs run with the stack and config the engine names",
     "An inline program served to the engine runs once per run request with exactly that request's project, stack, organization, config, secret keys and preview flag, earlier runs and those going on at the same time leaving no trace in it, and what it exports becomes the outputs of that stack. Any failure of the program (an exception, an exit, a failed resource) is answered as an error saying what failed and told to the engine once, and the next request is still served.",
     ["histories", "inputs", "schedules", "fault_sequences"], "all sequences of run requests, in turn and at the same time, with generated programs, config and failures",
     "Tests need a CLI to drive the language server.",
     ["automation/_server.py", "runtime/stack.py", "runtime/config.py", "runtime/settings.py"], [("LanguageServer.Run", "automation/_server.py")],
     ["RunResponse", "engine RPCs", "config seen by the program"],
     "stateful PBT: run-request histories against the language server and a fake engine")
prop("C36", "References resolve to the newest compatible registered type",
     "A resource reference is rehydrated by the registered module or package for its type whose version has the same major version and is the highest registered one that is not lower than the requested minor and patch levels, or the highest registered when no version is requested, independent of registration order. Where none qualifies the reference is treated as unknown, and provider references use packages the same way.",
     ["inputs", "histories"], "all registries of versions in all registration orders and all requested versions",
     "Tests register one fixed set.",
     ["runtime/rpc.py"], [("register_resource_module/package, get_resource_module/package", "runtime/rpc.py")],
     ["which module constructed the resource"],
     "PBT against a reference selection, permutations of registration order")
prop("C37", "Constructed URNs identify stack, project, parent type chain, type and name",
     "A URN built for a resource states its stack, project, the chain of its ancestors' types, its type and its name, equals the URN the engine assigns the same resource, and parsing it gives back those parts. Distinct (stack, project, parent, type, name) combinations give distinct URNs and explicit stack, project and parent arguments override the running program's.",
     ["inputs"], "all stack, project, type-chain and name strings",
     "Tests use one or two URNs.",
     ["urn.py", "resource.py"], [("create_urn", "resource.py")],
     ["value of the URN output"],
     "round-trip PBT against reference URN grammar")
prop("C38", "JSON conversion of property structures loses nothing",
     "Converting a structure of property values to JSON gives the standard JSON text of the same structure with typed input objects, at any depth of lists and dictionaries, written as dictionaries under their engine property names. Unset properties are left out as the dictionary form leaves them out, strings and bytes are never treated as lists, and values JSON cannot represent raise the standard error.",
     ["inputs"], "all nested structures of JSON values, mappings, sequences and typed inputs",
     "Tests cover fixed structures.",
     ["runtime/_json.py", "_types.py"], [("to_json", "runtime/_json.py")],
     ["JSON text"],
     "differential PBT against json.dumps of an independently flattened structure")
prop("C39", "User log messages reach the engine",
     "Each message logged by a program is sent to the engine once with its text, severity, stream and ephemeral flag and the URN of the resource it concerns; a message about no resource is sent at once, and the messages about one resource keep the order they were logged in. The program does not finish successfully before its messages are delivered. Without an engine every information, warning and error message is written to standard error with its severity, in order, and debug messages are dropped.",
     ["inputs", "schedules"], "all message sequences with and without resources and engine",
     "Tests log one or two messages.",
     ["log.py"], [("_log", "log.py")],
     ["LogRequest stream", "stderr"],
     "model-based PBT: generated log histories against a recording engine")
prop("C40", "Typed inputs and outputs behave as their declarations say",
     "A class declared as an input or output type keeps one value for each declared property, which constructor arguments, attributes, pulumi.get and pulumi.set and, for dictionary types, items read and write interchangeably; a property never set reads as None and an omitted argument takes its declared default. This holds for properties declared by annotations or by getters, renamed, inherited or with written bodies. Two instances are equal exactly when they have the same class and values, output types cannot be assigned through attributes, and building one from an engine dictionary gives each property the value under its engine name.",
     ["programs", "histories"], "all generated class declarations and access histories",
     "Tests pin some ten classes.",
     ["_types.py"], [("input_type/output_type/getter/property", "_types.py")],
     ["attribute access, dict view"],
     "stateful PBT over generated classes vs dictionary model")
prop("C41", "Program exit status tells the engine the truth",
     "Running a program through the language executor exits with status zero when the program ran to completion without an unhandled error and all its engine calls succeeded. Otherwise exactly one error saying what failed is sent to the engine before the process ends with the status reserved for failures already explained, or with status one for a run error; a program that exits itself ends with the status it chose. The program sees its arguments, working directory, project, stack, organization and config exactly as the engine passed them.",
     ["programs", "configurations", "fault_sequences"], "generated programs ending in each way (normal, exceptions, resource failure, sys.exit) and flags",
     "No stable test runs the executor.",
     ["sdk/python/cmd/pulumi-language-python-exec", "runtime/stack.py", "runtime/settings.py"], [("exception handlers around the program", "cmd/pulumi-language-python-exec")],
     ["process exit status", "engine log"],
     "PBT: generated programs run as processes against a loopback gRPC engine")
prop("C42", "A component provider process serves what its author wrote",
     "A component provider program announces the port it listens on as the one line it writes to standard output. It reports the version and schema its author gave (an empty schema when none was), accepts secrets, resource references and outputs, and answers each construct and call request - also one of many megabytes, and with a result of many megabytes - with what the implementation returned. A method the provider does not implement, an implementation that raises, and an unsupported schema version are answered with an error saying so, and the process goes on serving. What the implementation logs reaches the engine the provider was started with.",
     ["inputs", "histories"], "all sequences of requests to generated providers, started with every form of command line",
     "No stable test starts a provider process.",
     ["provider/server.py", "provider/provider.py", "runtime/settings.py"], [("main, Construct, Call, GetSchema, GetPluginInfo, Configure", "provider/server.py")],
     ["standard output", "responses", "engine log"],
     "stateful PBT: request histories against the real provider process and a loopback gRPC engine")
prop("C43", "Policy packs run with what the engine passed and report how they ended",
     "A policy pack started by the engine runs once as the main program, in its own folder, and sees the project, stack, preview flag, organization and config values the engine passed, config set by the pack itself included. The process ends with status zero when the pack completes, with the status the pack chose when it exits itself, and otherwise with status one after the failure and its traceback were written to standard error. Everything it printed and logged reaches standard output and standard error complete and in order.",
     ["programs", "configurations"], "generated packs ending in each way, started from every form of path with generated config and stack",
     "No stable test starts a policy pack.",
     ["policy/__main__.py", "runtime/settings.py", "runtime/config.py", "sdk/python/dist/pulumi-analyzer-policy-python"], [("main", "policy/__main__.py")],
     ["process exit status", "standard output and error"],
     "PBT: generated packs run as processes")
prop("C44", "Plugin launch scripts start the interpreter the project chose",
     "The scripts that launch dynamic providers and policy packs start the Python of the virtual environment the project names (an absolute path or one relative to the working directory, whatever characters it holds), with that environment first on the search path and PYTHONHOME unset; without one they start the interpreter named by PULUMI_PYTHON_CMD, or python3. The arguments, working directory, output and exit status pass through unchanged. An environment that does not exist or is none is reported on standard error with status one and nothing is started.",
     ["inputs", "configurations"], "all virtual environment paths, environment settings, arguments and exit statuses",
     "No stable test runs the scripts.",
     ["sdk/python/dist/pulumi-resource-pulumi-python", "sdk/python/dist/pulumi-analyzer-policy-python"], [("the whole script", "dist/pulumi-resource-pulumi-python")],
     ["which interpreter ran, with which arguments and environment", "exit status"],
     "PBT: generated environments against a recording interpreter")
prop("C45", "Lazily imported modules behave as imported ones",
     "A module obtained by lazy import, at any depth of packages and through any cycle of references, is the one module registered under its name, does what the module does when imported in the ordinary way, and runs exactly once and not before something of it or of a module below it is used. Importing it again, lazily, in the ordinary way after the packages above it have run, or by walking down from the root package gives the same module with the state it was left in.",
     ["programs", "histories"], "generated trees of packages with lazy and ordinary bindings and references, and histories of imports and uses",
     "One stable test imports a package of one module.",
     ["_utils.py"], [("lazy_import", "_utils.py")],
     ["module identity, attributes, number of times each module ran"],
     "stateful PBT: generated packages and import histories vs reference semantics of imports")
