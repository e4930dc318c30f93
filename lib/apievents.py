"""Engine events by the schema of the engine's API: generator and field-by-field comparison with what the SDK made of them."""
from harness import fail, same
from hypothesis import strategies as st

# sdk/go/common/apitype/events.go: field -> (attribute, kind, always written)
DIAG = {"urn": ("urn", "str", 0), "prefix": ("prefix", "str", 0), "message": ("message", "str", 1), "color": ("color", "str", 1), "severity": ("severity", "sev", 1), "streamID": ("stream_id", "int", 0), "ephemeral": ("ephemeral", "bool", 0)}
POLICY = {"resourceUrn": ("resource_urn", "str", 0), "message": ("message", "str", 1), "color": ("color", "str", 1), "policyName": ("policy_name", "str", 1), "policyPackName": ("policy_pack_name", "str", 1),
          "policyPackVersion": ("policy_pack_version", "str", 1), "policyPackVersionTag": ("policy_pack_version_tag", "str", 1), "enforcementLevel": ("enforcement_level", "level", 1)}
STDOUT = {"message": ("message", "str", 1), "color": ("color", "str", 1)}
PRELUDE = {"config": ("config", "strmap", 1)}
SUMMARY = {"maybeCorrupt": ("maybe_corrupt", "bool", 1), "durationSeconds": ("duration_seconds", "int", 1), "resourceChanges": ("resource_changes", "opmap", 1), "PolicyPacks": ("policy_packs", "strmap", 1)}
STATE = {"type": ("type", "str", 1), "urn": ("urn", "str", 1), "custom": ("custom", "bool", 0), "delete": ("delete", "bool", 0), "id": ("id", "str", 1), "parent": ("parent", "str", 1), "protect": ("protect", "bool", 0),
         "inputs": ("inputs", "any", 1), "outputs": ("outputs", "any", 1), "provider": ("provider", "str", 1), "initErrors": ("init_errors", "strs", 0)}
META = {"op": ("op", "op", 1), "urn": ("urn", "str", 1), "type": ("type", "str", 1), "old": ("old", "state", 1), "new": ("new", "state", 1), "keys": ("keys", "strs", 0), "diffs": ("diffs", "strs", 0),
        "detailedDiff": ("detailed_diff", "diff", 0), "logical": ("logical", "bool", 0), "provider": ("provider", "str", 1)}
DIFF = {"diffKind": ("diff_kind", "dk", 1), "inputDiff": ("input_diff", "bool", 1)}
PRE = {"metadata": ("metadata", "meta", 1), "planning": ("planning", "bool", 0)}
FAILED = {"metadata": ("metadata", "meta", 1), "status": ("status", "int", 1), "steps": ("steps", "int", 1)}
EVENTS = {"cancelEvent": ("cancel_event", {}, "CancelEvent"), "stdoutEvent": ("stdout_event", STDOUT, "StdoutEngineEvent"), "diagnosticEvent": ("diagnostic_event", DIAG, "DiagnosticEvent"),
          "preludeEvent": ("prelude_event", PRELUDE, "PreludeEvent"), "summaryEvent": ("summary_event", SUMMARY, "SummaryEvent"), "resourcePreEvent": ("resource_pre_event", PRE, "ResourcePreEvent"),
          "resOutputsEvent": ("res_outputs_event", PRE, "ResOutputsEvent"), "resOpFailedEvent": ("res_op_failed_event", FAILED, "ResOpFailedEvent"), "policyEvent": ("policy_event", POLICY, "PolicyEvent")}
OPS = ["same", "create", "update", "delete", "replace", "create-replacement", "delete-replaced", "read", "read-replacement", "refresh", "discard", "discard-replaced", "remove-pending-replace", "import", "import-replacement"]
KINDS = ["add", "add-replace", "delete", "delete-replace", "update", "update-replace"]

strs = st.one_of(st.sampled_from(["", "a", "urn:pulumi:dev::p::t:m:T::n", "é\n\u2028", "<{%reset%}>x", "null", "[secret]", "a.b[0]"]), st.text(st.characters(exclude_categories=["Cs"]), max_size=5))
anys = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**53, 2**53), st.floats(allow_nan=False, allow_infinity=False), strs), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(strs, c, max_size=3)), max_leaves=6)


@st.composite
def field(draw, kind, must):
    if kind == "str":
        return draw(strs if must else strs.filter(bool))
    if kind == "int":
        return draw(st.integers(0 if must else 1, 10**9))
    if kind == "bool":
        return draw(st.booleans()) if must else True
    if kind == "sev":
        return draw(st.sampled_from(["info", "info#err", "warning", "error", "debug"]))
    if kind == "level":
        return draw(st.sampled_from(["warning", "mandatory", "advisory"]))
    if kind == "op":
        return draw(st.sampled_from(OPS))
    if kind == "dk":
        return draw(st.sampled_from(KINDS))
    if kind == "strmap":
        return draw(st.one_of(st.none(), st.dictionaries(strs, strs, max_size=3)))
    if kind == "opmap":
        return draw(st.one_of(st.dictionaries(st.sampled_from(OPS), st.integers(0, 1000), max_size=4), st.none()))
    if kind == "strs":
        return draw(st.one_of(st.lists(strs, min_size=1, max_size=3), st.lists(strs, min_size=11, max_size=14)) if draw(st.integers(0, 7)) == 7 else st.lists(strs, min_size=1, max_size=3))
    if kind == "any":
        return draw(st.one_of(st.none(), st.dictionaries(strs, anys, max_size=3)))
    if kind == "state":
        return draw(st.one_of(st.none(), obj(STATE)))
    if kind == "meta":
        return draw(obj(META))
    if kind == "diff":
        return draw(st.dictionaries(strs, obj(DIFF), min_size=1, max_size=3))
    raise AssertionError(kind)


@st.composite
def obj(draw, spec):
    names = draw(st.permutations([n for n, (_, _, must) in spec.items() if must or draw(st.booleans())]))
    d = {n: draw(field(spec[n][1], spec[n][2])) for n in names}
    if draw(st.integers(0, 7)) == 0:  # a newer tool may say more
        d[draw(st.sampled_from(["futureField", "debug", "tags", "urn_", "resource_urn", "detailed_diff", "streamId"]))] = draw(anys)
    return d


@st.composite
def event(draw, kind=None):
    d = {"sequence": draw(st.integers(0, 10**6)), "timestamp": draw(st.integers(0, 2**33))}
    kind = kind or draw(st.sampled_from(list(EVENTS) + ["resourcePreEvent", "resOutputsEvent", "diagnosticEvent", "unknown"]))
    if kind == "unknown":
        d["somethingNewEvent"] = {"x": 1}
    else:
        d[kind] = draw(obj(EVENTS[kind][1]))
    return d


NONE_FOR_ABSENT = object()


def check_obj(path, got, data, spec, cls):
    from pulumi.automation import events
    if type(got).__name__ != cls:
        fail(f"{path} is {got!r}, expected a {cls}")
    for name, (attr, kind, must) in spec.items():
        v = getattr(got, attr)
        if name not in data:
            if v not in (None, False, 0, ""):
                fail(f"{path}.{attr} is {v!r}; the event does not have it")
            continue
        want, where = data[name], f"{path}.{attr}"
        if kind == "state":
            if want is None:
                if v is not None:
                    fail(f"{where} is {v!r}, expected none")
            else:
                check_obj(where, v, want, STATE, "StepEventStateMetadata")
        elif kind == "meta":
            check_obj(where, v, want, META, "StepEventMetadata")
        elif kind == "diff":
            if not isinstance(v, dict) or list(v) != list(want):
                fail(f"{where} is {v!r}, the event has {want!r}")
            for k in want:
                check_obj(f"{where}[{k!r}]", v[k], want[k], DIFF, "PropertyDiff")
        elif kind == "op":
            if v is not events.OpType(want):
                fail(f"{where} is {v!r}, the event has {want!r}")
        elif kind == "dk":
            if v is not events.DiffKind(want):
                fail(f"{where} is {v!r}, the event has {want!r}")
        elif kind == "opmap":
            if (v or {}) != (want or {}) or {str(getattr(k, "value", k)) for k in v or {}} != set(want or {}):
                fail(f"{where} is {v!r}, the event has {want!r}")
        elif kind == "strmap":
            if not same(v or {}, want or {}):
                fail(f"{where} is {v!r}, the event has {want!r}")
        elif not same(v, want):
            fail(f"{where} is {v!r}, the event has {want!r}")


def check_event(got, data):
    if not same(got.sequence, data["sequence"]) or not same(got.timestamp, data["timestamp"]):
        fail(f"sequence {got.sequence!r} and timestamp {got.timestamp!r}, the event has {data['sequence']} and {data['timestamp']}")
    for name, (attr, spec, cls) in EVENTS.items():
        v = getattr(got, attr)
        if name in data:
            check_obj(attr, v, data[name], spec, cls)
        elif v is not None:
            fail(f"{attr} is {v!r}; the event is {data}")
