#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits and the property table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [  # (fragment of the subject, property)
    ("Output.from_input of an input type", "C04"), ("takes dictionaries whose keys are not strings", "C04"), ("coroutine as the depends_on", "C10"), ("a program ended before tasks started", "C16"), ("raised by the very last apply", "C16"), ("children added to a component while", "C10"),
    ("deadlock when a remote component", "C10"), ("serializing an output added dependencies", "C02"), ("hang when the outputs of a read resource", "C16"),
    ("raised by an apply that nothing waits for", "C16"), ("component's provider was inherited", "C12"), ("providers option of a remote component", "C12"),
    ("inputs a remote component's reply leaves out", "C15"),
    ("joining two outputs ignored", "C18"), ("options given as tuples", "C18"), ("merging a third options", "C18"), ("invoke options without a version", "C18"),
    ("long chain of dependent", "C11"), ("read by an unknown id", "C19"), ("alias that is not known", "C14"),
    ("exported in several places", "C17"), ("exporting a number enumeration", "C17"),
    ("create_urn no longer puts", "C37"), ("property named items to JSON", "C38"),
    ("comparing two dictionary types", "C40"), ("attribute of a base class was taken", "C40"),
    ("did not reach the mocks", "C26"), ("mocked call without failures", "C26"), ("mocked resource without an id", "C26"),
    ("added the provider to the caller's", "C24"), ("provider that is not known yet", "C24"), ("reading a dynamic resource that is gone", "C24"), ("check result without inputs", "C24"), ("stable properties of a dynamic", "C24"),
    ("left the process's pickling", "C25"), ("depended on what had been pickled", "C25"),
    ("error for a secret property of the wrong type", "C09"), ("function's empty result", "C09"), ("invoking a function changed the caller", "C20"),
    ("CLI that printed no version", "C32"), ("dropped structured config values", "C28"), ("runtime, template and backend", "C28"), ("settings of a stack from an empty", "C28"),
    ("stream of a diagnostic", "C33"), ("resource of a policy event", "C33"), ("detailed diff of a step", "C33"), ("field this version does not know", "C33"),
    ("failed import left", "C30"), ("listing plugins failed", "C30"), ("secret configuration that is not shown", "C30"), ("update in progress", "C30"),
    ("reused for another stack", "C29"), ("verbosity of an operation", "C34"), ("events of an operation were lost", "C34"),
    ("run without config saw", "C35"), ("RunError without a message", "C35"), ("inline program that exited", "C35"), ("failed inline program's error", "C35"), ("running in parallel took", "C35"), ("dot in its name", "C41"), ("ignored the parent of the components", "C21"), ("get_organization() failed", "C21"), ("failed one request failed all", "C21"), ("arrived as its wire encoding", "C22"), ("launcher split and expanded", "C44"), ("could run modules twice", "C45"), ("input that is cancelled left", "C16"), ("program that failed by a cancellation", "C41"), ("request that failed by a cancellation", "C21"), ("call was answered before", "C21"),
    ("combining outputs lost the properties of input types", "C04"),
    ("combining an input type with unknown properties", "C03"),
    ("combining outputs turned typed results", "C04"), ("typed results with properties named like methods", "C04"),
]
path = os.path.join(root, "known_findings.json")
d = json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
d["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        ps = [p for f, p in PROPS if f in s]
        assert len(ps) == 1, (s, ps)
        d["fixed"].append(f"fixed: property={ps[0]} {h} {s[5:]}")
json.dump(d, open(path, "w"), indent=1)
print(len(d["fixed"]), "fixes")
