"""C33 engine events are parsed without loss."""
import json

from apievents import check_event, event
from harness import fail, part, same


def run(case, rec):
    from pulumi.automation import EngineEvent

    data = json.loads(json.dumps(case))
    got = EngineEvent.from_json(data)
    check_event(got, case)
    if not same(data, json.loads(json.dumps(case))):
        fail("reading the event changed it")
    repr(got), str(got)
    if len(case) == 3 and any(isinstance(v, dict) and len(v) > 2 for v in case.values()):
        rec.nontriv()
    rec.label(next(iter(set(case) - {"sequence", "timestamp"})))


@part("fields", quick=8000, thorough=300000, shards=6, batch=500, rule="events whose payload has at least three fields")
def fields():
    return event(), run
