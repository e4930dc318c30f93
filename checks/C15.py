"""C15 what the outputs of a registered resource resolve to."""
import reply
import typedres
from harness import part


def run(case, rec):
    reply.judge(case, rec)


@part("resolve", quick=6000, thorough=150000, shards=8, rule="a non-empty reply and some input that is not null")
def resolve():
    return reply.cases(["custom", "custom", "comp", "remote"]), run


def run_typed(case, rec):
    typedres.run(case, rec, requests=False)


@part("typed", quick=1500, thorough=40000, shards=6, rule="at least two non-empty typed objects or dictionaries in the inputs; most are missing from the reply")
def typed():
    return typedres.cases(["custom", "remote", "component"], [True, False, False]), run_typed
