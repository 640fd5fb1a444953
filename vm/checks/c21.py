"""C21: with versioning on, no result of changed code is ever reused."""
from .. import versionrun

from .. import known
PROPERTY = "C21"
PROBES = known.PROBES["C21"]
LEVEL = "exploration"
RULE = ("generated codebases (1-4 modules, four layouts) with tracked functions, generators, classes and globals and memoized functions calling each other, edited over several sessions; every call is compared with an interpreter of the current code and a model of which saved calls may be reused")
BUDGET = {"quick": (100000, 30), "thorough": (1000000, 420)}
REQUIRED_EVENTS = {"calls": 1200, "executions": 800, "reused": 300, "questions": 200, "nested_calls": 150}
PROFILE = {"no": 0.15, "refuse": 0.03, "paths": 0.5, "rare": 0.6, "repeat": 0.75, "edits": 2, "focus": 0.35}
TAGS = ["stale", "unasked"]


def gen(rng, i, tier):
    return versionrun.gen(rng, PROFILE)


def run(case, env):
    return versionrun.run(case, env, TAGS)
