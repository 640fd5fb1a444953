"""C25: dropping a version removes exactly that version's calls and their dependents."""
from .. import versionrun

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("generated codebases (1-4 modules, four layouts) with tracked functions, generators, classes and globals and memoized functions calling each other, edited over several sessions; versions and calls are dropped; the saved calls, later executions and questions are compared with a model")
BUDGET = {"quick": (100000, 30), "thorough": (1000000, 420)}
REQUIRED_EVENTS = {"calls": 1200, "version_drops": 120, "calls_dropped_with_versions": 200, "executions": 800, "call_drops": 50}
PROFILE = {"drop": 0.6, "chain": 0.45, "refuse": 0.03, "no": 0.25}
TAGS = ["drop"]


def gen(rng, i, tier):
    return versionrun.gen(rng, PROFILE)


def run(case, env):
    return versionrun.run(case, env, TAGS)
