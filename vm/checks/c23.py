"""C23: recorded dependencies are exactly what a call used."""
from .. import versionrun

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("generated codebases (1-4 modules, four layouts) with tracked functions, generators, classes and globals and memoized functions calling each other, edited over several sessions; the dependencies of every recorded version are compared with what an interpreter saw run and read")
BUDGET = {"quick": (100000, 30), "thorough": (1000000, 420)}
REQUIRED_EVENTS = {"calls": 1000, "dependency_sets_compared": 1000, "dependencies_compared": 4000, "raising_calls": 50, "nested_calls": 100}
PROFILE = {"classes": 1.0, "globals": 1.3, "rounds": [2, 4], "no": 0.2, "refuse": 0.0, "handled": 2.5}
TAGS = ["deps"]


def gen(rng, i, tier):
    return versionrun.gen(rng, PROFILE)


def run(case, env):
    return versionrun.run(case, env, TAGS)
