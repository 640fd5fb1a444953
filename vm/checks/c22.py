"""C22: with versioning on, nothing is recomputed without need."""
from .. import versionrun

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("generated codebases (1-4 modules, four layouts) with tracked functions, generators, classes and globals and memoized functions calling each other, edited over several sessions; many edits are non-semantic, unrelated, cosmetic or reverted; executions and questions are compared with a model")
BUDGET = {"quick": (100000, 30), "thorough": (1000000, 420)}
REQUIRED_EVENTS = {"calls": 1200, "executions": 600, "reused": 400, "questions": 150, "answered_no": 40}
PROFILE = {"no": 0.5, "refuse": 0.03, "revert": 0.4, "unrelated": 0.4, "session": 0.6, "walk": 0.35}
TAGS = ["needless", "question"]


def gen(rng, i, tier):
    return versionrun.gen(rng, PROFILE)


def run(case, env):
    return versionrun.run(case, env, TAGS)
