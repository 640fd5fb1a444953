"""C27: what is shown of versions is what is recorded."""
from .. import versionrun

PROPERTY = "C27"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: what is printed is parsed and compared with the recorded versions and the sources"
RULE = ("generated codebases edited over several sessions; what is printed before each question (the difference, the versions concerned), the versions of the memoized functions with their dependencies, the history of the sources (in full and as differences, plain and in panels), the code of versions and the differences between them are parsed back and compared with the recorded versions, which C24 compares with a model; showing them may not change them")
BUDGET = {"quick": (100000, 30), "thorough": (1000000, 420)}
REQUIRED_EVENTS = {"calls": 500, "looks": 200, "things_shown_compared": 8000}
PROFILE = {"refuse": 0.2, "no": 0.4, "session": 0.5}
TAGS = ["shown"]


def gen(rng, i, tier):
    return versionrun.gen(rng, PROFILE)


def run(case, env):
    return versionrun.run(case, env, TAGS)
