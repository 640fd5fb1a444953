"""C24: the version history is complete, durable and unaffected by failed syncs."""
from .. import versionrun

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("generated codebases (1-4 modules, four layouts) with tracked functions, generators, classes and globals and memoized functions calling each other, edited over several sessions; many syncs are refused half-way; after every session a fresh process compares all recorded versions, their sources and parents and all saved calls with a model; some sessions are run again in processes killed at a random write or commit, and what is left is read and the session repeated on it; in others saving fails at a random write or commit and is repeated, at once or by the next exit")
BUDGET = {"quick": (100000, 30), "thorough": (1000000, 420)}
REQUIRED_EVENTS = {"calls": 1000, "refusals": 60, "looks": 400, "commits_compared": 3000, "saved_calls_compared": 2500, "sessions_killed": 30, "exits_that_failed": 6, "killed_sessions_repeated": 30}
PROFILE = {"refuse": 0.5, "no": 0.3, "session": 0.7}
TAGS = ["history", "rows"]


def gen(rng, i, tier):
    case = versionrun.gen(rng, PROFILE)
    case.pop("fails", None)
    if rng.random() < .35:
        n = len(versionrun.plan(case))
        case["crash"] = sorted(rng.sample(range(n), min(n, rng.choice([1, 2]))))
        case["kills"] = 6 if tier == "thorough" else 2
        case["salt"] = rng.randrange(10 ** 6)
    elif rng.random() < .3:
        case["fails"] = rng.sample(range(8), 5)
    return case


def run(case, env):
    return versionrun.run(case, env, TAGS)
