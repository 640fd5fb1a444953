from .. import sim
from ..simcheck import standard, finish, DOM
PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("Random programs over generated functions with few distinct values, so that calls repeat with equal content and equal or "
        "different histories; stretches of the program are repeated later, after clearing, preloading, reopening, and in new "
        "processes. Each execution of a body is counted and must be one the model (calls saved so far, by content) demands. "
        "Non-trivial: at least 4 calls that had to be answered from the storage.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"call_hist": 200, "call_content": 50, "sessions": 3, "reopens": 3, "clears": 3}


def gen(rng, i, tier):
    prof = {"pool": rng.choice([3, 4]), "repeat": .5, "retrace": .5, "struct": .25}
    return standard(rng, prof, 45 if tier == "thorough" and i % 3 == 0 else 26, overflow=.2)


def run(case, env):
    s = sim.Sim(case, env, ()).run(case["steps"])
    return finish(s, env, env.events["call_hist"] + env.events["call_content"] > 3)
