from .. import sim
from ..simcheck import standard, finish, DOM
PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("Random programs in which most parameters and outputs are memoized lists and dicts (nested, empty, with more than ten "
        "elements), built from raw values, references, elements of other collections and whole collections, over several "
        "sessions. References are checked element by element and unwrapped; the database is decoded and compared with the "
        "calls and structural calls of the model. Non-trivial: at least 3 calls and a structural call in the database.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"struct_calls": 300, "call_run": 100, "call_hist": 50, "sessions": 3}


def gen(rng, i, tier):
    prof = {"struct": .75, "structout": .8, "repeat": .35, "pool": rng.choice([3, 5]), "retrace": .2}
    return standard(rng, prof, 40 if tier == "thorough" and i % 3 == 0 else 22)


def run(case, env):
    s = sim.Sim(case, env, {"db"}).run(case["steps"]).final()
    n = sum(1 for m in s.models for c in m.calls.values() if c.op.startswith("__"))
    env.events["struct_calls"] += n
    return finish(s, env, env.events["calls"] > 2 and n)
