from .. import sim
from ..simcheck import standard, finish, DOM
PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("Random programs with small values and values above and below the overflow threshold, over several sessions (new "
        "processes). Every time the outermost context exits, and after each reopening, an offline checker decodes the database "
        "(calls table, shapes, atoms, overflow files) with a fresh storage and compares the set of calls, names, ids, and loaded "
        "values with the calls made. Non-trivial: at least 3 calls stored and 3 stored references loaded.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"db_checks": 100, "db_calls": 1000, "stored_refs_loaded": 1000, "sessions": 3, "reopens": 3}


def gen(rng, i, tier):
    prof = {"big": rng.choice([200, 900, 3000]), "repeat": .3, "struct": .3}
    c = standard(rng, prof, 45 if tier == "thorough" and i % 3 == 0 else 24, mem=.05, overflow=.6)
    c["steps"].append(["session", [["check", 0, True]]])
    return c


def run(case, env):
    s = sim.Sim(case, env, {"db"}).run(case["steps"]).final()
    return finish(s, env, env.events["db_calls"] > 2 and env.events["stored_refs_loaded"] > 2)
