from .. import sim
from ..simcheck import standard, finish, DOM
PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("Each case generates 2-5 functions (positional-only, ordinary, keyword-only, *args, **kwargs parameters, defaults, one, "
        "several, named or variable outputs, collections, nesting) and a program of contexts, calls in all styles with raw values "
        "and references, cache clearing/preloading, reopenings and new processes. Each call's outputs, unwrapped, are compared with "
        "the undecorated body's. Non-trivial: at least 4 calls, some of them answered from the storage.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"call_run": 100, "call_hist": 50, "values_checked": 200, "sessions": 3, "reopens": 3}
PROF = {}


def gen(rng, i, tier):
    return standard(rng, PROF, 45 if tier == "thorough" and i % 3 == 0 else 26)


def run(case, env):
    s = sim.Sim(case, env, ()).run(case["steps"])
    return finish(s, env, env.events["calls"] > 3 and env.events["call_hist"] + env.events["call_content"])
