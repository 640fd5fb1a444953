from .. import sim
from ..simcheck import finish, DOM
from .c13 import gen_drop
PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("Random programs (collections, values in overflow files, several sessions) with deletions and clean-ups at random points, "
        "also inside contexts (where they are refused). After each clean-up the stored references, values and overflow files must be "
        "exactly those the remaining calls need, computed from the model, and every remaining call's inputs, outputs and elements "
        "must load. Non-trivial: at least 4 calls and a clean-up that removed something.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"cleanups": 100, "cleaned_refs": 200, "cleaned_values": 100, "kept_refs": 500, "drops": 50}
PROF = {"struct": .3, "repeat": .6, "big": 900}
def gen(rng, i, tier):
    pool, specs = sim.gen_world(rng, PROF)
    hist = []
    steps = []
    while len(steps) < 30:
        steps += sim.gen_steps(rng, specs, pool, PROF, rng.choice([3, 8]), hist=hist)
        if rng.random() < .4:   # inside a context, with calls that are not committed yet
            steps.append(["enter", 0])
            for _ in range(rng.choice([1, 2, 3])):
                steps.append(rng.choice(hist) if hist and rng.random() < .5 else sim.gen_call(rng, specs, pool, PROF))
            if rng.random() < .6: steps.append(gen_drop(rng))
            steps.append(["cleanup"])
            for _ in range(rng.choice([0, 2])):
                steps.append(rng.choice(hist) if hist and rng.random() < .7 else sim.gen_call(rng, specs, pool, PROF))
            steps.append(["exit"])
            continue
        steps.append(gen_drop(rng))
        if rng.random() < .6: steps.append(["cleanup"])
    steps.append(["cleanup"])
    return {"ops": specs, "cfg": sim.gen_cfg(rng, overflow=.6), "steps": steps}
def run(case, env):
    s = sim.Sim(case, env, {"db"}).run(case["steps"]).final()
    return finish(s, env, env.events["calls"] > 3 and env.events["cleaned_refs"])
