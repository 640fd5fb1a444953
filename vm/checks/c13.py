from .. import sim
from ..simcheck import finish, DOM
PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("Random programs (collections, several sessions) in which calls are deleted, given as ids, Call objects, iterators, sets or a "
        "frame, with or without dependents, committed or not, cached or not; functions also change their code after their calls were deleted. The model removes the same calls and those that "
        "transitively consumed their outputs; existence of every call, executions afterwards, and the decoded database after every "
        "deletion and commit are compared. Non-trivial: at least 4 calls and a deletion.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"drops": 100, "dropped_calls": 200, "dropped_uncommitted": 20, "dropped_dependents": 100, "edited_functions": 12, "sessions": 3, "rows_deleted": 8}
PROF = {"struct": .3, "repeat": .6}
def gen(rng, i, tier):
    pool, specs = sim.gen_world(rng, PROF)
    hist = []
    steps = []
    edits = rng.random() < .5
    while len(steps) < 30:
        steps += sim.gen_steps(rng, specs, pool, PROF, rng.choice([3, 8]), hist=hist)
        if edits and rng.random() < .6 and len(steps) > 8:   # the code of a function changes
            steps.append(["edit", rng.randrange(len(specs)), [rng.randrange(100) for _ in range(rng.choice([1, 3, 9]))]])
            steps.append(["enter", 0])
            steps += [rng.choice(hist) if hist and rng.random() < .8 else sim.gen_call(rng, specs, pool, PROF) for _ in range(3)]
            steps.append(["exit"])
        if rng.random() < .4:   # delete inside a context
            steps.append(["enter", 0])
            for _ in range(rng.choice([1, 2, 3])):
                steps.append(rng.choice(hist) if hist and rng.random() < .5 else sim.gen_call(rng, specs, pool, PROF))
            steps.append(gen_drop(rng, edits))
            for _ in range(rng.choice([0, 2])):
                steps.append(rng.choice(hist) if hist and rng.random() < .7 else sim.gen_call(rng, specs, pool, PROF))
            steps.append(["exit"])
        else:
            steps.append(gen_drop(rng, edits))
    return {"ops": specs, "cfg": sim.gen_cfg(rng), "steps": steps}
def gen_drop(rng, edits=False):
    return ["drop", [rng.randrange(100) for _ in range(rng.choice([1, 1, 2, 4]))], edits or rng.random() < .6, rng.choice(["hids", "calls", "iter", "set", "itercalls", "cf", "cf", "cf", "mixed"])]
def run(case, env):
    s = sim.Sim(case, env, {"db"}).run(case["steps"]).final()
    return finish(s, env, env.events["calls"] > 3 and env.events["drops"])
