from .. import sim, values as V
from ..simcheck import finish, DOM
PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("Random nestings of contexts of three storages, with inherited, run and no-op modes, noop() blocks, bodies that raise, and "
        "new calls switched on and off, with calls at every depth and outside. A stack model says which storage and mode each "
        "call is under; results, executions, the active context and modes after every entry and exit, and the three databases "
        "at every outermost exit are compared with it. Non-trivial: at least 3 calls under at least 2 different modes.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"call_plain": 100, "call_run": 100, "call_refused": 20, "noops": 50, "nested_contexts": 100, "db_checks": 100}


def gen(rng, i, tier):
    prof = {"repeat": .5, "struct": .2, "pool": 4, "storages": 3}
    pool, specs = sim.gen_world(rng, prof)
    cfg = sim.gen_cfg(rng, .3, .2)
    cfg["storages"] = rng.choice([1, 2, 3, 3])
    steps, depth, hist = [], 0, []
    for _ in range(60 if tier == "thorough" and i % 3 == 0 else 36):
        k = rng.random()
        if k < .2:
            steps.append(["enter", rng.randrange(3)] + ([rng.choice(["run", "noop"])] if rng.random() < .5 else []))
            depth += 1
        elif k < .25:
            steps.append(["noop"])
        elif k < .45:
            steps.append(["exit", rng.random() < .25 and rng.choice(sim.BOOMS)])
        elif k < .51:
            steps.append(["allow", rng.random() < .5, rng.randrange(3)])
        elif k < .54:
            steps.append(["reopen", rng.randrange(3)])
        elif k < .56:
            steps.append(["clear", rng.randrange(3)])
        elif hist and k < .75:
            steps.append(rng.choice(hist))
        else:
            steps.append(sim.gen_call(rng, specs, pool, prof))
            hist.append(steps[-1])
    return {"ops": specs, "cfg": cfg, "steps": steps}


def run(case, env):
    s = sim.Sim(case, env, {"db"}).run(case["steps"]).final()
    e = env.events
    return finish(s, env, e["calls"] > 2 and (e["call_plain"] > 0) and (e["call_run"] > 0))
