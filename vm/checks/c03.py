import json, os, random, subprocess, sys
from .. import sim, values as V, core
from ..core import Violation
from ..simcheck import finish, DOM
from .. import known, identity
PROPERTY = "C03"
PROBES = known.PROBES["C03"]
LEVEL = "exploration"
RULE = ("Random programs over pools of values that nearly coincide (1/True/1.0/'1'/np.int64(1)/[1]/(1,), swapped keys, dtypes, "
        "shapes, column names, empty collections) and functions with equal signatures and permuted parameter names. Every content, "
        "history, call content and call history the model distinguishes must have its own id and always the same one, across "
        "sessions. A third of the cases make many calls that differ from each other in one place (arguments exchanged, elements permuted); a third "
        "are also run in another interpreter with another hash seed and another construction order "
        "of dictionaries and sets; the ids must be the same. A fifth of the cases make calls from families of nearly coincident values (shapes, dtypes, column names, nestings, ...), pass an object again after changing it in place, and call functions of one name declared in several versions, against a table of the calls seen. Non-trivial: at least 20 ids compared.")
BUDGET = {"quick": (2000, 34), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"contents": 1000, "histories": 1000, "ids_compared_between_interpreters": 500, "other_interpreters": 10,
                   "identity_calls": 250, "objects_changed_between_calls": 8}


def gen(rng, i, tier):
    if i % 5 == 4:
        return identity.gen(rng, i // 5)
    pool = []
    similar = i % 3 == 2    # many nearly equal calls, and little else
    while len(pool) < (25 if similar else 9):
        if not pool and similar:
            s = rng.choice([V.gen_df, V.gen_df, lambda r: ["SR", "int64", [["i", 0], ["i", 1]], "a"], lambda r: V.gen_value(r, 2)])(rng)
        else:
            s = V.gen_value(rng, 2) if not pool or rng.random() < (.05 if similar else .3) else V.near(rng, rng.choice(pool[-6:]))
        if V.sortable(s):
            V.build(s)
            pool.append(s)
    prof = {"repeat": .2, "struct": .3, "pool": 9, "nest": .2}
    specs = [sim.gen_op(rng, j, pool, prof) for j in range(2)]
    # the same computation under another name, and with the parameters' names exchanged
    tw = dict(specs[0], name="g0")
    sw = dict(specs[1], name="g1")
    ren = {}
    plain = [p["n"] for p in sw["params"] if p["k"] in ("pk", "kw")]
    if len(plain) > 1:
        ren = dict(zip(plain, plain[1:] + plain[:1]))
    sw["params"] = [dict(p, n=ren.get(p["n"], p["n"])) for p in sw["params"]]
    specs += [tw, sw]
    if similar:
        ops = [sim.gen_op(rng, 0, pool, prof), {"name": "f1", "params": [{"n": n, "k": "pk"} for n in "xyzwu"[:rng.choice([4, 5])]] + [{"n": "kw", "k": "vkw"}],
               "salt": 1, "outs": 1, "rec": [["tup"]]}, {"name": "f2", "params": [{"n": "x", "k": "pk"}], "salt": 2, "outs": 1, "rec": [["id", 0]]}]
        steps, hist = [["enter", 0]], []
        for v in pool:
            steps.append(["call", 2, [["raw", v]], {}])
        while len(steps) < 70:
            if hist and rng.random() < .6:
                steps.append(sim.tweak(rng, rng.choice(hist)))
            else:
                steps.append(sim.gen_call(rng, ops, pool, prof))
            hist.append(steps[-1])
        return {"ops": ops, "cfg": {"db": "mem"}, "steps": steps + [["exit"]], "other": None}
    x = sim.gen_nest(rng, 4, specs)
    if x and rng.random() < .3:
        specs.append(x)
    steps = sim.gen_steps(rng, specs, pool, prof, 30)
    return {"ops": specs, "cfg": sim.gen_cfg(rng, .1, .2), "steps": steps,
            "other": rng.randrange(1, 10 ** 6) if i % 3 == 0 else None}


def run(case, env):
    if case.get("identity"):
        return identity.run(case, env)
    s = sim.Sim(case, env, ()).run(case["steps"]).final()
    ev = env.events
    ev["contents"] += sum(1 for k, _ in s.ids.fwd if k == "c")
    ev["histories"] += sum(1 for k, _ in s.ids.fwd if k in ("h", "ch"))
    if case.get("other"):
        fn = os.path.join(env.scratch, "case.json")
        with open(fn, "w") as f:
            json.dump(case, f)
        e = dict(os.environ, PYTHONHASHSEED=str(case["other"]), PYTHONPATH=core.VERIF)
        p = subprocess.run([sys.executable, "-m", "vm.checks.c03", fn, env.scratch], env=e, capture_output=True, text=True)
        if p.returncode:
            raise Violation(f"in an interpreter with another hash seed: {p.stdout[-1500:]} {p.stderr[-1500:]}")
        with open(fn + ".out") as f:
            other = json.load(f)
        mine = s.ids.stable()
        common = set(mine) & set(other)
        for k in common:
            if mine[k] != other[k]:
                t = next((t for t in s.ids.fwd if s.ids.stable_one(t) == k), None)
                raise Violation(f"the id of {s.ids.show(t[1]) if t else k} ({k[:2]}) depends on the hash seed or on construction order")
        if len(common) < .9 * len(mine):
            raise Violation(f"only {len(common)} of {len(mine)} ids could be compared with the other interpreter")
        ev["other_interpreters"] += 1
        ev["ids_compared_between_interpreters"] += len(common)
    return finish(s, env, len(s.ids.fwd) > 20)


def main(fn, scratch):
    core.setup_repo_import()
    with open(fn) as f:
        case = json.load(f)
    V.PERMUTE = random.Random(case["other"])
    env = core.Env(scratch, "quick")
    s = sim.Sim(case, env, ()).run(case["steps"]).final()
    with open(fn + ".out", "w") as f:
        json.dump(s.ids.stable(), f)


if __name__ == "__main__":
    main(*sys.argv[1:])
