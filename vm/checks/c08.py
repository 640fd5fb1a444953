import builtins
from .. import sim, values as V
from ..simcheck import finish, DOM
PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("Random programs over functions with declared ignored arguments, arguments wrapped as ignored at the call, pointers "
        "(same and different names, same and different objects), new-argument defaults passed implicitly, explicitly and with "
        "other values, and functions that later get a further argument with a new-argument default, over several sessions. The "
        "arguments each body receives, which calls execute, and the stored calls are compared with a model in which those "
        "arguments are removed. Non-trivial: at least 4 calls, one with such an argument, one answered from the storage.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"ignored_args": 100, "pointer_args": 50, "nad_calls": 100, "evolved_calls": 30, "call_hist": 100}


def gen(rng, i, tier):
    prof = {"repeat": .4, "struct": .15, "pool": 4, "nest": 0}
    pool, specs = sim.gen_world(rng, prof)
    n = len(specs)
    for s in specs:
        c = [p for p in s["params"] if p["k"] in ("pos", "pk", "kw")]
        if len(s["params"]) > 1 and rng.random() < .4:
            s["ignore"] = rng.sample([p["n"] for p in c], rng.choice([1, 1, min(2, len(c))]))
        for p in c:
            if "d" in p and p.get("t", "A") == "A" and rng.random() < .6:
                p["nad"] = True
    # later versions of the same functions, with one more argument
    for j in range(n):
        if rng.random() < .7:
            s = dict(specs[j])
            new = {"n": "extra", "k": "kw", "d": rng.choice(pool), "nad": True}
            ps = list(s["params"])
            at = len(ps) - (1 if ps and ps[-1]["k"] == "vkw" else 0)
            s["params"] = ps[:at] + [new] + ps[at:]
            s["noinfl"] = list(s.get("noinfl", ())) + ["extra"]
            s["evolved"] = True
            specs.append(s)
    steps = sim.gen_steps(rng, specs, pool, prof, 45 if tier == "thorough" and i % 3 == 0 else 28)

    def wrap(st):
        if st[0] == "session":
            return ["session", [wrap(x) for x in st[1]]]
        if st[0] != "call":
            return st
        s = specs[st[1]]
        pos = [p for p in s["params"] if p["k"] in ("pos", "pk")]
        byn = {p["n"]: p for p in s["params"] if p["k"] in ("pk", "kw")}
        var = next((p for p in s["params"] if p["k"] == "var"), None)
        vkw = next((p for p in s["params"] if p["k"] == "vkw"), None)

        def w(p, src):
            if p is None or p.get("t", "A") != "A":
                return src
            if p["n"] in s.get("ignore", ()):
                k = rng.random()
                return ["ign", src] if k < .2 else ["raw", rng.choice(pool)] if k < .6 else src
            k = rng.random()
            if k < .15:
                return ["ign", src if rng.random() < .4 else ["raw", rng.choice(pool)]]
            if k < .27:
                return ["vp", rng.choice(["p", "q", "r s"]), rng.choice(pool)]
            if p.get("nad") and k < .6:
                return ["raw", p["d"]]
            return src
        return ["call", st[1], [w(pos[j] if j < len(pos) else var, a) for j, a in enumerate(st[2])],
                {k: w(byn.get(k, vkw), a) for k, a in st[3].items()}]

    def twins(ss):
        # calls with an ignored one among their *args, and the same calls without it
        out = []
        for st in ss:
            if st[0] == "session":
                st = ["session", twins(st[1])]
            out.append(st)
            if st[0] == "call":
                ps = specs[st[1]]["params"]
                m = sum(p["k"] in ("pos", "pk") for p in ps)
                ig = [j for j, a in enumerate(st[2]) if j >= m and a[0] == "ign"]
                if ig and rng.random() < .5:
                    j = rng.choice(ig)
                    out.append(["call", st[1], st[2][:j] + st[2][j + 1:], st[3]])
                    if rng.random() < .5:
                        out[-2:] = out[-2:][::-1]
        return out
    steps = twins([wrap(x) for x in steps])
    cfg = sim.gen_cfg(rng)
    if cfg.get("vers"):
        # one version of each function at a time: the later ones replace the others at some point, and the storage is told
        # that this is no change of their meaning
        first = {s["name"]: j for j, s in reversed(list(enumerate(specs)))}

        def now(st, old):
            if st[0] == "session":
                return ["session", [now(x, old) for x in st[1]]]
            if st[0] != "call":
                return st
            s = specs[st[1]]
            return ["call", first[s["name"]], st[2], {k: a for k, a in st[3].items() if not old or k != "extra" or not s.get("evolved")}]
        at = rng.randrange(len(steps) // 3, len(steps))
        steps = [now(x, True) for x in steps[:at]] + [["evolve"]] + [now(x, False) for x in steps[at:]]
    return {"ops": specs, "cfg": cfg, "steps": steps}


class S(sim.Sim):
    def do_call(self, i, args, kwargs, opts=None):
        spec = self.world.specs[i]
        srcs = list(args) + list(kwargs.values())
        self.ev["ignored_args"] += sum(1 for a in srcs if a[0] == "ign") + len(spec.get("ignore", ()))
        self.ev["pointer_args"] += sum(1 for a in srcs if a[0] == "vp")
        self.ev["nad_calls"] += any(p.get("nad") for p in spec["params"])
        self.ev["evolved_calls"] += bool(spec.get("evolved"))
        super().do_call(i, args, kwargs, opts)

    def do_evolve(self):
        self.unwind()
        builtins.input = lambda *a: "n"
        self.ev["evolved_functions"] += self.world.evolve()


def run(case, env):
    s = S(case, env, {"db"}).run(case["steps"]).final()
    e = env.events
    return finish(s, env, e["calls"] > 3 and e["ignored_args"] + e["pointer_args"] + e["nad_calls"] and e["call_hist"] + e["call_content"])
