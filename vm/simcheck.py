"""What the checks built on the lock-step driver share."""
from . import sim, values as V


def finish(s, env, nontrivial):
    return {"sig": "%s|%d" % ("".join(s.sig), len(s.ids.rev)), "nontrivial": bool(nontrivial)}


def standard(rng, prof, n=30, mem=.15, overflow=.3):
    pool, specs = sim.gen_world(rng, prof)
    cfg = sim.gen_cfg(rng, mem, overflow)
    return {"ops": specs, "cfg": cfg, "steps": sim.gen_steps(rng, specs, pool, prof, n)}


DOM = ("values with internal aliasing, frozensets, dictionaries with keys that cannot be sorted, functions that modify their "
       "arguments, and objects changed after unwrapping them are outside the generated domain")
