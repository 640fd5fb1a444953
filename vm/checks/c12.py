import random
from .. import sim
from ..core import Violation
from ..simcheck import standard, finish, DOM
PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("Random programs (several sessions, collections, content hits, some deletions) record their own call graph; afterwards "
        "creators and consumers of every reference, and transitive dependencies and dependents of random sets of references and "
        "calls, are asked from the storage and compared. Non-trivial: at least 4 calls in the graph, one with a dependency.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"creator_queries": 1000, "consumer_queries": 1000, "closure_queries": 500, "calls_with_dependencies": 100}


def gen(rng, i, tier):
    prof = {"repeat": .3, "struct": .45, "structout": .5, "pool": rng.choice([3, 6])}
    c = standard(rng, prof, 45 if tier == "thorough" and i % 3 == 0 else 26, overflow=.1)
    if rng.random() < .3:
        from .c13 import gen_drop
        c["steps"].insert(rng.randrange(len(c["steps"])), gen_drop(rng))
    c["seed"] = rng.randrange(10 ** 6)
    return c


def run(case, env):
    s = sim.Sim(case, env, ()).run(case["steps"]).final()
    m, st, ids, ev = s.models[0], s.storages[0], s.ids, env.events
    if m.pending:
        return finish(s, env, False)
    rng = random.Random(case["seed"])
    if s.durable and rng.random() < .5:
        s.open(0)
        st = s.storages[0]
    H = lambda h: ids.fwd[("h", h)]
    C = lambda t: ids.fwd[("ch", t)]
    refs = {v.h: v for v in m.all_vals()}
    creator, consumers, ins, outs = {}, {h: set() for h in refs}, {}, {}
    for t, cm in m.calls.items():
        ins[t] = {v.h for v in cm.ins.values()}
        outs[t] = {v.h for v in cm.outs.values()}
        for h in outs[t]:
            creator[h] = t
        for h in ins[t]:
            consumers[h].add(t)
    ndep = sum(1 for t in m.calls if any(h in creator for h in ins[t]))
    ev["calls_with_dependencies"] += ndep

    def same(what, got, want):
        if set(got) != set(want):
            raise Violation(f"{what}: unexpected {sorted(set(got) - set(want))[:3]}, missing {sorted(set(want) - set(got))[:3]}")

    rh = sorted(refs)
    for h in rng.sample(rh, min(len(rh), 40)):
        r = st.load_ref(H(h), in_memory=True)
        c = st.get_ref_creator(r)
        want = creator.get(h)
        if (c is None) != (want is None) or (c is not None and c.hid != C(want)):
            raise Violation(f"creator of {ids.show(h)} is {c}, expected {None if want is None else ids.show(want)}")
        if c is not None:
            cm = m.calls[want]
            for what, got, exp in (("inputs", c.inputs, cm.ins), ("outputs", c.outputs, cm.outs)):
                if {n: (x.cid, x.hid) for n, x in got.items()} != {n: (ids.fwd[("c", ids.cc(v.c))], H(v.h)) for n, v in exp.items()}:
                    raise Violation(f"{what} of the creator of {ids.show(h)} are wrong: {got}")
            if c.op.name != cm.op:
                raise Violation(f"the creator of {ids.show(h)} is a call of {c.op.name}, expected {cm.op}")
        got = st.get_consumers([H(h)])
        same(f"consumers of {ids.show(h)}", [x.hid for x in got], [C(t) for t in consumers[h]])
        if len({x.hid for x in got}) != len(got):
            raise Violation(f"a consumer of {ids.show(h)} is listed twice")
        ev["creator_queries"] += 1
        ev["consumer_queries"] += 1
    ct = sorted(m.calls)
    for _ in range(12):
        rs = set(rng.sample(rh, min(len(rh), rng.choice([0, 1, 1, 3, 8]))))
        cs = set(rng.sample(ct, min(len(ct), rng.choice([0, 0, 1, 3]))))
        same("creators of a set", [x.hid for x in st.get_creators(rng.choice([list, tuple, set, iter])([H(h) for h in rs]))], {C(creator[h]) for h in rs if h in creator})
        same("consumers of a set", [x.hid for x in st.get_consumers(rng.choice([list, tuple, set, iter])([H(h) for h in rs]))], {C(t) for h in rs for t in consumers[h]})
        for name, r2c, c2r in (("dependencies", lambda h: {creator[h]} if h in creator else set(), lambda t: ins[t]),
                               ("dependents", lambda h: consumers[h], lambda t: outs[t])):
            R, Cs = set(rs), set(cs)
            todo = [("r", h) for h in rs] + [("c", t) for t in cs]
            while todo:
                k, x = todo.pop()
                if k == "r":
                    new = r2c(x) - Cs
                    Cs |= new
                    todo += [("c", t) for t in new]
                else:
                    new = c2r(x) - R
                    R |= new
                    todo += [("r", h) for h in new]
            gr, gc = getattr(st.call_storage, "get_" + name)({H(h) for h in rs}, {C(t) for t in cs})
            same(f"{name}: references", gr, {H(h) for h in R})
            same(f"{name}: calls", gc, {C(t) for t in Cs})
            ev["closure_queries"] += 1
    return finish(s, env, len(m.calls) > 3 and ndep)
