"""Runs sequences of frame operations on real frames; every result is compared with the model in frames.py."""
import builtins, os, re, sys, copy, random, collections, io, contextlib, math
from .core import Violation
from .frames import *

NA = object()
BASE = {"op": 3, "refs": 2, "ref": 1, "vars": 1, "hids": 1, "back": 4, "forward": 4, "all": 3, "select": 2, "drop": 2, "rename": 1,
        "merge": 1, "mergevars": 1, "union": 2, "inter": 2, "diff": 2, "down": 1, "up": 1, "mid": 1, "isin": 1, "lt": 1, "subset": 1,
        "unreach": 1, "cleanup": 1, "copy": 1, "df": 1, "df1": 1, "table": 1, "attach": .7, "query": 2, "reachelts": 1, "report": .2}
LIMIT = 26          # nodes in a frame that is expanded or combined further
SOURCES = ("op", "refs", "ref", "vars", "hids")


def gen_steps(rng, n, boost=(), factor=6):
    w = dict(BASE)
    for k in boost:
        w[k] *= factor
    if "report" in boost:
        w["report"] = 15
    for k in rng.sample(sorted(w), 6):
        w[k] *= 3
    kinds = sorted(w)
    steps = [[rng.choice(["op", "refs", "ref", "vars", "hids"]), rng.randrange(10 ** 6)]]
    if rng.random() < .7:
        steps.append([rng.choice(["all", "back", "forward"]), rng.randrange(10 ** 6)])
    while len(steps) < n:
        steps.append([rng.choices(kinds, [w[k] for k in kinds])[0], rng.randrange(10 ** 6)])
    return steps


def gen_case(rng, tier, boost=(), factor=6, nprog=(3, 6, 12, 20), nsteps=(8, 14, 22)):
    n = rng.choice(nprog)
    case = {"prog": gen_prog(rng, n), "splits": sorted(rng.sample(range(1, n), rng.choice([0, 0, 1, 2]))) if n > 3 else [],
            "steps": gen_steps(rng, rng.choice(nsteps), boost, factor), "names": rng.random() < .3}
    if n > 3 and rng.random() < .1:
        # the storage tracks the versions of the functions, some of which are edited and called again as before
        m = rng.choice([1, 2])
        case["vers"] = [rng.choice(case["prog"])[0] for _ in range(m)]
        case["splits"] = [n * (i + 1) for i in range(m)]
        case["prog"] = case["prog"] + [copy.deepcopy(rng.choice(case["prog"])) if rng.random() < .8 else c for c in case["prog"]] * m
    return case


class Frame:
    def __init__(self, cf, strict, edited=False, src=()):
        self.cf, self.strict, self.edited, self.src = cf, strict, edited, src
        self.snap = full(cf)


class Runner:
    def __init__(self, case, env, prop):
        from mandala.imports import Storage
        from mandala.cf import ComputationFrame
        from mandala.model import Call, Ref, RefCollection, CallCollection
        self.CF, self.Call, self.Ref, self.RefColl, self.CallColl = ComputationFrame, Call, Ref, RefCollection, CallCollection
        self.env, self.prop, self.ev, self.case = env, prop, env.events, case
        if case.get("vers"):
            src = os.path.join(env.dir("st"), "src")
            builtins.input = lambda *a: "y"        # (every change of the code is one of its meaning)
            self.storage = Storage(deps_path=src)
            self.ops = load_ops(src)
            edits = case["vers"]

            def again(n):
                if n <= len(edits):
                    self.ops = load_ops(src, edits[:n])
                    self.ev["functions_edited"] += 1
                return self.ops
        else:
            again = None
            self.storage = Storage()
            self.ops = make_ops()
        self.refs = run_prog(self.storage, self.ops, case["prog"], case["splits"], again)
        if case["splits"] and len(case["prog"]) % 2:
            self.storage.clear_cache()
        self.T = Truth(self.storage)
        self.frames, self.sig = [], []
        self.db0 = self.dump()
        if sum(map(len, map(str, case["steps"]))) % 4:
            self.remember()

    def remember(self):
        """Looking up a recorded call takes milliseconds in pandas; what the storage answered for it once is reused in three of four cases
        (the answers of the storage itself are the business of C05 and C09)."""
        known = {}

        def remember(real):
            def mget_data(call_hids, *a, **kw):
                if a or kw:
                    return real(call_hids, *a, **kw)
                hids = list(call_hids)
                new = [h for h in hids if h not in known]
                if new:
                    known.update(zip(new, real(call_hids=new)))
                return [copy.deepcopy(known[h]) for h in hids]
            return mget_data
        for cs in (getattr(self.storage, "call_storage", None), getattr(self.storage, "call_cache", None)):
            if hasattr(cs, "mget_data"):
                cs.mget_data = remember(cs.mget_data)

    # ---------------------------------------------------------------- reporting
    def bad(self, prop, msg):
        props = {prop} if isinstance(prop, str) else set(prop)
        if self.prop in props:
            raise Violation(msg)
        raise Stop(msg)

    def need(self, cond, prop, msg):
        if not cond:
            self.bad(prop, msg)

    def same(self, prop, cf, model, what):
        d = FM.of(cf).diff(model)
        self.ev["frames_compared_with_model"] += 1
        if d:
            self.bad(prop, f"{what}: {d}")

    def add(self, cf, strict, edited=False, src=()):
        self.need(isinstance(cf, self.CF), "C15", f"no frame was returned but {type(cf)}")
        w = wf(cf, self.T, strict)
        self.ev["frames_checked"] += 1
        self.need(w is None, "C15", f"after {self.sig[-1]}: {w}")
        if len(cf.nodes) > 60:
            return
        self.frames.append(Frame(cf, strict, edited, src))
        if len(self.frames) > 6:
            self.frames.pop(self.rng.randrange(5))

    # ---------------------------------------------------------------- the steps
    def run(self):
        for kind, seed in self.case["steps"]:
            self.rng = random.Random(seed)
            if not self.frames and kind not in SOURCES:
                continue
            self.sig.append(kind)
            f = None
            if kind not in SOURCES:
                f = self.rng.choice(self.frames[-2:] if self.rng.random() < .7 else self.frames)
            self.cur = f
            tag = {"op": "C15", "refs": "C15", "ref": "C15", "vars": "C15", "hids": "C15", "copy": "C15", "back": "C16", "forward": "C16",
                   "all": "C16", "df": "C17", "df1": "C17", "table": "C17", "attach": "C17", "down": "C19", "up": "C19", "mid": "C19", "query": "C19",
                   "reachelts": "C19", "rename": "C20", "drop": "C20", "merge": "C20", "mergevars": "C20", "cleanup": "C20", "report": "C26"}.get(kind, "C18")
            try:
                getattr(self, "do_" + kind)(*([f] if f else []))
            except (Violation, Stop):
                raise
            except Exception as e:
                if f is not None and f.edited and self.prop == "C20":
                    tag = "C20"
                import traceback
                self.bad(tag, f"{kind} failed: {type(e).__name__}: {e} {traceback.format_exc(limit=-4)}")
            self.ev["step_" + kind] += 1
            for g in self.frames:
                if full(g.cf) != g.snap:
                    a, b = full(g.cf), g.snap
                    self.bad("C15", f"{kind} changed {[k for k in a if a[k] != b[k]]} of a frame it was not to change")
            self.ev["unchanged_frames_verified"] += len(self.frames)
            if len(self.frames) > 1 and self.rng.random() < .2:
                self.spoil()
        return self

    def spoil(self):
        """A frame made from another one shares nothing with it: the latest one is taken apart in place."""
        g = self.frames.pop().cf
        rng = self.rng
        if rng.random() < .3 and len(g.nodes) < 10:
            (g.expand_back if rng.random() < .5 else g.expand_forward)(inplace=True, recursive=True)
        for v in sorted(g.vs):
            for h in sorted(g.vs[v]):
                if rng.random() < .5:
                    g.drop_ref(v, h)
        for n in sorted(g.fs):
            for h in sorted(g.fs[n]):
                if rng.random() < .5:
                    g.drop_call(n, h)
        for n in rng.sample(sorted(g.nodes), rng.randrange(len(g.nodes) + 1)):
            g.drop_node(n, inplace=True)
        for f in self.frames:
            now = full(f.cf)
            self.need(now == f.snap, "C15", f"taking the result of {self.sig[-1]} apart changed {[k for k in now if now[k] != f.snap[k]]} of another frame")
        self.ev["frames_taken_apart"] += 1

    def dump(self):
        conn = self.storage.db.conn()
        return [(t, sorted(map(repr, conn.execute(f"SELECT * FROM {t}")))) for t in
                sorted(x for x, in conn.execute("SELECT name FROM sqlite_master WHERE type='table'"))]

    def untouched(self):
        """Frames only read the storage, and what was saved is still recognized."""
        self.need(self.dump() == self.db0, "C15", f"working with frames ({'-'.join(self.sig)}) changed the database")
        self.ev["databases_unchanged"] += 1
        if not self.case.get("vers") and sum(map(len, map(str, self.case["steps"]))) % 3 == 0:
            run_prog(self.storage, self.ops, self.case["prog"], self.case["splits"], None)
            self.need(self.dump() == self.db0, "C15", f"after working with frames ({'-'.join(self.sig)}) running the program again saved something new")
            self.ev["programs_run_again"] += 1

    def done(self):
        return {"sig": "-".join(self.sig) + f"|{len(self.T.calls)}", "nontrivial": len(self.T.calls) > 2 and len(self.sig) > 3}

    def guard(self, *fs, lim=LIMIT):
        return all(len(f.cf.nodes) <= lim for f in fs)

    # ---- creation
    def do_op(self):
        names = sorted({c.op for c in self.T.calls.values()})
        from mandala.model import __make_list__, __make_dict__, __list_getitem__, __dict_getitem__
        name = self.rng.choice(names)
        op = self.ops.get(name) or {x.name: x for x in (__make_list__, __make_dict__, __list_getitem__, __dict_getitem__)}[name]
        if len({self.T.label(c, n) for c in self.T.calls if self.T.calls[c].op == name for n in self.T.calls[c].ins}) == 0 and name != "const":
            return
        cf = self.storage.cf(op)
        m = FM.of(cf)
        calls = {h for h, c in self.T.calls.items() if c.op == name}
        self.need(list(cf.fs) == [name] and cf.fs[name] == calls, ("C16",),
                  f"the frame of {name} has {sum(map(len, cf.fs.values()))} calls instead of {len(calls)}")
        io = set()
        for c in calls:
            io |= set(self.T.calls[c].ins.values()) | set(self.T.calls[c].outs.values())
        self.need(m.refs() == io, "C16", f"the frame of {name} does not have exactly the arguments and results of its calls")
        for c in calls:
            for n, h in self.T.calls[c].ins.items():
                self.need(any(h in cf.vs[s] for s, d, l in m.E if d == name and l == self.T.label(c, n)), "C16",
                          f"argument {n} is not connected to a call of {name}")
            for n, h in self.T.calls[c].outs.items():
                self.need(any(h in cf.vs[d] for s, d, l in m.E if s == name and l == n), "C16", f"result {n} is not connected to a call of {name}")
        self.add(cf, True)

    def some_hids(self, k=None):
        hs = sorted(self.T.cid)
        return self.rng.sample(hs, min(len(hs), k or self.rng.choice([1, 2, 3, 6])))

    def load(self, hids):
        return [self.storage.load_ref(h) for h in hids]

    def do_refs(self):
        hs = self.some_hids()
        rs = self.load(hs)
        cf = self.storage.cf(self.rng.choice([list, tuple, set, iter])(rs))
        self.same("C15", cf, FM({"v": hs}, {}, ()), "frame of references")
        self.add(cf, True)

    def do_ref(self):
        mine = [r for r in self.refs if r is not None]
        r = self.rng.choice(mine) if mine else self.load(self.some_hids(1))[0]
        cf = self.storage.cf(r)
        self.same("C15", cf, FM({"v": [r.hid]}, {}, ()), "frame of a reference")
        self.add(cf, True)

    def do_vars(self):
        names = self.rng.sample(["x", "y", "a", "var_0", "my_var", "inc", "output_0", "tot"], self.rng.choice([1, 2, 3]))
        d = {n: self.some_hids() for n in names}
        if self.rng.random() < .5:   # variables that share references
            few = self.some_hids(4)
            d = {n: self.rng.sample(few, self.rng.randrange(1, len(few) + 1)) for n in names}
        arg = {n: (self.load(h)[0] if len(h) == 1 and self.rng.random() < .5 else set(self.load(h)) if self.rng.random() < .5 else self.load(h))
               for n, h in d.items()}
        was = dict(arg)
        cf = self.storage.cf(arg)
        self.need(list(arg) == list(was) and all(arg[n] is was[n] for n in arg), "C15", "creating a frame from a dictionary changed the dictionary")
        self.same("C15", cf, FM(d, {}, ()), "frame of variables")
        self.add(cf, True)
        if len(names) == 3 and self.frames and self.rng.random() < .6:
            self.do_merge(self.frames[-1])

    def do_hids(self):
        hs = self.some_hids()
        cf = self.storage.cf(self.rng.choice([list, tuple, set, iter])(hs))
        self.same("C15", cf, FM({"v": hs}, {}, ()), "frame of ids")
        self.add(cf, True)

    def do_copy(self, f):
        r = self.rng.random()
        cf = f.cf.copy() if r < .8 else self.CF.union(f.cf) if r < .9 else self.CF.intersection(f.cf)
        self.same("C15", cf, FM.of(f.cf), "copy")
        self.need(full(cf) == f.snap, "C15", "the copy differs")
        if self.rng.random() < .4 and len(cf.nodes):   # a copy is independent
            n = self.rng.choice(sorted(cf.nodes))
            cf.drop_node(n, inplace=True)
            self.same("C20", cf, FM.of(f.cf).drop([n]), "dropping a node of the copy")
            self.add(cf, f.strict, True)
        else:
            self.add(cf, f.strict, f.edited)

    def twoforms(self, f, fn, prop="C15"):
        """fn(cf, inplace): both forms must agree"""
        cf = self.cf2 = fn(f.cf, False)
        if self.rng.random() < .6:
            c2 = f.cf.copy()
            r = fn(c2, True)
            self.need(r is None, "C15", "the in-place form returned something")
            self.need(FM.of(c2).diff(FM.of(cf)) is None, "C15", f"the in-place form differs: {FM.of(c2).diff(FM.of(cf))}")
            self.need(full(c2) == full(cf), "C15", "the in-place form differs in its internal links")
            self.ev["inplace_forms"] += 1
        return cf

    # ---- expansion
    def expand(self, f, direction):
        back = direction == "back"
        old = FM.of(f.cf)
        rng, T = self.rng, self.T
        if not self.guard(f):
            return
        vs = sorted(old.vs)
        r = rng.random()
        names = None if r < .5 or not vs else rng.choice(vs) if r < .7 else rng.sample(vs, rng.randrange(1, len(vs) + 1))
        if isinstance(names, list) and rng.random() < .5:
            names = set(names)
        recursive = names is None and rng.random() < .5
        kw = dict(recursive=recursive, skip_existing=rng.random() < .25, reuse_existing=rng.random() < .75 or len(old.nodes) > 12 or recursive and len(self.T.calls) > 14)
        if names is not None or rng.random() < .2:
            kw["varnames"] = names
        once = back and isinstance(names, (list, set)) and rng.random() < .25     # names that can be read only once
        cf = self.twoforms(f, lambda cf, inplace: getattr(cf, "expand_" + direction)(inplace=inplace, **(dict(kw, varnames=iter(sorted(names))) if once else kw)))
        new = FM.of(cf)
        V = set(old.vs) if names is None else {names} if isinstance(names, str) else set(names)
        hids = set().union(*[old.vs[v] for v in V])
        tips = old.ends(T, back)
        io = lambda c: set(T.calls[c].ins.values()) | set(T.calls[c].outs.values())
        what = f"expand_{direction} of {sorted(V)} ({kw})"
        self.grown(old, new, what)
        near = lambda hs: {T.creator[h] for h in hs if h in T.creator} if back else set().union(*[T.consumers.get(h, set()) for h in hs])
        far = lambda c: set((T.calls[c].ins if back else T.calls[c].outs).values())
        added = new.calls() - old.calls()
        if not recursive:
            want = near(hids) - old.calls()
            self.need(added == want, "C16", f"{what} added {len(added - want)} unrelated calls and missed {len(want - added)} of {len(want)}")
        else:
            def closure(hs):
                calls, todo, seen = set(), set(hs), set()
                while todo:
                    seen |= todo
                    cs = near(todo) - calls
                    calls |= cs
                    # (a call added to a node that has its other arguments connected brings them, too)
                    todo = set().union(*map(far if hs is lower else io, cs)) - seen
                return calls
            lower = old.refs()
            lo, hi = near(new.refs()) if kw["skip_existing"] else closure(lower), closure(old.refs() | set().union(*map(io, old.calls())))
            self.need(lo <= new.calls(), "C16", f"{what} misses {len(lo - new.calls())} of {len(lo)} calls in the {'history' if back else 'future'}")
            self.need(added <= hi, "C16", f"{what} added {len(added - hi)} unrelated calls")
        self.need(new.refs() <= old.refs() | set().union(*map(io, new.calls())), "C16", f"{what} added references that no call in the frame has")
        # the related calls are connected on both sides
        for c in (added if kw["skip_existing"] or recursive else near(hids)):
            nodes = [n for n in new.fs if c in new.fs[n]]
            for n, h in (T.calls[c].ins if back else T.calls[c].outs).items():
                self.need(any(h in new.vs[e[0] if back else e[1]] for x in nodes for e in (new.into(x) if back else new.outof(x)) if e[2] == T.label(c, n)),
                          "C16", f"{what}: {n} of a related {T.calls[c].op} call is not connected to it")
            for n, h in (T.calls[c].outs if back else T.calls[c].ins).items():
                for v in V if not recursive else ():
                    if h in old.vs[v] and (c in added or not kw["skip_existing"] and h in tips[v]):
                        self.need(any((s, d, l) == ((x, v, T.label(c, n)) if back else (v, x, T.label(c, n))) for x in nodes for s, d, l in new.E), "C16",
                                  f"{what}: variable {v} holds {n} of a related {T.calls[c].op} call but is not connected to it")
        self.ev["calls_added_by_expansion"] += len(added)
        if recursive:
            self.ev["recursive_expansions"] += 1
        self.add(cf, f.strict, f.edited)

    def grown(self, old, new, what):
        for n, s in old.sets.items():
            self.need(n in new.sets and s <= new.sets[n] and (n in old.vs) == (n in new.vs), "C16", f"{what} removed {n} or elements of it")
        self.need(old.E <= new.E, "C16", f"{what} removed edges")

    def do_back(self, f):
        self.expand(f, "back")

    def do_forward(self, f):
        self.expand(f, "forward")

    def do_all(self, f):
        if not self.guard(f, lim=18):
            return
        old, T, rng = FM.of(f.cf), self.T, self.rng
        kw = {}
        if rng.random() < .3:
            kw = dict(skip_existing=rng.random() < .5, reuse_existing=rng.random() < .6)
        if not kw.get("reuse_existing", True) and len(T.calls) > 12:
            kw["reuse_existing"] = True
        cf = self.twoforms(f, lambda cf, inplace: cf.expand_all(inplace=inplace, **kw))
        new = FM.of(cf)
        what = f"expand_all({kw})"
        self.grown(old, new, what)
        io = lambda c: set(T.calls[c].ins.values()) | set(T.calls[c].outs.values())

        def comp(hs):
            refs, todo, calls = set(hs), set(hs), set()
            while todo:
                cs = ({T.creator[h] for h in todo if h in T.creator} | set().union(*[T.consumers.get(h, set()) for h in todo])) - calls
                calls |= cs
                todo = set().union(*map(io, cs)) - refs
                refs |= todo
            return refs, calls
        if kw.get("skip_existing"):     # calls in the frame are not completed
            refs = new.refs()
            lo = refs, {T.creator[h] for h in refs if h in T.creator} | set().union(*[T.consumers.get(h, set()) for h in refs])
        else:
            lo = comp(old.refs())
        hi = comp(old.refs() | set().union(*map(io, old.calls())))
        self.need(lo[1] <= new.calls(), "C16", f"{what} misses {len(lo[1] - new.calls())} of {len(lo[1])} connected calls")
        self.need(new.calls() - old.calls() <= hi[1], "C16", f"{what} added {len(new.calls() - old.calls() - hi[1])} unrelated calls")
        if not kw.get("skip_existing"):
            inner = {h for h in lo[0] if h in old.refs() or any(h in T.calls[c].ins.values() and T.calls[c].outs or
                                                               h in T.calls[c].outs.values() and T.calls[c].ins for c in lo[1])}
            self.need(inner <= new.refs(), "C16", f"{what} misses {len(inner - new.refs())} of {len(inner)} connected references")
        self.need(new.refs() - old.refs() <= hi[0], "C16", f"{what} added unrelated references")
        for c in new.calls() - old.calls():
            nodes = [n for n in new.fs if c in new.fs[n]]
            for fwd, d in ((0, T.calls[c].ins), (1, T.calls[c].outs)):
                for n, h in d.items():
                    if h in new.refs() and not kw.get("skip_existing"):
                        self.need(any(h in new.vs[e[fwd]] for x in nodes for e in (new.outof(x) if fwd else new.into(x)) if e[2] == T.label(c, n)),
                                  "C16", f"{what}: {n} of a {T.calls[c].op} call is not connected to it")
        self.ev["full_expansions"] += 1
        self.ev["calls_added_by_expansion"] += len(new.calls() - old.calls())
        self.add(cf, f.strict, f.edited)

    # ---- selection and algebra
    def some_nodes(self, f, kinds="vf", k=None):
        ns = sorted((set(f.cf.vs) if "v" in kinds else set()) | (set(f.cf.fs) if "f" in kinds else set()))
        return self.rng.sample(ns, min(len(ns), self.rng.randrange(0 if k is None else 1, len(ns) + 1) if k is None else k))

    def do_select(self, f):
        ns = self.some_nodes(f)
        m = FM.of(f.cf).select(ns)
        r = self.rng.random()
        if len(ns) == 1 and r < .5:
            cf = f.cf[ns[0]]
        elif r < .5 and ns:
            cf = f.cf[self.rng.choice([list, tuple, set, iter])(ns)]
        else:
            cf = f.cf.select_nodes(self.rng.choice([list, set, iter])(ns))
        self.same("C18", cf, m, "selecting nodes")
        self.add(cf, f.strict, f.edited, (f,))

    def some_subset(self, f):
        p = self.rng.choice([.3, .6, .9])
        return {n: {h for h in sorted(s) if self.rng.random() < p} for n, s in f.cf.sets.items()}

    def do_subset(self, f):
        s = self.some_subset(f)
        m = FM.of(f.cf).subset(s)
        live = f.cf.sets if self.rng.random() < .6 else {}     # the frame's own sets, where all of a node is selected
        cf = f.cf.select_subsets({n: live[n] if n in live and live[n] == set(x) else set(x) for n, x in s.items()})
        self.same("C18", cf, m, "selecting subsets")
        self.add(cf, False, f.edited, (f,))

    def other(self, f):
        """a frame to combine with, preferably one that shares nodes"""
        rng = self.rng
        if rng.random() < .45 and f.cf.nodes:
            ns = self.some_nodes(f)
            g = f.cf.select_nodes(ns)
            if rng.random() < .5:
                vs = sorted(g.vs)
                if vs:
                    p = rng.choice([.4, .8])
                    return Frame(g.isin({h for v in vs for h in sorted(g.vs[v]) if rng.random() < p}, by="hid"), False)
            return Frame(g, f.strict)
        return rng.choice(self.frames)

    def do_union(self, f):
        g = self.other(f)
        if not self.guard(f, g):
            return
        a, b = FM.of(f.cf), FM.of(g.cf)
        if set(a.vs) & set(b.fs) or set(a.fs) & set(b.vs):
            return   # not over a shared namespace
        m = FM({n: a.vs.get(n, set()) | b.vs.get(n, set()) for n in set(a.vs) | set(b.vs)},
               {n: a.fs.get(n, set()) | b.fs.get(n, set()) for n in set(a.fs) | set(b.fs)}, a.E | b.E)
        ok = m.strict(self.T)
        self.need(ok or not (f.strict and g.strict and f is g), "C15", "a frame that should be consistent is not")
        for form in (lambda: f.cf | g.cf, lambda: self.CF.union(f.cf, g.cf), lambda: g.cf | f.cf):
            try:
                cf = form()
            except AssertionError:
                self.need(not ok, "C18", "the union of two frames was refused, though every argument and result of its calls is in it")
                self.ev["refused_unions"] += 1
                return
            self.need(ok, "C18", "an inconsistent union was not refused")
            self.same("C18", cf, m, "union")
        if self.rng.random() < .4:
            h = self.rng.choice(self.frames)
            self.laws(f, g, h, "|")
        self.add(cf, True, f.edited or g.edited, (f, g))

    def laws(self, f, g, h, o):
        fn = (lambda a, b: a | b) if o == "|" else (lambda a, b: a & b)
        try:
            x, y, z = fn(fn(f.cf, g.cf), h.cf), fn(f.cf, fn(g.cf, h.cf)), fn(f.cf, f.cf)
        except AssertionError:
            return
        self.need(FM.of(x).diff(FM.of(y)) is None, "C18", f"{o} is not associative: {FM.of(x).diff(FM.of(y))}")
        self.need(FM.of(z).diff(FM.of(f.cf)) is None, "C18", f"{o} is not idempotent: {FM.of(z).diff(FM.of(f.cf))}")
        self.ev["laws_checked"] += 1

    def do_inter(self, f):
        g = self.other(f)
        a, b = FM.of(f.cf), FM.of(g.cf)
        m = FM({n: a.vs[n] & b.vs[n] for n in set(a.vs) & set(b.vs)}, {n: a.fs[n] & b.fs[n] for n in set(a.fs) & set(b.fs)}, a.E & b.E)
        for cf in (g.cf & f.cf, self.CF.intersection(f.cf, g.cf), f.cf & g.cf):
            self.same("C18", cf, m, "intersection")
        if self.rng.random() < .4:
            self.laws(f, g, self.rng.choice(self.frames), "&")
        self.add(cf, f.strict and g.strict, f.edited or g.edited, (f, g))

    def do_diff(self, f):
        g = self.other(f)
        a, b = FM.of(f.cf), FM.of(g.cf)
        kept = a.subset({n: s - b.sets.get(n, set()) for n, s in a.sets.items()})
        m = kept.reach(self.T, kept.starts(self.T, True), True, True).nonempty()
        cf = f.cf - g.cf
        self.same("C18", cf, m, "difference")
        self.add(cf, False, f.edited or g.edited, (f, g))

    def nbcalls(self, m, pick):
        sets = {n: set() for n in m.fs}
        for v, hs in pick.items():
            for e in m.outof(v):
                sets[e[1]] |= m.adj(self.T, e, hs, True)
            for e in m.into(v):
                sets[e[0]] |= m.adj(self.T, e, hs, False)
        return m.subset({**pick, **sets})

    def do_isin(self, f):
        m, rng, T = FM.of(f.cf), self.rng, self.T
        hs = sorted(m.refs())
        some = rng.sample(hs, rng.randrange(len(hs) + 1))
        by = rng.choice(["hid", "cid", "val", "val"])
        if by == "hid":
            vals = rng.choice([set, list, tuple])(some)
            pick = lambda h: h in some
        elif by == "cid":
            vals = {T.cid[h] for h in some}
            pick = lambda h: T.cid[h] in vals
        else:
            vals = [T.val[h] for h in some if h in T.val]
            pick = lambda h: T.val.get(h, NA) in vals
        cf = f.cf.isin(vals, by=by) if rng.random() < .8 or by != "val" else f.cf.isin(vals)
        self.same("C18", cf, self.nbcalls(m, {v: {h for h in s if pick(h)} for v, s in m.vs.items()}), f"isin(by={by})")
        self.ev["selected_by_value"] += sum(map(len, cf.vs.values()))
        self.add(cf, False, f.edited, (f,))

    def do_lt(self, f):
        m, T = FM.of(f.cf), self.T
        if not all(isinstance(T.val.get(h), int) for h in m.refs()):
            return
        k = self.rng.randrange(-2, 15)
        cf = f.cf < k
        self.same("C18", cf, self.nbcalls(m, {v: {h for h in s if T.val[h] < k} for v, s in m.vs.items()}), f"< {k}")
        self.add(cf, False, f.edited, (f,))

    def do_unreach(self, f):
        if not self.guard(f):
            return
        m, rng = FM.of(f.cf), self.rng
        src = f
        if rng.random() < .6:    # take something away first
            src = Frame(f.cf.select_subsets(self.some_subset(f)), False, f.edited)
            m = FM.of(src.cf)
        fwd, strong = rng.random() < .6, rng.random() < .7
        cf = src.cf.drop_unreachable(direction="forward" if fwd else "back", how="strong" if strong else "weak")
        st = m.starts(self.T, fwd) if strong else m.ends(self.T, fwd)
        self.same("C18", cf, m.reach(self.T, st, fwd, strong), f"drop_unreachable(forward={fwd}, strong={strong})")
        self.add(cf, False, f.edited, (f,))

    # ---- restriction along the computation
    def do_down(self, f, fwd=True):
        ns = self.some_nodes(f, "v" if self.rng.random() < .8 else "vf")
        how = self.rng.choice(["strong", "weak"])
        kw = {} if how == "strong" and self.rng.random() < .5 else {"how": how}
        m = FM.of(f.cf)
        cf = (f.cf.downstream if fwd else f.cf.upstream)(*ns, **kw)
        sub = m.select(m.reachable(ns, fwd))
        self.same("C19", cf, sub.reach(self.T, {n: m.sets[n] for n in ns}, fwd, how == "strong"), f"{'down' if fwd else 'up'}stream of {ns} ({how})")
        self.ev["restricted_nonempty"] += bool(cf.calls)
        self.add(cf, False, f.edited, (f,))

    def do_up(self, f):
        self.do_down(f, False)

    def paths(self, m, limit=3000):
        """number of simple paths from each node, bounded"""
        succ = {n: sorted({e[1] for e in m.outof(n)}) for n in m.nodes}
        count = [0]

        def dfs(n, seen):
            count[0] += 1
            if count[0] > limit:
                raise OverflowError
            for x in succ[n]:
                if x not in seen:
                    dfs(x, seen | {x})
        try:
            for n in m.nodes:
                dfs(n, {n})
        except OverflowError:
            return False
        return True

    def small(self, m):
        return len(m.nodes) <= 14 and (len(m.nodes) <= 9 or m.acyclic()) and self.paths(m)

    def simple_nodes(self, m, ns):
        succ = {n: {e[1] for e in m.outof(n)} for n in m.nodes}
        on = set(ns)

        def dfs(n, path, end):
            if n == end:
                on.update(path)
                return
            for x in succ[n]:
                if x not in path:
                    dfs(x, path + [x], end)
        for a in ns:
            for b in ns:
                if a != b:
                    dfs(a, [a], b)
        return on

    def do_mid(self, f):
        m = FM.of(f.cf)
        if not self.small(m):
            return
        ns = self.some_nodes(f, "v" if self.rng.random() < .7 else "vf")
        if not ns:
            return
        how = self.rng.choice(["strong", "weak"])
        cf = f.cf.midstream(*ns, how=how)
        on, got = self.simple_nodes(m, ns), cf.nodes
        self.need(on == got, "C19", f"midstream of {sorted(ns)} has {sorted(got - on)} too many and lacks {sorted(on - got)}")
        sub = m.select(got)
        st = {n: s for n, s in sub.ends(self.T, True).items() if n in ns}
        self.same("C19", cf, sub.reach(self.T, st, True, how == "strong"), f"midstream of {sorted(ns)} ({how})")
        self.ev["restricted_nonempty"] += bool(cf.calls)
        self.add(cf, False, f.edited, (f,))

    def do_reachelts(self, f):
        m, rng = FM.of(f.cf), self.rng
        st = {n: s for n, s in self.some_subset(f).items() if rng.random() < .5}
        fwd, strong = rng.random() < .5, rng.random() < .6
        got = f.cf.get_reachable_elts(initial_state={n: set(s) for n, s in st.items()}, direction="forward" if fwd else "back",
                                      how="strong" if strong else "weak")
        want = m.reach(self.T, st, fwd, strong).sets
        self.need(got == want, "C19", f"reachable elements differ in {[n for n in want if got.get(n) != want[n]]}")
        n = rng.choice(sorted(m.nodes)) if m.nodes else None
        if n is not None:
            hs = {h for h in sorted(m.sets[n]) if rng.random() < .6}
            for d in ("back", "forward", "both"):
                want = {}
                for e in m.E:
                    if d != "forward" and e[1] == n:
                        want[e[0]] = want.get(e[0], set()) | m.adj(self.T, e, hs, False)
                    if d != "back" and e[0] == n:
                        want[e[1]] = want.get(e[1], set()) | m.adj(self.T, e, hs, True)
                got = f.cf.get_adj_elts(n, hs, d)
                self.need(got == want, "C19", f"elements adjacent to some of {n} ({d}) differ in {[x for x in want if got.get(x) != want[x]]}")

    def do_query(self, f):
        cf, m, rng = f.cf, FM.of(f.cf), self.rng
        self.need(cf.sources == {v for v in m.vs if not m.into(v)}, "C20", f"sources {cf.sources}")
        self.need(cf.sinks == {v for v in m.vs if not m.outof(v)}, "C20", f"sinks {cf.sinks}")
        self.need(cf.get_source_elts() == m.ends(self.T, True), "C19", "elements without history in the frame")
        self.need(cf.get_sink_elts() == m.ends(self.T, False), "C19", "elements without consumers in the frame")
        self.need(cf.vnames == set(m.vs) and cf.fnames == set(m.fs) and cf.nodes == m.nodes, "C15", "names of the nodes")
        self.need({k: v.name for k, v in cf.ops().items()} == {n: self.T.calls[next(iter(s))].op for n, s in m.fs.items() if s}, "C15", "operations of the nodes")
        for n in m.nodes:
            self.need(cf.in_neighbors(n) == {e[0] for e in m.into(n)} and cf.out_neighbors(n) == {e[1] for e in m.outof(n)}, "C15", f"neighbours of {n}")
            self.need(cf.in_edges(n) == set(m.into(n)) and cf.out_edges(n) == set(m.outof(n)), "C15", f"edges of {n}")
        order = cf.topsort_modulo_sccs()
        self.ordered(m, order, "the node order")
        self.need(sorted(order) == sorted(m.nodes), "C19", f"the node order lists {order}")
        ns = self.some_nodes(f)
        self.need(cf.sort_nodes(self.rng.choice([list, set, iter])(ns)) == [n for n in cf.topsort_modulo_sccs() if n in ns], "C19", "sorting nodes")
        for d in ("forward", "back"):
            self.need(cf.get_reachable_nodes(set(ns), d) == m.reachable(ns, d == "forward"), "C19", f"nodes reachable {d} from {ns}")
        if len(m.nodes) > 1 and self.small(m) and m.acyclic():
            a, b = rng.sample(sorted(m.nodes), 2)
            on = m.reachable([a], True) & m.reachable([b], False)
            want = {(e[0], e[1]) for e in m.E if e[0] in on and e[1] in on}
            self.need(cf.get_all_edges_on_paths_between(a, b) == want, "C19", f"edges on paths from {a} to {b}")
        self.need(cf.refs_by_var() == {v: {cf.refs[h] for h in s} for v, s in m.vs.items()}, "C15", "references by variable")
        self.need(cf.calls_by_func() == {v: {cf.calls[h] for h in s} for v, s in m.fs.items()}, "C15", "calls by function")
        st = cf.get_var_stats()
        self.need(dict(zip(st["name"], st["num_values"])) == {v: len(s) for v, s in m.vs.items()} if m.vs else len(st) == 0, "C17", "variable statistics")
        st = cf.get_func_stats()
        self.need(dict(zip(st["name"], st["num_calls"])) == {v: len(s) for v, s in m.fs.items()} if m.fs else len(st) == 0, "C17", "function statistics")
        self.describe(cf, m)
        self.ev["queries"] += 1

    def describe(self, cf, m, desc=None):
        both = ("C15", "C26")
        desc = cf.get_graph_desc() if desc is None else desc
        lines = desc.split("\n") if desc else []
        iso = sorted(v for v in m.vs if not m.into(v) and not m.outof(v))
        if iso:
            self.need(lines and lines[0] == ", ".join(iso), both, f"isolated variables in {desc!r}")
            lines = lines[1:]
        self.need(len(lines) == len(m.fs), both, f"{len(m.fs)} functions, description {desc!r}")
        seen = []
        for ln in lines:
            self.need(" = " in ln and "(" in ln, both, f"description {desc!r}")
            lhs, rest = ln.split(" = ", 1)
            fn, args = rest.split("(", 1)
            seen.append(fn)
            E, outs = [], []
            for part in args[:-1].split(", ") if args != ")" else ():
                l, vs = part.split("=")
                E += [(v, fn, l) for v in vs.split(" | ")]
            for part in lhs.split(", ") if lhs else ():
                vs, l = part.rsplit("@", 1)
                self.need(vs.startswith("(") == vs.endswith(")") == (" | " in vs), both, f"description of {fn}: {ln!r}")
                E += [(fn, v, l) for v in vs.strip("()").split(" | ")]
                outs.append(l)
            self.need(fn in m.fs and sorted(E) == sorted(set(m.into(fn)) | set(m.outof(fn))), both, f"description of {fn}: {ln!r}")
            if m.fs[fn]:
                order = OUTPUTS.get(self.T.calls[next(iter(m.fs[fn]))].op, ())
                self.need(not order or outs == [l for l in order if l in outs], both, f"the outputs {order} of {fn} are described in the order {outs}")
        self.ordered(m, seen, "the description")

    def printed(self, fn):
        out = io.StringIO()
        old, sys.stdout = sys.stdout, out
        try:
            fn()
        finally:
            sys.stdout = old
        return out.getvalue()

    def do_report(self, f):
        """What is printed and drawn of a frame, against the model."""
        self.report(f.cf)
        if self.prop == "C26":
            for g in self.rng.sample(self.frames, min(3, len(self.frames))):
                self.report(g.cf)

    def report(self, cf):
        m, T, P = FM.of(cf), self.T, "C26"
        nums = [len(m.vs), len(m.refs()), len(m.fs), len(set().union(*m.fs.values()))]
        self.describe(cf, m)
        self.describe(cf, m, self.printed(cf.print_graph).rstrip("\n"))
        text = repr(cf)
        head, graph = text.split("Computational graph:\n")
        self.need([int(x) for x in re.findall(r"\d+", head)] == nums, P, f"the summary {head!r} of a frame with {nums} variables, values, functions, calls")
        self.describe(cf, m, "\n".join(l[4:] for l in graph.split("\n")))
        text = self.printed(cf.info)
        self.need([int(x) for x in re.findall(r"\d+", text.split("\n")[0])] == nums, P, f"the information {text.splitlines()[0]!r} on a frame with {nums} variables, values, functions, calls")
        rows = sorted((a, int(b)) for a, b in re.findall(r"^\s*\|\s*(\S+)\s*\|\s*(\d+)\s*\|\s*$", text, re.M))
        self.need(rows == sorted((n, len(x)) for n, x in m.sets.items()), P, f"the information lists {rows}")
        st = cf.get_var_stats()
        self.need(dict(zip(st["name"], st["num_values"])) == {v: len(x) for v, x in m.vs.items()} if m.vs else len(st) == 0, P, "variable statistics")
        st = cf.get_func_stats()
        self.need(dict(zip(st["name"], st["num_calls"])) == {v: len(x) for v, x in m.fs.items()} if m.fs else len(st) == 0, P, "function statistics")
        for v in self.rng.sample(sorted(m.vs), min(3, len(m.vs))):
            lines = self.printed(lambda: cf.var_info(v)).split("\n")
            self.need([x for x in re.findall(r"\d+", lines[0].split(" with ")[-1])] == [str(len(m.vs[v]))], P, f"information on {v}: {lines[0]!r}")
            got = sorted(re.findall(r"(\S+)=(\S+)::(\S+) \((\d+) calls\)", lines[1]))
            want = sorted((v, e[0], e[2], str(len(m.adj(T, e, m.vs[v], False)))) for e in m.into(v))
            self.need(got == want, P, f"creators of {v}: {lines[1]!r}, expected {want}")
            got = sorted(re.findall(r"(\S+)\((\S+)=(\S+), \.\.\.\) \((\d+) calls\)", lines[2]))
            want = sorted((e[1], e[2], v, str(len(m.adj(T, e, m.vs[v], True)))) for e in m.outof(v))
            self.need(got == want, P, f"consumers of {v}: {lines[2]!r}, expected {want}")
        self.drawn(cf, m, self.rng.random() < .5)
        self.ev["reports"] += 1

    def drawn(self, cf, m, verbose):
        from mandala import cf as cfmod, viz
        T, P = self.T, "C26"
        saved = [(mod, mod.write_output) for mod in (cfmod, viz) if hasattr(mod, "write_output")]
        for mod, _ in saved:
            mod.write_output = lambda *a, **kw: None        # (rendering is done by another program)
        try:
            text = self.printed(lambda: cf.draw(show_how="none", verbose=verbose, print_dot=True))
        finally:
            for mod, fn in saved:
                mod.write_output = fn
        nodes = {n: re.sub(r"<[^>]*>", "\n", x) for n, x in re.findall(r'^\s*"([^"]+)" \[label=<(.*)>, color=', text, re.M)}
        self.need(set(nodes) == m.nodes, P, f"nodes drawn: {sorted(nodes)}, of {sorted(m.nodes)}")
        for n, x in nodes.items():
            self.need(n in x.split("\n"), P, f"the label of {n} is {x!r}")
            got = re.findall(r"(\d+) (values|calls)", x)
            self.need(got == [(str(len(m.sets[n])), "values" if n in m.vs else "calls")], P, f"the label of {n} with {len(m.sets[n])} elements is {x!r}")
            if n in m.fs and m.fs[n]:
                self.need(f"@op:{T.calls[next(iter(m.fs[n]))].op}" in x, P, f"the label of {n} is {x!r}")
        if verbose:
            for fwd, what in ((True, "sources"), (False, "sinks")):
                for n, elts in m.ends(T, fwd).items():
                    if n in m.vs:
                        got = re.findall(r"(\d+) " + what, nodes[n])
                        self.need(got == ([str(len(elts))] if elts else []), P, f"{len(elts)} {what} in {n}, drawn with {nodes[n]!r}")
        got = sorted((a, b, l.split("\\n")[0].lstrip("*"), int(re.search(r"\((\d+) values\)", l).group(1)) if verbose else 0)
                     for a, b, l in re.findall(r'"([^"]+)" -> "([^"]+)" \[label="([^"]*)"', text))
        want = sorted((e[0], e[1], e[2], len(m.adj(T, e, m.fs[e[1]] if e[1] in m.fs else m.fs[e[0]], e[1] not in m.fs)) if verbose else 0) for e in m.E)
        self.need(got == want, P, f"edges drawn: {sorted(set(got) - set(want))[:4]}, not drawn: {sorted(set(want) - set(got))[:4]}")
        self.ev["drawings"] += 1

    def ordered(self, m, order, what):
        pos = {n: i for i, n in enumerate(order)}
        for s, d, l in m.E:
            if s in pos and d in pos and pos[s] > pos[d]:
                self.need(s in m.reachable([d], True), "C19", f"{what} {order} has {d} before {s} though {d} depends on {s}")

    # ---- editing
    def do_rename(self, f):
        m, rng = FM.of(f.cf), self.rng
        if not m.vs:
            return
        vs = sorted(m.vs)
        names = [n for n in ["new", "x", "var_0", "inc", "z_1", "v", "renamed", "fresh"] if n not in m.nodes]
        while len(names) < 2:
            names.append(next(n for n in map("name_{}".format, range(10 ** 4)) if n not in m.nodes and n not in names))
        mapping = dict(zip(rng.sample(vs, min(len(vs), rng.choice([1, 1, 2]))), rng.sample(names, 2)))
        if rng.random() < .15:      # to a name that is taken
            a = rng.choice(vs)
            b = rng.choice(sorted(m.nodes - {a}) or [a])
            if a != b:
                try:
                    f.cf.rename(vars={a: b})
                except ValueError:
                    self.ev["refused_renames"] += 1
                    return
                self.bad("C20", f"renaming {a} to the existing {b} was accepted")
        if len(mapping) == 1 and rng.random() < .5:
            (a, b), = mapping.items()
            cf = self.twoforms(f, lambda cf, inplace: cf.rename_var(a, b, inplace=inplace))
        else:
            cf = self.twoforms(f, lambda cf, inplace: cf.rename(vars=dict(mapping), inplace=inplace))
        for a, b in mapping.items():
            m = m.rename(a, b)
        self.same("C20", cf, m, f"renaming {mapping}")
        self.edit(cf, f)

    def edit(self, cf, f):
        m = FM.of(cf)
        self.need(cf.sources == {v for v in m.vs if not m.into(v)} and cf.sinks == {v for v in m.vs if not m.outof(v)}, "C20",
                  f"sources {cf.sources} or sinks {cf.sinks} after editing")
        self.need(m.refs() == set(cf.refs) and m.calls() == set(cf.calls), "C20", "the references or calls of the edited frame are not those in its nodes")
        w = wf(cf, self.T, f.strict)
        self.need(w is None, ("C15", "C20"), f"the edited frame is inconsistent: {w}")
        if self.guard(f, lim=12) and self.rng.random() < .3:     # it supports further operations
            for g in (cf.expand_back(), cf.expand_forward(), cf.expand_all() if self.guard(f, lim=8) else cf):
                w = wf(g, self.T, f.strict)
                self.need(w is None, ("C15", "C20"), f"an expansion of the edited frame is inconsistent: {w}")
            if self.small(m):
                cf.df(values="refs")
            self.ev["edited_frames_used"] += 1
        self.add(cf, f.strict, True, (f,))

    def do_drop(self, f):
        ns = self.some_nodes(f)
        m = FM.of(f.cf).drop(ns)
        if len(ns) == 1 and self.rng.random() < .7:
            n = ns[0]
            cf = self.twoforms(f, lambda cf, inplace: (cf.drop_node if self.rng.random() < .5 else cf.drop_var if n in cf.vs else cf.drop_func)(n, inplace=inplace))
        else:
            cf = self.twoforms(f, lambda cf, inplace: cf.drop(ns, inplace=inplace))
        self.same("C20", cf, m, f"dropping {ns}")
        self.edit(cf, f)

    def do_merge(self, f):
        m, rng = FM.of(f.cf), self.rng
        if len(m.vs) < 2:
            return
        a, b = rng.sample(sorted(m.vs), 2)
        cf = self.twoforms(f, lambda cf, inplace: cf.merge_into(a, b, inplace=inplace))
        self.same("C20", cf, m.merge(a, b), f"merging {a} into {b}")
        self.edit(cf, f)

    def do_mergevars(self, f):
        m = FM.of(f.cf)
        cf = self.twoforms(f, lambda cf, inplace: cf.merge_vars(inplace=inplace))
        n = FM.of(cf)
        self.need(set(n.vs) <= set(m.vs) and n.fs == m.fs, "C20", "merging variables changed other nodes")
        img = {}
        for v, s in m.vs.items():
            if v in n.vs:
                self.need(n.vs[v] == s, "C20", f"merging variables changed the references of {v}")
                img[v] = [v]
            else:
                img[v] = [w for w in n.vs if s < n.vs[w]]
                self.need(img[v], "C20", f"variable {v} was merged though no other one contains it")
        for v in n.vs:
            for w in n.vs:
                self.need(v == w or not (n.vs[v] < n.vs[w]), "C20", f"{v} was not merged into {w}")
        ok = {(x, y, l) for s, d, l in m.E for x in img.get(s, [s]) for y in img.get(d, [d])}
        self.need(n.E <= ok, "C20", f"merging variables made up edges {sorted(n.E - ok)}")
        for s, d, l in m.E:
            self.need(any((x, y, l) in n.E for x in img.get(s, [s]) for y in img.get(d, [d])), "C20", f"merging variables lost the edge {(s, d, l)}")
        self.edit(cf, f)

    def do_cleanup(self, f):
        m = FM.of(f.cf)
        cf = self.twoforms(f, lambda cf, inplace: cf.cleanup(inplace=inplace))
        self.same("C20", cf, m.nonempty(), "cleaning up")
        g = f.cf.copy()
        g.simplify()
        self.same("C20", g, m.nonempty(), "simplifying")
        self.edit(cf, f)

    # ---- tables
    def cell(self, x):
        """elements of a cell of a table of references"""
        if x is None or isinstance(x, float) and math.isnan(x):
            return frozenset()
        if isinstance(x, (self.Ref, self.Call)):
            return frozenset([x.hid])
        if isinstance(x, self.RefColl):
            return frozenset(r.hid for r in x.refs)
        if isinstance(x, self.CallColl):
            return frozenset(c.hid for c in x.calls)
        self.bad("C17", f"a cell of a table of references holds {x!r}")

    def norm(self, v):
        if v is None or isinstance(v, float) and math.isnan(v):
            return "None"
        if isinstance(v, (list, dict)):
            return repr(v)
        if isinstance(v, self.Call):
            return f"call {v.hid}"
        if isinstance(v, self.CallColl):
            return "calls " + ",".join(sorted(c.hid for c in v.calls))
        if isinstance(v, self.Ref):
            return f"ref {v.hid}"
        if isinstance(v, self.RefColl):
            return "refs " + ",".join(sorted(c.hid for c in v.refs))
        if hasattr(v, "values") and type(v).__name__ == "ValueCollection":
            return "values " + ",".join(sorted(self.norm(x) for x in v.values))
        try:
            return repr(float(v))
        except (TypeError, ValueError):
            return repr(v)

    def want_obj(self, hids, col, m):
        if not hids:
            return "None"
        if col in m.fs:
            return f"call {next(iter(hids))}" if len(hids) == 1 else "calls " + ",".join(sorted(hids))
        vals = [self.norm(self.T.val[h]) for h in hids]
        return vals[0] if len(vals) == 1 else "values " + ",".join(sorted(vals))

    def do_df(self, f):
        m0, rng, T = FM.of(f.cf), self.rng, self.T
        cf, edited = f.cf, f.edited
        if not m0.nodes or not self.small(m0):
            return
        ns = self.some_nodes(f, "v" if rng.random() < .6 else "vf") if rng.random() < .6 else []
        if not ns and rng.random() < .6:      # everything that two or three variables were computed from
            pick = self.some_nodes(f, "v", rng.choice([2, 2, 3]))
            ns = sorted(m0.reachable(pick, False))
        nodes = ns or sorted(m0.nodes)
        if len(nodes) == 1:
            return self.do_df1(f)
        incl, how = rng.random() < .6, "outer" if rng.random() < .8 else "inner"
        kw = dict(include_calls=incl, join_how=how)
        if incl and rng.random() < .3:
            del kw["include_calls"]
        if how == "outer" and rng.random() < .5:
            del kw["join_how"]
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            df = cf.df(*ns, values="refs", verbose=rng.random() < .2, **kw)
        mid = cf.midstream(*nodes)
        m = FM.of(mid)
        ends = m.ends(T, False)
        finals = sorted(n for n in m.nodes if ends[n])
        H = {(n, h): {k: v for k, v in m.history(T, n, h).items() if v} for n in finals for h in m.sets[n]}
        what = f"table of {ns or 'all nodes'} ({kw})"
        show = [n for n in nodes if incl or n in m.vs]
        if not finals:
            self.need(len(df) == 0, "C17", f"{what}: rows though nothing is final")
        else:
            cols = {c for x in H.values() for c in x} & set(show)
            if how == "outer" or len(finals) == 1:
                self.need(set(df.columns) == cols, "C17", f"{what} has the columns {sorted(df.columns)} instead of {sorted(cols)}")
            else:
                self.need(set(df.columns) <= cols, "C17", f"{what} has the columns {sorted(df.columns)}")
        self.need(len(set(df.columns)) == len(df.columns), "C17", f"{what} repeats columns")
        self.ordered(m, list(df.columns), "column order")
        rows = [{c: self.cell(x) for c, x in zip(df.columns, r)} for r in df.itertuples(index=False, name=None)]
        shown = {k: {c: s for c, s in x.items() if c in df.columns} for k, x in H.items()}
        covered = set()
        for r in rows:
            fits = [k for k, x in shown.items() if all(r[c] == s for c, s in x.items())]
            covered.update(fits)
            for c, s in r.items():
                self.need(not s or any(c in shown[k] for k in fits), "C17",
                          f"{what}: a cell of {c} ({len(s)} elements) belongs to the history of no final value in its row")
            self.need(any(fits) and (any(r.values()) or any(not shown[k] for k in fits)), "C17", f"{what}: an empty row")
        if how == "outer" or len(finals) == 1:
            for k, x in shown.items():
                self.need(k in covered or not x, "C17", f"{what}: a final value of {k[0]} is in no row together with what it was computed from")
        full_ = set(show) >= {c for x in H.values() for c in x}
        if not len(df.columns):      # nothing to show
            self.need(not any(shown.values()), "C17", f"{what} has no columns")
        elif len(finals) == 1:
            self.need(len(rows) == len(H), "C17", f"{what} has {len(rows)} rows for {len(H)} final values")
        elif len(finals) == 2 and full_:
            want = self.join([shown[k] for k in shown if k[0] == finals[0]], [shown[k] for k in shown if k[0] == finals[1]], how)
            fz = lambda rs: collections.Counter(frozenset((c, s) for c, s in r.items() if s) for r in rs)
            self.need(fz(rows) == fz(want), "C17", f"{what} has {len(rows)} rows, the join of the histories of {finals} has {len(want)}")
            self.ev["exact_joins"] += 1
        self.ev["rows_checked"] += len(rows)
        self.ev["cells_with_many"] += sum(len(s) > 1 for r in rows for s in r.values())
        # values
        lazy = None
        if rng.random() < .25 and len(df.columns):
            lazy = rng.sample(sorted(df.columns), rng.randrange(1, len(df.columns) + 1))
        with contextlib.redirect_stdout(sink):
            dv = cf.eval(*ns) if incl and how == "outer" and lazy is None and rng.random() < .3 else cf.df(*ns, lazy_vars=iter(lazy) if lazy and rng.random() < .3 else lazy, **kw)
        self.need(list(dv.columns) == list(df.columns) or set(dv.columns) == set(df.columns), "C17", f"{what}: the table of values has other columns")

        def wantcell(c, s):
            if lazy and c in lazy and c in m.vs:
                return "None" if not s else f"ref {next(iter(s))}" if len(s) == 1 else "refs " + ",".join(sorted(s))
            return self.want_obj(s, c, m)
        got = collections.Counter(frozenset((c, self.norm(x)) for c, x in zip(dv.columns, r)) for r in dv.itertuples(index=False, name=None))
        want = collections.Counter(frozenset((c, wantcell(c, s)) for c, s in r.items()) for r in rows)
        self.need(got == want, "C17", f"{what}: values {list((got - want))[:1]} instead of {list((want - got))[:1]} (lazy={lazy})")

    def join(self, A, B, how):
        ca, cb = {c for a in A for c in a}, {c for b in B for c in b}
        sh = ca & cb
        key = lambda r: tuple(r.get(c, frozenset()) for c in sorted(sh))
        res, ma, mb = [], set(), set()
        for i, a in enumerate(A):
            for j, b in enumerate(B):
                if any(key(a)) and key(a) == key(b):
                    res.append({**a, **b})
                    ma.add(i)
                    mb.add(j)
        if how == "outer":
            res += [a for i, a in enumerate(A) if i not in ma] + [b for j, b in enumerate(B) if j not in mb]
        return res

    def do_df1(self, f):
        m, rng = FM.of(f.cf), self.rng
        if not m.nodes:
            return
        n = rng.choice(sorted(m.nodes))
        refs = f.cf.df(n, values="refs")
        self.need(list(refs.columns) == [n] and collections.Counter(x.hid for x in refs[n]) == collections.Counter(m.sets[n]), "C17",
                  f"the table of {n} does not have one row per element")
        objs = f.cf.df(n)
        want = sorted(self.want_obj({h}, n, m) for h in m.sets[n])
        self.need(sorted(self.norm(x) for x in objs[n]) == want, "C17", f"the values of {n} are {list(objs[n])[:3]} instead of {want[:3]}")
        self.ev["rows_checked"] += len(refs)

    def do_attach(self, f):
        """Loading the values of a frame into its references."""
        m = FM.of(f.cf)
        f.cf.attach()
        for n in sorted(m.vs):
            for r in f.cf.get_var_values(n):
                self.need(r.in_memory, "C17", f"after attach, a reference of {n} is still without its value")
                got, want = self.norm(self.storage.unwrap(r)), self.want_obj({r.hid}, n, m)
                self.need(got == want, "C17", f"after attach, a reference of {n} holds {got} instead of {want}")
                self.ev["refs_attached"] += 1

    def do_table(self, f):
        m, T = FM.of(f.cf), self.T
        if not m.fs:
            return
        n = self.rng.choice(sorted(m.fs))
        df = f.cf.get_func_table(n)
        got = collections.Counter(frozenset((c, x.hid) for c, x in r.items() if isinstance(x, self.Ref)) for r in df.to_dict("records"))
        want = collections.Counter(frozenset((k, h) for k, h in list(T.calls[c].ins.items()) + list(T.calls[c].outs.items()) if h in m.refs())
                                   for c in m.fs[n])
        self.need(got == want, "C17", f"the table of {n} does not list its calls")
        self.ev["rows_checked"] += len(df)
        name = self.rng.choice(sorted({c.op for c in T.calls.values()} - {"__make_list__", "__make_dict__", "__list_getitem__", "__dict_getitem__", "log", "const"}) or [None])
        if name:   # the memoization table of an operation
            cf = self.storage.cf(self.ops[name])
            if not self.paths(FM.of(cf)):
                return
            df = cf.df()
            calls = [h for h, c in T.calls.items() if c.op == name]
            mm = FM.of(cf)
            want = collections.Counter()
            for h in calls:
                row = {name: f"call {h}"}
                for io_, fwd in ((T.calls[h].ins, 0), (T.calls[h].outs, 1)):
                    for k, x in io_.items():
                        for e in (mm.outof(name) if fwd else mm.into(name)):
                            if e[2] == k:
                                row[e[fwd]] = self.norm(T.val[x])
                want[frozenset((c, row.get(c, "None")) for c in df.columns)] += 1
            got = collections.Counter(frozenset((c, self.norm(x)) for c, x in zip(df.columns, r)) for r in df.itertuples(index=False, name=None))
            self.need(got == want, "C17", f"the memoization table of {name} has {sum(got.values())} rows for {len(calls)} calls, "
                                          f"{list(got - want)[:1]} instead of {list(want - got)[:1]}")
            self.ev["memo_tables"] += 1


def run_frames(case, env, prop):
    r = Runner(case, env, prop)
    try:
        r.run()
        r.untouched()
    except Stop as e:
        env.events["stopped"] += 1
        r.stop = str(e)
        if os.environ.get("VM_STOPS"):
            env.events["STOP " + str(e)[:90]] += 1
    return r.done()
