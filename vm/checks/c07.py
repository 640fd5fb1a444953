import json, os, random, select, signal, sys, time, traceback
from .. import sim, faults
from ..core import Violation
from ..simcheck import finish, DOM
PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring of concurrent processes with injected delays; offline checker of the union of their calls"
RULE = ("2-5 processes (which the database file may not exist for yet) run random programs of contexts and overlapping calls on one "
        "database, in 2-3 phases separated by barriers, with random delays inside bodies and before SQL statements; some functions raise in "
        "one process and succeed in others. Every result is "
        "compared with the plain function's; a call saved by anybody in an earlier phase must not execute; no process may fail or "
        "hang; finally the database must hold exactly the union of the calls of all programs (decoded, all values loaded). "
        "Non-trivial: at least two processes committed concurrently and shared some calls.")
BUDGET = {"quick": (2000, 36), "thorough": (40000, 1000)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"processes": 100, "commits": 100, "calls_saved_by_others_reused": 30, "delays": 300, "overlapping_commits": 20,
                   "raising_calls": 20}
CASE_TIMEOUT = 110
HANG = 75


def gen(rng, i, tier):
    prof = {"repeat": .35, "struct": .25, "pool": 3, "nest": .5, "big": 900}
    pool, specs = sim.gen_world(rng, prof)
    nproc = rng.choice([2, 2, 3, 4, 5])
    progs, hist = [[] for _ in range(nproc)], []
    for ph in range(rng.choice([2, 3])):
        for p in progs:
            seg = []
            for _ in range(rng.choice([1, 1, 2])):
                seg.append(["enter", 0])
                for _ in range(rng.choice([1, 2, 4])):
                    c = rng.choice(hist) if hist and rng.random() < .5 else sim.gen_call(rng, specs, pool, prof)
                    seg.append(c)
                    hist.append(c)
                seg.append(["exit"])
                if rng.random() < .2: seg.append(rng.choice([["preload", "lazy"], ["preload", "eager"], ["clear"], ["reopen"]]))
            p.append(seg)
        if ph and rng.random() < .6:
            flaky(rng, progs, ph, sim.gen_call(rng, specs, pool, prof))
    cfg = {"db": "file"}
    if rng.random() < .12:
        cfg["vers"] = True
    if rng.random() < .4:
        cfg["overflow"] = 0.0004
    if rng.random() < .2:
        cfg["mangle"] = True
    return {"ops": specs, "cfg": cfg, "progs": progs, "seed": rng.randrange(10 ** 6), "fresh": rng.random() < .6,
            "delay": rng.choice([0, .002, .01])}


def rawsrc(src):
    """The same argument without references to results."""
    if src[0] == "rc":
        e = src[1]
        return ["rc", [rawsrc(x) for x in e] if isinstance(e, list) else {k: rawsrc(x) for k, x in e.items()}]
    return rawsrc(src[-1]) if src[0] in ("var", "elt", "plain") else src


def flaky(rng, progs, ph, c):
    """One process makes a call whose function raises, others make it with success, and the first one makes it again."""
    c = ["call", c[1], [rawsrc(x) for x in c[2]], {k: rawsrc(x) for k, x in c[3].items()}]
    qs = list(range(len(progs)))
    rng.shuffle(qs)

    def put(q, ph, c):
        seg = progs[q][ph]
        at = rng.choice([j for j, st in enumerate(seg) if st[0] == "enter"])
        end = next(j for j in range(at, len(seg)) if seg[j][0] == "exit")
        seg.insert(rng.randint(at + 1, end), c)
    put(qs[0], ph - 1, c + [{"fail": True}])
    put(qs[0], ph, c)
    for q in qs[1:]:
        if rng.random() < .6:
            put(q, ph - 1, c)


class P(sim.Sim):
    """A process among several: calls of the current phase may or may not have been made by others."""
    def do_call(self, i, args, kwargs, opts=None):
        n = len(self.vars)
        super().do_call(i, args, kwargs, opts)
        if opts:   # whether it is found instead of raising depends on the others: nobody uses what it returns
            del self.vars[n:]

    def compare(self, i, exp, res, err, log):
        if exp["kind"] == "raise":
            self.ev["raising_calls"] += 1
            if err is None and not log:
                self.ev["raising_calls_saved_by_others"] += 1
                return
        if exp["kind"] == "run" or (exp["kind"] == "content" and exp["log"]):
            want = list(exp["log"])
            for n, a in log:
                while want and want[0] != (n, a):
                    want.pop(0)
                if not want:
                    raise Violation(f"unexpected execution of {n} with {a}")
                want.pop(0)
            if len(log) < len(exp["log"]):
                self.ev["calls_saved_by_others_reused"] += 1
            exp = dict(exp, log=log)
        super().compare(i, exp, res, err, log)


def child(case, env, q, root, rfd, wfd, go):
    rng = random.Random(f"{case['seed']}:{q}")
    nproc = len(case["progs"])
    delays = [0]

    def act(kind, n):
        k = kind.split("+")[0]
        if rng.random() < {"begin": .3, "commit": .3, "create": .3, "file_write": .3, "pragma": .3, "write": .06, "read": .03}.get(k, 0):
            delays[0] += 1
            time.sleep(rng.random() * case["delay"])
    faults._ov[0] = root
    os.read(go, 1)
    faults.M.on, faults.M.act = True, act
    s = P(case, env, (), root=root)
    body = s.world.body

    def slow(i, argd):
        if rng.random() < .5:
            time.sleep(rng.random() * case["delay"])
        return body(i, argd)
    s.world.body = slow
    refs = [[] for _ in range(nproc)]
    known = s.models[0]
    spans = []
    for ph in range(len(case["progs"][0])):
        before = s.snapshot(0)
        s.refs = [refs[q]]
        t0 = time.monotonic()
        s.run(case["progs"][q][ph])
        spans.append((t0, time.monotonic()))
        refs[q] = s.refs[0]
        s.modelonly, on = True, faults.M.on
        for o in range(nproc):
            if o != q:
                s.refs = [refs[o]]
                model_segment(s, case["progs"][o][ph])
                refs[o] = s.refs[0]
        s.modelonly = False
        known.commit()
        os.write(wfd, b".")
        if os.read(rfd, 1) != b"g":
            return None
    s.ev["delays"] += delays[0]
    return {"ev": dict(s.ev), "spans": spans}


def model_segment(s, seg):
    s.stack = [(0, "run", None)]
    for st in seg:
        if st[0] == "call" and len(st) < 5:
            s.do_call(*st[1:])
    s.stack = []


def run(case, env):
    faults.install(env.scratch)
    root = os.path.join(env.scratch, "shared")
    os.makedirs(root)
    n = len(case["progs"])
    if not case["fresh"]:
        sim.Sim(case, env, (), root=root)
    procs, gor, gow = [], *os.pipe()
    for q in range(n):
        r1, w1 = os.pipe()   # to child
        r2, w2 = os.pipe()   # from child
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                try:
                    out = child(case, env, q, root, r1, w2, gor)
                except Violation as e:
                    out = {"violation": str(e)}
                except BaseException as e:
                    out = {"violation": f"unexpected {type(e).__name__}: {e} {traceback.format_exc(limit=-8)}"}
                os.write(w2, b"\n" + json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        procs.append((pid, w1, r2))
    os.write(gow, b"s" * n)
    bufs = {p[2]: b"" for p in procs}
    passed = {p[2]: 0 for p in procs}
    live = set(bufs)
    deadline = time.monotonic() + HANG
    level = 0
    while live:
        rl, _, _ = select.select(list(live), [], [], max(0, deadline - time.monotonic()))
        if not rl:
            raise Violation(f"{len(live)} of {n} processes sharing the database did not finish within {HANG} s")
        for r in rl:
            b = os.read(r, 65536)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
        if all(b"\n" in bufs[r] or bufs[r].count(b".") > level for r in bufs):
            level += 1
            for pid, w, r in procs:
                try:
                    os.write(w, b"g")
                except BrokenPipeError:
                    pass
        if any(b"violation" in b for b in bufs.values()) and not any(b"\n" in b and not b.rstrip().endswith(b"}") for b in bufs.values()):
            break
    outs = []
    for b in bufs.values():
        if b"violation" in b:
            raise Violation("in one of the processes: " + json.loads(b.split(b"\n", 1)[1])["violation"])
    for r, b in bufs.items():
        if b"\n" in b:
            o = json.loads(b.split(b"\n", 1)[1])
            if "violation" in o:
                raise Violation("in one of the processes: " + o["violation"])
            outs.append(o)
        else:
            raise Violation("one of the processes died")
    for pid, *_ in procs:
        os.waitpid(pid, 0)
    ev = env.events
    for o in outs:
        for k, v in o["ev"].items():
            ev[k] += v
    ev["processes"] += n
    over = 0
    for ph in range(len(outs[0]["spans"])):
        sp = sorted(o["spans"][ph] for o in outs)
        over += sum(1 for a, b in zip(sp, sp[1:]) if b[0] < a[1])
    ev["overlapping_commits"] += over
    s = sim.Sim(case, env, (), root=root)
    s.modelonly = True
    refs = [[] for _ in range(n)]
    shared = 0
    for ph in range(len(case["progs"][0])):
        for q in range(n):
            s.refs = [refs[q]]
            n0 = len(s.models[0].calls)
            model_segment(s, case["progs"][q][ph])
            refs[q] = s.refs[0]
    s.models[0].commit()
    s.final()
    return {"sig": f"{n}|{len(s.ids.rev)}|{case['seed']}", "nontrivial": over > 0 and n > 1}
