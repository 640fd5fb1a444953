import copy, os, random, shutil
from .. import sim, faults
from ..core import Violation
from ..simcheck import finish, DOM
PROPERTY = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with injected process kills at database and file operations; offline checker of what is left"
RULE = ("A small random program (contexts, calls, collections, overflow files, deletions, clean-ups) is first run undisturbed while "
        "every SQL statement, commit and overflow-file operation of the code is counted and the set of durable calls after each "
        "context exit is recorded. Then it is run again and again in child processes, each killed at one of these points (before or "
        "after the operation, or in the middle of writing a file). The database left behind is opened and decoded: its calls must be "
        "those durable before or after the operation in progress, every reference must load, and (half the time) the program is run again "
        "in lock step on what is left. Non-trivial: at least 3 kills hit, at distinct points, after something was written.")
BUDGET = {"quick": (2000, 40), "thorough": (40000, 1200)}
ASSUMPTIONS = [DOM, "process death, not power loss: what was written before the kill stays in the operating system's cache"]
REQUIRED_EVENTS = {"kills": 100, "kills_at_commit": 10, "kills_at_write": 20, "kills_in_files": 10, "partial_writes": 5,
                   "saved_before_kill": 20, "recovery_runs": 20, "blocks_of_50_calls": 3}


def gen(rng, i, tier):
    from .c13 import gen_drop
    prof = {"repeat": .25, "struct": .3, "pool": 4, "big": rng.choice([700, 1500])}
    pool, specs = sim.gen_world(rng, prof)
    steps, hist, kills = [], [], 30 if tier == "thorough" else 8
    if rng.random() < .07:   # a block of many calls
        ints = [["i", j] for j in range(60)]
        n = rng.choice([55, 80, 120] + [300] * (tier == "thorough"))
        steps = [["enter", 0]] + [sim.gen_call(rng, specs, ints, dict(prof, struct=0)) for _ in range(n)] + [["exit"]]
        kills //= 2
    for _ in range(rng.choice([1, 2, 2, 3])):
        steps.append(["enter", 0])
        for _ in range(rng.choice([1, 2, 3])):
            steps.append(rng.choice(hist) if hist and rng.random() < .25 else sim.gen_call(rng, specs, pool, prof))
            hist.append(steps[-1])
        if rng.random() < .1:
            steps.append(gen_drop(rng))
        steps.append(["exit"])
        k = rng.random()
        if k < .15: steps.append(["reopen"])
        elif k < .3: steps.append(["clear"])
        elif k < .45: steps += [gen_drop(rng)] + ([["cleanup"]] if rng.random() < .5 else [])
    cfg = {"db": "file"}
    if rng.random() < .12:
        cfg["vers"] = True
    if rng.random() < .7:
        cfg["overflow"] = rng.choice([0.0001, 0.0003, 0.0008])
    return {"ops": specs, "cfg": cfg, "steps": steps, "seed": rng.randrange(10 ** 6), "kills": kills}


def blocks(steps):
    out = []
    for st in steps:
        if st[0] == "enter": out.append([])
        elif st[0] == "call" and out: out[-1].append(st)
    return out


def gen_points(rng, kinds, n):
    """Choose kill points: (index, action)."""
    by = {}
    for j, k in enumerate(kinds, 1):
        by.setdefault(k, []).append(j)
    pts = []
    for _ in range(n):
        k = rng.choice(sorted(by))
        if rng.random() < .4:   # prefer the kinds that matter
            c = [x for x in by if x.split("+")[0] in ("commit", "write") or x.startswith("file")]
            k = rng.choice(sorted(c) or sorted(by))
        j = rng.choice(by[k])
        act = "kill"
        if (k == "file_write" and rng.random() < .6) or (k in ("write", "commit", "begin+") and rng.random() < .3):
            act = ["limit", rng.choice([0, 1, 50, 200, 500, 4096, 5000, 12345, 30000, 60000])]
        pts.append((j, k, act))
    return pts


def run(case, env):
    faults.install(env.scratch)
    rng = random.Random(case["seed"])
    ev = env.events
    ev["blocks_of_50_calls"] += sum(len(b) > 50 for b in blocks(case["steps"]))
    root = os.path.join(env.scratch, "ref")
    os.makedirs(root)
    faults._ov[0] = root
    kinds = []
    faults.M.on, faults.M.n, faults.M.act = True, 0, lambda k, n: kinds.append(k)
    ref = sim.Sim(case, env, (), root=root)
    states = [frozenset()]
    ref.on_durable = lambda: states.append(frozenset(ref.models[0].committed()))
    ref.run(case["steps"])
    faults.M.on = False
    ref.on_durable = None
    full = copy.copy(ref.models[0].calls)
    allcalls = dict(full)
    ref_ids = ref.ids
    # calls that were deleted again are needed too, to describe intermediate states
    for t in {t for st in states for t in st}:
        if t not in allcalls:
            allcalls[t] = ref.removed[t]
    nhit = 0
    for a, (j, kind, act) in enumerate(gen_points(rng, kinds, case["kills"])):
        d = os.path.join(env.scratch, f"k{a}")
        os.makedirs(d)
        done, finished = run_killed(case, env, d, j, act)
        ev["runs"] += 1
        if finished:
            ev["runs_not_killed"] += 1
        else:
            nhit += 1
            ev["kills"] += 1
            ev["kills_at_" + kind.split("+")[0] if not kind.startswith("file") else "kills_in_files"] += 1
            if act != "kill":
                ev["partial_writes"] += 1
        want = [states[done]] + ([states[done + 1]] if done + 1 < len(states) else [])
        what = f"killed at point {j} ({kind}, {act}) after {done} completed saves"
        # what is left
        try:
            ref.root = d
            ref.loaded_before = {}
            ref.models = [sim.Model(ref_ids)]
            m = ref.models[0]
            ref.open(0)
            dec = sim.Decoder(ref, ref.rows(0), ref.storages[0])
            got = frozenset(dec.call(h) for h in dec.g)
            if got not in want:
                miss = [ref_ids.show(t) for t in want[0] - got][:3]
                extra = [ref_ids.show(t) for t in got - want[-1]][:3]
                raise Violation(f"the database holds {len(got)} calls, expected {' or '.join(str(len(x)) for x in want)}; missing {miss}, partly saved {extra or len(got - want[0])}")
            for t in sorted(got):
                m.add(allcalls[t])
            m.commit()
            ref.check_db(0, full=True)
            if got:
                ev["saved_before_kill"] += 1
            if rng.random() < .5:
                ref.refs = [[]]
                ref.run(case["steps"])
                ref.final()
                ev["recovery_runs"] += 1
        except Violation as e:
            raise Violation(f"{what}: {e}")
        except Exception as e:
            raise type(e)(f"{what}: {e}") if isinstance(e, (ValueError, KeyError, OSError, RuntimeError)) else e
        shutil.rmtree(d, ignore_errors=True)
    return finish(ref, env, nhit > 2) | {"sig": f"{''.join(ref.sig)}|{len(kinds)}|{nhit}|{case['seed']}"}


def run_killed(case, env, d, j, act):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            faults._ov[0] = d

            def do(k, n):
                if n == j:
                    if act == "kill":
                        faults.kill()
                    else:
                        faults.limit_writes(act[1])
            faults.M.on, faults.M.n, faults.M.act = True, 0, do
            s = sim.Sim(case, env, (), root=d)
            s.on_durable = lambda: os.write(w, b"x")
            s.run(case["steps"])
            os.write(w, b"!")
        except BaseException:
            import traceback
            os.write(w, b"?" + traceback.format_exc(limit=-6).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if b"?" in data:
        raise Violation("the undisturbed part of a run failed: " + data.split(b"?", 1)[1].decode())
    return data.count(b"x"), data.endswith(b"!")
