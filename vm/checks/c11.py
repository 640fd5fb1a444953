import os, sqlite3, sys
from .. import sim
from ..core import Violation
from ..simcheck import finish, DOM
PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("A random program of calls (collections, nested calls, several contexts) is run and saved, then run again from scratch in "
        "the same process, after reopening, or in a new process, with optional preloading of calls, shapes and functions. While "
        "it is re-run, SQLite's authorizer reports every column read and an audit hook every file opened: reading a stored value "
        "or overflow file, or executing a body, is a violation; so is a reference that is in memory. Afterwards the references "
        "are loaded and compared. Non-trivial: at least 3 calls retraced.")
BUDGET = {"quick": (2000, 32), "thorough": (40000, 900)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"retraced_calls": 300, "call_content": 40, "columns_read": 300, "lazy_refs": 300, "values_checked": 100, "sessions": 20}

READS = {"value": [], "files": [], "cols": 0}


def install():
    """Report what is read from databases and which overflow files are opened."""
    orig = sqlite3.connect

    def auth(action, a, b, dbname, src):
        if action == sqlite3.SQLITE_READ:
            READS["cols"] += 1
            if a == "atoms" and b == "value":
                READS["value"].append(a)
        return sqlite3.SQLITE_OK

    def connect(*args, **kw):
        c = orig(*args, **kw)
        c.set_authorizer(auth)
        return c
    sqlite3.connect = connect

    def hook(ev, args):
        if ev == "open" and isinstance(args[0], str) and args[0].endswith(".joblib") and "r" in (args[1] or "r"):
            READS["files"].append(args[0])
    sys.addaudithook(hook)


def gen(rng, i, tier):
    prof = {"repeat": .15, "struct": .4, "structout": .5, "big": rng.choice([0, 900]), "pool": 6}
    pool, specs = sim.gen_world(rng, prof)
    prog = []
    for _ in range(rng.choice([1, 2, 3])):
        prog.append(["enter", 0])
        for _ in range(rng.choice([2, 4, 7])):
            prog.append(sim.gen_call(rng, specs, pool, prof))
        prog.append(["exit"])
    steps = list(prog)
    vary = rng.random() < .5
    for _ in range(rng.choice([1, 2])):
        again = [sim.respell(rng, st) for st in prog] if vary else prog
        pre = [["preload", x] for x in rng.sample(["calls", "shapes", "ops", "lazy"], rng.choice([0, 0, 1, 2]))]
        ins = [["reset"]] + pre + [["begin_retrace"]] + again + [["end_retrace"]]
        k = rng.random()
        if k < .5:
            steps.append(["session", ins])
        elif k < .8:
            steps += [["reopen"]] + ins
        else:
            steps += [["clear"]] + ins
    return {"ops": specs, "cfg": sim.gen_cfg(rng, 0, .4), "steps": steps}


class S(sim.Sim):
    def do_begin_retrace(self):
        self.mon |= {"lazy", "novalue", "retrace"}
        READS.update(value=[], files=[], cols=0)
        self.n0 = self.ev["calls"]
        self.x0 = self.ev["executions"]

    def do_end_retrace(self):
        self.mon -= {"lazy", "novalue", "retrace"}
        if READS["value"] or READS["files"]:
            raise Violation(f"retracing read {len(READS['value'])} stored values and opened overflow files {READS['files'][:3]}")
        if self.ev["executions"] != self.x0:
            raise Violation("retracing executed a function body")
        self.ev["retraced_calls"] += self.ev["calls"] - self.n0
        self.ev["columns_read"] += READS["cols"]
        for r, v in self.vars[-12:]:
            self.check_ref(r, v, "retraced reference", 0)

    def compare(self, i, exp, res, err, log):
        x0 = self.ev["executions"]
        super().compare(i, exp, res, err, log)
        if "retrace" in self.mon and exp["kind"] == "run" and not exp["outs"] and not exp["ins"]:
            self.x0 += self.ev["executions"] - x0     # nothing to save of a call without inputs and outputs
            self.ev["calls"] -= 1
        elif "retrace" in self.mon and exp["kind"] not in ("hist", "content"):
            raise Violation(f"internal: a retraced call is {exp['kind']}")
        if "retrace" in self.mon and (READS["value"] or READS["files"]):
            raise Violation(f"a retraced call of {self.world.specs[i]['name']} read stored values {READS['value'][:3]} {READS['files'][:3]}")


def run(case, env):
    install()
    s = S(case, env, ()).run(case["steps"])
    return finish(s, env, env.events["retraced_calls"] > 2)
