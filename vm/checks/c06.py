import sqlite3, errno
from .. import sim, faults, values as V
from ..core import Violation
from ..simcheck import finish, DOM
PROPERTY = "C06"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with injected errors, lock-step reference model"
RULE = ("Random programs with errors: bodies that raise (outer, inner, after an inner call, caught by the outer body; ordinary and "
        "base exceptions), wrong numbers of outputs, wrong arguments, values whose serialisation fails once (as argument, output or "
        "collection element), SQL statements and commits that fail during calls and while a context is left, overflow files that "
        "cannot be written, context bodies that raise at any nesting depth. The model keeps what had completed; the error, the "
        "active context and modes, executions afterwards and the decoded database are compared. Non-trivial: at least 2 errors "
        "and a call that succeeded afterwards.")
BUDGET = {"quick": (2000, 36), "thorough": (40000, 1000)}
ASSUMPTIONS = [DOM]
REQUIRED_EVENTS = {"raising_calls": 100, "failed_saves": 50, "injected_call_errors": 50, "rejected_calls": 20, "call_raise": 100,
                   "recovered_saves": 30, "serialisation_errors": 20, "raising_bodies": 50}


def gen(rng, i, tier):
    prof = {"repeat": .45, "struct": .3, "pool": 5, "nest": .6, "big": rng.choice([0, 900]), "storages": 2}
    pool, specs = sim.gen_world(rng, prof)
    pool = pool + [["TOUCHY", ["i", 1]], ["TOUCHY", ["s", "t"]]]
    for s in specs:
        if s.get("nest") is not None and rng.random() < .4:
            s["catch"] = True
        for r in range(len(s["rec"])):
            if rng.random() < .3:
                s["rec"][r] = ["const", ["TOUCHY", ["i", r]]]
    j = len(specs)
    if rng.random() < .5:   # declares fewer outputs than it returns
        specs.append({"name": f"f{j}", "params": [{"n": "x", "k": "pk"}], "salt": j, "outs": 3, "nout": 2, "rec": [["mod", 3]], "badout": True})
    cfg = sim.gen_cfg(rng, .2, .4)
    cfg["storages"] = rng.choice([1, 1, 2])
    steps, hist = [], []
    for _ in range(50 if tier == "thorough" and i % 3 == 0 else 30):
        k = rng.random()
        if k < .2: steps.append(["enter", rng.randrange(2)] + (["run"] if rng.random() < .2 else []))
        elif k < .32:
            if rng.random() < .6:
                steps.append(["fault", {"at": rng.choice(["write", "write", "begin", "commit", "file_write", "file_rename"]),
                                        "nth": rng.choice([1, 1, 2, 3, 5, 8]), "exc": rng.choice(["op", "op", "kbd", "os", "locked"])}])
            steps.append(["exit", rng.random() < .35 and rng.choice(sim.BOOMS)])
        elif k < .35: steps.append(["reopen", rng.randrange(2)])
        elif k < .38: steps.append(["clear", rng.randrange(2)])
        elif k < .42: steps.append(["preload", rng.choice(["lazy", "eager"]), rng.randrange(2)])
        elif hist and k < .62: steps.append(rng.choice(hist))
        else:
            c = sim.gen_call(rng, specs, pool, prof)
            q = rng.random()
            if q < .3:
                c = c + [{"fail": True, "fail_inner": rng.random() < .4, "fail_after": rng.random() < .5, "base": rng.choice(sim.BOOMS)}]
            elif q < .42:
                c = c + [{"touch": rng.choice([1, 1, 2, 3, 4])}]
            elif q < .5:
                c = c + [{"fault": {"at": rng.choice(["read", "begin", "commit"]), "nth": rng.choice([1, 2, 3, 5, 8, 12, 20]),
                                    "exc": rng.choice(["op", "kbd"])}}]
            elif q < .56:
                c = c + [{"badarg": True}]
            steps.append(c)
            hist.append(c[:4])
    return {"ops": specs, "cfg": cfg, "steps": steps}


class Injected(BaseException):
    pass


def make_exc(kind):
    if kind == "op": return sqlite3.OperationalError("disk I/O error (injected)")
    if kind == "locked": return sqlite3.OperationalError("database is locked (injected)")
    if kind == "os": return OSError(errno.ENOSPC, "No space left on device (injected)")
    return KeyboardInterrupt("injected")


class Fault:
    """Raises an error at the nth point of a kind."""
    def __init__(self, spec):
        self.spec, self.n, self.exc = spec, 0, None

    def act(self, kind, n):
        if kind == self.spec["at"] and self.exc is None:
            self.n += 1
            if self.n == self.spec["nth"]:
                self.exc = make_exc(self.spec["exc"])
                raise self.exc

    def arm(self):
        faults.M.act, faults.M.on = self.act, True

    def disarm(self):
        faults.M.act, faults.M.on = None, False

    def is_mine(self, e):
        while e is not None:
            if e is self.exc:
                return True
            e = e.__cause__ or e.__context__
        return False


class S(sim.Sim):
    fault = None
    failed_save = set()

    def do_fault(self, spec):
        self.fault = Fault(spec)

    def exit(self, raising=False):
        k, mode, cm = self.stack[-1]
        f, self.fault = self.fault, None
        if f is not None and self.depth(k) != 1:
            self.fault = f   # for the exit that saves
        if f is None or self.depth(k) != 1:
            had = bool(self.models[k].pending) and k in self.failed_save
            super().exit(raising)
            if self.depth(k) == 0:
                if had:
                    self.ev["recovered_saves"] += 1
                self.failed_save.discard(k)
            return
        body = sim.exit_error(raising) if raising else None
        err = None
        f.arm()
        try:
            if cm.__exit__(type(body) if body else None, body, None) and raising:
                raise Violation("leaving a context swallowed the error of its body")
        except BaseException as e:
            err = e
        finally:
            f.disarm()
        if err is not None and not f.is_mine(err):
            raise err
        if err is None and f.exc is not None and f.spec["exc"] != "locked":
            raise Violation(f"an error while saving ({f.exc!r}) did not reach the caller")
        if err is not None:
            err.__traceback__ = None
            f.exc.__traceback__ = None
            err = True
        self.stack.pop()
        if err is None:
            self.models[k].commit()
        else:
            self.ev["failed_saves"] += 1
            self.failed_save.add(k)
            self.sig.append("x")
        self.check_mode()
        self.check_db(k, expect=self.models[k].committed())

    def do_call(self, i, args, kwargs, opts=None):
        opts = dict(opts or {})
        i %= len(self.world.specs)
        spec = self.world.specs[i]
        if opts.get("badarg"):
            if any(p["k"] == "vkw" for p in spec["params"]):
                return
            return self.rejected(i, args, dict(kwargs, no_such_parameter=["raw", ["i", 1]]), TypeError)
        if spec.get("badout") and self.where()[0] is not None and self.where()[1] == "run":
            return self.rejected(i, args, kwargs, AssertionError)
        if spec.get("nest") is not None:
            opts.pop("touch", None)
            opts.pop("fault", None)
        if opts.get("touch"):
            def restore(what, e=None):
                if what == "arm": V.Pickling.countdown, V.Pickling.fired = opts["touch"], False
                elif what == "disarm": V.Pickling.countdown = 0
                elif what == "fired": return V.Pickling.fired
                elif what == "mine":
                    if isinstance(e, MemoryError) or V.Pickling.fired:
                        self.ev["serialisation_errors"] += 1
                        return V.Pickling.fired
            opts["restore"] = restore
        elif opts.get("fault"):
            f = Fault(opts["fault"])

            def restore(what, e=None):
                if what == "arm": f.arm()
                elif what == "disarm": f.disarm()
                elif what == "fired": return f.exc is not None
                elif what == "mine":
                    ok = f.is_mine(e)
                    e.__traceback__ = None
                    return ok
            opts["restore"] = restore
        if opts.get("fail"):
            self.ev["raising_calls"] += 1
        super().do_call(i, args, kwargs, opts)

    def rejected(self, i, args, kwargs, exc):
        """A call that must raise this error and leave no trace."""
        k, _ = self.where()
        snap = self.snapshot(k)
        pa = [self.resolve(a, "A") for a in args]
        pk = {n: self.resolve(a, "A") for n, a in kwargs.items()}
        n0 = len(self.world.exec_log)
        try:
            res = self.world.ops[i](*[x[0] for x in pa], **{n: x[0] for n, x in pk.items()})
        except exc:
            pass
        else:
            raise Violation(f"a call that cannot succeed returned {res!r}")
        finally:
            if exc is TypeError and len(self.world.exec_log) != n0:
                raise Violation("a call with wrong arguments was executed")
            self.rollback(k, snap)
        self.ev["rejected_calls"] += 1


def run(case, env):
    faults.install(env.scratch)
    s = S(case, env, {"db"})
    s.failed_save = set()
    faults._ov[0] = s.root
    s.run(case["steps"])
    for k in range(s.nst):   # what is still pending is saved by the next successful context
        s.do_enter(k)
        s.exit()
    s.final()
    e = env.events
    return finish(s, env, e["failed_saves"] + e["call_raise"] + e["injected_call_errors"] + e["rejected_calls"] > 1 and e["call_run"])
