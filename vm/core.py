"""Driver: generates cases, runs each one in a forked child against the real code in /repo, aggregates what the
monitors observed, writes evidence and reports violations.

A check module (vm/checks/cXX.py) provides
    PROPERTY, LEVEL, RULE            strings
    BUDGET = {tier: (max_cases, max_seconds)}
    gen(rng, i, tier) -> case        JSON-able; may contain "steps" (a list), which shrinking may shorten
    run(case, env) -> dict           raises Violation when an oracle disagrees with what the code did;
                                     returns {"sig": str, "nontrivial": bool, "events": {name: int}}
    PROBES = {key: function(env)}    optional: reproduce known findings (True: the defect is still there)
"""
import os, sys, json, time, random, resource, select, signal, tempfile, shutil, traceback, hashlib, importlib, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VM_REPO", "/repo")
NWORKERS = int(os.environ.get("VM_WORKERS", "8"))


class Violation(Exception):
    pass


class Env:
    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.events = collections.Counter()

    def dir(self, name=None):
        d = tempfile.mkdtemp(dir=self.scratch, prefix=(name or "d"))
        return d


def setup_repo_import():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import logging
    import mandala.imports  # noqa
    import mandala.cf  # noqa
    assert os.path.realpath(mandala.__file__).startswith(os.path.realpath(REPO) + os.sep), mandala.__file__
    logging.disable(logging.CRITICAL)
    # tqdm progress bars and prints of the code under test go to the child's redirected stdout/stderr


def load_check(pid):
    return importlib.import_module(f"vm.checks.{pid.lower()}")


def _child_main(fn, wfd, scratch, tier, quiet=True):
    """Runs in the forked child."""
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    if quiet:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
        sys.stdin = open(os.devnull)
    os.chdir(scratch)
    env = Env(scratch, tier)
    res = {}
    try:
        out = fn(env) or {}
        res = {"ok": True, **out}
    except Violation as e:
        res = {"violation": str(e), "trace": traceback.format_exc(limit=-12)}
    except BaseException as e:  # the code under test (or the harness driving it) failed unexpectedly
        res = {"violation": f"unexpected {type(e).__name__}: {e}"[:2000], "trace": traceback.format_exc(limit=-25)}
    ev = dict(env.events)
    for k, v in (res.get("events") or {}).items():
        ev[k] = ev.get(k, 0) + v
    res["events"] = ev
    data = json.dumps(res, default=repr).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
        f.flush()


def run_forked(fn, tier, scratch_root, timeout, quiet=True):
    """Run fn(env) in a forked child with its own scratch directory; return its result dict."""
    scratch = tempfile.mkdtemp(dir=scratch_root, prefix="case")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (int(timeout) + 60,) * 2)   # (should this process be orphaned)
            _child_main(fn, w, scratch, tier, quiet)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {"violation": f"the case did not finish within {timeout} s", "events": {}}
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        return {"violation": f"the process running the case died (status {status})", "events": {}}


def case_rng(seed, pid, i):
    return random.Random(f"{seed}:{pid}:{i}")


def run_case(mod, case, tier, scratch_root, quiet=True):
    timeout = float(os.environ.get("VM_CT", 0)) or getattr(mod, "CASE_TIMEOUT", 240)
    return run_forked(lambda env: mod.run(case, env), tier, scratch_root, timeout, quiet)


def gen_case(mod, pid, seed, i, tier):
    for attempt in range(5):
        try:
            return mod.gen(case_rng(seed, pid, i if not attempt else f"{i}/{attempt}"), i, tier)
        except Exception:
            if attempt == 4:
                raise


def _worker(mod, pid, tier, seed, w, n, max_cases, deadline, scratch_root, wfd, stop_fd):
    out = os.fdopen(wfd, "w", buffering=1)
    i = w
    # (past the deadline the parent decides when enough was observed)
    while i < max_cases and time.monotonic() < deadline:
        if select.select([stop_fd], [], [], 0)[0]:
            break
        case = gen_case(mod, pid, seed, i, tier)
        t0 = time.monotonic()
        res = run_case(mod, case, tier, scratch_root)
        res["i"] = i
        res["t"] = round(time.monotonic() - t0, 3)
        if "violation" in res or i < 3 * n:
            res["case"] = case
        out.write(json.dumps(res, default=repr) + "\n")
        i += n
    out.close()


def shrink(mod, case, tier, scratch_root, budget=25.0):
    """Greedy removal of steps while the case still violates."""
    if not isinstance(case.get("steps"), list):
        return case
    t_end = time.monotonic() + budget
    best = case
    chunk = max(1, len(best["steps"]) // 2)
    while chunk >= 1:
        j = 0
        changed = False
        while j < len(best["steps"]):
            if time.monotonic() > t_end:
                return best
            cand = dict(best)
            cand["steps"] = best["steps"][:j] + best["steps"][j + chunk:]
            fix = getattr(mod, "fix_steps", None)
            if fix is not None:
                cand = fix(cand)
                if cand is None:
                    j += chunk
                    continue
            r = run_case(mod, cand, tier, scratch_root)
            if "violation" in r and "did not finish" not in r["violation"]:
                best = cand
                changed = True
            else:
                j += chunk
        if chunk == 1 and not changed:
            break
        chunk = chunk // 2 if chunk > 1 else (1 if changed else 0)
    return best


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f) if e.get("property") == pid and e.get("status") == "known"]


def main(pid, tier, seed, replay=None):
    t0 = time.time()
    mono0 = time.monotonic()
    setup_repo_import()
    mod = load_check(pid)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch_root = tempfile.mkdtemp(prefix=f"vm-{pid}-", dir=base)
    try:
        if replay:
            with open(replay) as f:
                case = json.load(f)["case"]
            res = run_case(mod, case, tier, scratch_root, quiet=not os.environ.get("VM_LOUD"))
            print(json.dumps({k: v for k, v in res.items() if k != "trace"}, indent=1))
            if res.get("trace"):
                print(res["trace"])
            if "violation" in res:
                print(f"VIOLATION property={pid} replay={replay}")
                return 1
            return 0
        return _explore(mod, pid, tier, seed, scratch_root, t0, mono0)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def _explore(mod, pid, tier, seed, scratch_root, t0, mono0):
    if hasattr(mod, "prepare"):
        mod.prepare()
    # known findings: reproduce each one so that it is reported, by name, as long as it is there
    known_lines = []
    probes = getattr(mod, "PROBES", {})
    for ent in load_known(pid):
        fn = probes.get(ent["key"])
        if fn is None:
            raise RuntimeError(f"no probe for known finding {ent['key']}")
        r = run_forked(lambda env: {"present": bool(fn(env))}, tier, scratch_root, 120)
        if r.get("present") or "violation" in r:
            line = f"KNOWN-FINDING: property={pid} {ent['what']}"
            print(line, flush=True)
            known_lines.append(ent["key"])
    max_cases, max_s = mod.BUDGET[tier]
    # on a slow machine, go on until the required events were observed
    soft, deadline = mono0 + max_s, mono0 + max(max_s, float(os.environ.get("VM_MAXS", 600)))
    need = getattr(mod, "REQUIRED_EVENTS", {})
    seen, enough_sigs = collections.Counter(), False
    n = min(NWORKERS, max_cases)
    stop_r, stop_w = os.pipe()
    readers = {}
    pids = []
    for w in range(n):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            try:
                os.close(r)
                for rr in readers:
                    os.close(rr)
                os.close(stop_w)
                _worker(mod, pid, tier, seed, w, n, max_cases, deadline, scratch_root, wr, stop_r)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        os.close(wr)
        readers[r] = b""
        pids.append(p)
    results, stopped = [], False
    while readers:
        rl, _, _ = select.select(list(readers), [], [], 1)
        if not stopped and time.monotonic() > soft and enough_sigs and all(seen[k] >= m for k, m in need.items()):
            stopped = True
            os.write(stop_w, b"x")
        for r in rl:
            b = os.read(r, 1 << 16)
            if not b:
                os.close(r)
                del readers[r]
                continue
            buf = readers[r] + b
            *lines, rest = buf.split(b"\n")
            readers[r] = rest
            for ln in lines:
                res = json.loads(ln)
                results.append(res)
                seen.update(res.get("events") or {})
                enough_sigs = enough_sigs or bool("violation" not in res and res.get("nontrivial"))
                if "violation" in res and not stopped:
                    stopped = True
                    os.write(stop_w, b"x")
    worker_errors = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0:
            worker_errors += 1
    viol = sorted([r for r in results if "violation" in r], key=lambda r: r["i"])
    ok = [r for r in results if "violation" not in r]
    events = collections.Counter()
    for r in results:
        events.update(r.get("events") or {})
    sigs = {r["sig"] for r in ok if r.get("nontrivial")}
    samples = [dict(case=_abbrev(r["case"])) for r in sorted(results, key=lambda r: r["i"])
               if "case" in r and (r.get("nontrivial") or "violation" in r)][:3]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "observed": dict(sorted(events.items())),
            "known_findings_reproduced": known_lines,
            "slowest_case_s": max([r["t"] for r in results], default=0),
            "slowest_case": max(results, key=lambda r: r["t"])["i"] if results else None,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
    if viol:
        v = viol[0]
        case = shrink(mod, v["case"], tier, scratch_root)
        res = run_case(mod, case, tier, scratch_root)
        if "violation" not in res:
            case, res = v["case"], v
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(json.dumps(case, default=repr, sort_keys=True).encode()).hexdigest()[:12]
        rp = os.path.join(rdir, f"{pid}-{h}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "seed": seed, "index": v["i"], "violation": res["violation"],
                       "trace": res.get("trace"), "case": case}, f, indent=1, default=repr)
        print(f"{pid}: {res['violation'][:1500]}")
        if res.get("trace"):
            print(res["trace"][-2500:])
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        return 1
    if worker_errors:
        print(f"{pid}: {worker_errors} workers failed", flush=True)
        return 3
    missing = [k for k, m in need.items() if events.get(k, 0) < m]
    if missing or not sigs:
        print(f"{pid}: the run observed too little: {missing or 'no non-trivial case'}", flush=True)
        return 3
    print(f"{pid}: held on {len(results)} cases ({len(sigs)} distinct non-trivial) in {evidence['wall_s']} s; "
          f"observed {dict(sorted(events.items()))}")
    return 0


def _abbrev(case):
    s = json.dumps(case, default=repr)
    if len(s) > 3000:
        return s[:3000] + "..."
    return case
