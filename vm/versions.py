"""Versioned storages in lock-step with a model: sessions over a changing codebase, run in forked processes."""
import builtins, contextlib, importlib, io, json, linecache, os, random, re, signal, sqlite3, sys, collections, traceback
from . import core
from .codebase import Code, Boom, Invalid, TooLong, MISSING, STEP_CAP, shape, is_fn


class Stop(Exception):
    """The run diverged from the model in a way another property is about."""


# ------------------------------------------------------------------------------------------------- the model
class Trace:
    def __init__(self):
        self.own = []           # keys, in order
        self.nested = []        # records


class Rec:
    """What versioning remembers about (op, value) under one semantic version."""
    pass


class Model:
    def __init__(self):
        self.code = None
        self.dags = {}          # key -> {"kind", "head", "commits": {content: (parent, sem)}}
        self.recs = []          # version records
        self.rows = []          # saved calls
        self.n = 0

    # --- history
    def questions(self, code):
        return [k for k, d in self.dags.items() if code.content(k, d["kind"]) not in d["commits"]]

    def can_be_no(self, key, code):
        d = self.dags[key]
        new = code.content(key, d["kind"])
        return MISSING not in (new, d["head"]) and shape(new, key, d["kind"]) == shape(d["head"], key, d["kind"])

    def sync(self, code, answers):
        for k, d in self.dags.items():
            c = code.content(k, d["kind"])
            if c not in d["commits"]:
                sem = c if answers.get(k, "y") == "y" else d["commits"][d["head"]][1]
                d["commits"][c] = (d["head"], sem)
            d["head"] = c

    def sem(self, key, content):
        return self.dags[key]["commits"][content][1]

    def cur(self, key):
        return self.dags[key]["head"]

    # --- calls
    def find(self, ref, v):
        for r in self.recs:
            if r.op == ref and r.v == v and all(self.sem(k, self.cur(k)) == s for k, s in r.sems.items()):
                return r
        return None

    def call(self, ref, v, hid, log):
        """A memoized call with the value v, given by the history `hid`; returns (row, record)."""
        rec = self.find(ref, v)
        if rec is not None:
            row = next((w for w in self.rows if w.op == ref and w.hid == hid and w.sem == rec.sem), None)
            if row is None:
                src = next((w for w in self.rows if w.op == ref and w.v == v and w.sem == rec.sem), None)
                if src is not None:
                    row = self.add_row(ref, v, hid, rec.sem, src.result, src.deps)
            if row is not None:
                log["found"] += 1
                return row
        tr = Trace()
        ev = Observer(self, tr, log)
        try:
            result = self.code.run(ref, v, ev)
        except Boom:
            log.setdefault("failed", []).append(tr)
            raise
        deps = collections.defaultdict(set)
        for k, kind in tr.own:
            deps[k].add(self.code.content(k, kind))
            if k not in self.dags:
                c = self.code.content(k, kind)
                self.dags[k] = {"kind": kind, "head": c, "commits": {c: (None, c)}}
        for row in tr.nested:
            for k, cs in row.deps.items():
                deps[k] |= cs
        sems = {}
        for k, cs in deps.items():
            ss = {self.sem(k, c) for c in cs}
            assert len(ss) == 1, (k, cs)
            sems[k] = ss.pop()
        sem = (ref, tuple(sorted(sems.items())))
        if rec is None:
            rec = Rec()
            rec.op, rec.v, rec.sems, rec.sem = ref, v, sems, sem
            for o in self.recs:
                if o.op == ref and o.v == v:
                    both = set(o.sems) & set(sems)
                    if all(o.sems[k] == sems[k] for k in both):
                        raise Invalid("the model itself cannot tell two versions apart")
            self.recs.append(rec)
        row = self.add_row(ref, v, hid, sem, result, {k: frozenset(c) for k, c in deps.items()})
        row.direct = {k for k, _ in tr.own}
        for o in self.recs:
            # a saved call that may not be reused, only because of changes in what its inner memoized calls used
            if o is not rec and o.op == ref and o.v == v and hasattr(o, "direct"):
                new = {k for k, s in o.sems.items() if self.sem(k, self.cur(k)) != s}
                log["inner_only"] = log.get("inner_only", 0) + (bool(new) and not new & o.direct)
        rec.direct = row.direct
        return row

    def add_row(self, ref, v, hid, sem, result, deps):
        row = Rec()
        self.n += 1
        row.id, row.op, row.v, row.hid, row.sem, row.result, row.deps = self.n, ref, v, hid, sem, result, deps
        self.rows.append(row)
        return row

    def drop_rows(self, rows):
        gone = set(id(r) for r in rows)
        while True:
            more = [w for w in self.rows if id(w) not in gone and w.hid[0] == "row" and any(
                id(o) in gone and self.out_hid(o) == w.hid for o in self.rows)]
            if not more:
                break
            gone |= {id(w) for w in more}
        self.rows = [w for w in self.rows if id(w) not in gone]
        return len(gone)

    def out_hid(self, row):
        return ("row", row.op, row.hid, row.sem)

    def drop_version(self, sem):
        n = self.drop_rows([w for w in self.rows if w.sem == sem])
        self.recs = [r for r in self.recs if r.sem != sem]
        return n


class Observer:
    def __init__(self, model, trace, log):
        self.m, self.t, self.log, self.depth = model, trace, log, 0

    def _own(self, key, kind):
        if (key, kind) not in self.t.own:
            self.t.own.append((key, kind))

    def ran(self, key, v):
        self.log["hits"].append([f"{key[0]}.{key[1]}", v])
        if len(self.log["hits"]) > STEP_CAP:
            raise TooLong()
        self._own(key, "fn")

    def read(self, key):
        self.log["reads"] += 1
        self._own(key, "glob")

    @contextlib.contextmanager
    def noop(self):
        self.depth += 1
        try:
            yield
        finally:
            self.depth -= 1

    def op(self, ref, v):
        if self.depth:
            return self.m.code.run(ref, v, self)
        sub = {"found": 0}
        try:
            n0 = len(self.log.get("failed", []))
            row = self.m.call(ref, v, ("raw", v), self.log)
        except Boom:
            tr = self.log["failed"].pop()
            for k, kind in tr.own:
                self._own(k, kind)
            self.t.nested += tr.nested
            raise
        self.t.nested.append(row)
        self.log["nested"] = self.log.get("nested", 0) + 1
        return row.result


def new_log():
    return {"hits": [], "reads": 0, "found": 0}


# ------------------------------------------------------------------------------------------- the code on disk
HELP = '''
import numpy as np
HITS = []
def hit(name, x):
    HITS.append([name, x])
def num(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if v is None:
        return 1
    if isinstance(v, bool):
        return 5 + v
    if isinstance(v, (int, float)):
        return int(v * 4) if isinstance(v, float) else v
    if isinstance(v, str):
        return sum(map(ord, v))
    if isinstance(v, set):
        return sum(map(num, v)) + 7
    if isinstance(v, tuple):
        return num(list(v)) + 17
    if type(v).__name__ == "AtomRef":
        return num(v.obj) + 11
    if isinstance(v, dict):
        return sum(ord(k[0]) * num(x) for k, x in v.items()) + 2
    return sum((i + 1) * num(x) for i, x in enumerate(v)) + 3
def u(r):
    from mandala.model import Context
    c = Context.current_context
    return r if c is None else c.storage.unwrap(r)
'''


class Disk:
    """Layouts: 'flat' (a directory of modules), 'pack' (a directory holding packages), 'pkg' (deps_package), 'main'."""

    def __init__(self, root, layout):
        self.root, self.layout = root, layout
        self.help = os.path.join(root, "help")
        self.src = os.path.join(root, "src")
        os.makedirs(self.help)
        os.makedirs(self.src)
        with open(os.path.join(self.help, "vmhelp.py"), "w") as f:
            f.write(HELP)
        self.cells = 0

    def path(self, m):
        if self.layout == "main":
            return None
        p = m.split(".")
        d = os.path.join(self.src, *p)
        return d

    def deps(self):
        if self.layout == "main":
            return {"deps_path": "__main__"}
        if self.layout == "pkg":
            return {"deps_path": os.path.join(self.src, "pkg"), "deps_package": "pkg"}
        return {"deps_path": self.src}

    def write(self, code):
        if self.layout == "main":
            self.cells += 1
            with open(os.path.join(self.src, f"cell{self.cells}.py"), "w") as f:
                f.write(code.source("__main__"))
            return
        keep = set()
        mods = list(code.mods)
        for m in mods:
            p = m.split(".")
            for i in range(1, len(p)):
                q = ".".join(p[:i])
                if q not in mods:
                    keep.add(self._put(q, "", True))
            keep.add(self._put(m, code.source(m), any(o.startswith(m + ".") for o in mods) or m in ("pkg", "p")))
        for d, _, fs in os.walk(self.src):
            for f in fs:
                if f.endswith(".py") and os.path.join(d, f) not in keep:
                    os.unlink(os.path.join(d, f))

    def _put(self, m, src, is_pkg):
        p = os.path.join(self.src, *m.split("."))
        if is_pkg:
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, "__init__.py")
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            p += ".py"
        if not (os.path.exists(p) and open(p).read() == src):
            with open(p, "w") as f:
                f.write(src)
        return p


# ---------------------------------------------------------------------------------------- running a session
class Asked(Exception):
    pass


def panel(text):
    """The lines inside the panels of a text."""
    return [x[2:-2].rstrip() if x.startswith("│ ") else x for x in text.split("\n")]


def is_diff(lines, a, b):
    """Do these lines say how `a` becomes `b`?"""
    C = lambda x: collections.Counter(y.rstrip() for y in x if y.strip())
    minus, plus = C(x[1:] for x in lines if x[:1] == "-"), C(x[1:] for x in lines if x[:1] == "+")
    a, b = C(a.split("\n")), C(b.split("\n"))
    return not minus - a and not plus - b and a - minus + plus == b and not C(x[1:] for x in lines if x[:1] == " ") - a


class Session:
    """Runs in its own process."""

    def __init__(self, disk, db, opts, show=None):
        self.disk, self.show = disk, show and random.Random(show)
        if show:
            os.environ["COLUMNS"] = "600"        # (what is printed in panels is not wrapped)
        sys.path[:0] = [disk.help, disk.src]
        if disk.layout == "main":
            import types
            sys.modules["__main__"] = types.ModuleType("__main__")
            sys.modules["__main__"].__file__ = os.path.join(disk.src, "cell.py")
        import vmhelp
        self.help = vmhelp
        self.db, self.opts = db, opts
        self.loaded = False
        self.refs = {}
        self.st, self.sts, self.outer, self.left = None, [], [], []
        self.new, self.made = {}, {}
        self.shown = {"ok": [], "bad": []}

    def load(self, mods):
        if self.disk.layout == "main":
            ns = sys.modules["__main__"].__dict__
            fn = os.path.join(self.disk.src, f"cell{self.disk.cells}.py")
            with open(fn) as f:
                src = f.read()
            # names of earlier cells that are gone from the code are deleted, as a restarted notebook would have it
            for k in list(ns):
                if not k.startswith("__"):
                    del ns[k]
            exec(compile(src, fn, "exec"), ns)
        else:
            for m in list(sys.modules):
                f = getattr(sys.modules[m], "__file__", None)
                if f and f.startswith(self.disk.src + os.sep):
                    del sys.modules[m]
            importlib.invalidate_caches()
            linecache.clearcache()
            for m in mods:
                importlib.import_module(m)
        self.loaded = True

    def storage(self, c=None):
        """Two storage objects of the same database where the case asks for it, opened when the session starts."""
        if not self.sts:
            from mandala.imports import Storage
            self.sts = [Storage(db_path=self.db, **self.disk.deps(), **self.opts) for _ in range(1 + ("on" in (c or {})))]
        self.st = self.sts[(c or {}).get("on") or 0]
        return self.st

    def obj(self, ref):
        return getattr(sys.modules[ref[0]], ref[1])

    def enter(self, answers, how, c=None):
        """-> (asked: [[module, name]], error)"""
        self.outer.append((self.st, self.new))
        res = self._enter(answers, how, c)
        if res[1] is None:
            self.new = {}
        else:
            self.st, self.new = self.outer.pop()
        return res

    def _enter(self, answers, how, c):
        asked = []
        out = io.StringIO()
        pat = re.compile(r"^CHANGE DETECTED in (\S+) from module (\S+)$", re.M)
        st = self.storage(c)

        old = self.heads() if self.show else None
        texts = []

        def reply(*a):
            found = pat.findall(out.getvalue())
            name, mod = found[-1] if found else ("?", "?")
            asked.append([mod, name])
            texts.append([(mod, name), out.getvalue().rsplit("CHANGE DETECTED", 1)[-1]])
            a = answers.get(f"{mod}:{name}", "y")
            if a == "refuse":
                if how == "eof":
                    raise EOFError()
                if how == "kbd":
                    raise KeyboardInterrupt()
                return "a"
            if a == "odd":
                asked.pop()
                answers[f"{mod}:{name}"] = "y"
                return "maybe"
            return a
        old_in, old_out = builtins.input, sys.stdout
        builtins.input, sys.stdout = reply, out
        try:
            st.__enter__()
        except BaseException as e:
            if type(e) not in (ValueError, EOFError, KeyboardInterrupt) or "refuse" not in answers.values():
                raise
            return asked, f"{type(e).__name__}: {e}"[:200]
        finally:
            builtins.input, sys.stdout = old_in, old_out
        if self.show:
            self.questions(old, texts)
        return asked, None

    # ---- what is shown of versions
    def heads(self):
        vs = self.st.get_versioner()
        flat = vs.get_flat_versions()
        out = {}
        for k, dag in vs.component_dags.items():
            if dag.head is not None:
                sem = dag.commits[dag.head].semantic_hash
                c = dag.get_content(dag.head)
                out[k] = c if isinstance(c, str) else c[1], sorted(c for c, v in flat.items() if v.semantic_expansion.get(k) == sem)
        return out

    def wrong(self, cond, msg):
        self.shown[cond and "ok" or "bad"].append(msg)

    def questions(self, old, texts):
        """What was printed before a question: the difference of the sources, and the versions it concerns."""
        new = self.heads()
        for k, text in texts:
            if k in old and k in new:
                a, b = old[k][0], new[k][0]
                if isinstance(a, str) and isinstance(b, str):
                    lines = panel("\n".join(x for x in text.split("\n") if x.startswith("│ ")))
                    lines = [re.sub(r"^ *\d+( |$)", "", x, count=1) for x in lines]
                    self.wrong(is_diff(lines, a, b), f"the change of {k} from {a!r:.300} to {b!r:.300} is shown as {lines}")
                got = sorted(re.findall(r"^ *Version of .*\(content: (\w+), semantic: \w+\)", text, re.M))
                self.wrong(got == old[k][1], f"the change of {k} concerns versions {old[k][1]}, shown are {got}")

    def printed(self, f, *a, **kw):
        out, old = io.StringIO(), sys.stdout
        sys.stdout = out
        try:
            f(*a, **kw)
        finally:
            sys.stdout = old
        return out.getvalue()

    def named(self, m, q):
        """What is named so, unless it is only imported there."""
        f = sys.modules.get(m)
        for x in q.split("."):
            f = getattr(f, x, None)
        g = getattr(f, "f", f)
        return f if (getattr(g, "__module__", None), getattr(g, "__qualname__", None)) == (m, q) else None

    def reports(self, history, versions):
        st, r = self.st, self.show
        H = {tuple(d["key"]): d for d in history}
        for k in r.sample(sorted(H), min(4, len(H))):
            d = H[k]
            f = self.named(*k)
            if f is None or any(not isinstance(c["content"], str) for c in d["commits"].values()):
                continue
            text = {h: c["content"] for h, c in d["commits"].items()}
            sem = {h: c["sem"] for h, c in d["commits"].items()}
            if not callable(f):
                continue
            # the history of the source
            for compact in (False, True):
                blocks = self.printed(st.source_history, f, show_commit_ids=True, plain=True, compact=compact).split("\n--------\n")
                self.wrong(blocks[-1].strip() == "" and "\n" in blocks[0], f"history of {k}: {blocks[-1]!r}")
                self.wrong(k[1] in blocks[0].split("\n")[0] and k[0] in blocks[0].split("\n")[0], f"history of {k}: {blocks[0]!r:.200}")
                blocks[0] = blocks[0].split("\n", 1)[-1]
                path, seen = [], []
                for b in blocks[:-1]:
                    depth = (len(b) - len(b.lstrip(" "))) // 4
                    lines = [x[4 * depth:] for x in b.split("\n")]
                    head = lines[0] == "### ===HEAD==="
                    lines = lines[head:]
                    h = lines[0].split("=")[-1]
                    seen.append(h)
                    if h not in text:
                        continue
                    self.wrong(lines[0] == f"### content_commit={h}" and lines[1] == f"### semantic_commit={sem[h]}", f"history of {k}: {lines[:2]}, {sem[h]}")
                    self.wrong(head == (h == d["head"]), f"history of {k}: {h} is marked as current: {head}; the current one is {d['head']}")
                    path[depth:] = [h]
                    parents = d["commits"][h]["parents"]
                    self.wrong(len(path) == depth + 1 and (not depth if not parents else depth and path[depth - 1] == parents[0]), f"history of {k}: {h} with parents {parents} is shown after {path}")
                    if compact and parents:
                        self.wrong(is_diff(lines[2:], text[parents[0]], text[h]), f"history of {k}: the change from {text[parents[0]]!r} to {text[h]!r} is shown as {lines[2:]}")
                    else:
                        self.wrong("\n".join(lines[2:]).rstrip("\n") == text[h].rstrip("\n"), f"history of {k}: {lines} is shown for {text[h]!r}")
                self.wrong(sorted(seen) == sorted(text), f"history of {k} shows {sorted(seen)}, of {sorted(text)}")
            got = panel(self.printed(st.source_history, f))
            for h in text:
                self.wrong(all(any(x.rstrip() in y for y in got) for x in text[h].split("\n")), f"history of {k} shows no {text[h]!r}")
            # two versions of it
            a, b = r.choice(sorted(text)), r.choice(sorted(text))
            lines = re.sub("\033\\[\\d+m", "", self.printed(st.diff, a, b)).rstrip("\n").split("\n")
            self.wrong(is_diff(lines, text[a], text[b]), f"the difference of {text[a]!r} and {text[b]!r} is shown as {lines}")
            self.wrong(self.printed(st.code, a).rstrip("\n") == text[a].rstrip("\n"), f"the code of {a}")
            self.wrong(self.printed(st.get_code, b).rstrip("\n") == text[b].rstrip("\n"), f"the code of {b}")
        for k in sorted({tuple(v["component"]) for v in versions.values()}):
            f = self.named(*k)
            if f is None:
                continue
            V = {ch: v for ch, v in versions.items() if tuple(v["component"]) == k}
            plain = self.printed(st.versions, f, show_dep_commit_ids=True, plain=True)
            parts = re.split(r"^Version of (.*)$", plain, flags=re.M)
            got = {}
            for title, body in zip(parts[1::2], parts[2::2]):
                m = re.search(r"content: (\w+), semantic: (\w+)", title)
                self.wrong(m and f'"{k[1]}"' in title and f'"{k[0]}"' in title and m.group(1) not in got, f"versions of {k}: {title!r}")
                if m:
                    got[m.group(1)] = m.group(2), body
            self.wrong(sorted(got) == sorted(V) and parts[0].strip() == "", f"versions of {k}: {sorted(got)} are shown, of {sorted(V)}")
            rich = "\n".join(panel(self.printed(st.versions, f, show_dep_commit_ids=True)))
            self.wrong(sorted(re.findall(r"content_version_id=(\w+)", rich)) == sorted(V), f"versions of {k} in panels: {rich!r:.400}, of {sorted(V)}")
            for ch, (s, body) in got.items():
                if ch not in V:
                    continue
                self.wrong(s == V[ch]["semantic"], f"version {ch} of {k} is shown with {s}, recorded with {V[ch]['semantic']}")
                meta = self.printed(st.code, ch, meta=True)
                for what, t in (("versions", "\n".join(x[4:] for x in body.split("\n"))), ("code", meta)):
                    ids = re.findall(r"^### content_commit=(\w+)\n### semantic_commit=(\w+)$", t, re.M)
                    want = [(h, H[tuple(q)]["commits"][h]["sem"]) for q, h in V[ch]["sems"]]
                    self.wrong(sorted(ids) == sorted(want), f"{what} shows dependencies {sorted(ids)} for {ch} of {k}, of {sorted(want)}")
                    for q, h in V[ch]["sems"]:
                        c = H[tuple(q)]["commits"][h]["content"]
                        if c is not None:
                            self.wrong(f"### content_commit={h}\n### semantic_commit={H[tuple(q)]['commits'][h]['sem']}\n{c}".rstrip("\n") in t, f"{what}, version {ch} of {k}: no code of {q}: {t!r:.600}")
        self.wrong(self.history() == history and self.versions() == versions, "showing the versions changes them")

    def call(self, c):
        st = self.st
        self.help.HITS.clear()
        f = self.obj(c["op"])
        arg = c["v"] if c.get("ref") is None else self.refs[c["ref"]]
        try:
            r = f(arg)
        except ValueError as e:
            if str(e) != "boom":
                raise
            return {"boom": True, "hits": list(self.help.HITS)}
        hits = list(self.help.HITS)
        self.refs[c["id"]] = r
        d = {"result": st.unwrap(r), "hits": hits}
        self.new[c["id"]] = r
        return d

    def failing(self, at):
        """Leaving the context while saving fails: True if it failed."""
        from . import faults
        seen = [0]

        def act(k, n):
            if k in ("write", "commit"):
                seen[0] += 1
                if seen[0] == at:
                    raise sqlite3.OperationalError("disk I/O error (injected)")
        faults.M.on, faults.M.n, faults.M.act = True, 0, act
        try:
            self.st.__exit__(None, None, None)
        except sqlite3.OperationalError:
            return True
        finally:
            faults.M.on, faults.M.act = False, None
        if seen[0] >= at:
            raise RuntimeError("saving failed, but leaving the context did not")
        return False

    def exit(self, c=None):
        c = c or {}
        failed = False
        if c.get("fail"):
            failed = self.failing(c["fail"])
            if failed and not c.get("later"):
                asked = self._enter({}, "eof", None)[0]
                if asked:
                    raise RuntimeError(f"asked about {asked} again after saving failed")
                self.st.__exit__(None, None, None)
        else:
            self.st.__exit__(None, None, None)
        self.left.append((self.st, self.new))
        self.st, self.new = self.outer.pop()
        made = {}
        if not self.outer and not (failed and c.get("later")):
            for st, new in self.left:
                made.update({i: {"hid": c.hid, "semantic": c.semantic_version, "content": c.content_version}
                             for i, c in [(i, st.get_ref_creator(r)) for i, r in new.items()]})
            self.left = []
        self.made.update(made)
        return {"made": made, "failed": bool(failed)}

    def rows(self):
        df = self.st.call_storage.get_df()
        if not len(df):
            return []
        df = df.reset_index()
        out = {}
        for _, w in df.iterrows():
            out[w["call_history_id"]] = [w["op"], w["semantic_version"]]
        return sorted([h, *v] for h, v in out.items())

    def history(self):
        vs = self.st.get_versioner()
        out = []
        for (m, q), dag in vs.component_dags.items():
            commits = {}
            for h, c in dag.commits.items():
                content = dag.get_content(h)
                commits[h] = {"content": content if isinstance(content, str) else None, "parents": list(c.parents),
                              "sem": c.semantic_hash}
                text = self.st.get_code(h, show=False)
                commits[h]["code"] = text if isinstance(text, str) else None
            out.append({"key": [m, q], "head": dag.head, "commits": commits})
        return out

    def versions(self):
        vs = self.st.get_versioner()
        out = {}
        for ch, v in vs.get_flat_versions().items():
            out[ch] = {"component": list(v.component), "semantic": v.semantic_version,
                       "deps": [[list(k), sorted(h)] for k, h in v.content_expansion.items()],
                       "direct": [list(k) for k in v.direct_deps_commits],
                       "sems": [[list(k), h] for k, h in v.semantic_expansion.items()]}
            text = self.st.get_code(ch, show=False)
            out[ch]["code"] = text
        return out

    def run(self, cmds):
        log = []
        if any(c.get("fail") for c in cmds):
            from . import faults
            faults.install(os.path.dirname(self.db))
        for c in cmds:
            k = c["do"]
            try:
                e = {"do": k}
                if k == "load":
                    if c.get("cells"):
                        self.disk.cells = c["cells"]
                    elif "code" in c:
                        self.disk.write(Code(c["code"], c["style"], c["rel"]))
                    self.load(list(c["code"]))
                elif k == "enter":
                    e["asked"], e["error"] = self.enter(dict(c["answers"]), c["how"], c)
                elif k == "exit":
                    e.update(self.exit(c))
                elif k == "call":
                    e.update(self.call(c))
                elif k == "drop":
                    self.storage(c).drop_version(c["semantic"] if c.get("semantic") else self.made[c["of"]]["semantic"])
                elif k == "dropcalls":
                    self.storage(c).drop_calls([c["hid"] if c.get("hid") else self.made[c["of"]]["hid"]], delete_dependents=True)
                elif k == "look":
                    self.storage(c)
                    e["rows"] = self.rows()
                    e["history"] = self.history()
                    e["versions"] = self.versions()
                    if self.show:
                        self.reports(e["history"], e["versions"])
                if "id" in c:
                    e["id"] = c["id"]
                if self.show:
                    e["shown"] = {"ok": len(self.shown["ok"]), "bad": self.shown["bad"][:3]}
                    self.shown = {"ok": [], "bad": []}
                log.append(e)
            except BaseException as x:
                if os.environ.get("VM_LOUD"):
                    traceback.print_exc()
                log.append({"do": k, "crash": f"{type(x).__name__}: {x}"[:600], "tb": traceback.format_exc(limit=-8)})
                break
        return log


def in_process(fn, timeout=90):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if os.environ.get("VM_LOUD"):
                os.dup2(2, 1)
            try:
                res = {"ok": fn()}
            except BaseException as e:
                res = {"crash": f"{type(e).__name__}: {e}"[:600], "tb": traceback.format_exc(limit=-8)}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(res, default=repr).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {"crash": "the session's process died", "tb": ""}
    return json.loads(data)
