"""Computation frames: programs on real storages, the call graph as the database records it, an independent set/graph
model of frames, and the oracles that compare what the frame operations return with that model."""
import collections, copy, importlib, inspect, io, itertools, linecache, os, random, sys, textwrap
from .core import Violation


class Stop(Exception):
    """a disagreement that belongs to another property: the case ends here"""


# ----------------------------------------------------------------------------------------------------- programs
def make_ops():
    from mandala.imports import op, MList, MDict

    @op
    def inc(x):
        return x + 1

    @op
    def dec(x):
        return x - 1

    @op
    def add(a, b):
        return a + b

    @op
    def mix(a, b):
        return (2 * a + b) % 50

    @op
    def two(n):
        return n // 2, n % 2

    @op(output_names=["lo", "hi"])
    def pair(a, b):
        return min(a, b), max(a, b)

    @op
    def opt(x, k=3, *, z=None):
        return x * k + (z or 0)

    @op
    def tot(tot):
        return tot * 2

    @op
    def lst(n) -> MList[int]:
        return [n, n + 1] if n % 3 else [n % 7]

    @op
    def sm(xs: MList[int]):
        return sum(xs)

    @op
    def dct(n) -> MDict[str, int]:
        return {"p": n, "q": n % 2}

    @op
    def ds(d: MDict[str, int]):
        return d["p"] - d["q"]

    @op
    def log(x):
        return ()

    @op
    def const():
        return 5

    @op
    def star(*args):
        return sum(args)

    @op
    def kw(**kwargs):
        return sum(kwargs.values())

    @op
    def sub(x, y):
        return x - y

    @op
    def quad(a, b, c, d):
        return (a + 2 * b + 3 * c + 5 * d) % 60

    @op(output_names=["t0", "t1", "t2"])
    def tri(n):
        return n // 3, n % 3, n + 3

    @op
    def wide(n):
        return tuple(n % 4 + i for i in range(12))
    loc = locals()
    return {k: loc[k] for k in ("inc dec add mix two pair opt tot lst sm dct ds log const star kw sub quad tri wide").split()}


def load_ops(src, edits=()):
    """The same functions as a module of their own, for a storage that tracks their versions; `edits` are the functions
    whose code is different from what it was."""
    lines = textwrap.dedent("".join(inspect.getsource(make_ops).splitlines(True)[1:])).splitlines(True)
    lines = lines[:next(i for i, l in enumerate(lines) if l.startswith("loc ="))]
    for n, f in enumerate(edits):
        i = next(i for i, l in enumerate(lines) if l.startswith(f"def {f}("))
        lines.insert(i + 1, f"    _ = {n}\n")
    os.makedirs(src, exist_ok=True)
    with open(os.path.join(src, "vmframeops.py"), "w") as f:
        f.writelines(lines)
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.modules.pop("vmframeops", None)
    importlib.invalidate_caches()
    linecache.clearcache()
    loc = vars(importlib.import_module("vmframeops"))
    return {k: v for k, v in loc.items() if type(v).__name__ == "Op"}


PURE = {
    "inc": lambda x: {"output_0": x + 1}, "dec": lambda x: {"output_0": x - 1},
    "add": lambda a, b: {"output_0": a + b}, "mix": lambda a, b: {"output_0": (2 * a + b) % 50},
    "two": lambda n: {"output_0": n // 2, "output_1": n % 2}, "pair": lambda a, b: {"lo": min(a, b), "hi": max(a, b)},
    "opt": lambda x, k=3, z=None: {"output_0": x * k + (z or 0)}, "tot": lambda tot: {"output_0": tot * 2},
    "lst": lambda n: {"output_0": [n, n + 1] if n % 3 else [n % 7]}, "sm": lambda xs: {"output_0": sum(xs)},
    "dct": lambda n: {"output_0": {"p": n, "q": n % 2}}, "ds": lambda d: {"output_0": d["p"] - d["q"]},
    "log": lambda x: {}, "const": lambda: {"output_0": 5}, "star": lambda **a: {"output_0": sum(a.values())},
    "kw": lambda **a: {"output_0": sum(a.values())}, "sub": lambda x, y: {"output_0": x - y},
    "quad": lambda a, b, c, d: {"output_0": (a + 2 * b + 3 * c + 5 * d) % 60},
    "tri": lambda n: {"t0": n // 3, "t1": n % 3, "t2": n + 3},
    "wide": lambda n: {f"output_{i}": n % 4 + i for i in range(12)},
    "__make_list__": lambda **e: {"list": [e[f"elts_{i}"] for i in range(len(e))]},
    "__make_dict__": lambda **e: {"dict": dict(e)},
    "__list_getitem__": lambda list, i: {"list_item": list[i]},
    "__dict_getitem__": lambda dict, key: {"dict_value": dict[key]},
}
OUTPUTS = {"pair": ["lo", "hi"], "tri": ["t0", "t1", "t2"], "wide": [f"output_{i}" for i in range(12)]}
KIND = {"wide": ["I"] * 12, "tri": ["I", "I", "I"], "lst": ["L"], "dct": ["D"], "two": ["I", "I"], "pair": ["I", "I"], "log": []}
PARAMS = {"quad": "abcd", "tri": "n", "wide": "n", "inc": "x", "dec": "x", "add": "ab", "mix": "ab", "two": "n", "pair": "ab", "opt": "x", "lst": "n", "dct": "n", "log": "x", "sub": "xy"}


def gen_prog(rng, n):
    """[op, {param: ["l", int] | ["r", ref index] | ["m", [items]]}], ...; the kinds of the produced references are
    tracked so that collections go where they are accepted"""
    kinds, prog = [], []
    flavour = rng.sample(["inc", "dec", "add", "mix", "two", "pair", "opt", "tot", "sub", "log", "const", "star", "kw", "lst", "sm", "dct", "ds", "quad", "tri"],
                         rng.choice([2, 4, 6, 9]))
    if not any(f not in ("sm", "ds", "log") for f in flavour):
        flavour.append("inc")
    if rng.random() < .06:
        flavour.append("wide")
    chain = rng.random() < .35
    fresh = rng.choice([.15, .3, .6])

    def scalar():
        idx = [i for i, k in enumerate(kinds) if k == "I"]
        if idx and rng.random() > fresh:
            return ["r", idx[-1] if chain and rng.random() < .6 else rng.choice(idx[-8:] if rng.random() < .5 else idx)]
        return ["l", rng.randrange(rng.choice([2, 4, 12]))]
    for _ in range(n):
        f = rng.choice(flavour)
        if f in PARAMS:
            a = {p: scalar() for p in PARAMS[f]}
            if f == "opt":
                if rng.random() < .4:
                    a["k"] = scalar()
                if rng.random() < .4:
                    a["z"] = scalar()
        elif f == "tot":
            a = {"tot": scalar()}
        elif f in ("sm", "ds"):
            want = "L" if f == "sm" else "D"
            p = "xs" if f == "sm" else "d"
            idx = [i for i, k in enumerate(kinds) if k == want]
            if idx and rng.random() < .5:
                a = {p: ["r", rng.choice(idx)]}
            elif f == "sm":
                a = {p: ["m", [scalar() for _ in range(rng.randrange(1, 4))] if rng.random() < .85 else [["l", j] for j in rng.sample(range(12), 11)]]}
            else:
                a = {p: ["d", {"p": scalar(), "q": scalar()}]}
        elif f == "star":
            a = {str(i): scalar() for i in range(rng.randrange(1, 4) if rng.random() < .85 else 12)}
        elif f == "kw":
            a = {k: scalar() for k in rng.sample(["u", "v", "w"], rng.randrange(1, 3))}
        else:
            a = {}
        prog.append([f, a])
        kinds += KIND.get(f, ["I"])
    return prog


def run_prog(storage, ops, prog, splits=(), again=None):
    """`again(n)` gives the functions as they are from the n-th part on."""
    refs = []

    def val(s):
        t, x = s
        if t == "l":
            return x
        if t == "r":
            return refs[x]
        if t == "m":
            return [val(y) for y in x]
        return {k: val(y) for k, y in x.items()}
    parts, last = [], 0
    for sp in list(splits) + [len(prog)]:
        parts.append(prog[last:sp])
        last = sp
    for n, part in enumerate(parts):
        if n and again:
            ops = again(n)
        with storage:
            for f, a in part:
                if f == "star":
                    r = ops[f](*[val(a[k]) for k in sorted(a, key=int)])
                else:
                    r = ops[f](**{k: val(v) for k, v in a.items()})
                refs += list(r) if isinstance(r, tuple) else [r]
    return refs


class Call:
    __slots__ = ("op", "cid", "ins", "outs")


class Truth:
    """the call graph as recorded in the database, read with plain SQL, and values computed from it"""

    def __init__(self, storage):
        import joblib
        conn = storage.db.conn()
        self.calls, self.creator, self.consumers, self.cid = {}, {}, collections.defaultdict(set), {}
        for chid, name, d, ccid, rcid, rhid, opn in conn.execute(
                "SELECT call_history_id, name, direction, call_content_id, ref_content_id, ref_history_id, op FROM calls"):
            c = self.calls.get(chid)
            if c is None:
                c = self.calls[chid] = Call()
                c.op, c.cid, c.ins, c.outs = opn, ccid, {}, {}
            (c.ins if d == "in" else c.outs)[name] = rhid
            self.cid[rhid] = rcid
            if d == "in":
                self.consumers[rhid].add(chid)
            else:
                self.creator[rhid] = chid
        atoms = dict(conn.execute("SELECT key, value FROM atoms"))
        self.val = {}
        for h in self.cid:
            if h not in self.creator:
                b = joblib.load(io.BytesIO(atoms[self.cid[h]])) if self.cid[h] in atoms else None
                if b is not None:
                    self.val[h] = joblib.load(io.BytesIO(b))
        todo = set(self.calls)
        while todo:
            done = set()
            for h in todo:
                c = self.calls[h]
                if all(x in self.val for x in c.ins.values()):
                    for n, v in PURE[c.op](**{k: self.val[x] for k, x in c.ins.items()}).items():
                        self.val[c.outs[n]] = v
                    done.add(h)
            if not done:
                raise Violation("the recorded call graph is not executable")
            todo -= done

    def label(self, chid, name):
        return "elts" if self.calls[chid].op == "__make_list__" and name.startswith("elts_") else name

    def ins(self, chid, label):
        return {h for n, h in self.calls[chid].ins.items() if self.label(chid, n) == label}

    def outs(self, chid, label):
        return {h for n, h in self.calls[chid].outs.items() if self.label(chid, n) == label}


# ----------------------------------------------------------------------------------------------------- model frames
class FM:
    """vs, fs: {node: set of hids}; E: set of (src, dst, label)"""

    def __init__(self, vs, fs, E):
        self.vs, self.fs, self.E = {k: set(v) for k, v in vs.items()}, {k: set(v) for k, v in fs.items()}, set(E)

    @staticmethod
    def of(cf):
        return FM(cf.vs, cf.fs, {(s, d, l) for s, ls in cf.out.items() for l, ds in ls.items() for d in ds})

    @property
    def nodes(self):
        return set(self.vs) | set(self.fs)

    @property
    def sets(self):
        return {**self.vs, **self.fs}

    def refs(self):
        return set().union(*self.vs.values())

    def calls(self):
        return set().union(*self.fs.values())

    def into(self, n):
        return [e for e in self.E if e[1] == n]

    def outof(self, n):
        return [e for e in self.E if e[0] == n]

    def select(self, nodes):
        return FM({k: v for k, v in self.vs.items() if k in nodes}, {k: v for k, v in self.fs.items() if k in nodes},
                  {e for e in self.E if e[0] in nodes and e[1] in nodes})

    def subset(self, sets):
        return FM({k: sets[k] for k in self.vs}, {k: sets[k] for k in self.fs}, self.E)

    def drop(self, nodes):
        return self.select(self.nodes - set(nodes))

    def nonempty(self):
        return self.drop([n for n, s in self.sets.items() if not s])

    def rename(self, a, b):
        m = lambda n: b if n == a else n
        return FM({m(k): v for k, v in self.vs.items()}, self.fs, {(m(s), m(d), l) for s, d, l in self.E})

    def merge(self, a, b):
        r = self.rename(a, b)
        r.vs[b] = self.vs[a] | self.vs[b]
        return r

    def adj(self, T, e, hids, forward):
        """the elements at the other end of the edge that are connected to hids"""
        s, d, l = e
        if forward:
            if s in self.vs:
                return {c for c in self.fs[d] if T.ins(c, l) & hids}
            return set().union(*[T.outs(c, l) for c in hids]) & self.vs[d]
        if d in self.vs:
            return {c for c in self.fs[s] if T.outs(c, l) & hids}
        return set().union(*[T.ins(c, l) for c in hids]) & self.vs[s]

    def ends(self, T, forward):
        """elements without anything before (forward) or after them"""
        res = {}
        for n in self.nodes:
            found = set()
            for e in (self.into(n) if forward else self.outof(n)):
                found |= self.adj(T, e, self.sets[e[0] if forward else e[1]], forward)
            res[n] = self.sets[n] - found
        return res

    def reach(self, T, start, forward, strong):
        res = {n: set(start.get(n, ())) for n in self.nodes}
        while True:
            size = sum(map(len, res.values()))
            for n in self.nodes:
                es = self.into(n) if forward else self.outof(n)
                other = lambda e: e[0] if forward else e[1]
                if n in self.vs or not strong:
                    for e in es:
                        res[n] |= self.adj(T, e, res[other(e)], forward)
                else:
                    by = {}
                    for e in es:
                        by.setdefault(e[2], set()).update(res[other(e)])
                    for c in self.fs[n]:
                        io = self.io(T, c, forward)
                        need = [(l, h) for l, h in io if l in by]
                        if need and all(h in by[l] for l, h in need):
                            res[n].add(c)
            if size == sum(map(len, res.values())):
                return self.subset(res)

    @staticmethod
    def io(T, c, forward):
        d = T.calls[c].ins if forward else T.calls[c].outs
        return [(T.label(c, n), h) for n, h in d.items()]

    def starts(self, T, forward):
        """ends, but a call counts only if none of its arguments (results) is tracked by the frame"""
        st = self.ends(T, forward)
        for f in self.fs:
            labels = {e[2] for e in (self.into(f) if forward else self.outof(f))}
            st[f] = {c for c in st[f] if not any(l in labels for l, _ in self.io(T, c, forward))}
        return st

    def reachable(self, nodes, forward):
        res, todo = set(), list(nodes)
        while todo:
            n = todo.pop()
            if n not in res:
                res.add(n)
                todo += [e[1] if forward else e[0] for e in (self.outof(n) if forward else self.into(n))]
        return res

    def acyclic(self):
        return all(n not in self.reachable([e[1] for e in self.outof(n)], True) for n in self.nodes)

    def strict(self, T):
        """for every call, every tracked argument or result is in every variable connected by its label"""
        for s, d, l in self.E:
            for c in self.fs[d] if d in self.fs else self.fs[s]:
                if d in self.fs and not T.ins(c, l) <= self.vs[s] or s in self.fs and not T.outs(c, l) <= self.vs[d]:
                    return False
        return True

    def history(self, T, node, hid):
        """node -> elements that hid (in that node) was computed from, following the frame"""
        res, todo = {}, [(node, hid)]
        while todo:
            n, h = todo.pop()
            if h in res.setdefault(n, set()):
                continue
            res[n].add(h)
            if n in self.vs:
                c = T.creator.get(h)
                todo += [(f, c) for f in {e[0] for e in self.into(n)} if c in self.fs[f]]
            else:
                for u, _, l in self.into(n):
                    todo += [(u, x) for x in T.ins(h, l) if x in self.vs[u]]
        return {n: frozenset(s) for n, s in res.items()}

    def diff(self, other):
        """description of the first difference, or None"""
        for what, a, b in (("variables", self.vs, other.vs), ("functions", self.fs, other.fs)):
            if set(a) != set(b):
                return f"{what} {sorted(a)} instead of {sorted(b)}"
            for n in a:
                if a[n] != b[n]:
                    return f"{n} has {len(a[n] - b[n])} elements too many and lacks {len(b[n] - a[n])} (of {len(b[n])})"
        if self.E != other.E:
            return f"edges {sorted(self.E - other.E)} too many, {sorted(other.E - self.E)} missing"
        return None


def full(cf):
    fz = lambda d: {k: frozenset(v) for k, v in d.items()}
    fa = lambda d: {k: {l: frozenset(x) for l, x in v.items() if x} for k, v in d.items()}
    return {"vs": fz(cf.vs), "fs": fz(cf.fs), "inp": fa(cf.inp), "out": fa(cf.out), "refinv": fz(cf.refinv), "callinv": fz(cf.callinv),
            "creator": dict(cf.creator), "consumers": {k: frozenset(v) for k, v in cf.consumers.items() if v},
            "refs": {k: (r.hid, r.cid) for k, r in cf.refs.items()}, "calls": {k: c.hid for k, c in cf.calls.items()}}


def wf(cf, T, strict):
    """internal consistency of a frame; returns a description of what is wrong"""
    V, F = set(cf.vs), set(cf.fs)
    if V & F:
        return f"{sorted(V & F)} are both variables and functions"
    if set(cf.inp) != V | F or set(cf.out) != V | F:
        return f"adjacency lists for {sorted(cf.inp)} / {sorted(cf.out)}, nodes {sorted(V | F)}"
    Eo = {(s, d, l) for s, ls in cf.out.items() for l, ds in ls.items() for d in ds}
    Ei = {(s, d, l) for d, ls in cf.inp.items() for l, ss in ls.items() for s in ss}
    if Eo != Ei:
        return f"edges seen from one end only: {sorted(Eo ^ Ei)}"
    if set(cf.edges()) != Eo or len(cf.edges()) != len(Eo):
        return "edges() differs from the adjacency lists"
    for s, d, l in Eo:
        if not (s in V and d in F or s in F and d in V):
            return f"edge {(s, d, l)} does not connect a variable and a function"
    if set(cf.refs) != set().union(*cf.vs.values()) or set(cf.calls) != set().union(*cf.fs.values()):
        return "the references and calls of the frame are not those in its nodes"
    for inv, d, objs, what in ((cf.refinv, cf.vs, cf.refs, "variables"), (cf.callinv, cf.fs, cf.calls, "functions")):
        want = {h: {n for n in d if h in d[n]} for h in objs}
        if {k: set(v) for k, v in inv.items()} != want:
            bad = [k for k in set(inv) | set(want) if set(inv.get(k, ())) != want.get(k)]
            return f"the {what} of {len(bad)} elements are wrong: {inv.get(bad[0])} instead of {want.get(bad[0])}"
    for h, r in cf.refs.items():
        if r.hid != h or (h in T.cid and r.cid != T.cid[h]):
            return f"reference {h} is {r}"
    for h, c in cf.calls.items():
        t = T.calls.get(h)
        if t is None:
            return f"call {h} is not in the storage"
        if c.hid != h or c.op.name != t.op or c.cid != t.cid or {k: v.hid for k, v in c.inputs.items()} != t.ins or \
                {k: v.hid for k, v in c.outputs.items()} != t.outs:
            return f"call {h} of {t.op} differs from the saved one"
    for h, c in cf.creator.items():
        if h not in cf.refs or c not in cf.calls or T.creator.get(h) != c:
            return f"wrong creator of {h}"
    for h, cs in cf.consumers.items():
        if h not in cf.refs or not cs <= set(cf.calls) or not cs <= T.consumers.get(h, set()):
            return f"wrong consumers of {h}"
    for s, d, l in Eo:
        for c in cf.fs[d] if d in F else cf.fs[s]:
            for h in T.ins(c, l) if d in F else T.outs(c, l):
                if d in F:
                    if strict and h not in cf.vs[s]:
                        return f"argument {l} of a call in {d} is not in the variable {s} connected to it"
                    if h in cf.vs[s] and c not in cf.consumers.get(h, ()):
                        return f"a consumer of a reference in {s} is missing"
                else:
                    if strict and h not in cf.vs[d]:
                        return f"result {l} of a call in {s} is not in the variable {d} connected to it"
                    if h in cf.vs[d] and cf.creator.get(h) != c:
                        return f"the creator of a reference in {d} is missing"
    return None
