"""A reference model of the memoizing storage, run in lock step with the real code.

The model knows three things only: what the undecorated functions return, which calls have been made (identified by
function and argument contents / histories) and when they become durable. Identifiers (cid, hid) are checked to be in
bijection with the model's own notion of content and of computational history."""
import collections, copy, inspect, os, pickle, re, sqlite3, sys, traceback, types, typing
import numpy as np
from .core import Violation
from . import values as V
from .values import build, canon, fresh, dint


def bad(msg):
    raise Violation(msg)


# ------------------------------------------------------------------------------------------------ identities
class Val:
    """What a reference stands for: content, history and elements."""
    __slots__ = ("c", "h", "elts")

    def __init__(self, c, h, elts=None):
        self.c, self.h, self.elts = c, h, elts

    def __getstate__(self):
        return (self.c, self.h, self.elts)

    def __setstate__(self, s):
        self.c, self.h, self.elts = s


class Ids:
    """Interned contents and histories, and their bijection with the ids the code uses."""

    def __init__(self):
        self.tab = {}
        self.rev = []
        self.py = {}       # content of an atom -> a value
        self.fwd = {}      # term -> id string
        self.bwd = {}      # (kind, id string) -> term
        self.nbinds = 0

    def t(self, *tup):
        k = self.tab.get(tup)
        if k is None:
            k = self.tab[tup] = len(self.rev)
            self.rev.append(tup)
        return k

    def atom(self, v):
        k = self.t("a", canon(v))
        if k not in self.py:
            self.py[k] = fresh(v)
        return k

    def value(self, c):
        """A fresh python value with this content."""
        tup = self.rev[c]
        if tup[0] == "a":
            return fresh(self.py[c])
        if tup[0] == "L":
            return [self.value(x) for x in tup[1:]]
        if tup[0] == "D":
            return {k: self.value(x) for k, x in tup[1:]}
        if tup[0] == "vp":
            return self.py[c]
        raise AssertionError(tup)

    def raw(self, v):
        c = self.atom(v)
        return Val(c, self.t("raw", c))

    def cc(self, c):
        """The identity of a content: an empty collection is the same content whether it is held as a value or as a
        collection of references."""
        tup = self.rev[c]
        if tup[0] == "L":
            return self.t("L", *[self.cc(x) for x in tup[1:]]) if len(tup) > 1 else self.atom([])
        if tup[0] == "D":
            return self.t("D", *[(k, self.cc(x)) for k, x in tup[1:]]) if len(tup) > 1 else self.atom({})
        return c

    def bind(self, kind, term, ident, what=""):
        self.nbinds += 1
        if kind == "c":
            term = self.cc(term)
        a = self.fwd.get((kind, term))
        if a is not None and a != ident:
            bad(f"{what}: the same {KIND[kind]} got two different ids {a} and {ident}: {self.show(term)}")
        b = self.bwd.get((kind, ident))
        if b is not None and b != term:
            bad(f"{what}: two different {KIND[kind]}s got the same id {ident}: {self.show(b)} and {self.show(term)}")
        self.fwd[(kind, term)] = ident
        self.bwd[(kind, ident)] = term

    def stable(self):
        """{digest of what an id stands for: id}, comparable between processes."""
        memo = {}

        def dig(x):
            if isinstance(x, int) and not isinstance(x, bool):
                d = memo.get(x)
                if d is None:
                    d = memo[x] = V.digest(conv(self.rev[x]))
                return d
            return x

        def conv(tup):
            k = tup[0]
            if k == "a": return tup
            if k == "raw": return (k, dig(tup[1]))
            if k == "L": return (k,) + tuple(dig(x) for x in tup[1:])
            if k == "D": return (k,) + tuple((n, dig(x)) for n, x in tup[1:])
            if k in ("call", "cc"): return (k, tup[1], tup[2], tuple((n, dig(x)) for n, x in tup[3]))
            if k == "out": return (k, dig(tup[1]), tup[2])
            return tup
        self.digests = {(kind, term): kind + dig(term).hex() for kind, term in self.fwd}
        return {self.digests[k]: ident for k, ident in self.fwd.items()}

    def stable_one(self, k):
        return self.digests.get(k)

    def show(self, term, d=4):
        if not isinstance(term, int) or term >= len(self.rev):
            return repr(term)
        tup = self.rev[term]
        if d == 0:
            return "..."
        if tup[0] == "a":
            return repr(self.py.get(term))[:120]
        if tup[0] in ("raw",):
            return f"raw {self.show(tup[1], d)}"
        if tup[0] in ("L",):
            return "List" + repr([self.show(x, d - 1) for x in tup[1:]])
        if tup[0] in ("D",):
            return "Dict" + repr([(k, self.show(x, d - 1)) for k, x in tup[1:]])
        if tup[0] in ("call", "cc"):
            return f"{tup[1]}(" + ", ".join(f"{k}={self.show(x, d - 1)}" for k, x in tup[3]) + ")"
        if tup[0] == "out":
            return f"{self.show(tup[1], d)}.{tup[2]}"
        return repr(tup)


KIND = {"c": "content", "h": "history", "cc": "call content", "ch": "call history"}


class CallM:
    __slots__ = ("op", "ins", "outs", "c", "h")

    def __init__(self, op, ins, outs, c, h):
        self.op, self.ins, self.outs, self.c, self.h = op, ins, outs, c, h

    def __getstate__(self):
        return (self.op, self.ins, self.outs, self.c, self.h)

    def __setstate__(self, s):
        self.op, self.ins, self.outs, self.c, self.h = s


class Model:
    """The calls one storage should hold."""

    def __init__(self, ids):
        self.ids = ids
        self.calls = {}            # call history -> CallM
        self.pending = set()       # call histories not yet durable
        self.by_content = {}       # call content -> set of call histories
        self.stats = collections.Counter()
        self.dropped_getitem = False

    # -- bookkeeping
    def add(self, cm):
        if cm.h in self.calls:
            return False
        self.calls[cm.h] = cm
        self.by_content.setdefault(cm.c, set()).add(cm.h)
        self.pending.add(cm.h)
        return True

    def remove(self, h):
        cm = self.calls.pop(h)
        s = self.by_content[cm.c]
        s.discard(h)
        if not s:
            del self.by_content[cm.c]
        self.pending.discard(h)

    def commit(self):
        self.pending.clear()

    def committed(self):
        return {h for h in self.calls if h not in self.pending}

    # -- construction
    def call_term(self, op, ins):
        return self.ids.t("call", op, 0, tuple(sorted((n, v.h) for n, v in ins.items())))

    def call_cterm(self, op, ins):
        return self.ids.t("cc", op, 0, tuple(sorted((n, self.ids.cc(v.c)) for n, v in ins.items())))

    def struct_in(self, typ, elts):
        """Reference to a list/dict built from elements (Vals); records the building call in self._extra."""
        ids = self.ids
        if typ[0] == "L":
            ins = {f"elts_{i}": v for i, v in enumerate(elts)}
            c = ids.t("L", *[v.c for v in elts])
            op, out = "__make_list__", "list"
        else:
            ins = dict(elts)
            c = ids.t("D", *sorted((k, v.c) for k, v in elts.items()))
            op, out = "__make_dict__", "dict"
        h = self.call_term(op, ins)
        res = Val(c, ids.t("out", h, out), list(elts) if typ[0] == "L" else dict(elts))
        self.extra.append(CallM(op, ins, {out: res}, self.call_cterm(op, ins), h))
        return res

    def rehist(self, c, h):
        """A reference with content c and history h, its elements being taken out of it."""
        ids = self.ids
        tup = ids.rev[c]
        if tup[0] == "L":
            res = Val(c, h, [])
            for i, ec in enumerate(tup[1:]):
                ins = {"list": res, "i": ids.raw(i)}
                res.elts.append(self._getitem("__list_getitem__", "list_item", ins, ec))
            return res
        if tup[0] == "D":
            res = Val(c, h, {})
            for k, ec in tup[1:]:
                ins = {"dict": res, "key": ids.raw(k)}
                res.elts[k] = self._getitem("__dict_getitem__", "dict_value", ins, ec)
            return res
        return Val(c, h)

    def _getitem(self, op, out, ins, ec):
        ch = self.call_term(op, ins)
        v = self.rehist(ec, self.ids.t("out", ch, out))
        self.extra.append(CallM(op, ins, {out: v}, self.call_cterm(op, ins), ch))
        return v

    def begin(self):
        self.extra = []

    def lookup(self, op, ins):
        h, c = self.call_term(op, ins), self.call_cterm(op, ins)
        if h in self.calls:
            return "hist"
        if c in self.by_content:
            return "content"
        return None

    def finish(self, op, ins, in_extra, run):
        """Make the call: `run()` gives the outputs [(name, content or Val)] if it has to be executed."""
        ids = self.ids
        h, c = self.call_term(op, ins), self.call_cterm(op, ins)
        how = self.lookup(op, ins)
        if how == "hist":
            for cm in in_extra:
                self.add(cm)
            self.stats["hit_history"] += 1
            return "hist", self.calls[h].outs
        if how == "content":
            proto = self.calls[min(self.by_content[c])]
            outs_c = [(n, v.c) for n, v in proto.outs.items()]
            self.stats["hit_content"] += 1
        else:
            outs_c = run()
            self.stats["executed"] += 1
        self.extra = []
        outs = {}
        for n, oc in outs_c:
            if isinstance(oc, Val):
                outs[n] = Val(oc.c, ids.t("out", h, n), oc.elts)
            else:
                outs[n] = self.rehist(oc, ids.t("out", h, n))
        if ins or outs:        # otherwise there is nothing to record
            self.add(CallM(op, ins, outs, c, h))
        for cm in in_extra + self.extra:
            self.add(cm)
        return (how or "run"), outs

    # -- graph
    def creator(self, h):
        tup = self.ids.rev[h]
        if tup[0] == "out" and tup[1] in self.calls:
            return tup[1]
        return None

    def consumers(self, h):
        return {ch for ch, cm in self.calls.items() if any(v.h == h for v in cm.ins.values())}

    def dependents(self, call_hists):
        """Calls that transitively consume outputs of these, and these."""
        res = set(call_hists)
        cons = collections.defaultdict(set)
        for ch, cm in self.calls.items():
            for v in cm.ins.values():
                cons[v.h].add(ch)
        todo = list(res)
        while todo:
            cm = self.calls.get(todo.pop())
            if cm is None:
                continue
            for v in cm.outs.values():
                for x in cons[v.h]:
                    if x not in res:
                        res.add(x)
                        todo.append(x)
        return res

    def content_of(self, typ, v):
        """Content of a python value stored under an annotation."""
        if typ != "A" and typ[0] == "L":
            return self.ids.t("L", *[self.content_of(typ[1], x) for x in v])
        if typ != "A" and typ[0] == "D":
            return self.ids.t("D", *sorted((k, self.content_of(typ[1], x)) for k, x in v.items()))
        return self.ids.atom(v)

    def all_vals(self):
        """Every reference of every call, with elements."""
        for cm in self.calls.values():
            for v in list(cm.ins.values()) + list(cm.outs.values()):
                yield from walk_val(v)


def walk_val(v):
    yield v
    if v.elts is not None:
        for e in (v.elts if isinstance(v.elts, list) else v.elts.values()):
            yield from walk_val(e)


# ------------------------------------------------------------------------------------------------ generated functions
def csize(c):
    if isinstance(c, (tuple, frozenset)):
        return 1 + sum(csize(x) for x in c)
    return 1 + (len(c) // 64 if isinstance(c, (bytes, str)) else 0)


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


def boom_class(kind):
    """An error of a given kind: the user's code may raise any."""
    if kind in (None, False, "plain"):
        return Boom
    if kind in (True, "base"):
        return BoomBase
    import sqlite3
    b = {"value": ValueError, "key": KeyError, "attr": AttributeError, "type": TypeError, "runtime": RuntimeError, "stop": StopIteration,
         "assert": AssertionError, "notimpl": NotImplementedError, "sql": sqlite3.OperationalError, "os": OSError, "eof": EOFError,
         "interrupt": KeyboardInterrupt, "exit": SystemExit, "genexit": GeneratorExit}[kind]
    base = Boom if issubclass(b, Exception) else BoomBase
    return type("Boom" + b.__name__, (base, b), {})


def exit_error(kind):
    """The error that leaves a `with` block."""
    c = Boom if kind is True else boom_class(kind)
    return (c if c in (Boom, BoomBase) else c.__mro__[2])("body")


BOOMS = ["plain", "base", "value", "key", "attr", "type", "runtime", "stop", "assert", "notimpl", "sql", "os", "eof", "interrupt", "exit", "genexit"]


def mangle(v):
    """Modify a container in place."""
    t = type(v)
    if t in (list, tuple):
        for x in v: mangle(x)
        if t is list: v.append("mangled")
    elif t is dict:
        for x in v.values(): mangle(x)
        v["mangled"] = 1
    elif t is set:
        v.add("mangled")
    elif t is np.ndarray and v.dtype.kind in "if" and v.flags.writeable:
        v += 1


class World:
    fail_exc = Boom
    """The generated functions: decorated ones and their plain counterparts, with instrumented bodies."""

    def __init__(self, specs, src=None):
        self.edited = {}       # op name -> how its code differs from the original
        from mandala.imports import op as mop, MList, MDict
        from mandala.model import NewArgDefault
        self.specs = specs
        self.exec_log = []         # (op name, {param: canonical value}) for every execution of a body
        self.fail = set()          # names of functions that raise when executed
        self.fail_after = set()    # names of functions that raise after the call they make
        self.ops, self.plain = [], []
        self.MList, self.MDict = MList, MDict
        mod = src and self.module(src)
        for i, s in enumerate(specs):
            g = mod.__dict__ if mod else {}
            g[f"__body{i}"] = lambda argd, i=i: self.body(i, argd)
            text = self.source(s, g, i)
            fn = f"<{s['name']}>"
            if mod:     # a file for each function, so that its source can be found
                fn = os.path.join(src, f"{s['name']}{'+' if s.get('evolved') else ''}.txt")
                if not os.path.exists(fn) or open(fn).read() != text:
                    with open(f"{fn}.{os.getpid()}", "w") as h:
                        h.write(text)
                    os.replace(f"{fn}.{os.getpid()}", fn)
            elsewhere = dict(g) if mod and s.get("evolved") else g     # (not in the module until it is put there)
            exec(compile(text, fn, "exec"), elsewhere)
            f = elsewhere[s["name"]]
            kw = {}
            if s.get("output_names"):
                kw["output_names"] = list(s["output_names"])
            if s.get("nout", "auto") != "auto":
                kw["nout"] = s["nout"]
            if s.get("ignore"):
                kw["ignore_args"] = tuple(s["ignore"])
            self.plain.append(f)
            if not kw and not s.get("paren"):
                self.ops.append(mop(f))
            else:
                self.ops.append(mop(**kw)(f))
            if mod and not s.get("evolved"):
                g[s["name"]] = self.ops[-1]

    def evolve(self):
        """The code of the functions is now that of their later versions."""
        n = 0
        for i, s in enumerate(self.specs):
            if s.get("evolved"):
                j = next(j for j, o in enumerate(self.specs) if o["name"] == s["name"])
                self.ops[j], self.plain[j], self.specs = self.ops[i], self.plain[i], self.specs[:j] + [s] + self.specs[j + 1:]
                sys.modules["vmops"].__dict__[s["name"]] = self.ops[i]
                n += 1
        return n

    def module(self, src):
        """The module of the functions, for storages that track their dependencies."""
        os.makedirs(src, exist_ok=True)
        open(os.path.join(src, "vmops.py"), "a").close()
        mod = types.ModuleType("vmops")
        mod.__file__ = os.path.join(src, "vmops.py")
        sys.modules["vmops"] = mod
        if src not in sys.path:
            sys.path.insert(0, src)
        return mod

    def ann(self, t):
        if t == "A":
            return typing.Any
        if t[0] == "L":
            return self.MList[self.ann(t[1])]
        return self.MDict[str, self.ann(t[1])]

    def source(self, s, g, i):
        from mandala.model import NewArgDefault
        parts, star, slash = [], False, False
        pars = s["params"]
        for j, p in enumerate(pars):
            k = p["k"]
            if not slash and k != "pos" and any(q["k"] == "pos" for q in pars[:j]):
                parts.append("/")
                slash = True
            if k == "kw" and not star and not any(q["k"] == "var" for q in pars):
                parts.append("*")
                star = True
            t = {"var": "*", "vkw": "**"}.get(k, "") + p["n"]
            if p.get("t", "A") != "A" or p.get("annany"):
                g[f"__ann_{i}_{j}"] = self.ann(p.get("t", "A"))
                t += f": __ann_{i}_{j}"
            if "d" in p:
                d = build(p["d"])
                g[f"__def_{i}_{j}"] = NewArgDefault(d) if p.get("nad") else d
                t += f" = __def_{i}_{j}"
            parts.append(t)
        if pars and pars[-1]["k"] == "pos":
            parts.append("/")
        ret = ""
        r = s.get("ret")
        if r is not None:
            outs = r["t"]
            if r["form"] == "single":
                g[f"__ret{i}"] = self.ann(outs[0])
            elif r["form"] == "tuple":
                g[f"__ret{i}"] = typing.Tuple[tuple(self.ann(t) for t in outs)]
            else:
                g[f"__ret{i}"] = typing.Tuple[self.ann(outs[0]), ...]
            ret = f" -> __ret{i}"
        names = ", ".join(f"{p['n']!r}: {p['n']}" for p in pars)
        return f"def {s['name']}({', '.join(parts)}){ret}:\n    return __body{i}({{{names}}})\n"

    def body(self, i, argd):
        s = self.specs[i]
        self.exec_log.append((s["name"], {k: canon(v) for k, v in argd.items()}))
        if s["name"] in self.fail:
            raise self.fail_exc(s["name"])
        if s.get("nest") is not None:
            vals = [argd[p["n"]] for p in s["params"] if p["k"] not in ("var", "vkw")]
            try:
                res = self.ops[s["nest"]](vals[0])
            except (Boom, BoomBase):
                if not s.get("catch"):
                    raise
                return -1
            if s["name"] in self.fail_after:
                raise self.fail_exc(s["name"])
            return res
        return self.compute(s, argd)

    # -- the mathematical function
    def outputs(self, s, argd):
        """List of (type, value) of the outputs, from python argument values."""
        infl = {k: v for k, v in argd.items() if k not in s.get("noinfl", ())}
        key = canon(infl)
        flat = []
        for k in sorted(infl):
            p = next(p for p in s["params"] if p["n"] == k)
            if p["k"] == "var":
                flat += list(infl[k])
            elif p["k"] == "vkw":
                flat += [infl[k][x] for x in sorted(infl[k])]
            else:
                flat.append(infl[k])
        n = s["outs"] if s["outs"] != "v" else 1 + dint(("n", s["salt"] + self.edited.get(s["name"], 0), key)) % 3
        types = s["ret"]["t"] if s.get("ret") else ["A"]
        res = []
        for j in range(n):
            t = types[j] if j < len(types) else types[0] if s.get("ret") and s["ret"]["form"] == "var" else "A"
            res.append((t, self.gen_out(s, s["rec"][j % len(s["rec"])], t, key, flat, (j,))))
        return res

    def gen_out(self, s, r, t, key, flat, path):
        d = dint(("o", s["salt"] + self.edited.get(s["name"], 0), path, key))
        if t != "A" and t[0] == "L":
            n = d % 4 if d % 23 or len(path) > 1 or s["outs"] == 12 else 11
            if s["outs"] == 12:
                n = min(n, 1)
            return [self.gen_out(s, r, t[1], key, flat, path + (i,)) for i in range(n)]
        if t != "A" and t[0] == "D":
            ks = [k for b, k in enumerate("abkz") if (d >> b) & 1]
            return {k: self.gen_out(s, r, t[1], key, flat, path + (k,)) for k in ks}
        k = r[0]
        if k == "mod":
            return d % r[1]
        if (k in ("all", "tup") or k == "id" and len(path) > 1) and csize(key) > 80 or k == "id" and csize(key) > 1200:
            return d % 1000   # keep values from growing without bound
        if k == "id":
            return fresh(flat[r[1] % len(flat)]) if flat else None
        if k == "all":
            return [fresh(x) for x in flat]
        if k == "tup":
            return [tuple([fresh(x) for x in flat]), d % 3]
        if k == "const":
            return build(r[1])
        if k == "big":
            return np.random.RandomState(d % 2 ** 31).bytes(r[1] + d % 50)
        if k == "arr":
            return np.random.RandomState(d % 2 ** 31).rand(r[1])
        raise AssertionError(r)

    def compute(self, s, argd):
        vals = [v for _, v in self.outputs(s, argd)]
        if s["outs"] == 1 and not s.get("onetuple") and s.get("nout", "auto") == "auto":
            v = vals[0]
            return v if not isinstance(v, tuple) else (v,)
        return tuple(vals)

    def out_names(self, s, n):
        on = s.get("output_names")
        return [on[i] if on else f"output_{i}" for i in range(n)]


# ------------------------------------------------------------------------------------------------ the lock-step driver
class Sim:
    on_durable = None      # called after each step that makes something durable
    modelonly = False      # only the model is run

    def __init__(self, case, env, monitors=(), root=None):
        self.case, self.env = case, env
        self.cfg = case["cfg"]
        self.mon = set(monitors)
        self.ids = Ids()
        self.root = root or env.dir("st")
        self.world = World(case["ops"], self.cfg.get("vers") and os.path.join(env.scratch, "versioned"))
        self.ev = env.events
        self.nst = self.cfg.get("storages", 1)
        self.refs = [[] for _ in range(self.nst)]    # per storage: (reference, Val)
        self.models = [Model(self.ids) for _ in range(self.nst)]
        self.storages = [None] * self.nst
        self.allow = [True] * self.nst
        self.stack = []                      # (storage index, mode, context manager)
        self.loaded_before = {}              # references already loaded from each database
        for k in range(self.nst):
            self.open(k)
        self.sig = []
        self.removed = {}

    # -- storages
    def path(self, k):
        return ":memory:" if self.cfg.get("db") == "mem" else os.path.join(self.root, f"s{k}.db")

    def open_storage(self, k):
        from mandala.imports import Storage
        kw = {}
        if self.cfg.get("overflow"):
            kw = dict(overflow_dir=os.path.join(self.root, f"ov{k}"), overflow_threshold_MB=self.cfg["overflow"])
        if self.cfg.get("vers"):
            kw["deps_path"] = os.path.join(self.env.scratch, "versioned")
        return Storage(db_path=self.path(k), **kw)

    def open(self, k):
        self.storages[k] = self.open_storage(k)
        self.allow[k] = True

    @property
    def durable(self):
        return self.cfg.get("db") != "mem"

    # -- state carried over a fork
    def state(self):
        return pickle.dumps((self.ids, self.models, self.refs, dict(self.ev), self.sig, self.world.edited))

    def set_state(self, b):
        ids, models, refs, ev, sig, self.world.edited = pickle.loads(b)
        self.ids, self.models, self.refs, self.sig = ids, models, refs, sig
        self.ev.clear()
        self.ev.update(ev)

    @property
    def vars(self):
        return self.refs[self.cur()]

    def cur(self):
        return self.stack[-1][0] if self.stack else 0

    # -- sources
    def pick(self, want, k):
        def ok(v):
            if want == "any":
                return True
            return isinstance(v.elts, list) if want == "L" else isinstance(v.elts, dict)
        c = [x for x in self.vars if ok(x[1])]
        return c[k % len(c)] if c else None

    def resolve(self, src, typ="A"):
        """-> (argument to pass, function building its Val, python value). The Val is built lazily because building
        a collection records structural calls in the model."""
        k = src[0]
        if k == "raw":
            v = build(src[1])
            if typ != "A":
                return self._raw_typed(v, typ)
            pv = build(src[1])
            return v, (lambda m: self.ids.raw(pv)), fresh(pv)
        if k == "var":
            x = self.pick(src[1], src[2])
            if x is None:
                return self.resolve(src[3], typ)
            return x[0], (lambda m: x[1]), self.ids.value(x[1].c)
        if k == "plain":    # the value itself in place of a reference to it
            x = self.pick(src[1][1], src[1][2]) if src[1][0] == "var" else None
            if x is None or typ != "A" or x[1].elts is not None or self.ids.rev[x[1].c][0] != "a":
                return self.resolve(src[1], typ)
            v = self.ids.value(x[1].c)
            return fresh(v), (lambda m: self.ids.raw(v)), fresh(v)
        if k == "elt":
            x = self.pick(src[1], src[2])
            if x is None or not x[1].elts:
                return self.resolve(src[4], typ)
            if isinstance(x[1].elts, list):
                i = src[3] % len(x[1].elts)
            else:
                i = sorted(x[1].elts)[src[3] % len(x[1].elts)]
            e = x[1].elts[i]
            return (x[0][i] if x[0] is not None else None), (lambda m: e), self.ids.value(e.c)
        if k == "rc":
            if isinstance(src[1], list):
                sub = [self.resolve(s, typ[1] if typ != "A" else "A") for s in src[1]]
                if typ == "A":
                    return self.resolve(["raw", ["L", []]])
                return ([a for a, _, _ in sub], lambda m: m.struct_in(typ, [f(m) for _, f, _ in sub]), [p for _, _, p in sub])
            sub = {kk: self.resolve(s, typ[1] if typ != "A" else "A") for kk, s in src[1].items()}
            return ({kk: a for kk, (a, _, _) in sub.items()},
                    lambda m: m.struct_in(typ, {kk: f(m) for kk, (_, f, _) in sub.items()}),
                    {kk: p for kk, (_, _, p) in sub.items()})
        raise AssertionError(src)

    def _raw_typed(self, v, typ):
        if typ[0] == "L":
            return self.resolve(["rc", []], typ) if not isinstance(v, list) else \
                (v, lambda m: m.struct_in(typ, [self._rawval(m, x, typ[1]) for x in v]), fresh(v))
        return self.resolve(["rc", {}], typ) if not (isinstance(v, dict) and all(type(k) is str for k in v)) else \
            (v, lambda m: m.struct_in(typ, {k: self._rawval(m, x, typ[1]) for k, x in v.items()}), fresh(v))

    def _rawval(self, m, v, typ):
        if typ == "A":
            return self.ids.raw(v)
        if typ[0] == "L":
            return m.struct_in(typ, [self._rawval(m, x, typ[1]) for x in v])
        return m.struct_in(typ, {k: self._rawval(m, x, typ[1]) for k, x in v.items()})

    # -- where we are
    def where(self):
        """(storage index or None, mode) as a stack of contexts says."""
        if not self.stack:
            return None, "noop"
        return self.stack[-1][0], self.stack[-1][1]

    def depth(self, k):
        return sum(1 for s in self.stack if s[0] == k)

    # -- steps
    def run(self, steps):
        for n, st in enumerate(steps):
            try:
                self.step(st)
            except Violation as e:
                raise Violation(f"step {n} {str(st)[:300]}: {e}") from None
        self.unwind()
        return self

    def final(self):
        for k in range(self.nst):
            if not self.models[k].pending:
                self.check_db(k, full=True)
        return self

    def unwind(self):
        while self.stack:
            self.exit()

    def step(self, st):
        getattr(self, "do_" + st[0])(*st[1:])

    def do_enter(self, k, mode=None):
        k %= self.nst
        s = self.storages[k]
        cm = s(mode) if mode else s
        inherited = next((x[1] for x in reversed(self.stack) if x[0] == k), "run")
        r = cm.__enter__()
        if r is not s:
            bad("entering a storage context does not give the storage")
        self.stack.append((k, mode or inherited, s))
        self.check_mode()
        self.ev["contexts"] += 1

    def do_noop(self):
        from mandala.storage import noop
        n = noop()
        n.__enter__()
        if not self.stack:
            n.__exit__(None, None, None)
            return
        self.stack.append((self.stack[-1][0], "noop", n))
        self.check_mode()
        self.ev["noops"] += 1

    def do_exit(self, raising=False):
        if self.stack:
            self.exit(raising)

    def exit(self, raising=False):
        k, mode, cm = self.stack[-1]
        if len(self.stack) > 1:
            self.ev["nested_contexts"] += 1
        if raising:   # the body of the context raises
            e = exit_error(raising)
            if cm.__exit__(type(e), e, None):
                bad("leaving a context swallowed the error of its body")
            self.ev["raising_bodies"] += 1
        else:
            cm.__exit__(None, None, None)
        self.stack.pop()
        if self.depth(k) == 0:
            self.models[k].commit()
            self.ev["commits"] += 1
            if self.on_durable is not None:
                self.on_durable()
            if "db" in self.mon:
                self.check_db(k)
        self.check_mode()

    def check_mode(self):
        from mandala.model import Context
        cur = Context.current_context
        if (cur is None) != (not self.stack):
            bad(f"a context is {'not ' if cur is None else ''}active but {len(self.stack)} were entered and not left")
        if cur is not None:
            if cur.storage is not self.storages[self.stack[-1][0]]:
                bad("the active context is not that of the innermost storage")
        for k in range(self.nst):
            want = next((x[1] for x in reversed(self.stack) if x[0] == k), "run")
            if self.storages[k].mode != want:
                bad(f"the storage's mode is {self.storages[k].mode}, not {want}")

    def do_clear(self, k=0):
        k %= self.nst
        if self.models[k].pending or self.stack:
            return
        self.storages[k].clear_cache()
        self.ev["clears"] += 1

    def do_preload(self, what, k=0):
        s = self.storages[k % self.nst]
        if what == "eager":
            s.preload(lazy=False)
        elif what == "lazy":
            s.preload()
        elif what == "vacuum":
            s.vacuum()
            self.ev["vacuums"] += 1
        else:
            getattr(s, "preload_" + what)()
        self.ev["preloads"] += 1

    def do_reopen(self, k=0):
        k %= self.nst
        if self.depth(k) or not self.durable or self.models[k].pending:
            return
        self.open(k)
        self.ev["reopens"] += 1
        if "db" in self.mon:
            self.check_db(k)

    def do_session(self, steps):
        """Run steps in another process, on fresh storages."""
        if self.stack or not self.durable or any(m.pending for m in self.models):
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for k in range(self.nst):
                    self.open(k)
                try:
                    self.run(steps)
                    out = pickle.dumps(("ok", self.state()))
                except Violation as e:
                    out = pickle.dumps(("violation", f"in a new process: {e}"))
                except BaseException as e:
                    out = pickle.dumps(("violation", f"in a new process: unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-8)}"))
                with os.fdopen(w, "wb") as f:
                    f.write(out)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            bad("the new process died")
        kind, payload = pickle.loads(data)
        if kind == "violation":
            bad(payload)
        self.set_state(payload)
        self.ev["sessions"] += 1

    def do_allow(self, flag, k=0):
        k %= self.nst
        self.storages[k].allow_new_calls(flag)
        self.allow[k] = flag

    def do_check(self, k=0, full=False):
        if not self.models[k % self.nst].pending:
            self.check_db(k % self.nst, full=full)

    def do_reset(self):
        """Start the program again: no python references are held."""
        self.refs = [[] for _ in range(self.nst)]

    def do_forget(self, n):
        """Drop the oldest python references (they may only be held by the database afterwards)."""
        self.refs = [r[n:] for r in self.refs]

    # -- calls
    def bind_args(self, i, args, kwargs):
        """Storage input name -> argument position, as documented: by parameter name, `name_i` for variable positional
        arguments, and the keyword itself for variable keyword arguments."""
        spec = self.world.specs[i]
        sig = inspect.signature(self.world.plain[i])
        b = sig.bind(*args, **kwargs)
        return spec, sig, b

    def typ_of(self, spec, name):
        return next(p.get("t", "A") for p in spec["params"] if p["n"] == name)

    def param_of_args(self, spec, nargs, kwkeys):
        """Type expected for each positional / keyword argument."""
        pos = [p for p in spec["params"] if p["k"] in ("pos", "pk")]
        var = [p for p in spec["params"] if p["k"] == "var"]
        vkw = [p for p in spec["params"] if p["k"] == "vkw"]
        byname = {p["n"]: p for p in spec["params"] if p["k"] in ("pk", "kw")}
        ts = [(pos[j] if j < len(pos) else var[0]) for j in range(nargs)]
        tk = {k: byname.get(k) or vkw[0] for k in kwkeys}
        return ts, tk

    def do_call(self, i, args, kwargs, opts=None):
        from mandala.model import _Ignore, ValuePointer, NewArgDefault, Ignore
        opts = opts or {}
        i %= len(self.world.specs)
        spec = self.world.specs[i]
        nargs = len(args)
        ts, tk = self.param_of_args(spec, nargs, list(kwargs))
        k, mode = self.where()
        items = []   # (slot, param, passed, valf, py, wrap)
        for slot, p, src in [(j, ts[j], a) for j, a in enumerate(args)] + [(kk, tk[kk], a) for kk, a in kwargs.items()]:
            wrap = None
            if src[0] == "ign":
                wrap, src = "ign", src[1]
            if src[0] == "vp":
                obj = build(src[2])
                c = self.ids.t("vp", src[1])
                self.ids.py.setdefault(c, obj)
                it = (ValuePointer(src[1], obj), (lambda m, c=c: Val(c, self.ids.t("raw", c))), build(src[2]))
                wrap = "vp"
            else:
                it = self.resolve(src, p.get("t", "A"))
            items.append((slot, p, it[0], it[1], it[2], wrap))
        outside = k is None

        def passed(x):
            _, p, a, _, py, wrap = x
            if wrap == "ign":
                return Ignore(a if not outside else fresh(py))
            if wrap == "vp":
                return a
            return a if not outside else fresh(py)
        pa = [passed(x) for x in items if isinstance(x[0], int)]
        pk = {x[0]: passed(x) for x in items if not isinstance(x[0], int)}
        sig = inspect.signature(self.world.plain[i])

        def pybind():
            b = sig.bind(*[fresh(x[4]) for x in items if isinstance(x[0], int)],
                         **{x[0]: fresh(x[4]) for x in items if not isinstance(x[0], int)})
            b.apply_defaults()
            for n, v in list(b.arguments.items()):
                if isinstance(v, _Ignore):
                    b.arguments[n] = v.value
            return b
        argd = dict(pybind().arguments)
        for p in spec["params"]:
            if p["k"] == "vkw":
                argd[p["n"]] = dict(argd[p["n"]])
        boom = bool(opts.get("fail"))
        nlog = len(self.world.exec_log)
        failed_ops = set()
        if boom:
            self.world.fail = {spec["name"]}
            if opts.get("fail_inner") and spec.get("nest") is not None:
                self.world.fail = {self.world.specs[spec["nest"]]["name"]}
            if opts.get("fail_after") and spec.get("nest") is not None:
                self.world.fail, self.world.fail_after = set(), {spec["name"]}
            failed_ops = set(self.world.fail)
            self.world.fail_exc = boom_class(opts.get("base"))
        try:
            # ---- what should happen
            before = self.snapshot(k) if "restore" in opts else None
            expected = self.expect(i, items, argd, k, mode, failed_ops)
            if self.modelonly:
                if "outs" in expected:
                    self.vars.extend((None, v) for v in expected["outs"].values())
                return
            if "restore" in opts:
                opts["restore"]("arm")
            # ---- what happens
            err, res = None, None
            try:
                res = self.world.ops[i](*pa, **pk)
            except (Boom, BoomBase) as e:
                err = e
                e.__traceback__ = None
            except RuntimeError as e:
                if expected["kind"] == "refused" and "new calls are not allowed" in str(e):
                    err = e
                else:
                    raise
            except BaseException as e:
                if "restore" in opts and opts["restore"]("mine", e):
                    # an injected error: the call must leave no trace
                    self.rollback(k, before)
                    self.ev["injected_call_errors"] += 1
                    self.sig.append("!")
                    return
                raise
            if "restore" in opts and opts["restore"]("fired"):
                bad("an error while calling a function did not reach the caller")
        finally:
            if "restore" in opts:
                opts["restore"]("disarm")
            self.world.fail = set()
            self.world.fail_after = set()
        log = self.world.exec_log[nlog:]
        if self.cfg.get("mangle"):   # the caller goes on to use its objects
            self.ev["arguments_modified_afterwards"] += 1
            mangle(pa)
            mangle(list(pk.values()))
        self.compare(i, expected, res, err, log)
        self.ev["calls"] += 1
        self.ev["call_" + expected["kind"]] += 1
        self.sig.append(expected["kind"][0])

    def snapshot(self, k):
        if k is None:
            return None
        m = self.models[k]
        return dict(m.calls), {c: set(s) for c, s in m.by_content.items()}, set(m.pending)

    def rollback(self, k, snap):
        if k is not None:
            m = self.models[k]
            m.calls, m.by_content, m.pending = snap

    def storage_inputs(self, spec, items, m):
        """Vals of the inputs as the storage should see them (building collections records structural calls)."""
        from mandala.model import _Ignore
        sig_pos = [p for p in spec["params"] if p["k"] in ("pos", "pk")]
        ins, given = {}, set()
        byslot = {}
        for slot, p, _, valf, py, wrap in items:
            if isinstance(slot, int) and p["k"] == "var":
                name = f"{p['n']}_{slot - len(sig_pos)}"
                if any(q["n"] == name for q in spec["params"]):
                    name = f"{p['n']}.{slot - len(sig_pos)}"
            elif isinstance(slot, int):
                name = p["n"]
            else:
                name = slot
                on = spec.get("output_names")
                if p["k"] == "vkw" and any(q["n"] == name for q in spec["params"]) or p["k"] == "vkw" and (name in on if on else name.startswith("output_")) or p["k"] == "vkw" and \
                        any(q["k"] == "var" and re.fullmatch(re.escape(q["n"]) + r"_\d+", name) for q in spec["params"]):
                    name = f"{p['n']}.{name}"      # not to be confused with other arguments or outputs
            given.add(name if p["k"] not in ("var",) else None)
            if wrap == "ign":
                continue
            if p["n"] in spec.get("ignore", ()):
                continue
            if p.get("nad") and wrap != "vp" and canon(py) == canon(build(p["d"])):
                continue
            byslot[name] = valf
        for p in spec["params"]:
            if "d" in p and p["n"] not in given and not p.get("nad") and p["n"] not in spec.get("ignore", ()):
                byslot[p["n"]] = (lambda m, p=p: self._rawval(m, build(p["d"]), p.get("t", "A")))
        m.begin()
        for n, f in byslot.items():
            ins[n] = f(m)
        return ins, m.extra

    def expect(self, i, items, argd, k, mode, failing):
        spec = self.world.specs[i]
        w = self.world
        if k is None or mode == "noop":
            log = []
            try:
                vals = self.plain_run(i, argd, log, failing)
            except Boom:
                return {"kind": "raise", "log": log}
            return {"kind": "plain", "vals": vals, "log": log}
        m = self.models[k]
        ins, extra = self.storage_inputs(spec, items, m)
        log = []
        if m.lookup(spec["name"], ins) is None and not self.allow[k]:
            return {"kind": "refused", "log": []}
        try:
            how, outs = m.finish(spec["name"], ins, extra, lambda: self.model_exec(i, argd, m, log, failing))
        except Boom:
            return {"kind": "raise", "log": log}
        except Refused:
            return {"kind": "refused", "log": log}
        return {"kind": how, "outs": outs, "ins": ins, "log": log, "k": k}

    def model_exec(self, i, argd, m, log, failing):
        spec = self.world.specs[i]
        log.append((spec["name"], {n: canon(v) for n, v in argd.items()}))
        if spec["name"] in failing:
            raise Boom()
        if spec.get("nest") is not None:
            j = spec["nest"]
            inner = self.world.specs[j]
            x = [argd[p["n"]] for p in spec["params"] if p["k"] not in ("var", "vkw")][0]
            p0 = inner["params"][0]
            items = [(0, p0, None, (lambda mm: self._rawval(mm, fresh(x), "A")), x, None)]
            b = inspect.signature(self.world.plain[j]).bind(fresh(x))
            b.apply_defaults()
            ins, extra = self.storage_inputs(inner, items, m)
            if m.lookup(inner["name"], ins) is None and not self.allow[self.models.index(m)]:
                raise Refused()
            try:
                how, outs = m.finish(inner["name"], ins, extra, lambda: self.model_exec(j, dict(b.arguments), m, log, failing))
            except Boom:
                if not spec.get("catch"):
                    raise
                return [(self.world.out_names(spec, 1)[0], self.ids.atom(-1))]
            if spec["name"] in self.world.fail_after:
                raise Boom()
            return [(n, v) for n, v in zip(self.world.out_names(spec, 1), outs.values())]
        outs = self.world.outputs(spec, argd)
        names = self.world.out_names(spec, len(outs))
        return [(n, m.content_of(t, v)) for n, (t, v) in zip(names, outs)]

    def plain_run(self, i, argd, log, failing):
        spec = self.world.specs[i]
        log.append((spec["name"], {n: canon(v) for n, v in argd.items()}))
        if spec["name"] in failing:
            raise Boom()
        if spec.get("nest") is not None:
            j = spec["nest"]
            x = [argd[p["n"]] for p in spec["params"] if p["k"] not in ("var", "vkw")][0]
            b = inspect.signature(self.world.plain[j]).bind(fresh(x))
            b.apply_defaults()
            try:
                res = self.plain_run(j, dict(b.arguments), log, failing)
            except Boom:
                if not spec.get("catch"):
                    raise
                return -1
            if spec["name"] in self.world.fail_after:
                raise Boom()
            return res
        return self.world.compute(spec, argd)

    def compare(self, i, exp, res, err, log):
        spec = self.world.specs[i]
        kind = exp["kind"]
        if kind == "raise":
            if err is None:
                bad(f"{spec['name']} raised an error but the caller got {res!r}")
        elif kind == "refused":
            if err is None or isinstance(err, Boom):
                bad(f"a new call was made although new calls are not allowed: {res!r}")
        elif err is not None:
            bad(f"the call raised {err!r}, expected outcome {kind}")
        if [n for n, _ in log] != [n for n, _ in exp["log"]]:
            bad(f"functions executed: {[n for n, _ in log]}, expected {[n for n, _ in exp['log']]} (call of {spec['name']}: {kind})")
        for (n, a), (_, b) in zip(log, exp["log"]):
            if a != b:
                bad(f"{n} was executed with arguments {a}, expected {b}")
        self.ev["executions"] += len(log)
        if kind == "plain":
            if canon(res) != canon(exp["vals"]):
                bad(f"plain call of {spec['name']} returned {res!r}, expected {exp['vals']!r}")
        elif kind in ("run", "hist", "content"):
            outs = list(exp["outs"].items())
            refs = [res] if len(outs) == 1 else list(res)
            if len(outs) != 1 and not isinstance(res, tuple):
                bad(f"{spec['name']} has {len(outs)} outputs but returned {type(res).__name__}")
            if len(refs) != len(outs):
                bad(f"{spec['name']} returned {len(refs)} outputs, expected {len(outs)}")
            for (n, v), r in zip(outs, refs):
                self.check_ref(r, v, f"{spec['name']}.{n}", exp["k"])
                if "lazy" in self.mon:
                    self.check_memory(r, v, kind != "run", n)
                self.vars.append((r, v))

    # -- oracles on references
    def check_ref(self, r, v, what, k, value=True):
        from mandala.model import ListRef, DictRef, AtomRef
        want = ListRef if isinstance(v.elts, list) else DictRef if isinstance(v.elts, dict) else AtomRef
        if type(r) is not want:
            bad(f"{what}: got a {type(r).__name__} ({r!r}), expected a {want.__name__}")
        self.ids.bind("c", v.c, r.cid, what)
        self.ids.bind("h", v.h, r.hid, what)
        if isinstance(v.elts, list):
            if len(r.obj) != len(v.elts):
                bad(f"{what}: {len(r.obj)} elements, expected {len(v.elts)}")
            for j, (a, b) in enumerate(zip(r.obj, v.elts)):
                self.check_ref(a, b, f"{what}[{j}]", k, False)
        elif isinstance(v.elts, dict):
            if set(r.obj) != set(v.elts):
                bad(f"{what}: keys {sorted(r.obj)}, expected {sorted(v.elts)}")
            for j in v.elts:
                self.check_ref(r.obj[j], v.elts[j], f"{what}[{j!r}]", k, False)
        if value and "novalue" not in self.mon:
            got = self.storages[k].unwrap(r)
            if canon(got) != canon(self.ids.value(v.c)):
                bad(f"{what}: unwraps to {got!r}, expected {self.ids.value(v.c)!r}")
            self.ev["values_checked"] += 1

    def check_memory(self, r, v, lazy, n):
        if v.elts is None:
            if lazy and r.in_memory:
                bad(f"output {n} of a call found in the storage is in memory")
            self.ev["lazy_refs"] += 1
        else:
            for a, b in (zip(r.obj, v.elts) if isinstance(v.elts, list) else [(r.obj[x], v.elts[x]) for x in v.elts]):
                self.check_memory(a, b, lazy, n)

    def do_unwrap(self, j):
        if not self.vars:
            return
        r, v = self.vars[j % len(self.vars)]
        got = self.storages[self.cur()].unwrap(r)
        if canon(got) != canon(self.ids.value(v.c)):
            bad(f"unwraps to {got!r}, expected {self.ids.value(v.c)!r}")
        self.ev["values_checked"] += 1

    def do_attach(self, j):
        if not self.vars:
            return
        r, v = self.vars[j % len(self.vars)]
        s, memory = self.storages[self.cur()], r.in_memory

        def same(a, r, v):
            if v.elts is None:
                if not a.in_memory or canon(a.obj) != canon(self.ids.value(v.c)) or a.hid != r.hid or a.cid != r.cid:
                    bad(f"attached reference {a!r} of {r!r}, expected value {self.ids.value(v.c)!r}")
                self.ev["attached"] += 1
            elif len(a) != len(v.elts):
                bad(f"attaching {r!r} gives {a!r}")
            else:
                for i in range(len(v.elts)) if isinstance(v.elts, list) else v.elts:
                    same(a[i], r.obj[i], v.elts[i])
        if j % 3 == 0:
            same(s.attach({"a": [r]})["a"][0], r, v)
        elif j % 3 == 1 and v.elts is None:
            x = copy.copy(r)
            res = s.attach(x, inplace=True)
            if res is not None:
                bad(f"attaching in place returns {res!r}")
            same(x, r, v)
        else:
            same(s.attach(r), r, v)
        if r.in_memory != memory:
            bad(f"attaching changed {r!r} itself")

    # -- deletion
    def hid_of_calls(self, k):
        """call history -> id the storage uses, for the calls whose output's id has been seen."""
        by_out = {}
        for h, row in self.rows(k).items():
            for n, (rc, rh) in row["out"].items():
                by_out[rh] = h
        df = self.storages[k].call_cache.df
        for (h, n), d, rh in zip(df.index, df["direction"], df["ref_history_id"]):
            if d == "out":
                by_out[rh] = h
        res = {}
        for t, cm in self.models[k].calls.items():
            for v in cm.outs.values():
                hid = self.ids.fwd.get(("h", v.h))
                if hid in by_out:
                    res[t] = by_out[hid]
                    break
        return res

    def do_drop(self, sels, deps, how, k=0):
        k %= self.nst
        m, s = self.models[k], self.storages[k]
        hids = self.hid_of_calls(k)
        cand = sorted(t for t in m.calls if t in hids and (m.calls[t].op not in ("__list_getitem__", "__dict_getitem__")))
        if not cand:
            return
        chosen = sorted({cand[x % len(cand)] for x in sels})
        inctx = self.depth(k) > 0
        deps = deps or bool(self.world.edited)
        if how == "cf":
            op = m.calls[chosen[0]].op
            i = next((j for j, sp in enumerate(self.world.specs) if sp["name"] == op), None)
            if i is None or inctx or self.stack or m.pending:
                how = "hids"
            else:
                deps = True
                frame = s.cf(self.world.ops[i])
                if sum(sels) % 2:
                    # the calls of some rows of a frame's table
                    chosen = self.drop_rows(frame if sum(sels) % 4 == 1 or len(m.calls) > 20 else frame.expand_back(recursive=sum(sels) % 3 > 0), sels, k)
                else:
                    chosen = [t for t in m.calls if m.calls[t].op == op]
                    frame.delete_calls()
        if how != "cf":
            ids = [hids[t] for t in chosen]
            if how == "calls":
                arg = [s.get_call(h, lazy=True) for h in ids]
            elif how == "mixed":
                arg = [s.get_call(h, lazy=True) if j % 2 else h for j, h in enumerate(ids)]
            elif how == "iter":
                arg = iter(ids)
            elif how == "set":
                arg = set(ids)
            elif how == "itercalls":
                arg = iter([s.get_call(h, lazy=True) for h in ids])
            else:
                arg = ids
            s.drop_calls(arg, delete_dependents=deps)
        gone = m.dependents(chosen) if deps else set(chosen)
        gone &= set(m.calls)
        npend = len(gone & m.pending)
        for t in gone:
            self.removed[t] = m.calls[t]
            m.remove(t)
        for t in gone:
            if t in hids and s.exists_call(hids[t]):
                bad(f"deleted call still exists: {self.ids.show(t)}")
        for t in m.calls:
            if t in hids and not s.exists_call(hids[t]):
                bad(f"call that was not to be deleted is gone: {self.ids.show(t)}")
        if self.on_durable is not None:
            self.on_durable()
        if self.world.edited:
            self.forget_dangling(k)
            self.loaded_before[k] = {}
        self.ev["drops"] += 1
        self.ev["dropped_calls"] += len(gone)
        self.ev["dropped_uncommitted"] += npend
        self.ev["dropped_dependents"] += len(gone) - len(chosen)
        self.sig.append("d%d" % len(gone))
        if "db" in self.mon and not m.pending:
            self.check_db(k)

    def drop_rows(self, frame, sels, k):
        from mandala.model import Call, CallCollection
        df = frame.df(values="refs")
        # (the rows come in no particular order, and the choice has to be the same when the steps are run again)
        one = lambda x: getattr(x, "hid", None) or ",".join(sorted(y.hid for y in (getattr(x, "calls", None) or getattr(x, "refs", None) or ())))
        order = sorted(range(len(df)), key=lambda i: sorted((c, one(df[c].iloc[i])) for c in df.columns))
        df = df.iloc[sorted({order[x % len(df)] for x in sels})] if len(df) else df
        cells = [x for col in df.columns for x in df[col]]
        seen = {x.hid for x in cells if isinstance(x, Call)} | {c.hid for x in cells if isinstance(x, CallCollection) for c in x.calls}
        # (the ids of calls that build arguments may not have been seen yet)
        dec = Decoder(self, self.rows(k), self.storages[k])
        frame.delete_calls_from_df(df)
        self.ev["rows_deleted"] += len(df)
        return sorted(dec.call(h) for h in seen)

    def dangling(self, k, name=None):
        """References whose history goes through a call (of this function, or of any edited one) that is not stored."""
        m, rev, memo = self.models[k], self.ids.rev, {}
        names = {name} if name else set(self.world.edited)

        def rec(h):
            if h not in memo:
                tup = rev[h]
                memo[h] = False
                if tup[0] == "out":
                    c = rev[tup[1]]
                    memo[h] = (c[1] in names and tup[1] not in m.calls) or any(rec(x) for _, x in c[3])
            return memo[h]
        return rec

    def forget_dangling(self, k, name=None):
        rec = self.dangling(k, name)
        self.refs[k] = [(r, v) for r, v in self.refs[k] if not any(rec(x.h) for x in walk_val(v))]

    def do_edit(self, i, sels, k=0):
        """Delete calls of a function with their dependents and change its code, so that it gives other results."""
        k %= self.nst
        name = self.world.specs[i]["name"]
        hids = self.hid_of_calls(k)
        m = self.models[k]
        cand = sorted(t for t in m.calls if t in hids and (m.calls[t].op not in ("__list_getitem__", "__dict_getitem__")))
        own = [j for j, t in enumerate(cand) if m.calls[t].op == name]
        if own:
            self.do_drop([own[x % len(own)] for x in sels], True, "hids", k)
        rec = self.dangling(k, name)
        if any(sp.get("nest") == i for sp in self.world.specs) or self.nst > 1 or any(rec(v.h) for cm in m.calls.values() for v in cm.ins.values()):
            # (a call was deleted without its dependents: what they were computed from is not to change; the calls of a
            # function that calls this one are no dependents of the calls made inside it)
            self.ev["edits_skipped"] += 1
            return
        self.forget_dangling(k, name)
        self.loaded_before[k] = {}
        self.world.edited[name] = self.world.edited.get(name, 0) + 1009
        self.ev["edited_functions"] += 1

    def do_cleanup(self, k=0):
        k %= self.nst
        m, s = self.models[k], self.storages[k]
        need_h, need_c = {}, {}
        for v in m.all_vals():
            need_h[v.h] = v
            if v.elts is None:
                need_c[self.ids.cc(v.c)] = v
        before = self.stored_keys(k)
        try:
            s.cleanup_refs()
        except NotImplementedError:
            if not self.stack:   # refused inside contexts, which must not have removed anything
                raise
            self.ev["cleanups_refused"] += 1
            if self.stored_keys(k) != before:
                bad("a refused clean-up removed something")
            return
        # references of which nothing is stored any more must not be used later
        self.refs[k] = [(r, v) for r, v in self.refs[k] if all(x.h in need_h for x in walk_val(v))]
        # references are only guaranteed to be cleaned up or kept if they were stored
        if not m.pending:
            self.loaded_before[k] = {}
            self.check_db(k, full=True)
            shapes, atoms, files = self.stored_keys(k)
            hid = {self.ids.fwd[("h", h)] for h in need_h}
            cid = {self.ids.fwd[("c", c)] for c in need_c}
            if shapes != hid:
                bad(f"after cleaning up, references {sorted(shapes - hid)[:3]} are still stored, {sorted(hid - shapes)[:3]} are gone")
            # the content of an empty collection may be stored as a value too
            atoms -= {self.ids.fwd[("c", self.ids.cc(v.c))] for v in need_h.values() if v.elts is not None} - cid
            if atoms | files != cid:
                bad(f"after cleaning up, values {sorted((atoms | files) - cid)[:3]} are still stored, {sorted(cid - atoms - files)[:3]} are gone")
            self.ev["cleaned_refs"] += len(before[0] - shapes)
            self.ev["cleaned_values"] += len((before[1] | before[2]) - (atoms | files))
            self.ev["kept_refs"] += len(shapes)
            self.sig.append("c%d" % len(before[0] - shapes))
        self.ev["cleanups"] += 1
        if m.pending:
            self.ev["cleanups_uncommitted"] += 1

    def stored_keys(self, k):
        con = sqlite3.connect(self.path(k), timeout=60) if self.durable else self.storages[k].db.conn()
        try:
            sh = {r[0] for r in con.execute("SELECT key FROM shapes").fetchall()}
            at = {r[0] for r in con.execute("SELECT key FROM atoms").fetchall()}
        finally:
            if self.durable:
                con.close()
        d = os.path.join(self.root, f"ov{k}")
        fl = {f[:-len(".joblib")] for f in os.listdir(d) if f.endswith(".joblib")} if os.path.isdir(d) else set()
        return sh, at, fl

    # -- oracle on the database
    def rows(self, k):
        if self.durable:
            con = sqlite3.connect(self.path(k), timeout=60)
        else:
            con = self.storages[k].db.conn()
        try:
            cur = con.execute("SELECT call_history_id, name, direction, call_content_id, ref_content_id, ref_history_id, op, "
                              "semantic_version FROM calls")
            rows = cur.fetchall()
        finally:
            if self.durable:
                con.close()
        g = {}
        for h, n, d, cc, rc, rh, op, sv in rows:
            c = g.setdefault(h, {"h": h, "in": {}, "out": {}, "op": op, "c": cc})
            if c["op"] != op or c["c"] != cc:
                bad(f"inconsistent rows of call {h}")
            c[d][n] = (rc, rh)
        return g

    def check_db(self, k=0, values=True, expect=None, full=False):
        """The stored calls, decoded from scratch, are exactly the committed calls of the model, and all their values
        load. Values that a previous check of the same storage has loaded are loaded again only in a full check."""
        m = self.models[k]
        g = self.rows(k)
        s = self.open_storage(k) if self.durable else self.storages[k]
        dec = Decoder(self, g, s)
        if not full:
            dec.loaded.update(self.loaded_before.setdefault(k, {}))
        got = {}
        for h in g:
            t = dec.call(h)
            if t in got:
                bad(f"two stored calls {got[t]} and {h} are the same call {self.ids.show(t)}")
            got[t] = h
        want = m.committed() if expect is None else expect
        for t in want:
            if t not in got:
                bad(f"a call that was made is missing from the database: {self.ids.show(t)}")
        for t in got:
            if t not in want:
                bad(f"the database has a call that was not made (or was deleted): {self.ids.show(t)}")
        for t, h in got.items():
            cm = m.calls[t]
            row = g[h]
            for names, vals in ((row["in"], cm.ins), (row["out"], cm.outs)):
                if set(names) != set(vals):
                    bad(f"stored call {self.ids.show(t)} has names {sorted(names)}, expected {sorted(vals)}")
                for n, (rc, rh) in names.items():
                    self.ids.bind("c", vals[n].c, rc, "database")
                    self.ids.bind("h", vals[n].h, rh, "database")
            self.ids.bind("ch", t, h, "database")
            self.ids.bind("cc", cm.c, row["c"], "database")
        if values:
            n = 0
            for t in got:
                cm = m.calls[t]
                for v in list(cm.ins.values()) + list(cm.outs.values()):
                    hid = self.ids.fwd[("h", v.h)]
                    if hid in dec.loaded:
                        continue
                    dec.load(hid)
                    n += 1
            self.ev["stored_refs_loaded"] += n
            for t in got:
                cm = m.calls[t]
                for v in list(cm.ins.values()) + list(cm.outs.values()):
                    self.check_stored(dec, v)
        self.loaded_before[k] = dec.loaded
        self.ev["db_checks"] += 1
        self.ev["db_calls"] += len(got)
        return dec

    def check_stored(self, dec, v):
        hid = self.ids.fwd[("h", v.h)]
        r = dec.load(hid)
        self.check_ref(r, v, "stored reference", None, value=False)


class Refused(Exception):
    pass


class Decoder:
    """Reconstructs contents and histories from what is stored."""

    def __init__(self, sim, groups, storage):
        self.sim, self.g, self.s = sim, groups, storage
        self.ids = sim.ids
        self.creator = {}
        for h, c in groups.items():
            for n, (rc, rh) in c["out"].items():
                if rh in self.creator and self.creator[rh] != (h, n):
                    bad(f"reference {rh} is the output of two calls")
                self.creator[rh] = (h, n)
        self.calls, self.hists, self.loaded, self.contents = {}, {}, {}, {}

    def load(self, hid):
        """Load a reference with its value; content checks against its cid happen through bindings."""
        r = self.loaded.get(hid)
        if r is None:
            r = self.s.load_ref(hid, in_memory=False)
            if r.hid != hid:
                bad(f"loading {hid} gives a reference with id {r.hid}")
            self.loaded[hid] = r
        return r

    def content_ref(self, r):
        from mandala.model import ListRef, DictRef, ValuePointer
        if isinstance(r, ListRef):
            c = self.ids.t("L", *[self.content_ref(e) for e in r.obj])
        elif isinstance(r, DictRef):
            c = self.ids.t("D", *sorted((k, self.content_ref(e)) for k, e in r.obj.items()))
        else:
            v = r.obj
            if not r.in_memory:
                r = self.load(r.hid)
                v = r.obj
            c = self.ids.t("vp", v.id) if isinstance(v, ValuePointer) else self.ids.atom(v)
        self.ids.bind("c", c, r.cid, "stored value")
        return c

    def content(self, hid):
        c = self.contents.get(hid)
        if c is None:
            c = self.contents[hid] = self.content_ref(self.load(hid))
        return c

    def hist(self, hid):
        t = self.hists.get(hid)
        if t is None:
            known = self.ids.bwd.get(("h", hid))
            if hid in self.creator:
                h, n = self.creator[hid]
                t = self.ids.t("out", self.call(h), n)
                if known is not None and known != t:
                    bad(f"stored history of {hid} is {self.ids.show(t)}, it should be {self.ids.show(known)}")
            elif known is not None:
                t = known
            else:
                t = self.ids.t("raw", self.content(hid))
            self.hists[hid] = t
        return t

    def call(self, h):
        t = self.calls.get(h)
        if t is None:
            row = self.g[h]
            self.calls[h] = -1
            t = self.ids.t("call", row["op"], 0, tuple(sorted((n, self.hist(rh)) for n, (rc, rh) in row["in"].items())))
            self.calls[h] = t
        elif t == -1:
            bad("cyclic history in the database")
        return t


# ------------------------------------------------------------------------------------------------ generators
PNAMES = ["x", "y", "z", "u", "w"]


def gen_type(rng, depth=2):
    if depth <= 0 or rng.random() < .45:
        return "A"
    return [rng.choice(["L", "L", "D"]), gen_type(rng, depth - 1)]


def gen_struct(rng, depth=1):
    return [rng.choice(["L", "L", "D"]), gen_type(rng, depth)]


def gen_default(rng, t, pool):
    if t == "A":
        return rng.choice(pool)
    return ["L", []] if t[0] == "L" else ["D", []]


def gen_op(rng, idx, pool, prof):
    params = []
    shape = rng.random()
    npos = rng.choice([0, 0, 0, 1]) if prof.get("kinds", True) else 0
    npk = rng.choice([1, 1, 2, 2, 3]) if rng.random() < .93 else 0
    nkw = rng.choice([0, 0, 0, 1, 2]) if prof.get("kinds", True) else 0
    names = list(PNAMES) + (["args_0", "args_1"] if rng.random() < .1 else [])
    rng.shuffle(names)
    names += ["a1", "b1", "c1"]
    st = prof.get("struct", .2)

    def mk(k):
        p = {"n": names.pop(0), "k": k}
        if rng.random() < st:
            p["t"] = gen_struct(rng)
        elif rng.random() < .1:
            p["annany"] = True
        return p
    hasdef = False
    for k in ["pos"] * npos + ["pk"] * npk:
        p = mk(k)
        if hasdef or rng.random() < .25:
            p["d"] = gen_default(rng, p.get("t", "A"), pool)
            hasdef = True
        params.append(p)
    if prof.get("kinds", True) and rng.random() < .2:
        p = {"n": "args", "k": "var"}
        if rng.random() < st:
            p["t"] = gen_struct(rng, 0)
        params.append(p)
    for _ in range(nkw):
        p = mk("kw")
        if rng.random() < .5:
            p["d"] = gen_default(rng, p.get("t", "A"), pool)
        params.append(p)
    if prof.get("kinds", True) and rng.random() < .2:
        p = {"n": "kw", "k": "vkw"}
        if rng.random() < st:
            p["t"] = gen_struct(rng, 0)
        params.append(p)
    s = {"name": f"f{idx}", "params": params, "salt": idx}
    # outputs
    r = rng.random()
    s["outs"] = 1 if r < .6 else rng.choice([2, 3]) if r < .9 else "v" if r < .95 else 12 if r < .98 else 0
    if s["outs"] == 0:
        s["nout"] = rng.choice([0, "auto", "var"])
    elif s["outs"] == "v":
        s["nout"] = rng.choice(["var", "auto"])
        if rng.random() < .5:
            s["ret"] = {"form": "var", "t": [gen_type(rng)]}
    elif s["outs"] == 1:
        if rng.random() < .15:
            s["onetuple"] = True
            s["nout"] = rng.choice([1, "auto", "var"])
            if rng.random() < .5:
                s["ret"] = {"form": "tuple", "t": [gen_type(rng)]}
        elif rng.random() < prof.get("structout", .4):
            s["ret"] = {"form": "single", "t": [gen_type(rng)]}
    else:
        n = s["outs"]
        s["nout"] = rng.choice(["auto", n, "var"])
        q = rng.random()
        if q < .5:
            s["ret"] = {"form": "tuple", "t": [gen_type(rng) for _ in range(n)]}
        elif q < .6:
            s["ret"] = {"form": "var", "t": [gen_type(rng)]}
    if s["outs"] not in ("v", 0) and rng.random() < .3:
        s["output_names"] = (["res", "aux", "b", "zz"] + [f"o{j}" for j in range(20)])[:s["outs"]]
        rng.shuffle(s["output_names"])
    if rng.random() < .1:
        s["paren"] = True
    s["rec"] = [gen_recipe(rng, pool, prof) for _ in range(rng.choice([1, 2]))]
    return s


def gen_recipe(rng, pool, prof):
    k = rng.random()
    if k < .35: return ["mod", rng.choice([2, 3, 1000])]
    if k < .55: return ["id", rng.randrange(3)]
    if k < .7: return ["all"]
    if k < .8: return ["tup"]
    if k < .9: return ["const", rng.choice(pool)]
    return ["big", prof["big"]] if prof.get("big") else ["arr", 5]


def gen_nest(rng, idx, specs):
    c = [j for j, s in enumerate(specs) if s.get("nest") is None and s["outs"] == 1 and not s.get("ret")
         and s["params"] and s["params"][0]["k"] in ("pos", "pk") and s["params"][0].get("t", "A") == "A"
         and all("d" in p or p["k"] in ("var", "vkw") for p in s["params"][1:])
         and s["params"][0]["k"] != "kw" and not s.get("onetuple") and not s.get("ignore")]
    if not c:
        return None
    return {"name": f"f{idx}", "params": [{"n": "q", "k": "pk"}], "salt": idx, "outs": 1, "rec": [["mod", 2]], "nest": rng.choice(c)}


def gen_src(rng, pool, typ, prof, depth=2):
    if typ == "A":
        k = rng.random()
        raw = ["raw", rng.choice(pool)]
        if k < .38: return ["var", "any", rng.randrange(50), raw]
        if k < .46: return ["elt", rng.choice("LD"), rng.randrange(50), rng.randrange(12), raw]
        return raw
    if typ[0] == "L":
        n = rng.choice([0, 1, 2, 2, 3]) if rng.random() > .04 or depth < 2 else 11
        rc = ["rc", [gen_src(rng, pool, typ[1], prof, depth - 1) for _ in range(n)]]
    else:
        rc = ["rc", {k: gen_src(rng, pool, typ[1], prof, depth - 1) for k in rng.sample(["a", "b", "k", "é x", "elts_0"], rng.choice([0, 1, 2, 3]))}]
    if rng.random() < .3:
        return ["var", typ[0], rng.randrange(50), rc]
    return rc


def gen_call(rng, specs, pool, prof, opts=None):
    i = rng.randrange(len(specs))
    s = specs[i]
    args, kwargs = [], {}
    posmode = True
    for p in s["params"]:
        src = lambda: gen_src(rng, pool, p.get("t", "A"), prof)
        if p["k"] in ("pos", "pk"):
            if "d" in p and rng.random() < .4:
                posmode = False
                continue
            if p["k"] == "pos":
                if not posmode:
                    continue   # an earlier positional-only one was omitted: this one has a default too
                args.append(src())
            elif posmode and rng.random() < .65:
                args.append(src())
            else:
                posmode = False
                kwargs[p["n"]] = src()
        elif p["k"] == "var":
            if posmode and len(args) == sum(1 for q in s["params"] if q["k"] in ("pos", "pk")):
                for _ in range(rng.choice([0, 1, 2, 3]) if rng.random() > .05 else 12):
                    args.append(src())
        elif p["k"] == "kw":
            if "d" in p and rng.random() < .5:
                continue
            kwargs[p["n"]] = src()
        else:
            # (bind() refuses keywords named like an omitted positional-only parameter)
            taken = [q["n"] for q in s["params"] if q["k"] in ("pk", "kw") or (q["k"] == "pos" and "d" in q)]
            keys = [kk for kk in ["k1", "k2", "kw", "q", "args_0", "args_1", "output_0", "res"] + [q["n"] for q in s["params"] if q["k"] == "pos" and "d" not in q] if kk not in taken]
            for kk in rng.sample(sorted(set(keys)), rng.choice([0, 1, 2, 2])):
                kwargs[kk] = src()
    keys = list(kwargs)
    rng.shuffle(keys)
    return ["call", i, args, {k: kwargs[k] for k in keys}] + ([opts] if opts else [])


def respell(rng, st):
    """The same call, perhaps with its keyword arguments in another order and values in place of references."""
    if st[0] != "call" or rng.random() < .5:
        return st
    sub = lambda src: ["plain", src] if src[0] == "var" and rng.random() < .4 else src
    keys = list(st[3])
    rng.shuffle(keys)
    return ["call", st[1], [sub(x) for x in st[2]], {k: sub(st[3][k]) for k in keys}] + st[4:]


def tweak(rng, st):
    """A call that differs from this one in little: arguments exchanged, or a collection's elements."""
    if st[0] != "call":
        return st
    args, kw = list(st[2]), dict(st[3])
    atomic = lambda x: x[0] in ("raw", "elt", "plain") or x[:2] == ["var", "any"]
    slots = [j for j, x in enumerate(args) if atomic(x)] + [k for k, x in kw.items() if atomic(x)]
    colls = [j for j, x in enumerate(args) if x[0] == "rc" and x[1]] + [k for k, x in kw.items() if x[0] == "rc" and x[1]]
    get = lambda i: args[i] if isinstance(i, int) else kw[i]

    def put(i, x):
        if isinstance(i, int): args[i] = x
        else: kw[i] = x
    if colls and (len(slots) < 2 or rng.random() < .4):
        i = rng.choice(colls)
        e = get(i)[1]
        if isinstance(e, list):
            e = list(e)
            r = rng.random()
            if r < .4: rng.shuffle(e)
            elif r < .7: e.pop(rng.randrange(len(e)))
            else: e.append(rng.choice(e))
        else:
            ks, vs = list(e), list(e.values())
            if len(ks) > 1: vs = vs[1:] + vs[:1]
            else: ks = ["q" + ks[0]]
            e = dict(zip(ks, vs))
        put(i, ["rc", e])
    elif len(slots) > 1:
        a, b = rng.sample(slots, 2)
        x, y = get(a), get(b)
        put(a, y)
        put(b, x)
    return ["call", st[1], args, kw] + st[4:]


def gen_pool(rng, n=6, rich=True):
    pool = [V.gen_value(rng, 2, rich) for _ in range(n - 2)] + [["i", rng.randrange(3)], ["i", rng.randrange(3)]]
    return pool


def gen_world(rng, prof):
    pool = gen_pool(rng, prof.get("pool", 6))
    n = rng.choice([2, 3, 4])
    specs = [gen_op(rng, j, pool, prof) for j in range(n)]
    if rng.random() < prof.get("nest", .35):
        x = gen_nest(rng, len(specs), specs)
        if x:
            specs.append(x)
    return pool, specs


def gen_steps(rng, specs, pool, prof, n, depth=0, insession=False, hist=None):
    """A list of steps: contexts with calls, cache operations, reopenings and sessions. Calls are often repeated, and
    whole stretches of the program too."""
    steps = []
    hist = [] if hist is None else hist
    while len(steps) < n:
        k = rng.random()
        if k < .72:
            steps.append(["enter", rng.randrange(prof.get("storages", 1))])
            for _ in range(rng.choice([1, 2, 3, 5, 7])):
                q = rng.random()
                if q < .07:
                    steps.append(["preload", rng.choice(["lazy", "eager", "calls", "shapes", "atoms", "ops", "vacuum"])])
                elif q < .12:
                    steps.append(["unwrap", rng.randrange(50)])
                elif q < .15:
                    steps.append(["attach", rng.randrange(50)])
                elif hist and q < .15 + prof.get("repeat", .4):
                    steps.append(respell(rng, rng.choice(hist)))
                elif hist and rng.random() < prof.get("tweak", .12):
                    steps.append(tweak(rng, rng.choice(hist)))
                    hist.append(steps[-1])
                else:
                    steps.append(gen_call(rng, specs, pool, prof))
                    hist.append(steps[-1])
            steps.append(["exit"])
            if rng.random() < prof.get("retrace", .1):
                part = [s for s in steps if s[0] in ("enter", "exit", "call")]
                if len(part) < 40:
                    steps += [["reset"]] + part
        elif k < .78:
            steps.append(["clear"])
        elif k < .84:
            steps.append(["preload", rng.choice(["lazy", "eager", "calls", "shapes", "atoms", "ops", "vacuum"])])
        elif k < .90:
            steps.append(["reopen"])
        elif k < .96 and not insession:
            steps.append(["session", gen_steps(rng, specs, pool, prof, rng.choice([2, 6, 10]), depth + 1, True, hist)])
        else:
            steps.append(["unwrap", rng.randrange(50)])
    return steps


def gen_cfg(rng, mem=.15, overflow=.3):
    cfg = {"db": "mem" if rng.random() < mem else "file"}
    if rng.random() < overflow:
        cfg["overflow"] = rng.choice([0.0003, 0.0008, 0.002])
    if rng.random() < .3:
        cfg["mangle"] = True
    if rng.random() < .12:
        cfg["vers"] = True      # the storages track the versions of the functions
    return cfg
