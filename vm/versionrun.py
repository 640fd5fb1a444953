"""Generates histories of a changing codebase and compares what a versioned storage does with the model."""
import collections, copy, json, os, random, shutil
from . import core
from .codebase import Code, Boom, Invalid, TooLong, MISSING, is_fn, refs_of, terms_of
from .versions import Model, Disk, Session, Stop, in_process, new_log

LAYOUT_MODS = {
    "flat": ["m1", "m2", "m3"],
    "pack": ["p.base", "p.sub.low", "p", "q"],
    "pkg": ["pkg.m1", "pkg.sub", "pkg.sub.low", "pkg.top"],
    "main": ["__main__"],
}
# (a package is imported before its submodules, so only modules that come later may use those)
PROFILE = {"edits": 3, "nested": 1.0, "globals": 1.0, "classes": 0.5, "no": 0.35, "refuse": 0.1, "drop": 0.0, "revert": 0.25,
           "session": 0.5, "moves": 0.3, "chain": 0.2, "unrelated": 0.2, "handled": 1.0, "rounds": (3, 7),
           "paths": 0.3, "rare": 0.4, "repeat": 0.6, "focus": 0.0}


# ---------------------------------------------------------------------------------------------------- generator
class Gen:
    def __init__(self, rng, prof):
        self.rng, self.p = rng, {**PROFILE, **prof}
        self.layout = rng.choices(["flat", "pack", "pkg", "main"], [5, 2, 2, 2])[0]
        names = LAYOUT_MODS[self.layout]
        k = len(names) if self.layout != "flat" else rng.choice([1, 2, 2, 3])
        self.order = names[:k]
        self.mods = {m: {} for m in self.order}
        self.style, self.rel = rng.randint(0, 5), rng.random() < 0.5
        self.n = 0
        self.ids = 0
        self.steps = []
        self.snaps = []
        self.unit_base()

    def code(self, mods=None):
        return Code(self.mods if mods is None else mods, self.style, self.rel)

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def value(self):
        r = self.rng
        return r.choice([r.randint(0, 9), r.randint(0, 9), [r.randint(0, 5) for _ in range(r.randint(0, 3))],
                         {"a": r.randint(0, 5), "b": [r.randint(0, 3)]}, "s" + str(r.randint(0, 9)), r.randint(0, 8) / 4, None,
                         {"np": [r.randint(0, 4) for _ in range(3)]}, {"set": sorted({r.randint(0, 9) for _ in range(3)})}, {"tup": [r.randint(0, 3), 1]}, True,
                         {"ref": r.choice([r.randint(10, 19), [r.randint(10, 19)], "w" + str(r.randint(0, 9))])}])

    def cands(self, m, kinds, below=None):
        """References usable in module m (components defined before `below`)."""
        i = self.order.index(m)
        out = []
        for o in self.order[:i + 1]:
            for n, c in self.mods[o].items():
                if c["k"] in kinds and (below is None or int("".join(ch for ch in n if ch.isdigit())) < below):
                    out.append([o, n])
        return out

    def cond(self, m, below):
        ks = [r for r in self.cands(m, "g", below) if r[1].startswith("K")]
        if ks and self.rng.random() < 0.4 * self.p["globals"]:
            return ["g", self.rng.choice(ks), self.rng.randint(0, 4)]
        md = self.rng.randint(2, 4)
        return ["x", md, self.rng.randrange(md)]

    def term(self, m, below, depth, kind, ms=()):
        r = self.rng
        opts = [("c", 2), ("x", 1), ("g", 3 * self.p["globals"]), ("call", 4), ("gencall", 1), ("lam", 1), ("comp", 1), ("inner", 1),
                ("genone", .5), ("map", .5),
                ("op", 3 * self.p["nested"]), ("noop", .5 * self.p["nested"]), ("meth", 2 * self.p["classes"])]
        if depth < 2:
            opts += [("if", 3), ("try", 1.2 * self.p["handled"]), ("fin", .4 * self.p["handled"])]
        if kind in ("m", "c") and ms:
            opts += [("selfm", 2)]
        if kind == "m":
            opts += [("self", 2)]
        if kind in ("f", "o"):
            opts += [("rec", 0.3)]
        opts += [("raise", 0.5 * self.p["handled"])]
        k = r.choices([o for o, _ in opts], [w for _, w in opts])[0]
        if k == "c":
            return ["c", r.randint(1, 20)]
        if k == "x":
            return ["x", r.randint(2, 9)]
        if k in ("self", "rec"):
            return [k]
        if k == "raise":
            return ["raise", self.cond(m, below)]
        if k == "if":
            return ["if", self.cond(m, below), self.body(m, below, depth + 1, kind, 2, ms),
                    self.body(m, below, depth + 1, kind, 1, ms) if r.random() < 0.5 else []]
        if k in ("try", "fin"):
            return [k, self.body(m, below, depth + 1, kind, 2, ms), self.body(m, below, depth + 1, kind, 1, ms)]
        if k == "selfm":
            return ["selfm", r.choice(list(ms)), r.randint(0, 3)]
        want = {"g": "g", "gencall": ("gen",), "genone": ("gen",), "op": "o", "noop": "o", "meth": "i"}.get(k, ("f",))
        cs = self.cands(m, want, below)
        if not cs:
            return ["c", r.randint(1, 20)]
        # prefer recent components, so that dependencies are deep
        t = cs[-1 - min(int(r.expovariate(0.5)), len(cs) - 1)]
        if k == "g":
            return ["g", t]
        if k in ("comp", "map"):
            return [k, t, r.randint(0, 2)]
        if k == "meth":
            return ["meth", t, r.choice(self.methods([t[0], self.mods[t[0]][t[1]]["cls"]])), r.randint(0, 3)]
        return [k, t, r.randint(0, 3)]

    def methods(self, ref):
        out = []
        while ref:
            c = self.mods[ref[0]][ref[1]]
            out += [n for n in c["ms"] if n not in out]
            ref = c.get("base")
        return out

    def paths(self, m, below):
        """A body of a memoized function that uses different components for different inputs, or calls such functions."""
        r = self.rng
        ops = self.cands(m, "o", below)
        deps = self.cands(m, ("f", "g"), below)
        use = lambda t: ["g", t] if self.mods[t[0]][t[1]]["k"] == "g" else ["call", t, r.randint(0, 3)]
        k = r.choice(["split", "split", "twice", "twice", "handle", "risky", "branch"])
        if k in ("twice", "handle", "branch") and ops:
            o = ops[-1 - min(int(r.expovariate(0.7)), len(ops) - 1)]
            if k == "twice":
                return [["op", o, i] for i in r.sample(range(4), r.choice([2, 2, 3]))]
            if k == "handle":
                return [["try", [["op", o, r.randint(0, 1)]], [["c", r.randint(1, 9)]]]]
            return [["if", ["x", 2, r.randint(0, 1)], [["op", o, r.randint(0, 3)]], []], ["op", r.choice(ops), r.randint(0, 3)]]
        if len(deps) < 2:
            return None
        a, b = r.sample(deps, 2)
        if k == "risky":
            return [use(a), ["raise", ["x", 2, r.randint(0, 1)]], use(b)]
        return [["if", ["x", 2, r.randint(0, 1)], [use(a)], [use(b)]]]

    def body(self, m, below, depth, kind, mx, ms=()):
        return [self.term(m, below, depth, kind, ms) for _ in range(self.rng.randint(1, mx))]

    def new_comp(self, m, k):
        r = self.rng
        pre = {"g": "V" if r.random() < 0.65 else "K", "f": "h", "gen": "e", "o": "f", "c": "C", "i": "i"}[k]
        name = self.fresh(pre)
        below = self.n
        if k == "g":
            c = {"k": "g", "v": self.value() if pre == "V" else r.randint(0, 5)}
        elif k == "i":
            cl = [n for n, c in self.mods[m].items() if c["k"] == "c"]
            if not cl:
                return None
            c = {"k": "i", "cls": r.choice(cl), "v": r.randint(0, 9)}
        elif k == "c":
            ms = {}
            bases = [b for b in self.cands(m, ("c",), below)]
            base = r.choice(bases) if bases and r.random() < 0.6 else None
            kinds = {}
            if base:
                for n in self.methods(base):
                    ref = base
                    while n not in self.mods[ref[0]][ref[1]]["ms"]:
                        ref = self.mods[ref[0]][ref[1]]["base"]
                    kinds[n] = self.mods[ref[0]][ref[1]]["ms"][n]["mk"]
            over = [n for n, mk in kinds.items() if r.random() < 0.4]
            for n in over:
                b = self.body(m, below, 0, kinds[n], 2)
                if kinds[n] in "mc" and r.random() < 0.7:
                    b.insert(r.randint(0, len(b)), ["superm", n, r.randint(0, 3)])
                ms[n] = {"mk": kinds[n], "body": b}
            for _ in range(r.randint(0 if base else 1, 3)):
                mk = r.choice("mmmsc")
                known = {**kinds, **{n: x["mk"] for n, x in ms.items()}}
                usable = [n for n, x in known.items() if mk == "m" or x in "sc"] if mk in "mc" else []
                ms[self.fresh("m")] = {"mk": mk, "body": self.body(m, below, 0, mk, 3, usable)}
                if r.random() < 0.15:
                    ms[list(ms)[-1]][r.choice(["df", "kw"])] = r.randint(1, 9)
            c = {"k": "c", "ms": ms}
            if base:
                c["base"] = base
        else:
            c = {"k": k, "body": (self.paths(m, below) if k == "o" and r.random() < self.p["paths"] else None) or self.body(m, below, 0, k, 4)}
            if k == "o":
                c["tr"] = r.random() < 0.3
            elif r.random() < 0.2:
                c[r.choice(["df", "kw"])] = r.randint(1, 9)
        self.mods[m][name] = c
        return name

    def unit_base(self):
        r = self.rng
        for m in self.order:
            k = 3 if len(self.order) == 1 else 2
            todo = ["g"] * r.randint(1, k - 1) + ["f"] * r.randint(1, k) + ["o"] * r.randint(1, k)
            if r.random() < 0.25:
                todo.append("gen")
            r.shuffle(todo)
            if r.random() < self.p["classes"]:
                j = r.randrange(len(todo))
                todo[j:j] = ["c", "i"] if r.random() < 0.6 else ["c", "c", "i", "i"]
            for k in todo:
                self.new_comp(m, k)

    def focus(self):
        """Adds a memoized function whose calls use some code only through one of several inner memoized calls."""
        r = self.rng
        m = self.order[-1]
        leaves = []
        for _ in range(2):
            g = self.fresh("V")
            self.mods[m][g] = {"k": "g", "v": r.randint(0, 9)}
            if r.random() < 0.3:
                leaves.append(([m, g], ["g", [m, g]], g))
                continue
            h = self.fresh("h")
            self.mods[m][h] = {"k": "f", "body": [["c", r.randint(1, 9)]] + ([["g", [m, g]]] if r.random() < 0.6 else [])}
            leaves.append(([m, h], ["call", [m, h], 0], r.choice([g, h]) if len(self.mods[m][h]["body"]) > 1 else h))
        s = self.fresh("f")
        self.mods[m][s] = {"k": "o", "tr": False, "body": [["if", ["x", 2, 0], [leaves[0][1]], [leaves[1][1]]]] +
                           ([["raise", ["x", 2, r.randint(0, 1)]]] if r.random() < 0.2 else [])}
        term = lambda d: r.choice([["op", [m, s], d], ["op", [m, s], d], ["noop", [m, s], d]])
        parts = [term(d) for d in r.sample(range(4), r.choice([2, 2, 3]))]
        parts = [["try", [p], [["c", 3]]] if r.random() < 0.3 or len(self.mods[m][s]["body"]) > 1 else p for p in parts]
        if r.random() < 0.3:
            h = self.fresh("h")
            self.mods[m][h] = {"k": "f", "body": parts}
            parts = [["call", [m, h], r.randint(0, 1)]]
        t = self.fresh("f")
        self.mods[m][t] = {"k": "o", "tr": False, "body": parts}
        if r.random() < 0.3:
            o, t = t, self.fresh("f")
            self.mods[m][t] = {"k": "o", "tr": False, "body": [["op", [m, o], r.randint(0, 1)]]}
        self.focused = [m, [x[2] for x in leaves], t, r.randint(0, 7)]

    # --- edits; each returns the list of edits (already applied) or None
    def bodies(self, c):
        return [x["body"] for x in c["ms"].values()] if c["k"] == "c" else [c["body"]] if is_fn(c) else []

    def all_comps(self, pred=lambda c: True):
        return [(m, n) for m in self.order for n, c in self.mods.get(m, {}).items() if pred(c)]

    def edit(self):
        r = self.rng
        kind = r.choices(["const", "value", "cosmetic", "add", "remove", "shift", "new", "delete", "trail", "reorder", "move", "rebody", "indent"],
                         [3, 4 * self.p["globals"], 2, 3, 2, 1.5, 1, 1, .5, .7, 1.5 * self.p["moves"], 1, 1])[0]
        before = copy.deepcopy(self.mods)
        ed = getattr(self, "ed_" + kind)()
        if not ed:
            return None
        try:
            self.code().validate()
        except Invalid:
            self.mods = before
            return None
        return ed

    def _pick(self, cs):
        """One of the components, mostly one that earlier calls depend on."""
        live = {tuple(op) for op, _ in self.past}
        uses = collections.Counter()
        todo = list(live)
        while todo:
            m, n = todo.pop()
            c = self.mods.get(m, {}).get(n)
            if c is None:
                continue
            new = set(refs_of(c)) | ({(m, c["cls"])} if c["k"] == "i" else set())
            for x in new:
                uses[x] += 1
            todo += new - live
            live |= new
        good = [x for x in cs if x in live]
        if not good or self.rng.random() < self.p["unrelated"]:
            return self.rng.choice(cs)
        if self.rng.random() < self.p["rare"]:
            # one that is used in one place only, and not by a memoized function that was called by the user
            top = {tuple(op) for op, _ in self.past}
            rare = [x for x in good if x not in top and uses[x] == 1 and not any(
                x in refs_of(self.mods[o[0]][o[1]]) for o in top if o[1] in self.mods.get(o[0], {}) and not self.inner_only(o))]
            good = rare or good
        return self.rng.choice(good)

    def inner_only(self, ref):
        return any(tuple(ref) in refs_of(c) for _, cs in self.mods.items() for c in cs.values() if c["k"] == "o")

    def _fn(self):
        cs = self.all_comps(lambda c: is_fn(c) or c["k"] == "c")
        return self._pick(cs) if cs else None

    def _set(self, m, n):
        return [["set", m, n, copy.deepcopy(self.mods[m][n])]]

    def ed_const(self):
        m, n = self._fn()
        c = self.mods[m][n]
        d = [(x, w) for x in ([c] if c["k"] != "c" else c["ms"].values()) for w in ("df", "kw") if w in x]
        if d and self.rng.random() < 0.4:
            x, w = self.rng.choice(d)
            x[w] += 1
            return self._set(m, n)
        if not self.bodies(c):
            return None
        ts = [t for b in self.bodies(self.mods[m][n]) for t in terms_of(b) if t[0] in ("c", "x")]
        if not ts:
            b = self.rng.choice(self.bodies(self.mods[m][n]))
            b.append(["c", self.rng.randint(1, 20)])
        else:
            t = self.rng.choice(ts)
            t[1] += self.rng.choice([1, 2, -1]) if t[1] > 1 else 1
        return self._set(m, n)

    def ed_value(self):
        cs = self.all_comps(lambda c: c["k"] in "gi")
        if not cs:
            return None
        m, n = self._pick(cs)
        c = self.mods[m][n]
        old = copy.deepcopy(c["v"])
        c["v"] = self.rng.randint(0, 9) if n[0] in "Ki" else self.value()
        if n[0] not in "Ki" and self.rng.random() < .3:      # the same in another type
            kind, v = (list(old)[0], list(old.values())[0]) if isinstance(old, dict) and len(old) == 1 and set(old) & {"np", "tup", "set"} else ("list", old)
            if isinstance(v, list):
                k = self.rng.choice([k for k in ("list", "tup", "np", "set") if k != kind])
                c["v"] = v if k == "list" else {k: sorted(set(v)) if k == "set" else v}
        return self._set(m, n) if c["v"] != old or type(c["v"]) != type(old) else None

    def ed_cosmetic(self):
        m, n = self._fn()
        c = self.mods[m][n]
        if c["k"] == "c":
            if not c["ms"]:
                return None
            c = self.rng.choice(list(c["ms"].values()))
        w = self.rng.choice(["salt", "doc"])
        if c.get(w) and self.rng.random() < 0.3:
            c.pop(w)
        else:
            c[w] = f"note {self.rng.randint(0, 99)}"
            if w == "doc" and c["k"] == "f" and self.rng.random() < .5:
                # (text that looks like part of a listing of differences)
                c[w] += f"\n{self.rng.choice(['-- ', '++ ', '@@ ', '--- '])}{self.rng.randint(0, 9)}\n-- end"
        return self._set(m, n)

    def ed_trail(self):
        m, n = self._fn()
        self.mods[m][n]["trail"] = self.rng.randint(1, 3)
        return self._set(m, n)

    def _below(self, n):
        return int("".join(ch for ch in n if ch.isdigit()))

    def _body_of(self, m, n):
        c = self.mods[m][n]
        if c["k"] == "c":
            if not c["ms"]:
                return None, None
            mn = self.rng.choice(list(c["ms"]))
            return c["ms"][mn]["body"], c["ms"][mn]["mk"]
        return c["body"], c["k"]

    def ed_add(self):
        m, n = self._fn()
        b, k = self._body_of(m, n)
        if b is None:
            return None
        b.insert(self.rng.randint(0, len(b)), self.term(m, self._below(n), 1, k))
        return self._set(m, n)

    def ed_rebody(self):
        m, n = self._fn()
        b, k = self._body_of(m, n)
        if b is None:
            return None
        b[:] = self.body(m, self._below(n), 0, k, 4)
        return self._set(m, n)

    def ed_remove(self):
        m, n = self._fn()
        b, k = self._body_of(m, n)
        if not b:
            return None
        b.pop(self.rng.randrange(len(b)))
        return self._set(m, n)

    def ed_shift(self):
        m, n = self._fn()
        ts = [t for b in self.bodies(self.mods[m][n]) for t in terms_of(b) if t[0] in ("call", "op", "noop", "if", "raise", "meth", "genone", "superm")]
        if not ts:
            return None
        t = self.rng.choice(ts)
        if t[0] in ("if", "raise"):
            t[1] = self.cond(m, self._below(n))
        else:
            t[-1] = (t[-1] + 1) % 4
        return self._set(m, n)

    def ed_indent(self):
        """A statement moves into the conditional before it, or out of it: only the indentation changes."""
        def bodies(b):
            yield b
            for t in b:
                for s in t[1:]:
                    if isinstance(s, list) and s and isinstance(s[0], list):
                        yield from bodies(s)
        c = [(m, n, b, j) for m, n in self.all_comps(lambda c: is_fn(c) or c["k"] == "c") for bb in self.bodies(self.mods[m][n]) for b in bodies(bb)
             for j, t in enumerate(b) if t[0] == "if" and not t[3] and (len(t[2]) > 1 or j + 1 < len(b))]
        if not c:
            return None
        m, n, b, j = self.rng.choice(c)
        t = b[j]
        if len(t[2]) > 1 and (j + 1 == len(b) or self.rng.random() < .5):
            b.insert(j + 1, t[2].pop())
        else:
            t[2].append(b.pop(j + 1))
        return self._set(m, n)

    def ed_new(self):
        m = self.rng.choice([x for x in self.order if x in self.mods])
        n = self.new_comp(m, self.rng.choice(["g", "f", "o", "f"]))
        return self._set(m, n) if n else None

    def used(self):
        return {r for m, n in self.all_comps() for r in refs_of(self.mods[m][n])} | \
               {(m, self.mods[m][n]["cls"]) for m, n in self.all_comps(lambda c: c["k"] == "i")}

    def ed_delete(self):
        free = [x for x in self.all_comps() if x not in self.used()]
        ops = self.all_comps(lambda c: c["k"] == "o")
        if len(ops) < 2:
            free = [x for x in free if x not in ops]
        if not free:
            return None
        m, n = self.rng.choice(free)
        del self.mods[m][n]
        return [["del", m, n]]

    def ed_reorder(self):
        m = self.rng.choice([x for x in self.order if x in self.mods])
        names = list(self.mods[m])
        self.rng.shuffle(names)
        cl = [n for n in self.mods[m] if self.mods[m][n]["k"] == "c"]
        names = [cl.pop(0) if self.mods[m][n]["k"] == "c" else n for n in names]    # (bases stay before their subclasses)
        names = [n for n in names if self.mods[m][n]["k"] != "i"] + [n for n in names if self.mods[m][n]["k"] == "i"]
        self.mods[m] = {n: self.mods[m][n] for n in names}
        return [["order", m, names]]

    def ed_move(self):
        cs = self.all_comps(lambda c: c["k"] in ("f", "gen", "g", "o"))
        if len(self.order) < 2 or not cs:
            return None
        m, n = self._pick(cs)
        to = self.rng.choice([o for o in self.order if o != m])
        c = self.mods[m].pop(n)
        self.mods[to][n] = c
        eds = [["del", m, n], ["set", to, n, copy.deepcopy(c)]]

        def fix(body):
            ch = False
            for t in terms_of(body):
                if len(t) > 1 and t[1] == [m, n] and t[0] not in ("c", "x"):
                    t[1] = [to, n]
                    ch = True
                if t[0] in ("if", "raise") and t[1][0] == "g" and t[1][1] == [m, n]:
                    t[1][1] = [to, n]
                    ch = True
            return ch
        for mm, nn in self.all_comps():
            if any([fix(b) for b in self.bodies(self.mods[mm][nn])]):
                eds += self._set(mm, nn)
        return eds

    # --- histories
    def ops(self):
        return self.all_comps(lambda c: c["k"] == "o")

    def calls(self, n):
        out = []
        for _ in range(n):
            ops = self.ops()
            if not ops:
                break
            if self.past and self.rng.random() < self.p["repeat"]:
                op, v = self.rng.choice(self.past)
                if tuple(op) not in ops:
                    continue
            else:
                op, v = list(self.rng.choice(ops)), self.rng.randint(0, 11)
            self.ids += 1
            c = {"op": list(op), "v": v, "id": self.ids}
            if out and self.rng.random() < self.p["chain"]:
                c["ref"] = self.rng.choice(out)["id"]
            else:
                self.past.append((list(op), v))
            out.append(c)
        return out

    def focused_call(self):
        if not self.focused or self.rng.random() < 0.2 or self.focused[2] not in self.mods.get(self.focused[0], {}):
            return []
        self.ids += 1
        return [{"op": [self.focused[0], self.focused[2]], "v": self.focused[3], "id": self.ids}]

    def make(self):
        r = self.rng
        self.past = []
        self.focused = None
        if r.random() < self.p["focus"]:
            self.focus()
        init = copy.deepcopy(self.mods)
        self.code().validate()
        self.snaps.append(copy.deepcopy(self.mods))
        steps = [["block", {"calls": self.focused_call() + self.calls(r.randint(3, 6))}]]
        for _ in range(r.randint(*self.p["rounds"])):
            if r.random() < self.p["session"]:
                steps.append(["session"])
            if r.random() < self.p["revert"]:
                self.mods = copy.deepcopy(r.choice(self.snaps))
                steps.append(["edit", [["all", copy.deepcopy(self.mods)]]])
            else:
                eds = []
                for _ in range(r.randint(1, self.p["edits"])):
                    eds += self.edit() or []
                if eds:
                    steps.append(["edit", eds])
                    self.snaps.append(copy.deepcopy(self.mods))
            if self.focused and r.random() < 0.7:
                m, leaves, _, _ = self.focused
                n = r.choice(leaves)
                c = self.mods.get(m, {}).get(n)
                if c is not None:
                    if c["k"] == "g":
                        c["v"] = r.randint(0, 9)
                    else:
                        c["body"][0] = ["c", r.randint(1, 20)]
                    steps.append(["edit", self._set(m, n)])
                    self.snaps.append(copy.deepcopy(self.mods))
            b = {"calls": self.focused_call() + self.calls(r.randint(2, 5))}
            if r.random() < self.p["no"] / (1 - self.p["no"] + 1e-9):
                b["no"] = r.choice([1.0, 0.5])
            b["salt"] = r.randint(0, 10 ** 6)
            if r.random() < self.p["refuse"]:
                b["refuse"] = [r.random(), r.choice(["a", "eof", "kbd"])]
            if r.random() < 0.1:
                b["odd"] = True
            steps.append(["block", b])
            if r.random() < self.p["drop"] and self.ids:
                steps.append([r.choice(["drop", "drop", "dropcalls"]), r.randint(1, self.ids)])
                if r.random() < 0.5:
                    steps.append(["session"])
                steps.append(["block", {"calls": self.calls(r.randint(2, 4))}])
        if r.random() < self.p.get("walk", 0.15) and len(self.snaps) > 2:
            # back through the states the code was in, repeating the first calls in each of them
            again = self.past[:3]
            for snap in r.sample(self.snaps, min(len(self.snaps), 5)):
                if r.random() < self.p["session"] / 2:
                    steps.append(["session"])
                self.mods = copy.deepcopy(snap)
                steps.append(["edit", [["all", copy.deepcopy(snap)]]])
                calls = self.focused_call()
                for op, v in again:
                    if tuple(op) in self.ops():
                        self.ids += 1
                        calls.append({"op": list(op), "v": v, "id": self.ids})
                steps.append(["block", {"calls": calls, "salt": r.randint(0, 10 ** 6)}])
        case = {"layout": self.layout, "style": self.style, "rel": self.rel, "init": init, "steps": steps,
                "strict": r.random() < 0.2 and self.layout != "main", "look": r.random()}
        return case


def gen(rng, prof):
    for _ in range(40):
        case = Gen(rng, prof).make()
        if rng.random() < .3:
            case["two"] = rng.randrange(10 ** 6)
        if rng.random() < prof.get("fails", 0.06):
            case["fails"] = rng.sample(range(8), 5)
        try:
            plan(case)
        except (TooLong, Invalid, RecursionError):
            continue
        return case
    raise RuntimeError("no case")


# -------------------------------------------------------------------------------------- what the model expects
def apply(mods, edits):
    mods = copy.deepcopy(mods)
    for e in edits:
        if e[0] == "all":
            mods = copy.deepcopy(e[1])
        elif e[0] == "set":
            mods.setdefault(e[1], {})[e[2]] = copy.deepcopy(e[3])
        elif e[0] == "del":
            mods.get(e[1], {}).pop(e[2], None)
        elif e[0] == "order":
            cur = mods.get(e[1], {})
            mods[e[1]] = {**{n: cur[n] for n in e[2] if n in cur}, **{n: c for n, c in cur.items() if n not in e[2]}}
    return mods


def plan(case):
    """Runs the model alone: a list of sessions, each a list of (command, expectation)."""
    M = Model()
    mods = copy.deepcopy(case["init"])
    sessions, cur = [], []
    loaded = None
    byid = {}
    cells = 0

    def snap():
        return {"dags": copy.deepcopy(M.dags), "rows": collections.Counter((w.op, w.sem) for w in M.rows),
                "vers": copy.deepcopy(M.vers)}
    M.vers = {}
    mode = Code(mods, case["style"], case["rel"])
    mode.validate()

    def ensure():
        nonlocal loaded, cells
        if loaded != mods:
            loaded = copy.deepcopy(mods)
            cells += 1
            cur.append(({"do": "load", "code": loaded, "style": case["style"], "rel": case["rel"],
                         "cells": cells if case["layout"] == "main" else None}, {}))
            M.code = Code(loaded, case["style"], case["rel"])
    for s in case["steps"]:
        if s[0] == "session":
            if cur:
                cur.append(({"do": "look"}, snap()))
                sessions.append(cur)
            cur, loaded = [], None
            for d in byid.values():
                d["here"] = False
        elif s[0] == "edit":
            new = apply(mods, s[1])
            try:
                Code(new, case["style"], case["rel"]).validate()
            except Invalid:
                continue
            mods = new
        elif s[0] == "block":
            b = s[1]
            ensure()
            rng = random.Random(b.get("salt", 0))
            qs = M.questions(M.code)
            ans = {}
            for k in qs:
                a = "y"
                if b.get("no") and M.can_be_no(k, M.code) and rng.random() < b["no"]:
                    a = "n"
                ans[k] = a
            if b.get("refuse") and qs:
                k = qs[int(b["refuse"][0] * len(qs))]
                cur.append(({"do": "enter", "answers": {**{f"{q[0]}:{q[1]}": a for q, a in ans.items()}, f"{k[0]}:{k[1]}": "refuse"},
                             "how": b["refuse"][1]}, {"qs": list(qs), "refused": k}))
                cur.append(({"do": "look"}, {**snap(), "refused": True}))
            wire = {f"{q[0]}:{q[1]}": a for q, a in ans.items()}
            if b.get("odd") and qs:
                k = next((k for k in qs if ans[k] == "y"), None)
                if k:
                    wire[f"{k[0]}:{k[1]}"] = "odd"
            cur.append(({"do": "enter", "answers": wire, "how": ""}, {"qs": list(qs), "ans": dict(ans)}))
            M.sync(M.code, ans)
            for c in b["calls"]:
                ref = tuple(c["op"])
                if loaded.get(ref[0], {}).get(ref[1], {}).get("k") != "o":
                    continue
                v, hid, src = c["v"], ("raw", c["v"]), None
                if c.get("ref") is not None:
                    d = byid.get(c["ref"])
                    if d and d["here"]:
                        src = c["ref"]
                        v, hid = d["row"].result, M.out_hid(d["row"])
                log = new_log()
                n0 = len(M.recs)
                exp = {"v": v}
                try:
                    row = M.call(ref, v, hid, log)
                    exp["result"] = row.result
                    byid[c["id"]] = {"row": row, "here": True, "sem": row.sem}
                    exp["sem"] = row.sem
                    exp["deps"] = dict(row.deps)
                except Boom:
                    exp["boom"] = True
                for w in M.rows:
                    if hasattr(w, "direct"):
                        M.vers.setdefault(w.op, {})[freeze(w.deps)] = w.sem
                exp["hits"] = log["hits"]
                exp["found"], exp["nested"], exp["inner_only"] = log["found"], log.get("nested", 0), log.get("inner_only", 0)
                cur.append(({"do": "call", "op": list(ref), "v": v, "id": c["id"], "ref": src}, exp))
            cur.append(({"do": "exit"}, {}))
        elif s[0] in ("drop", "dropcalls"):
            d = byid.get(s[1])
            if d is None:
                continue
            ensure()
            if s[0] == "drop":
                n = M.drop_version(d["sem"])
                for op in M.vers:
                    M.vers[op] = {k: x for k, x in M.vers[op].items() if x != d["sem"]}
                cur.append(({"do": "drop", "of": s[1]}, {"n": n}))
            else:
                rows = [w for w in M.rows if w is d["row"]]
                if not rows:
                    continue
                n = M.drop_rows(rows)
                cur.append(({"do": "dropcalls", "of": s[1]}, {"n": n}))
            for x in byid.values():
                if x["row"] not in M.rows:
                    x["here"] = False
            cur.append(({"do": "look"}, {**snap(), "dropped": True}))
    if cur:
        cur.append(({"do": "look"}, snap()))
        sessions.append(cur)
    if case["look"] < 0.3:
        sessions.append([({"do": "look"}, snap())])
    if "two" in case:
        rng = random.Random(case["two"])
        sessions = [two_storages(s, rng) for s in sessions]
    return sessions


def two_storages(sess, rng):
    """The commands of a session spread over two storage objects; some contexts of one are inside a context of the other."""
    out, i, only = [], 0, None
    while i < len(sess):
        j = i + 1
        if sess[i][0]["do"] == "enter" and not sess[i][1].get("refused"):
            while sess[j][0]["do"] == "call":
                j += 1
            j += 1
        block = [({**c, "on": 0}, e) for c, e in sess[i:j]]
        on = rng.randint(0, 1)
        if sess[i][0]["do"] in ("drop", "dropcalls") and only is None:
            only = on       # (a storage object keeps the calls it knows in memory: the other one is not used from here on)
        if only is not None:
            on = only
        block[0][0]["on"] = on
        if only is None and len(block) > 2 and rng.random() < .4:
            a = rng.randint(1, len(block) - 2)
            b = rng.randint(a + 1, len(block) - 1)
            before = [c["id"] for c, _ in block[1:a]]
            # (a reference of a call that is not saved yet belongs to the storage object that made it)
            if not any(c.get("ref") in before for c, _ in block[a:b]):
                inner = ({**block[0][0], "on": 1 - on}, block[0][1])
                block[a:] = [(c, {**e, "apart": True} if c["do"] == "call" else e) for c, e in block[a:]]
                block = block[:a] + [inner] + block[a:b] + [({"do": "exit"}, {"inner": True})] + block[b:]
        out += block
        i = j
    return out


def freeze(deps):
    return frozenset((k, frozenset(c)) for k, c in deps.items())


# --------------------------------------------------------------------------------------------------- comparison
class Runner:
    def __init__(self, case, env, tags):
        self.case, self.env, self.tags = case, env, set(tags)
        self.ev = env.events
        self.semid = {}         # model's semantic version -> id
        self.expected_sem = {}

    def bad(self, tag, msg):
        if tag in self.tags or tag == "crash" or tag in ("stale", "needless") and "drop" in self.tags and self.ev["version_drops"] + self.ev["call_drops"]:
            raise core.Violation(f"[{tag}] {msg}")
        if os.environ.get("VM_STOPS"):
            print(f"STOP [{tag}] {msg}", flush=True)
        raise Stop(f"[{tag}] {msg}")

    def soft(self, tag, msg):
        """A difference that leaves the rest of the run comparable."""
        if tag in self.tags:
            raise core.Violation(f"[{tag}] {msg}")
        self.ev["differences_left_to_other_checks"] += 1

    def run(self):
        try:
            self._run()
        except Stop as e:
            self.ev["stopped"] += 1
            if os.environ.get("VM_STOPFILE"):
                with open(os.environ["VM_STOPFILE"], "a") as f:
                    f.write(json.dumps({"stop": str(e), "case": self.case}, default=repr) + "\n")

    def _run(self):
        case = self.case
        disk = Disk(self.env.dir("code"), case["layout"])
        db = os.path.join(disk.root, "st.db")
        opts = {"strict_tracing": bool(case.get("strict"))}
        sems, rows = {}, None
        for si, sess in enumerate(plan(case)):
            cmds = []
            for c, e in sess:
                c = dict(c)
                if c["do"] == "load" and case["layout"] == "main":
                    disk.cells = c["cells"] - 1
                    disk.write(Code(c["code"], c["style"], c["rel"]))
                    del c["style"]
                if c["do"] in ("drop", "dropcalls") and c["of"] in sems:
                    c["semantic"], c["hid"] = sems[c["of"]]["semantic"], sems[c["of"]]["hid"]
                if c["do"] == "look" and "dropped" not in e and "refused" not in e:
                    pass
                cmds.append(c)
            if si in case.get("fails", ()):
                self.failing(sess, cmds, random.Random(f"{case['look']}:{si}"))
            crash = si in case.get("crash", ())
            if crash:
                for x in ("", "-wal", "-shm"):
                    if os.path.exists(db + ".before" + x):
                        os.remove(db + ".before" + x)
                    if os.path.exists(db + x):
                        shutil.copy(db + x, db + ".before" + x)
            show = f"{case['look']}:{si}" if "shown" in self.tags else None
            res = in_process(lambda: Session(disk, db, opts, show).run(cmds))
            self.ev["sessions"] += 1
            if "crash" in res:
                self.bad("crash", f"session {si}: {res['crash']}\n{res['tb'][-1500:]}")
            if case["layout"] != "main":
                pass
            for (c, e), a in zip(sess, res["ok"]):
                if "crash" in a:
                    if a["do"] == "enter" and e.get("refused"):
                        self.bad("history", f"session {si}: refusing a change: {a['crash']}")
                    if a["do"] in ("drop", "dropcalls"):
                        self.bad("drop", f"session {si}: dropping fails: {a['crash']}\n{a['tb'][-1200:]}")
                    self.bad("crash", f"session {si}, {c['do']} {c.get('op')}({c.get('v')}): {a['crash']}\n{a['tb'][-1500:]}")
                for x in a.get("shown", {}).get("bad", ()):
                    self.bad("shown", x)
                self.ev["things_shown_compared"] += a.get("shown", {}).get("ok", 0)
                getattr(self, "see_" + c["do"])(c, e, a)
                if c["do"] == "exit":
                    self.ev["exits_that_failed"] += a["failed"]
                    for i, d in a["made"].items():
                        sems[int(i)] = d
                        self.same_version(self.expected_sem[int(i)], d["semantic"])
                if c["do"] == "call" and "sem" in e:
                    self.expected_sem[c["id"]] = e["sem"]
            if len(res["ok"]) != len(sess):
                self.bad("crash", f"session {si} ended early")
            if crash:
                after = [a["rows"] for a in res["ok"] if a["do"] == "look"]
                for n in range(case["kills"]):
                    self.crash(disk, db + ".before", opts, sess, cmds, rows, after[-1] if after else None, random.Random(f"{case['salt']}:{si}:{n}"))
            for a in res["ok"]:
                if a["do"] == "look":
                    rows = a["rows"]

    def failing(self, sess, cmds, rng):
        """Saving fails at some of the exits; the next one is to save what is left."""
        if any("on" in c for c in cmds):
            return
        depth = 0
        for i, c in enumerate(cmds):
            if c["do"] == "enter":
                depth += not sess[i][1].get("refused")
            if c["do"] == "exit":
                depth -= 1
                if not depth and rng.random() < .5:
                    c["fail"] = rng.choice([1, 2, 3, 4, 6, 9, 14, 20])
                    after = [k for k in range(i + 1, len(cmds)) if cmds[k]["do"] != "load"][:1]
                    c["later"] = bool(after) and cmds[after[0]]["do"] == "enter" and not sess[after[0]][1].get("refused") and rng.random() < .6
                    self.ev["exits_told_to_fail"] += 1

    def crash(self, disk, before, opts, sess, cmds, rows0, rows1, rng):
        """The same session once more, in a process that is killed while it saves; then again on what that left behind."""
        todo = []
        for c, (_, e) in zip(cmds, sess):
            if c["do"] in ("drop", "dropcalls"):
                rows1 = None
                break
            if c["do"] != "look" and not e.get("refused"):
                todo.append((c, e))
        cut = lambda: [dict(c) for c, _ in todo]
        db = before + ".crash"
        for x in ("", "-wal", "-shm"):
            if os.path.exists(db + x):
                os.remove(db + x)
            if os.path.exists(before + x):
                shutil.copy(before + x, db + x)
        kinds = []

        def count(k, n):
            if k.split("+")[0] in ("write", "commit"):
                kinds.append(k)

        def watched(act):
            from . import faults
            faults.install(os.path.dirname(db))
            faults.M.on, faults.M.n, faults.M.act = True, 0, act
            out = Session(disk, db, opts).run(cut())
            return [len(kinds), [x["do"] for x in out if "crash" in x]]
        at = rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 250)])

        def die(k, n):
            count(k, n)
            if len(kinds) == at:
                from . import faults
                faults.kill()
        r = in_process(lambda: watched(die))
        if "ok" in r or r["crash"] != "the session's process died":
            self.ev["sessions_not_killed"] += 1
            return
        self.ev["sessions_killed"] += 1
        what = f"a process was killed at its {at}th write or commit"
        r = in_process(lambda: Session(disk, db, opts).run([{"do": "look"}]))
        a = r["ok"][0] if "ok" in r else r
        if "crash" in a:
            self.bad("history", f"after {what}, the storage cannot be read: {a['crash']}\n{a['tb'][-1200:]}")
        known = {v["semantic"] for v in a["versions"].values()}
        left = {tuple(x) for x in a["rows"]}
        for h, op, sem in a["rows"]:
            if sem not in known:
                self.bad("history", f"after {what}, a saved call of {op} has the version {sem}, which is not known")
        lost = {tuple(x) for x in rows0 or ()} - left
        if lost:
            self.bad("history", f"after {what}, {len(lost)} calls of earlier sessions are lost")
        if rows1 is not None and left - {tuple(x) for x in rows1}:
            self.bad("history", f"after {what}, there are calls that were not made: {sorted(left - {tuple(x) for x in rows1})[:3]}")
        self.ev["calls_left_by_killed_sessions"] += len(left)
        r = in_process(lambda: Session(disk, db, opts).run(cut() + [{"do": "look"}]))
        if "crash" in r:
            self.bad("history", f"after {what}, running the session again: {r['crash']}")
        for (c, e), a in zip(todo, r["ok"]):
            if "crash" in a:
                self.bad("history", f"after {what}, running the session again: {c['do']}: {a['crash']}\n{a['tb'][-1200:]}")
            if c["do"] == "call":
                if bool(e.get("boom")) != bool(a.get("boom")) or a.get("result") != e.get("result"):
                    self.bad("history", f"after {what}, running the session again: {c['op']}({c['v']}) gives {a.get('result')}, the code {e.get('result')}")
            if c["do"] == "enter":
                if a["error"] is not None:
                    self.bad("history", f"after {what}, running the session again: {a['error']}")
        a = r["ok"][-1]
        if "crash" in a:
            self.bad("history", f"after {what}, running the session again: {a['crash']}")
        if rows1 is not None and sorted(a["rows"]) != sorted(rows1):
            self.bad("history", f"after {what}, running the session again leaves {len(a['rows'])} calls, expected {len(rows1)}")
        self.ev["killed_sessions_repeated"] += 1

    def see_load(self, c, e, a):
        self.ev["loads"] += 1

    def see_exit(self, c, e, a):
        pass

    def see_drop(self, c, e, a):
        self.ev["version_drops"] += 1
        self.ev["calls_dropped_with_versions"] += e["n"]

    def see_dropcalls(self, c, e, a):
        self.ev["call_drops"] += 1

    def see_enter(self, c, e, a):
        asked = [tuple(k) for k in a["asked"]]
        qs = e["qs"]
        if e.get("refused"):
            self.ev["refusals"] += 1
            if a["error"] is None:
                self.bad("history", f"the change to {e['refused']} was refused, but the block was entered")
            if len(set(asked)) != len(asked) or not set(asked) <= set(qs):
                self.bad("question", f"asked {asked}, expected a part of {qs}")
            return
        if a["error"] is not None:
            self.bad("crash", f"entering fails: {a['error']}")
        self.ev["contexts_of_a_second_storage"] += bool(c.get("on"))
        self.ev["questions"] += len(asked)
        self.ev["answered_no"] += sum(v == "n" for v in e["ans"].values())
        missing = set(qs) - set(asked)
        if missing:
            self.bad("unasked", f"the change to {sorted(missing)} went unnoticed (asked about {asked})")
        if sorted(asked) != sorted(qs):
            self.bad("question", f"asked about {sorted(asked)}, expected {sorted(qs)}")

    def see_call(self, c, e, a):
        self.ev["calls"] += 1
        who = f"{c['op']}({c['v']}) (call {c['id']})"
        if bool(e.get("boom")) != bool(a.get("boom")):
            self.bad("stale", f"{who}: raises: {bool(a.get('boom'))}, the current code: {bool(e.get('boom'))}; ran {a['hits']}, expected {e['hits']}")
        if e.get("apart"):
            # (nothing of the other context's calls is known before it ends)
            if a.get("result") != e.get("result"):
                self.bad("stale", f"{who}: result {a.get('result')}, the current code gives {e.get('result')}; ran {a['hits']}")
            self.ev["calls_in_overlapping_contexts"] += 1
            return
        ops = {f"{m}.{n}" for m, cs in self.case["init"].items() for n, x in cs.items() if x["k"] == "o"}
        is_op = lambda n: n in ops or n.rsplit(".", 1)[-1].startswith("f")
        ea = collections.Counter(json.dumps(h) for h in a["hits"] if is_op(h[0]))
        ee = collections.Counter(json.dumps(h) for h in e["hits"] if is_op(h[0]))
        if ee - ea:
            self.bad("stale", f"{who}: not executed although the code it depends on changed (or it is new): {list(ee - ea)}; "
                              f"result {a.get('result')}, the current code gives {e.get('result')}")
        if ea - ee:
            self.bad("needless", f"{who}: executed {list(ea - ee)} although a saved call could be reused")
        if a.get("result") != e.get("result"):
            self.bad("stale", f"{who}: result {a.get('result')}, the current code gives {e.get('result')}; ran {a['hits']}")
        if [list(h) for h in e["hits"]] != a["hits"]:
            self.bad("stale", f"{who}: ran {a['hits']}, expected {e['hits']}")
        self.ev["executions"] += sum(ee.values())
        self.ev["reused"] += e["found"]
        self.ev["nested_calls"] += e["nested"]
        self.ev["versions_superseded_by_inner_calls_only"] += e["inner_only"]
        if e.get("boom"):
            self.ev["raising_calls"] += 1
            return

    def same_version(self, want, got):
        s = self.semid.setdefault(want, got)
        if s != got:
            self.bad("rows", f"a call of {want[0]} is saved under semantic version {got}, others of the same version under {s}")

    def see_look(self, c, e, a):
        self.ev["looks"] += 1
        self.contents = {}
        self.history(e, a)
        self.versions(e, a)
        # saved calls
        back = {}
        for ch, v in a["versions"].items():
            comp = tuple(v["component"])
            sem = (comp, tuple(sorted((tuple(k), self.content(k, h)) for k, h in v["sems"])))
            back[v["semantic"]] = sem
        got = collections.Counter()
        for h, op, s in a["rows"]:
            sem = back.get(s)
            if sem is None:
                self.bad("drop" if "drop" in self.tags else "rows", f"a call of {op} is saved under version {s}, which is not known")
            got[(sem[0], sem)] += 1
        if got != e["rows"]:
            miss, extra = e["rows"] - got, got - e["rows"]
            msg = "; ".join([f"missing {n} calls of {k[0]}" for k, n in miss.items()] + [f"{n} calls too many of {k[0]}" for k, n in extra.items()])
            self.soft("drop" if "drop" in self.tags else "rows", f"saved calls differ: {msg}")
        self.ev["saved_calls_compared"] += sum(got.values())

    def content(self, key, h):
        m = self.contents.get(tuple(key))
        if m is None or h not in m:
            return f"<unknown {h}>"
        return m[h]

    def history(self, e, a):
        real = {tuple(d["key"]): d for d in a["history"]}
        dags = e["dags"]
        refused = " after a refused change" if e.get("refused") else ""
        if set(real) != set(dags):
            self.diff_keys(set(real), set(dags), refused)
        for k in set(real) & set(dags):
            d, w = real[k], dags[k]
            fn = w["kind"] == "fn"
            mc = list(w["commits"])
            m = {}
            rest = []
            for h, x in d["commits"].items():
                if fn:
                    m[h] = MISSING if x["content"] and "unknown_function" in x["content"] else x["content"]
                else:
                    rest.append(h)
            if not fn:
                # values are identified by the order in which their versions were recorded
                for h, cc in zip(rest, mc):
                    m[h] = cc
                    g = self.ghash.setdefault(cc, h) if cc != MISSING else h
                    if g != h:
                        self.soft("history", f"two versions of {k} have the same value, {cc}")
            self.contents[k] = m
            if sorted(m.values()) != sorted(mc) or len(d["commits"]) != len(mc):
                self.soft("history", f"versions of {k}{refused}: {len(d['commits'])} recorded, {len(mc)} expected; "
                                     f"unexpected: {[x for x in m.values() if x not in mc][:2]}, missing: {[x for x in mc if x not in m.values()][:2]}")
                continue
            if m.get(d["head"]) != w["head"]:
                self.soft("history", f"current version of {k}{refused} is {m.get(d['head'])!r:.200}, expected {w['head']!r:.200}")
            for h, x in d["commits"].items():
                par, sem = w["commits"][m[h]]
                rp = m.get(x["parents"][0]) if x["parents"] else None
                if rp != par:
                    self.soft("history", f"a version of {k}{refused} is recorded as derived from {rp!r:.150}, expected {par!r:.150}")
                if m.get(x["sem"]) != sem:
                    self.soft("history", f"a version of {k}{refused} is recorded as equivalent to {m.get(x['sem'])!r:.150}, expected {sem!r:.150}")
                if fn and m[h] != MISSING and x["code"] != m[h]:
                    self.soft("history", f"get_code gives {x['code']!r:.200} for a version of {k}, expected {m[h]!r:.200}")
                self.ev["commits_compared"] += 1

    ghash = None

    def diff_keys(self, real, model, refused):
        self.soft("deps", f"dependencies ever recorded{refused}: too many: {sorted(real - model)}, missing: {sorted(model - real)}")

    def versions(self, e, a):
        got = collections.defaultdict(dict)
        for ch, v in a["versions"].items():
            deps = frozenset((tuple(k), frozenset(self.content(k, h) for h in hs)) for k, hs in v["deps"])
            got[tuple(v["component"])][deps] = v
            self.ev["dependency_sets_compared"] += 1
            self.ev["dependencies_compared"] += len(deps)
            for k, h in v["sems"]:
                t = self.content(k, h)
                if tuple(k) in e["dags"] and e["dags"][tuple(k)]["kind"] == "fn" and t != MISSING and v["code"] is not None \
                        and t not in v["code"]:
                    self.soft("history", f"get_code for a version of {v['component']} does not show {k}")
        for op in set(got) | set(k for k, v in e["vers"].items() if v):
            g, w = set(got.get(op, {})), set(e["vers"].get(op, {}))
            if g == w:
                continue
            tag = "drop" if e.get("dropped") and {frozenset(k for k, _ in x) for x in g} <= {frozenset(k for k, _ in x) for x in w} else "deps"
            show = lambda s: [sorted(f"{k[0]}.{k[1]}" for k, _ in x) for x in s][:3]
            if show(g - w) == show(w - g):
                show = lambda s: [sorted(f"{k[0]}.{k[1]}: {sorted(c)}" for k, c in x) for x in s][:2]
            self.soft(tag, f"dependencies of the versions of {op}: recorded {show(g - w)}, expected {show(w - g)}")


def run(case, env, tags):
    r = Runner(case, env, tags)
    r.ghash = {}
    r.run()
    ev = env.events
    sig = f"{case['layout']}:{len(case['steps'])}:{ev['executions']}:{ev['reused']}:{ev['questions']}:{ev['dependencies_compared']}"
    return {"sig": sig, "nontrivial": ev["reused"] > 0 and ev["executions"] > 2 and not ev["stopped"]}
