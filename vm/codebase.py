"""Generated tracked code: an IR, its rendering to Python source, and an interpreter for it that also tells what ran.

A codebase is {module: {name: component}}; modules are listed in import order (a module imports earlier ones only).
Components:  {"k": "g", "v": value}                       module-level value
             {"k": "f"|"gen"|"o", "body": [...], ...}     tracked function, tracked generator, memoized function
             {"k": "c", "ms": {name: {"mk": "m"|"s"|"c", "body": [...]}}, "base": [module, name]?}   tracked class
             {"k": "i", "cls": name, "v": int}            module-level instance of a class of the same module
References are [module, name]. Functions take one integer x, which they reduce mod 8 and which alone (with the values
of globals named K*) decides what they do next; everything else only enters the sums they return.
"""
import json, re

HEAD = ("from mandala.imports import op, track, Storage\nfrom mandala.storage import noop\n"
        "from mandala.model import wrap_atom\nfrom vmhelp import hit, num, u\nimport numpy as np\n")
MISSING = "<missing>"
STEP_CAP = 300


class Boom(Exception):
    pass


class Invalid(Exception):
    pass


class TooLong(Exception):
    pass


def num(v):
    if v is None:
        return 1
    if isinstance(v, bool):
        return 5 + v
    if isinstance(v, (int, float)):
        return int(v * 4) if isinstance(v, float) else v
    if isinstance(v, str):
        return sum(map(ord, v))
    if isinstance(v, dict) and set(v) == {"ref"}:
        return num(v["ref"]) + 11
    if isinstance(v, dict) and set(v) == {"tup"}:
        return num(v["tup"]) + 17
    if isinstance(v, dict) and set(v) == {"set"}:
        return sum(num(x) for x in set(v["set"])) + 7
    if isinstance(v, dict):
        return sum(ord(k[0]) * num(x) for k, x in v.items()) + 2
    return sum((i + 1) * num(x) for i, x in enumerate(v)) + 3


def lit(v):
    if isinstance(v, dict) and set(v) == {"np"}:
        return f"np.array({v['np']})"
    if isinstance(v, dict) and set(v) == {"ref"}:
        return f"wrap_atom({lit(v['ref'])})"
    if isinstance(v, dict) and set(v) == {"tup"}:
        return f"tuple({v['tup']})"
    if isinstance(v, dict) and set(v) == {"set"}:
        return f"set({v['set']})"
    return repr(v)


def val(v):
    if isinstance(v, dict) and set(v) == {"np"}:
        return list(v.values())[0]
    return v


def is_fn(c):
    return c["k"] in ("f", "gen", "o")


def terms_of(body):
    for t in body:
        yield t
        for s in t[1:]:
            if isinstance(s, list) and s and isinstance(s[0], list):
                yield from terms_of(s)


def refs_of(comp):
    bodies = [m["body"] for m in comp["ms"].values()] if comp["k"] == "c" else [comp["body"]] if is_fn(comp) else []
    out = [tuple(comp["base"])] if comp.get("base") else []
    for b in bodies:
        for t in terms_of(b):
            if t[0] in ("g", "call", "op", "noop", "gencall", "genone", "lam", "comp", "map", "inner"):
                out.append(tuple(t[1]))
            elif t[0] == "meth":
                out.append(tuple(t[1]))
            elif t[0] in ("if", "raise") and t[1][0] == "g":
                out.append(tuple(t[1][1]))
    return out


class Code:
    """A snapshot of the codebase."""

    def __init__(self, mods, style=0, rel=False):
        self.mods = mods
        self.style = style
        self.rel = rel

    def comp(self, ref):
        try:
            return self.mods[ref[0]][ref[1]]
        except KeyError:
            raise Invalid(f"no {ref}")

    def validate(self):
        order = {m: i for i, m in enumerate(self.mods)}
        want = {"g": "g", "call": "f", "lam": "f", "comp": "f", "inner": "f", "map": "f", "op": "o",
                "noop": "o", "gencall": "gen", "genone": "gen", "meth": "i"}
        for m, comps in self.mods.items():
            for n, c in comps.items():
                for r in refs_of(c):
                    t = self.comp(r)
                    if order[r[0]] > order[m]:
                        raise Invalid("import order")
                bodies = [x["body"] for x in c["ms"].values()] if c["k"] == "c" else [c["body"]] if is_fn(c) else []
                for b in bodies:
                    for t in terms_of(b):
                        if t[0] in want and self.comp(t[1])["k"] != want[t[0]]:
                            raise Invalid("kind")
                        if t[0] == "meth":
                            i = self.comp(t[1])
                            self.method((t[1][0], i["cls"]), t[2])
                        if t[0] == "selfm":
                            self.method((m, n), t[1])
                        if t[0] == "superm":
                            self.method(tuple(c["base"]), t[1])
                if c.get("base"):
                    b = self.comp(c["base"])
                    if b["k"] != "c" or c["base"][0] == m and list(comps).index(c["base"][1]) > list(comps).index(n):
                        raise Invalid("base")
                    for mn, x in c["ms"].items():
                        try:
                            o = self.method(tuple(c["base"]), mn)
                        except Invalid:
                            continue
                        if o[1]["mk"] != x["mk"]:
                            raise Invalid("override")
                if c["k"] == "i" and self.comp((m, c["cls"]))["k"] != "c":
                    raise Invalid("class")

    def method(self, cls, name):
        """The class that defines a method of `cls`, and its definition."""
        while cls is not None:
            c = self.comp(cls)
            if c["k"] != "c":
                raise Invalid("class")
            if name in c["ms"]:
                return cls, c["ms"][name]
            cls = tuple(c["base"]) if c.get("base") else None
        raise Invalid("method")

    # --- names
    def by_from(self, m, ref):
        c = self.comp(ref)
        return c["k"] in ("g", "i") or (sum(map(ord, m + ref[1])) + self.style) % 3 > 0

    def imports(self, m):
        out = []
        for c in self.mods[m].values():
            for r in refs_of(c):
                if r[0] != m and r not in out:
                    out.append(r)
        return out

    def imported_names(self, m):
        return {r[1]: r for r in self.imports(m) if self.by_from(m, r)}

    def name_in(self, m, ref):
        ref = tuple(ref)
        if ref[0] == m or self.by_from(m, ref):
            return ref[1]
        return f"{ref[0]}.{ref[1]}"

    # --- source
    def body_src(self, m, me, body, ind, kind):
        L = []
        p = "    " * ind

        def cond(c):
            if c[0] == "x":
                return f"x % {c[1]} == {c[2]}"
            return f"num({self.name_in(m, c[1])}) > {c[2]}"
        for t in body:
            k = t[0]
            if k == "c":
                L.append(f"{p}r += {t[1]}")
            elif k == "x":
                L.append(f"{p}r += {t[1]} * x")
            elif k == "g":
                L.append(f"{p}r += num({self.name_in(m, t[1])})")
            elif k == "call":
                L.append(f"{p}r += {self.name_in(m, t[1])}((x + {t[2]}) % 8)")
            elif k == "gencall":
                L.append(f"{p}r += sum({self.name_in(m, t[1])}((x + {t[2]}) % 8))")
            elif k == "genone":
                L.append(f"{p}r += next({self.name_in(m, t[1])}((x + {t[2]}) % 8))")
            elif k == "map":
                L.append(f"{p}r += sum(map({self.name_in(m, t[1])}, range({t[2]})))")
            elif k == "superm":
                L.append(f"{p}r += super().{t[1]}((x + {t[2]}) % 8)")
            elif k == "fin":
                L.append(f"{p}try:")
                L += self.body_src(m, me, t[1], ind + 1, kind) or [f"{p}    pass"]
                L.append(f"{p}finally:")
                L += self.body_src(m, me, t[2], ind + 1, kind) or [f"{p}    pass"]
            elif k == "lam":
                L.append(f"{p}r += (lambda y: {self.name_in(m, t[1])}(y) + 1)((x + {t[2]}) % 8)")
            elif k == "comp":
                L.append(f"{p}r += sum({self.name_in(m, t[1])}((x + i) % 8) for i in range({t[2]}))")
            elif k == "inner":
                L += [f"{p}def inner(y):", f"{p}    return {self.name_in(m, t[1])}(y)", f"{p}r += inner((x + {t[2]}) % 8)"]
            elif k == "op":
                L.append(f"{p}r += u({self.name_in(m, t[1])}((x + {t[2]}) % 8))")
            elif k == "noop":
                L += [f"{p}with noop():", f"{p}    r += {self.name_in(m, t[1])}((x + {t[2]}) % 8)"]
            elif k == "meth":
                L.append(f"{p}r += {self.name_in(m, t[1])}.{t[2]}((x + {t[3]}) % 8)")
            elif k == "selfm":
                L.append(f"{p}r += {'self' if kind == 'm' else 'cls'}.{t[1]}((x + {t[2]}) % 8)")
            elif k == "self":
                L.append(f"{p}r += self.k")
            elif k == "rec":
                call = {"o": f"u({me}(x - 1))", "gen": f"sum({me}(x - 1))"}.get(kind, f"{me}(x - 1)")
                L += [f"{p}if x > 0:", f"{p}    r += {call}"]
            elif k == "if":
                L.append(f"{p}if {cond(t[1])}:")
                L += self.body_src(m, me, t[2], ind + 1, kind) or [f"{p}    pass"]
                if t[3]:
                    L.append(f"{p}else:")
                    L += self.body_src(m, me, t[3], ind + 1, kind)
            elif k == "try":
                L.append(f"{p}try:")
                L += self.body_src(m, me, t[1], ind + 1, kind) or [f"{p}    pass"]
                L.append(f"{p}except ValueError:")
                L += self.body_src(m, me, t[2], ind + 1, kind) or [f"{p}    pass"]
            elif k == "raise":
                L += [f"{p}if {cond(t[1])}:", f"{p}    raise ValueError('boom')"]
            else:
                raise Invalid(k)
        return L

    def fn_src(self, m, name, comp, kind, cls=None):
        """The source text as the user sees it (and as inspect.getsource gives it, up to trailing blanks)."""
        ind = 1 if cls else 0
        p = "    " * ind
        q = f"{cls}.{name}" if cls else name
        dec = {"f": ["@track"], "gen": ["@track"], "o": ["@track", "@op"] if comp.get("tr") else ["@op"],
               "m": [], "s": ["@staticmethod"], "c": ["@classmethod"]}[kind]
        args = {"m": "self, x", "c": "cls, x"}.get(kind, "x")
        if "df" in comp:
            args += f", d={comp['df']}"
        if "kw" in comp:
            args += f", *, kw={comp['kw']}"
        L = [p + d for d in dec] + [f"{p}def {name}({args}):"]
        if comp.get("salt"):
            L.append(f"{p}    # {comp['salt']}")
        if comp.get("doc"):
            L.append(f'{p}    """{comp["doc"]}"""')
        L += [f"{p}    hit('{m}.{q}', x)", f"{p}    x = x % 8", f"{p}    r = 0"]
        L += [f"{p}    r += {a}" for a, b in (("d", "df"), ("kw", "kw")) if b in comp]
        if kind == "gen":
            L.append(f"{p}    for i in range(2):")
            L += self.body_src(m, name, comp["body"], ind + 2, kind)
            L.append(f"{p}        yield r % 9973")
        else:
            L += self.body_src(m, name, comp["body"], ind + 1, kind)
            L.append(f"{p}    return r % 9973")
        return L

    def source(self, m, full=True):
        L = HEAD.splitlines() if full else []
        if full:
            for r in self.imports(m):
                if self.by_from(m, r):
                    if self.rel and "." in m and "." in r[0] and m.split(".")[0] == r[0].split(".")[0] and m.count(".") == 1 \
                            and not any(o.startswith(m + ".") for o in self.mods) and m != "p":
                        L.append(f"from .{r[0].split('.', 1)[1]} import {r[1]}")
                    else:
                        L.append(f"from {r[0]} import {r[1]}")
                else:
                    L.append(f"import {r[0]}")
        for n, c in self.mods[m].items():
            L += ["", *self.comp_src(m, n)]
        return "\n".join(L) + "\n"

    def comp_src(self, m, n):
        c = self.mods[m][n]
        if c["k"] == "g":
            L = [f"{n} = {lit(c['v'])}"]
        elif c["k"] == "i":
            L = [f"{n} = {c['cls']}({c['v']})"]
        elif c["k"] == "c":
            if c.get("base"):
                L = ["@track", f"class {n}({self.name_in(m, c['base'])}):", "    pass"]
            else:
                L = ["@track", f"class {n}:", "    def __init__(self, k):", "        self.k = k"]
            for mn, mc in c["ms"].items():
                L += ["", *self.fn_src(m, mn, mc, mc["mk"], cls=n)]
        else:
            L = self.fn_src(m, n, c, c["k"])
        if c.get("trail"):
            L = [x + " " * c["trail"] for x in L]
        return L

    # --- contents, as versioning sees them
    def content(self, key, kind):
        """Content of the component `key` = (module, qualified name) of kind 'fn' or 'glob'."""
        m, q = key
        if m not in self.mods:
            return MISSING
        top, _, meth = q.partition(".")
        if top in self.mods[m]:
            c = self.mods[m][top]
        else:
            r = self.imported_names(m).get(top)
            if r is None:
                return MISSING
            m, top = r
            c = self.mods[m][top]
        if meth:
            if meth not in c["ms"]:
                return MISSING
            mc = c["ms"][meth]
            return "\n".join(self.fn_src(m, meth, mc, mc["mk"], cls=top))
        if kind == "glob":
            if c["k"] == "i":
                return json.dumps(["inst", m, c["cls"], c["v"]])
            return json.dumps(["val", c["v"]], sort_keys=True)
        return "\n".join(self.fn_src(m, top, c, c["k"]))

    # --- interpretation
    def run(self, ref, v, ev, meth=None, inst=None, top=None, once=False):
        """Run a component body; `ev` observes: ev.ran(key), ev.read(key), ev.op(ref, v), ev.noop()"""
        m, n = ref
        c = self.comp(ref)
        kind = c["k"]
        mc = c
        key = (m, n)
        if meth:
            mc = c["ms"][meth]
            kind = mc["mk"]
            key = (m, f"{n}.{meth}")
        ev.ran(key, v)
        x = v % 8
        r = [mc.get("df", 0) + mc.get("kw", 0)]

        def cond(cd):
            if cd[0] == "x":
                return x % cd[1] == cd[2]
            return num(self.read(m, cd[1], ev)) > cd[2]

        def go(body):
            for t in body:
                k = t[0]
                if k == "c":
                    r[0] += t[1]
                elif k == "x":
                    r[0] += t[1] * x
                elif k == "g":
                    r[0] += num(self.read(m, t[1], ev))
                elif k in ("call", "inner"):
                    r[0] += self.run(t[1], (x + t[2]) % 8, ev)
                elif k == "gencall":
                    r[0] += self.rungen(t[1], (x + t[2]) % 8, ev)
                elif k == "genone":
                    r[0] += self.run(t[1], (x + t[2]) % 8, ev, once=True)
                elif k == "map":
                    r[0] += sum([self.run(t[1], i, ev) for i in range(t[2])])
                elif k == "fin":
                    try:
                        go(t[1])
                    finally:
                        go(t[2])
                elif k == "lam":
                    r[0] += self.run(t[1], (x + t[2]) % 8, ev) + 1
                elif k == "comp":
                    r[0] += sum([self.run(t[1], (x + i) % 8, ev) for i in range(t[2])])
                elif k == "op":
                    r[0] += ev.op(tuple(t[1]), (x + t[2]) % 8)
                elif k == "noop":
                    with ev.noop():
                        r[0] += self.run(t[1], (x + t[2]) % 8, ev)
                elif k == "meth":
                    i = self.comp(t[1])
                    self.read(m, t[1], ev)
                    cls = (t[1][0], i["cls"])
                    r[0] += self.run(self.method(cls, t[2])[0], (x + t[3]) % 8, ev, meth=t[2], inst=i, top=cls)
                elif k == "selfm":
                    r[0] += self.run(self.method(top, t[1])[0], (x + t[2]) % 8, ev, meth=t[1], inst=inst, top=top)
                elif k == "superm":
                    r[0] += self.run(self.method(tuple(c["base"]), t[1])[0], (x + t[2]) % 8, ev, meth=t[1], inst=inst, top=top)
                elif k == "self":
                    r[0] += inst["v"]
                elif k == "rec":
                    if x > 0:
                        if kind == "o":
                            r[0] += ev.op(tuple(ref), x - 1)
                        elif kind == "gen":
                            r[0] += self.rungen(ref, x - 1, ev)
                        else:
                            r[0] += self.run(ref, x - 1, ev)
                elif k == "if":
                    go(t[2] if cond(t[1]) else t[3])
                elif k == "try":
                    try:
                        go(t[1])
                    except Boom:
                        go(t[2])
                elif k == "raise":
                    if cond(t[1]):
                        raise Boom()
        if kind == "gen":
            out = 0
            for _ in range(1 if once else 2):
                go(mc["body"])
                out += r[0] % 9973
            return out
        go(mc["body"])
        return r[0] % 9973

    def rungen(self, ref, v, ev):
        return self.run(ref, v, ev)

    def read(self, m, ref, ev):
        """Module m reads the module-level value `ref`."""
        ev.read((m, ref[1]))
        c = self.comp(ref)
        return c["v"] if c["k"] == "i" else val(c["v"])


def neutral(key, old, new, comp_old_shape, comp_new_shape):
    return comp_old_shape == comp_new_shape


def shape(content, key, kind):
    """What a content has in common with every content that makes the same calls and reads for the same input."""
    if content == MISSING:
        return MISSING
    if kind == "glob":
        n = key[1]
        c = json.loads(content)
        if c[0] == "inst":
            return json.dumps(c[:3])
        return content if n.startswith("K") else "value"
    L = []
    for ln in content.splitlines():
        if ln.strip().startswith("#") or ln.strip().startswith('"""') or ln[:2] in ("--", "++", "@@"):
            continue
        if re.fullmatch(r"\s*r \+= -?\d+( \* x)?", ln):
            ln = "const"
        L.append(ln)
    # (the number of added constants does not matter either)
    return "\n".join(x for x in L if x != "const")
