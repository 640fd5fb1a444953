"""Calls that differ from each other in as little as possible: families of values that nearly coincide, one object passed
again after its owner changed it, functions of one name declared in several versions. The oracle is a table of the calls seen."""
import hashlib, os, random
from . import values as V
from .core import Violation


def families(r):
    n = r.randrange(1, 5)
    m = r.randrange(2, 4)
    sd = r.randrange(1000)
    dt = r.choice(["float64", "float32", "int64", "complex128", "int32", "uint8"])
    k = r.randrange(3)
    col = lambda names, dts=("int64", "int64"): [[a, d, [["i", j + q] for j in range(m)]] for q, (a, d) in enumerate(zip(names, dts))]
    L = lambda *x: ["L", list(x)]
    T = lambda *x: ["T", list(x)]
    i = lambda v: ["i", v]
    s = lambda v: ["s", v]
    return {
        "shapes": [["A", dt, sh, sd] for sh in ([n * m], [n, m], [m, n], [1, n * m], [n * m, 1], [n, m, 1], [1, n, m])],
        "dtypes": [["A", d, [m], sd] for d in ("int64", "int32", "uint32", "uint64", "float64", "float32", "complex128", "complex64")],
        "scalar arrays": [["A", d, sh, sd] for d in ("int64", "float64") for sh in ([], [1], [1, 1], [0], [0, 1], [1, 0])],
        "columns": [["DF", col(x)] for x in ([1, 2], ["1", "2"], [1, "2"], [2, 1], ["a", "b"], ["b", "a"], ["a", "a "])]
        + [["DF", col(["a", "b"], d)] for d in (("int64", "float64"), ("float64", "int64"), ("int32", "int64"), ("float64", "float64"))],
        "indices": [["DF", col(["a", "b"]), ix] for ix in ([[i(j) for j in range(m)], None], [[i(j) for j in range(m)], "i"], [[i(j + 1) for j in range(m)], None],
                    [[s(str(j)) for j in range(m)], None], [[i(m - j) for j in range(m)], None], [[["f", float(j)] for j in range(m)], None])],
        "series": [["SR", d, [i(j) for j in range(m)], nm] for d in ("int64", "float64", "int32") for nm in ("a", "b", None, "")],
        "numbers": [i(k), ["f", float(k)], ["c", float(k), 0.0], s(str(k)), ["b", str(k).encode().hex()], ["NS", "int64", k], ["NS", "int32", k],
                    ["NS", "float64", k], L(i(k)), T(i(k)), ["S", [i(k)]], ["D", [[i(k), i(k)]]], ["A", "int64", [], sd], ["DEC", str(k)], i(-k - 1), i(k + 2 ** 64), i(k + 2 ** 32)]
        + ([["t", k == 1], ["NS", "bool", k]] if k < 2 else []),
        "empty": [L(), T(), ["S", []], ["D", []], s(""), ["b", ""], ["n"], ["t", False], i(0), ["f", 0.0], L(L()), L(T()), T(L()), ["D", [[s(""), ["n"]]]], L(["n"])],
        "nesting": [L(i(1), i(2), i(3)), L(L(i(1)), i(2), i(3)), L(L(i(1), i(2)), i(3)), L(i(1), L(i(2), i(3))), L(L(i(1), i(2), i(3))), T(i(1), i(2), i(3)),
                    L(T(i(1), i(2)), i(3)), L(i(3), i(2), i(1)), ["S", [i(1), i(2), i(3)]], L(s("1"), i(2), i(3)), L(i(12), i(3)), L(i(1), i(23)), L(i(1), i(2)), L(i(1), i(2), i(3), i(3))],
        "dicts": [["D", x] for x in ([[s("a"), i(1)], [s("b"), i(2)]], [[s("a"), i(2)], [s("b"), i(1)]], [[s("b"), i(1)], [s("a"), i(2)], [s("c"), ["n"]]], [[i(1), s("a")], [i(2), s("b")]],
                  [[s("1"), s("a")], [s("2"), s("b")]], [[s("a"), i(1)]], [[s("a"), L(i(1), i(2))]], [[s("a"), T(i(1), i(2))]], [[s("a"), ["D", [[s("b"), i(2)]]]]])]
        + [L(T(s("a"), i(1)), T(s("b"), i(2))), T(T(s("a"), i(1)), T(s("b"), i(2))), L(s("a"), s("b"))],
        "texts": [s("ab"), s("a") , s("b"), s("a b"), s("ab "), s("AB"), s("ab\x00"), s("ab\n"), s("a\u0308"), s("\u00e4"), ["b", b"ab".hex()], L(s("a"), s("b")), L(s("ab")), L(s(""), s("ab")), L(s("ab"), s(""))],
        "long": [s("x" * 3000), s("x" * 3001), s("x" * 2999 + "y"), s("y" + "x" * 2999), s("x" * 1500 + "y" + "x" * 1499), ["BIG", 3000, sd], ["BIG", 3000, sd + 1], ["BIG", 2999, sd]],
    }


MUT = ("list", "dict", "array", "farray", "frame", "nested", "set")


def gen(rng, i):
    f = families(rng)
    names = rng.sample(sorted(f), rng.choice([2, 2, 3]))
    if i % 2:
        names += rng.sample(["shapes", "columns", "numbers", "dtypes"], 1)
    pool = [["v", x] for nm in names for x in f[nm]]
    steps = []
    arg = lambda: rng.choice(pool) if rng.random() < .7 else ["ref", rng.randrange(100)] if rng.random() < .5 else ["obj", rng.randrange(4)]
    for _ in range(rng.randrange(25, 45)):
        r = rng.random()
        if r < .07: steps.append(["change", rng.randrange(4)])
        elif r < .1: steps.append(["reopen"])
        elif r < .13: steps.append(["clear"])
        elif r < .3: steps.append(["call", "idt", 0, [arg()]])
        elif r < .45: steps.append(["call", "two", rng.randrange(2), [arg(), arg()]])
        elif r < .55 and steps and steps[-1][0] == "call" and len(steps[-1][3]) == 2:
            steps.append(["call", steps[-1][1], steps[-1][2], steps[-1][3][::-1]])
        elif r < .66 and steps and any(x[0] == "call" for x in steps):    # again, perhaps of another version or another name
            x = rng.choice([x for x in steps if x[0] == "call"])
            steps.append(["call", rng.choice([x[1], x[1], {"f": "g", "g": "f"}.get(x[1], x[1])]), rng.choice([x[2], rng.randrange(3)]), x[3]])
        elif r < .7: steps.append(["call", rng.choice(["f", "g"]), rng.randrange(3), [["obj", rng.randrange(4)]]])
        else: steps.append(["call", rng.choice(["f", "f", "g"]), rng.choice([0, 0, 0, 1, 2]), [arg()]])
    for x in pool:           # each value once on its own
        steps.insert(rng.randrange(len(steps) + 1), ["call", "idt", 0, [x]])
    return {"identity": 1, "objs": [rng.choice(MUT) for _ in range(4)], "db": rng.choice(["mem", "file"]), "steps": steps}


def make(kind, j):
    import numpy as np, pandas as pd
    if kind == "list": return [j, "an", 1]
    if kind == "dict": return {"a": j, "b": [1, 2]}
    if kind == "array": return np.arange(4) + 10 * j
    if kind == "farray": return np.arange(6.).reshape(2, 3) + j
    if kind == "frame": return pd.DataFrame({"a": [j, 2, 3], "b": [4., 5., 6.]})
    if kind == "nested": return [{"a": [j]}, (1, [2])]
    return {j, 50, 60}


def change(kind, o, n):
    if kind == "list": o.append(n) if n % 2 else o.__setitem__(0, n)
    elif kind == "dict": o["a"] = n
    elif kind == "array": o[n % 4] += 1
    elif kind == "farray": o[n % 2, 1] += 1
    elif kind == "frame": o.loc[n % 3, "a"] = 100 + n
    elif kind == "nested": o[0]["a"].append(n) if n % 2 else o[1][1].append(n)
    else: o.add(1000 + n)


def run(case, env):
    from mandala.imports import Storage
    from mandala.model import Op
    log = []
    ev = env.events

    def dig(name, ver, *cs):
        return f"{name}.{ver}:" + hashlib.sha256(repr(cs).encode()).hexdigest()

    stable = lambda c: sorted(map(stable, c), key=repr) if isinstance(c, frozenset) else tuple(stable(x) for x in c) if isinstance(c, tuple) else c

    def mk(name, ver):
        if name == "two":
            def fn(x, y):
                log.append((name, ver))
                return dig(name, ver, stable(V.canon(x)), stable(V.canon(y)))
        elif name == "idt":
            def fn(x):
                log.append((name, ver))
                return [V.fresh(x)] if type(x) is tuple else V.fresh(x)
        else:
            def fn(x):
                log.append((name, ver))
                return dig(name, ver, stable(V.canon(x)))
        fn.__name__ = fn.__qualname__ = name
        return Op(name, fn, version=ver)
    ops = {(n, v): mk(n, v) for n in ("f", "g", "two", "idt") for v in range(3)}
    path = os.path.join(env.dir("id"), "s.db") if case["db"] == "file" else ":memory:"
    s = Storage(db_path=path)
    objs = [make(k, j) for j, k in enumerate(case["objs"])]
    changed = [0] * 4
    loose = set()        # contents whose objects have been changed in place: only required not to be confused with others
    seen, refs, cids, back = {}, [], {}, {}
    nt = 0
    for n, st in enumerate(case["steps"]):
        if st[0] == "change":
            changed[st[1]] += 1
            change(case["objs"][st[1]], objs[st[1]], changed[st[1]])
            ev["objects_changed_between_calls"] += 1
            continue
        if st[0] == "reopen":
            if case["db"] == "file":
                s = Storage(db_path=path)
                ev["identity_reopens"] += 1
            continue
        if st[0] == "clear":
            s.clear_caches() if hasattr(s, "clear_caches") else None
            continue
        _, name, ver, args = st
        pa, cs, lo = [], [], False
        for a in args:
            if a[0] == "ref" and not refs:
                a = ["v", ["i", a[1]]]
            if a[0] == "v":
                pa.append(V.build(a[1]))
                c = V.canon(pa[-1])
            elif a[0] == "obj":
                pa.append(objs[a[1]])
                c = V.canon(pa[-1])
                if changed[a[1]]:
                    lo = True
            else:
                r, c = refs[a[1] % len(refs)]
                pa.append(r)
            cs.append(c)
            if lo: loose.add(c)
        key = (name, ver, tuple(cs))
        what = f"{name} (declared version {ver}) on {[str(c)[:150] for c in cs]}"
        if name == "idt": want = ("list", cs[0]) if cs[0][0] == "tuple" else cs[0]
        else: want = V.canon(dig(name, ver, *[stable(c) for c in cs]))
        log.clear()
        with s:
            r = ops[name, ver](*pa)
            got = V.canon(s.unwrap(r))
        if got != want:
            other = next((k for k, v in seen.items() if v == got), None)
            raise Violation(f"step {n}: {what} returned {str(got)[:200]}" + (f", the result of {str(other)[:400]}" if other else f" instead of {str(want)[:200]}"))
        if log and log != [(name, ver)]:
            raise Violation(f"step {n}: {what} executed {log}")
        if key not in seen and not log:
            raise Violation(f"step {n}: {what} was never called before, yet it was not executed")
        if key in seen and log and not any(c in loose for c in cs):
            raise Violation(f"step {n}: {what} was called before, yet it was executed again")
        seen[key] = want
        ev["identity_calls"] += 1
        ev["identity_executed" if log else "identity_reused"] += 1
        nt += not log
        refs.append((r, want))
        if want not in loose:
            if cids.setdefault(want, r.cid) != r.cid:
                raise Violation(f"step {n}: {what}: content id {r.cid} of a value that had {cids[want]}")
        if back.setdefault(r.cid, want) != want:
            raise Violation(f"step {n}: {what}: the value {str(want)[:200]} has the content id of {str(back[r.cid])[:200]}")
    return {"sig": f"id{len(seen)}|{len(back)}|{nt}", "nontrivial": len(seen) > 15 and nt > 1}
