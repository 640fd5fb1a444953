"""Value specifications (JSON-able), built freshly each time (no aliasing inside or between values), and a canonical,
type-exact form of values that the oracles compare."""
import collections
import hashlib
import io
import joblib
import datetime, decimal, enum, fractions
import numpy as np
import pandas as pd


class Color(enum.Enum):
    RED = 1
    BLUE = 2


Point = collections.namedtuple("Point", ["x", "y"])


class Box:
    """A user class with attributes."""
    def __init__(self, a, b):
        self.a = a
        self.b = b


PERMUTE = None   # a random.Random: dictionaries and sets are built in a random order


def _order(items):
    items = list(items)
    if PERMUTE is not None:
        PERMUTE.shuffle(items)
    return items


class Pickling:
    countdown = 0      # the pickling of a Touchy value at which it fails (0: never)
    fired = False


class Touchy:
    """A value whose serialisation fails now and then."""
    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        if Pickling.countdown:
            Pickling.countdown -= 1
            if Pickling.countdown == 0:
                Pickling.fired = True
                raise MemoryError("injected")
        return (Touchy, (self.a,))


def build(s):
    t = s[0]
    if t == "TOUCHY": return Touchy(build(s[1]))
    if t == "i": return int(s[1])
    if t == "f": return float(s[1])
    if t == "s": return "".join(list(s[1]))
    if t == "b": return bytes.fromhex(s[1])
    if t == "n": return None
    if t == "t": return bool(s[1])
    if t == "c": return complex(s[1], s[2])
    if t == "L": return [build(x) for x in s[1]]
    if t == "T": return tuple([build(x) for x in s[1]])
    if t == "D": return {build(k): build(v) for k, v in _order(s[1])}
    if t == "S": return {build(x) for x in _order(s[1])}
    if t == "FS": return frozenset({build(x) for x in s[1]})
    if t == "A":
        _, dt, shape, seed = s
        r = np.random.RandomState(seed)
        a = r.randint(0, 1000, size=shape) if shape else np.array(r.randint(0, 1000))
        return np.ascontiguousarray(a.astype(dt)).reshape(shape)
    if t == "NS": return np.dtype(s[1]).type(s[2])
    if t == "DF":
        cols, ix = s[1], s[2] if len(s) > 2 else None
        df = pd.DataFrame({k: pd.Series([build(x) for x in v], dtype=dt) for k, dt, v in cols})
        if ix is not None:
            df.index = pd.Index([build(x) for x in ix[0]], name=ix[1])
        return fresh(df)   # (what frames share with each other is part of the content id of a container of frames)
    if t == "SR":
        return fresh(pd.Series([build(x) for x in s[2]], dtype=s[1], name=s[3]))
    if t == "BIG":
        _, size, seed = s
        r = np.random.RandomState(seed)
        return r.bytes(size)
    if t == "BIGA":
        _, size, seed = s
        return np.random.RandomState(seed).rand(size)
    if t == "E": return Color[s[1]]
    if t == "DT": return datetime.datetime(*s[1])
    if t == "DEC": return decimal.Decimal(s[1])
    if t == "FR": return fractions.Fraction(s[1], s[2])
    if t == "BOX": return Box(build(s[1]), build(s[2]))
    if t == "PT": return Point(build(s[1]), build(s[2]))
    if t == "OD":   # (the order of an OrderedDict is not part of its content id: a known finding)
        return collections.OrderedDict((build(k), build(v)) for k, v in sorted(s[1]))
    if t == "RG": return range(*s[1])
    raise ValueError(s)


def canon(v):
    """Hashable canonical form: equal iff the values are equal in content and type."""
    t = type(v)
    if v is None: return ("none",)
    if t is bool: return ("bool", v)
    if t is int: return ("int", v)
    if t is float: return ("float", v.hex())
    if t is complex: return ("complex", v.real.hex(), v.imag.hex())
    if t is str: return ("str", v)
    if t is bytes: return ("bytes", v)
    if t is list: return ("list",) + tuple(canon(x) for x in v)
    if t is tuple: return ("tuple",) + tuple(canon(x) for x in v)
    if t is dict: return ("dict", frozenset((canon(k), canon(x)) for k, x in v.items()))
    if t is set: return ("set", frozenset(canon(x) for x in v))
    if t is frozenset: return ("frozenset", frozenset(canon(x) for x in v))
    if t is np.ndarray: return ("nd", str(v.dtype), v.shape, v.tobytes() if v.dtype != object else tuple(canon(x) for x in v.ravel()))
    if isinstance(v, np.generic): return ("nps", str(v.dtype), v.tobytes())
    if t is pd.DataFrame:
        return ("df", tuple(canon(c) for c in v.columns), tuple(str(d) for d in v.dtypes), tuple(canon(i) for i in v.index.tolist()),
                type(v.index).__name__, canon(v.index.name), tuple(tuple(canon(x) for x in v[c].tolist()) for c in v.columns))
    if t is pd.Series:
        return ("sr", str(v.dtype), canon(v.name), tuple(canon(i) for i in v.index.tolist()), tuple(canon(x) for x in v.tolist()))
    if isinstance(v, enum.Enum): return ("enum", type(v).__name__, v.name)
    if t is Touchy: return ("touchy", canon(v.a))
    if t is Box: return ("box", canon(v.a), canon(v.b))
    if t is Point: return ("point", canon(v.x), canon(v.y))
    if t is collections.OrderedDict: return ("odict",) + tuple((canon(k), canon(x)) for k, x in v.items())
    if t is range: return ("range", v.start, v.stop, v.step)
    if t in (datetime.datetime, decimal.Decimal, fractions.Fraction): return (t.__name__, repr(v))
    return ("other", t.__module__, t.__name__, repr(v)[:300])


def fresh(v):
    """A copy of v that shares no container with it or within itself."""
    t = type(v)
    if t is list: return [fresh(x) for x in v]
    if t is tuple: return tuple([fresh(x) for x in v])
    if t is dict: return {fresh(k): fresh(x) for k, x in _order(v.items())}
    if t is set: return {fresh(x) for x in _order(v)}
    if t is frozenset: return frozenset([fresh(x) for x in v])
    if t is np.ndarray: return v.copy()
    if t is pd.DataFrame or t is pd.Series:
        b = io.BytesIO()           # (a copy() shares its index, and pickle changes the layout)
        joblib.dump(v, b)
        b.seek(0)
        return joblib.load(b)
    if t is Touchy: return Touchy(fresh(v.a))
    if t is Box: return Box(fresh(v.a), fresh(v.b))
    if t is Point: return Point(fresh(v.x), fresh(v.y))
    if t is collections.OrderedDict: return collections.OrderedDict((fresh(k), fresh(x)) for k, x in v.items())
    if t is complex: return complex(v.real, v.imag)
    if t is decimal.Decimal: return decimal.Decimal(str(v))
    if t is fractions.Fraction: return fractions.Fraction(v.numerator, v.denominator)
    if t is datetime.datetime: return v.replace()
    if t is range: return range(v.start, v.stop, v.step)
    if isinstance(v, np.generic): return v.dtype.type(v)
    return v


def digest(c):
    """A stable digest of a canonical form."""
    h = hashlib.sha1()
    _digest(c, h)
    return h.digest()


def _digest(c, h):
    if isinstance(c, tuple):
        h.update(b"(")
        for x in c:
            _digest(x, h)
        h.update(b")")
    elif isinstance(c, frozenset):
        h.update(b"{")
        for d in sorted(digest(x) for x in c):
            h.update(d)
        h.update(b"}")
    else:
        h.update(type(c).__name__.encode() + repr(c).encode("utf8", "backslashreplace") + b";")


def dint(c):
    return int.from_bytes(digest(c)[:8], "big")


STRS = ["", "a", "b", "ab", "x", "é", "1", "output_0", "elts_0", "None", "a\x00b", "long" * 8]


def gen_scalar(rng, small=True):
    k = rng.random()
    if k < .45: return ["i", rng.choice([0, 1, 2, 3, -1, 7, 10 ** 6, 1 << 70] if rng.random() < .3 else [0, 1, 2, 3])]
    if k < .60: return ["s", rng.choice(STRS)]
    if k < .70: return ["f", rng.choice([0.0, 1.0, -0.0, 0.5, 2.0, 1e300, float("inf")])]
    if k < .78: return ["t", rng.random() < .5]
    if k < .84: return ["n"]
    if k < .90: return ["b", rng.choice(["", "00", "61", "6162"])]
    if k < .92: return ["c", rng.choice([0.0, 1.0]), rng.choice([0.0, 1.0, -1.0])]
    return ["i", rng.randrange(100)]


def _uniq(specs):
    """Keep specs whose built values are pairwise unequal in Python (needed for keys and set elements)."""
    out, seen = [], []
    for s in specs:
        v = build(s)
        if any(v == w for w in seen):
            continue
        seen.append(v)
        out.append(s)
    return out


def gen_value(rng, depth=2, rich=True):
    k = rng.random()
    if depth <= 0 or k < .5: return gen_scalar(rng)
    n = rng.randrange(0, 4)
    if k < .62: return ["L", [gen_value(rng, depth - 1, rich) for _ in range(n)]]
    if k < .70: return ["T", [gen_value(rng, depth - 1, rich) for _ in range(n)]]
    if k < .80: return ["D", [[kk, gen_value(rng, depth - 1, rich)] for kk in _uniq([gen_scalar(rng) if rng.random() < .3 else ["s", rng.choice("abcde")] for _ in range(n)])]]
    if k < .84: return ["S", _uniq([gen_scalar(rng) for _ in range(n)])]
    if not rich: return gen_scalar(rng)
    if k < .91:
        return ["A", rng.choice(["int64", "int32", "float64", "float32", "bool", "uint8"]),
                rng.choice([[], [0], [1], [2], [3], [2, 2], [4], [1, 4], [4, 1], [3, 2, 1]]), rng.randrange(3)]
    if k < .93: return ["NS", rng.choice(["int64", "int32", "float64", "bool"]), rng.choice([0, 1])]
    if k < .96:
        return gen_df(rng)
    j = rng.random()
    if j < .15: return ["E", rng.choice(["RED", "BLUE"])]
    if j < .3: return ["DT", [2020, 1, rng.choice([1, 2])]]
    if j < .4: return ["DEC", rng.choice(["1", "1.0", "2"])]
    if j < .5: return ["FR", rng.choice([1, 2]), 3]
    if j < .65: return ["BOX", gen_value(rng, depth - 1, rich), gen_scalar(rng)]
    if j < .75: return ["PT", gen_scalar(rng), gen_scalar(rng)]
    if j < .85: return ["OD", [[["s", kk], gen_scalar(rng)] for kk in rng.sample("abc", rng.randrange(0, 3))]]
    if j < .92: return ["RG", [rng.choice([2, 3])]]
    return ["SR", rng.choice(["int64", "float64", "object"]), [["i", rng.randrange(3)] for _ in range(rng.randrange(1, 3))], rng.choice(["a", "b", None])]


def gen_df(rng):
    ncol, nrow = rng.randrange(1, 3), rng.randrange(1, 3)
    cols = []
    for c in "abc"[:ncol]:
        dt = rng.choice(["int64", "float64", "object", "int32", "category"])
        if dt == "object":
            vals = [["s", rng.choice(["x", "y"])] for _ in range(nrow)]
        else:
            vals = [["i", rng.randrange(2)] for _ in range(nrow)]
        cols.append([rng.choice(["a", "b", "c"]) if rng.random() < .1 else c, dt, vals])
    seen = set()
    cols = [c for c in cols if not (c[0] in seen or seen.add(c[0]))]
    return ["DF", cols] if rng.random() < .6 else ["DF", cols, gen_index(rng, nrow)]


def gen_index(rng, n):
    vals = rng.sample([0, 1, 2, 7], n)
    return [[["i", v] for v in vals] if rng.random() < .6 else [["s", "r%d" % v] for v in vals], rng.choice([None, None, "a", "ix"])]


def sortable(s):
    """Whether the keys of the dictionaries in this value can be sorted (others are a known finding)."""
    t = s[0]
    if t == "D":
        ks = [k[0] for k, _ in s[1]]
        if len(ks) > 1 and not (all(k == "s" for k in ks) or all(k in "ift" for k in ks)):
            return False
        return all(sortable(k) and sortable(v) for k, v in s[1])
    if t in ("L", "T", "S"):
        return all(sortable(x) for x in s[1])
    if t == "BOX":
        return sortable(s[1]) and sortable(s[2])
    if t == "OD":
        return all(sortable(v) for _, v in s[1])
    return True


def near(rng, s):
    """A value that differs a little from this one (in type, shape, nesting, order or one part)."""
    t = s[0]
    subs = {"L": lambda: s[1], "T": lambda: s[1], "S": lambda: s[1]}
    k = rng.random()
    if k < .12: return ["L", [s]]
    if k < .2: return ["T", [s]]
    if t in subs and s[1] and k < .55:
        j = rng.randrange(len(s[1]))
        return [t, s[1][:j] + [near(rng, s[1][j])] + s[1][j + 1:]] if t != "S" else ["L", s[1]]
    if t == "i":
        v = int(s[1])
        c = [["i", v + 1], ["i", -v], ["s", str(v)]]
        if abs(v) < 2 ** 31: c += [["f", float(v)], ["NS", "int64", v], ["NS", "int32", v], ["A", "int64", [], v % 3], ["c", float(v), 0.0]]
        if v in (0, 1): c += [["t", v == 1], ["NS", "bool", v]]
        return rng.choice(c)
    if t == "f" and abs(s[1]) > 1e9: return ["s", str(s[1])]
    if t == "f": return rng.choice([["f", -s[1]], ["f", s[1] + 1], ["s", str(s[1])], ["NS", "float64", s[1]], ["NS", "float32", s[1]]])
    if t == "s": return rng.choice([["s", s[1] + "x"], ["s", s[1][:-1]], ["s", s[1].upper()], ["b", s[1].encode().hex()], ["L", [["s", c] for c in s[1][:5]]]])
    if t == "b": return rng.choice([["b", s[1] + "00"], ["s", bytes.fromhex(s[1]).decode("latin1")]])
    if t == "t": return rng.choice([["i", int(s[1])], ["t", not s[1]], ["s", str(bool(s[1]))]])
    if t == "n": return rng.choice([["s", "None"], ["L", []], ["i", 0], ["t", False]])
    if t == "L": return rng.choice([["T", s[1]], ["L", s[1][::-1]], ["L", s[1] + [["n"]]], ["L", s[1][:-1]], ["L", s[1] + s[1]]])
    if t == "T": return rng.choice([["L", s[1]], ["T", s[1][::-1]], ["T", s[1] + [["i", 0]]]])
    if t == "S": return rng.choice([["L", s[1]], ["T", s[1]]])
    if t == "D":
        c = [["L", [["T", [a, b]] for a, b in s[1]]]]
        if s[1]:
            j = rng.randrange(len(s[1]))
            c += [["D", s[1][:j] + [[s[1][j][0], near(rng, s[1][j][1])]] + s[1][j + 1:]], ["D", s[1][:j] + s[1][j + 1:]]]
            if len(s[1]) > 1:
                vs = [v for _, v in s[1]]
                c.append(["D", [[kk, v] for (kk, _), v in zip(s[1], vs[1:] + vs[:1])]])
            if all(kk[0] == "s" for kk, _ in s[1]): c.append(["OD", s[1]])
        return rng.choice(c)
    if t == "OD": return ["D", s[1]]
    if t == "A":
        sh = list(s[2])
        return rng.choice([["A", s[1], sh, s[3] + 1], ["A", "int32" if s[1] != "int32" else "int64", sh, s[3]], ["A", s[1], sh + [1], s[3]],
                           ["A", s[1], [1] + sh, s[3]], ["A", s[1], sh[::-1], s[3]]])
    if t == "NS" and s[1] != "bool" and int(s[2]) != s[2]: return ["f", float(s[2])]
    if t == "NS": return rng.choice([["NS", "int32" if s[1] != "int32" else "int64", s[2]], ["i", s[2]], ["f", float(s[2])]])
    if t == "DF":
        cols = [list(c) for c in s[1]]
        j = rng.randrange(len(cols))
        r = rng.random()
        n = len(cols[0][2])
        if rng.random() < .35:
            return ["DF", cols, gen_index(rng, n)]
        if rng.random() < .2:    # the same values under the names the other way round
            names = [c[0] for c in cols][::-1]
            return ["DF", [[nm] + c[1:] for nm, c in zip(names, cols)]] + s[2:]
        if rng.random() < .2:    # another cell
            i = rng.randrange(n)
            cols[j][2] = [["s", "z"] if cols[j][1] == "object" else ["i", 5] if q == i else v for q, v in enumerate(cols[j][2])]
            return ["DF", cols] + s[2:]
        if r < .3: cols[j][0] += "x"
        elif r < .6 and cols[j][1] != "object" and all(v[0] == "i" for v in cols[j][2]): cols[j][1] = {"int64": "float64", "float64": "int64", "int32": "int64", "category": "int64"}[cols[j][1]]
        elif r < .8: cols = cols[::-1]
        else: cols = cols[:j] + cols[j + 1:] or cols
        return ["DF", cols] + s[2:]
    if t == "PT": return rng.choice([["T", [s[1], s[2]]], ["PT", s[2], s[1]]])
    if t == "BOX": return rng.choice([["BOX", s[2], s[1]], ["BOX", near(rng, s[1]), s[2]]])
    if t == "DEC": return ["s", s[1]]
    if t == "E": return ["s", s[1]]
    return gen_scalar(rng)
