"""Reproductions of the known findings (see known_findings.json): each returns True while the defect is there."""
import os, subprocess, sys


def _seeds(expr):
    """The value of an expression under several hash seeds."""
    from .core import REPO
    code = ("import sys, warnings; warnings.simplefilter('ignore'); sys.dont_write_bytecode = True; sys.path.insert(0, %r)\n"
            "from mandala.utils import get_content_hash as h\nprint(h(%s))" % (REPO, expr))
    return {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True,
                           check=True).stdout for s in (1, 2, 3, 4, 5)}


def c03_ordered(env):
    from collections import OrderedDict
    from mandala.utils import get_content_hash as h
    return h(OrderedDict(a=1, b=2)) == h(OrderedDict(b=2, a=1))


def c03_frozenset(env):
    return len(_seeds("frozenset(['a', 'b', 'c', 'd', 'e', 'f'])")) > 1


def c03_aliased(env):
    from mandala.utils import get_content_hash as h
    x = ["an element"]
    return h([x, x]) != h([["an element"], ["".join(["an ", "element"])]])


def c03_layout(env):
    import numpy as np
    from mandala.utils import get_content_hash as h
    a = np.arange(6).reshape(2, 3)
    return h([a]) != h([np.asfortranarray(a)]) or h(a) != h(np.asfortranarray(a))


def _versioned(env, src):
    import importlib
    d = env.dir("vk")
    with open(os.path.join(d, "kmod.py"), "w") as f:
        f.write("from mandala.imports import op, track\n" + src)
    sys.path.insert(0, d)
    m = importlib.import_module("kmod")
    from mandala.imports import Storage
    s = Storage(db_path=os.path.join(d, "s.db"), deps_path=d)
    try:
        with s:
            r = s.unwrap(m.f(1))
    except Exception as e:
        return repr(e)
    return r, m


def c21_class_body(env):
    r = _versioned(env, "G = 5\n@op\ndef f(x):\n    class K:\n        g = G\n    return K.g + x\n")
    return isinstance(r, str) or r[0] != 6


def c21_global(env):
    r = _versioned(env, "G = 5\n@op\ndef f(x):\n    global G\n    G = 7\n    return x\n")
    return isinstance(r, str) or r[1].G != 7


PROBES = {
    "C03": {"ordereddict": c03_ordered, "frozenset-seed": c03_frozenset, "aliased-parts": c03_aliased, "array-layout": c03_layout},
    "C21": {"class-body": c21_class_body, "global-statement": c21_global},
}
