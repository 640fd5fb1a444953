"""Instrumentation of everything the code under test does to the outside: SQL statements, commits, and files."""
import os, random, signal, sqlite3, sys, time, resource
from . import core

_connect = sqlite3.connect


class Monitor:
    """Counts the points at which the code touches the database or a file; `act` may do something at one."""
    on = False
    n = 0
    kinds = {}
    act = None          # called with (kind, n) before the operation; kind ends in "+" after it

    def point(self, kind):
        if not self.on:
            return
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if self.act is not None:
            self.act(kind, self.n)


M = Monitor()


def from_repo(depth=2):
    f = sys._getframe(depth)
    while f is not None and not f.f_code.co_filename.startswith(core.VERIF):
        if f.f_code.co_filename.startswith(core.REPO):
            return True
        f = f.f_back
    return False


def stmt_kind(sql):
    w = sql.lstrip().split(None, 1)[0].upper()
    return {"SELECT": "read", "BEGIN": "begin", "PRAGMA": "pragma", "CREATE": "create", "COMMIT": "commit"}.get(w, "write")


class Conn(sqlite3.Connection):
    def execute(self, sql, *a):
        if not M.on or not from_repo():
            return super().execute(sql, *a)
        k = stmt_kind(sql)
        M.point(k)
        r = super().execute(sql, *a)
        M.point(k + "+")
        return r

    def executemany(self, sql, *a):
        if not M.on or not from_repo():
            return super().executemany(sql, *a)
        M.point("write")
        r = super().executemany(sql, *a)
        M.point("write+")
        return r

    def commit(self):
        if not M.on or not from_repo():
            return super().commit()
        M.point("commit")
        r = super().commit()
        M.point("commit+")
        return r

    def __exit__(self, *a):
        if not M.on or not from_repo():
            return super().__exit__(*a)
        try:
            M.point("commit" if a[0] is None else "rollback")
        except BaseException:   # as when the commit itself fails
            super().rollback()
            raise
        try:
            return super().__exit__(*a)
        finally:
            M.point("commit+" if a[0] is None else "rollback+")


def connect(*a, **kw):
    kw.setdefault("factory", Conn)
    return _connect(*a, **kw)


_ov = [None]
_installed = [False]


def hook(ev, args):
    if not M.on:
        return
    if ev == "open":
        p, mode, flags = args
        if isinstance(p, str) and _ov[0] and p.startswith(_ov[0]) and (
                (mode and any(c in mode for c in "wax+")) or (mode is None and flags & (os.O_WRONLY | os.O_RDWR))):
            M.point("file_write")
    elif ev in ("os.rename", "os.remove"):
        p = args[0]
        if isinstance(p, str) and _ov[0] and p.startswith(_ov[0]):
            M.point("file_" + ev[3:])


def install(root):
    """Files under root + '/ov*' are overflow files."""
    sqlite3.connect = connect
    _ov[0] = os.path.join(root, "ov")
    if not _installed[0]:
        _installed[0] = True
        sys.addaudithook(hook)


def kill():
    os.kill(os.getpid(), signal.SIGKILL)
    time.sleep(60)


def limit_writes(n):
    """The next write that makes a file longer than n bytes kills the process."""
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
