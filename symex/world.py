"""The instrumented world: /repo's sources loaded for symbolic execution, plus environment models."""
import os
import sys
import types
import importlib.util
import datetime as _dt

REPO = os.environ.get("SYMX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
SITE = "/opt/venv/lib/python3.12/site-packages"

from .core import E, Unsupported, s_and, s_or, s_not, SymBool, Tab  # noqa
from . import rx, runtime  # noqa
from .instr import Loader  # noqa
from .symstr import (SymStr, SymBytes, SymInt, issym, concretise, map_piece, mk, pieces, ch_test, deep_concretise)  # noqa
from .containers import SDict, SSet, from_native  # noqa
from .stubs import env, content, hashlib_stub, osmod  # noqa
from .stubs import fsmodel  # noqa


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# ------------------------------------------------------------ pairtree
def _pairtree():
    spec = importlib.util.spec_from_file_location("symx_pairtree_path", os.path.join(SITE, "pairtree/pairtree_path.py"))
    pt = importlib.util.module_from_spec(spec)
    import logging
    lvl = logging.getLogger().level
    h = list(logging.getLogger().handlers)
    spec.loader.exec_module(pt)
    logging.getLogger().setLevel(lvl)
    for x in list(logging.getLogger().handlers):
        if x not in h:
            logging.getLogger().removeHandler(x)

    def id_encode(s):
        if s.__class__ is not SymStr:
            return pt.id_encode(s)
        out = []
        for p in s.p:      # id_encode is a per-character map
            out.extend(map_piece(p, pt.id_encode))
        return mk(out)

    def id_decode(s):
        return pt.id_decode(concretise(s))
    return _mod("pairtree", id_encode=id_encode, id_decode=id_decode, real=pt)


# ------------------------------------------------------------ date and time
_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


class SymDT:
    """datetime with possibly symbolic integer fields (UTC)."""

    def __init__(self, y, mo, d, h, mi, s):
        self.f = (y, mo, d, h, mi, s)
        self.year, self.month, self.day, self.hour, self.minute, self.second = self.f
        self.microsecond = 0
        self.tzinfo = _dt.timezone.utc

    def timetuple(self):
        return self.f + (0, 0, 0)

    utctimetuple = timetuple

    def timestamp(self):
        return timegm(self.f)

    def replace(self, **kw):
        return self


def _leap(y):
    return s_and(y % 4 == 0, s_or(y % 100 != 0, y % 400 == 0))


def _days_in_month(y, mo):
    """Fork on month class only."""
    if mo == 2:
        return 29 if _leap(y) else 28
    if any(mo == m for m in (4, 6, 9, 11)):
        return 30
    return 31


def timegm(t):
    y, mo, d, h, mi, s = t[:6]
    if not any(issym(x) for x in t[:6]):
        import calendar
        return calendar.timegm(tuple(t[:6]) + (0, 0, 0))
    mo = concretise(mo)
    y1 = y - 1
    days = y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + _CUM[mo - 1] + d
    if mo > 2 and _leap(y):
        days = days + 1
    return ((days - 719163) * 24 + h) * 3600 + mi * 60 + s


class ParserError(ValueError):
    pass


def dateutil_parse(s, *a, **k):
    """dateutil.parser.parse on "dddd-dd-ddTdd:dd[:dd]Z" with symbolic digits.

    For that shape dateutil reads year, month, day in order (the 4-digit group is
    the year) and raises ParserError (a ValueError) for out-of-range fields."""
    if s.__class__ is not SymStr:
        from dateutil import parser as p  # pragma: no cover
        return p.parse(s)
    digit = lambda p: bool(ch_test(p, "asciidigit", lambda c: c in "0123456789"))  # noqa
    ps = s.p
    shape = [4, 7, 10, 13] + ([16] if len(ps) == 20 else [])
    if len(ps) not in (17, 20) or not bool(s.endswith("Z")):
        return dateutil_parse(concretise(s))
    seps = {4: "-", 7: "-", 10: "T", 13: ":", 16: ":"}
    for i, p in enumerate(ps[:-1]):
        if i in shape:
            if not (mk((p,)) == seps[i]):
                return dateutil_parse(concretise(s))
        elif not digit(p):
            return dateutil_parse(concretise(s))
    n = lambda i, j: runtime.to_int(mk(ps[i:j]))  # noqa
    y, mo, d, h, mi = n(0, 4), n(5, 7), n(8, 10), n(11, 13), n(14, 16)
    sec = n(17, 19) if len(ps) == 20 else 0
    if not s_and(y >= 1, mo >= 1, mo <= 12, d >= 1, h <= 23, mi <= 59, sec <= 59):
        raise ParserError("out of range")
    if d > _days_in_month(y, mo):
        raise ParserError("day is out of range for month")
    return SymDT(y, mo, d, h, mi, sec)


def _real_dateutil():
    """The installed dateutil, for concrete strings (pure python, loaded from site-packages)."""
    try:
        import dateutil.parser as p
        return p
    except ImportError:
        sys.path.append(SITE)
        try:
            import dateutil.parser as p
            return p
        finally:
            sys.path.remove(SITE)


class _DateTime:
    """Stand-in for datetime.datetime."""
    @staticmethod
    def fromtimestamp(ts, tz=None):
        return _dt.datetime.fromtimestamp(deep_concretise(ts), tz)

    @staticmethod
    def now(tz=None):
        return _dt.datetime.fromtimestamp(env.current().now, tz)

    @staticmethod
    def utcnow():
        return _dt.datetime.utcfromtimestamp(env.current().now)

    @staticmethod
    def fromisoformat(s):
        return _dt.datetime.fromisoformat(concretise(s))

    @staticmethod
    def strptime(s, fmt):
        return _dt.datetime.strptime(concretise(s), fmt)

    def __new__(cls, *a, **k):
        return _dt.datetime(*[concretise(x) for x in a], **k)


def _collections():
    import collections as c
    m = types.ModuleType("collections")
    for n in ("namedtuple", "deque", "abc", "ChainMap"):
        setattr(m, n, getattr(c, n))
    m.OrderedDict = SDict

    class defaultdict(SDict):
        __slots__ = ("default_factory",)

        def __init__(self, factory=None, *a):
            SDict.__init__(self, *a)
            self.default_factory = factory

        def __getitem__(self, k):
            t = self._tok(k)
            from .containers import _MISSING
            if t is _MISSING:
                if self.default_factory is None:
                    raise KeyError(k)
                v = self.default_factory()
                self[k] = v
                return v
            return self._m[t][1]
    m.defaultdict = defaultdict

    class Counter(SDict):
        def __init__(self, it=(), **kw):
            SDict.__init__(self)
            self.update(it, **kw)

        def __getitem__(self, k):
            return self.get(k, 0)

        def __missing__(self, k):
            return 0

        def update(self, it=(), **kw):
            if hasattr(it, "items"):
                for k, n in it.items():
                    self[k] = self[k] + n
            else:
                for x in it:
                    self[x] = self[x] + 1
            for k, n in kw.items():
                self[k] = self[k] + n

        def subtract(self, it=()):
            if hasattr(it, "items"):
                for k, n in it.items():
                    self[k] = self[k] - n
            else:
                for x in it:
                    self[x] = self[x] - 1

        def elements(self):
            for k, n in self.items():
                for _ in range(n):
                    yield k

        def most_common(self, n=None):
            r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
            return r if n is None else r[:n]

        def total(self):
            return sum(self.values())

        def __add__(self, o):
            r = Counter(self)
            r.update(o)
            return Counter({k: n for k, n in r.items() if n > 0})

        def __sub__(self, o):
            r = Counter(self)
            r.subtract(o)
            return Counter({k: n for k, n in r.items() if n > 0})
    m.Counter = Counter

    class OrderedDict(SDict):
        def move_to_end(self, k, last=True):
            v = self.pop(k)
            if last:
                self[k] = v
            else:
                rest = list(self.items())
                self.clear()
                self[k] = v
                self.update(rest)

        def popitem(self, last=True):
            k = list(self)[-1 if last else 0]
            return k, self.pop(k)
    m.OrderedDict = OrderedDict

    class UserDict(SDict):
        @property
        def data(self):
            return self
    m.UserDict = UserDict
    m.UserList = list
    return m


class World:
    """Everything needed to execute /repo's code symbolically."""

    def __init__(self, repo=REPO):
        self.repo = repo
        u, p = osmod.urllib_modules()
        stubs = {
            "json": content, "re": rx, "hashlib": hashlib_stub,
            "urllib": u, "urllib.parse": p,
            "logging": osmod.logging_module(), "time": osmod.time_module(), "codecs": osmod.codecs_module(),
            "sys": osmod.sys_module(), "symx_os_env": osmod.build(), "pairtree": _pairtree(),
            "collections": _collections(), "io": osmod.io_module(),
            "calendar": _mod("calendar", timegm=timegm),
        }
        rd = _real_dateutil()

        def parse(s, *a, **k):
            return dateutil_parse(s) if s.__class__ is SymStr else rd.parse(s, *a, **k)
        dp = _mod("dateutil.parser", parse=parse, ParserError=ParserError, isoparse=lambda s: rd.isoparse(concretise(s)))
        stubs["dateutil.parser"] = dp
        stubs["dateutil"] = _mod("dateutil", parser=dp)
        stubs["datetime"] = _mod("datetime", datetime=_DateTime, timezone=_dt.timezone, timedelta=_dt.timedelta,
                                 date=_dt.date)
        import argparse
        import fnmatch
        import glob
        import pathlib
        for n in ("subprocess", "multiprocessing", "socket", "zipfile", "tarfile", "ctypes", "sqlite3", "mmap", "fcntl", "signal",
                  "threading", "concurrent", "asyncio", "pickle", "shelve"):
            stubs[n] = osmod.Blocked(n)
        roots = {"argparse": argparse.__file__, "pathlib": pathlib.__file__, "glob": glob.__file__, "fnmatch": fnmatch.__file__, "ocfl": os.path.join(repo, "ocfl"), "harness": os.path.join(VERIF, "harness"),
                 "symx_bagit": os.path.join(HERE, "isrc/symx_bagit.py"),
                 "symx_path": os.path.join(HERE, "isrc/symx_path.py"),
                 "symx_fsspec": os.path.join(HERE, "isrc/symx_fsspec.py")}
        self.stubs = stubs
        self.loader = L = Loader(roots, stubs)
        path = L.load("symx_path")
        osm = osmod.build_os(path)
        stubs["os"] = stubs["symx_os"] = osm
        stubs["os.path"] = stubs["posixpath"] = path
        stubs["tempfile"] = osmod.tempfile_module(osm)
        fss = L.load("symx_fsspec")
        spec = _mod("fsspec.spec", AbstractFileSystem=fss.AbstractFileSystem)
        dirfs = _mod("fsspec.implementations.dirfs", DirFileSystem=fss.DirFileSystem)
        local = _mod("fsspec.implementations.local", LocalFileSystem=fss.LocalFileSystem)
        zipm = _mod("fsspec.implementations.zip", ZipFileSystem=fss.ZipFileSystem)
        impl = _mod("fsspec.implementations", dirfs=dirfs, local=local, zip=zipm)
        stubs["fsspec"] = _mod("fsspec", spec=spec, implementations=impl, filesystem=fss.filesystem,
                               AbstractFileSystem=fss.AbstractFileSystem)
        stubs["fsspec.spec"], stubs["fsspec.implementations"] = spec, impl
        stubs["fsspec.implementations.dirfs"], stubs["fsspec.implementations.local"] = dirfs, local
        stubs["fsspec.implementations.zip"] = zipm
        stubs["s3fs"] = _mod("s3fs", S3FileSystem=fss.S3FileSystem)
        stubs["shutil"] = osmod.shutil_module(osm, fss)
        stubs["bagit"] = L.load("symx_bagit")
        self.fss = fss
        self.datafiles = {}
        for d, _, fs in os.walk(os.path.join(repo, "ocfl", "data")):
            for f in fs:
                fp = os.path.join(d, f)
                with open(fp, "rb") as fh:
                    self.datafiles[fp] = fh.read()
        self.codecache = {}

    def load(self, name):
        return self.loader.load(name)

    def finish(self):
        """Call when all modules are loaded; remembers initial module state."""
        self.reset()
        # warm class-level caches that ordinary imports would leave untouched: none
        self.loader.snapshot()

    def reset(self):
        e = env.reset()
        for p, d in self.datafiles.items():
            e.fs.put(p, d)
        e.fs.putdir("/s")
        e.fs.putdir("/tmp")
        e.fs.cwd = "/s"
        runtime_sys = self.stubs["sys"]
        runtime_sys.argv = ["prog"]
        return e

    def restore(self):
        self.loader.restore()

    def run_script(self, fname, argv):
        """Execute a script of /repo as __main__; returns (exit status, stdout text list)."""
        from .instr import Instr
        import ast
        path = os.path.join(self.repo, fname)
        code = self.codecache.get(path)
        if code is None:
            with open(path, encoding="utf-8") as fh:
                tree = ast.parse(fh.read(), path)
            name = "script_" + fname.replace("-", "_").replace(".py", "")
            runtime._INSTR_MODULES.add("__main__")
            tree = ast.fix_missing_locations(Instr(name).visit(tree))
            code = self.codecache[path] = compile(tree, path, "exec")
        m = types.ModuleType("__main__")
        m.__file__ = path
        m.__dict__["__builtins__"] = self.loader.builtins
        self.stubs["sys"].argv = [path] + list(argv)
        real = sys.argv
        sys.argv = [path] + list(argv)      # for the (real) argparse
        self.script_exc = None
        try:
            exec(code, m.__dict__)
            return 0
        except SystemExit as e:
            c = e.code
            if c is None:
                return 0
            return concretise(c) if issym(c) or isinstance(c, int) else 1
        except Exception as e:  # noqa: a script ends with a traceback and status 1
            self.script_exc = type(e).__name__
            return 1
        finally:
            sys.argv = real
