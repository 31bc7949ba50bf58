"""os and friends over the model file system."""
import os as _os
import types
import urllib.parse as _up
import importlib.util
from ..core import E, Unsupported
from ..symstr import SymStr, SymBytes, issym, concretise, map_piece, mk, pieces, ch_test, decode_bytes, ch_eq
from ..containers import SDict, SSet, from_native
from ..runtime import to_str, lift, to_repr
from . import env
from .fsmodel import Dir, File


def cur():
    return env.current()


def fspath(p):
    if isinstance(p, (str, bytes)) or p.__class__ is SymStr:
        return p
    if hasattr(p, "__fspath__"):
        return p.__fspath__()
    raise TypeError("expected str, bytes or os.PathLike object, not %s" % _tn(p))


def _tn(p):
    return {"SDict": "dict", "SSet": "set", "SymInt": "int"}.get(type(p).__name__, type(p).__name__)


def stringify(p):
    if isinstance(p, (str, SymStr)):
        return p
    if hasattr(p, "__fspath__"):
        return p.__fspath__()
    return p


def build():
    """Modules symx_os_env and symx_os (the latter needs symx_path for .path)."""
    b = types.ModuleType("symx_os_env")
    b.getcwd = lambda: cur().fs.cwd
    b.home = lambda: "/root"
    b.fspath = fspath
    b.stringify = stringify

    def _g(fn):
        def w(p, *a, **k):
            try:
                return fn(p)
            except (OSError, ValueError):
                return False
        return w
    b.fs_exists = _g(lambda p: cur().fs.lookup(p) is not None)
    b.fs_isdir = _g(lambda p: isinstance(cur().fs.lookup(p), Dir))
    b.fs_isfile = _g(lambda p: isinstance(cur().fs.lookup(p), File))

    def fs_stat(p):
        n = cur().fs.lookup(p)
        return ("directory", 4096) if isinstance(n, Dir) else ("file", len(n.data))
    b.fs_stat = fs_stat
    b.fs_size = lambda p: fs_stat(p)[1]
    b.fs_open = lambda p, mode="r", **k: cur().fs.open(p, mode, **k)
    b.fs_rmtree = lambda p: cur().fs.rmtree(p)
    return b


def build_os(pathmod):
    m = types.ModuleType("os")
    m.path = pathmod
    m.sep, m.altsep, m.curdir, m.pardir, m.linesep, m.extsep, m.pathsep = "/", None, ".", "..", "\n", ".", ":"
    m.name = "posix"
    m.devnull = "/dev/null"
    m.fspath = fspath
    m.getcwd = lambda: cur().fs.cwd
    m.listdir = lambda p=".": cur().fs.names(p)
    m.mkdir = lambda p, mode=0o777: cur().fs.mkdir(p)
    m.remove = m.unlink = lambda p: cur().fs.remove(p)
    m.rmdir = lambda p: cur().fs.rmdir(p)
    m.fsync = m.fdatasync = m.close = lambda fd: None
    m.sync = lambda: None
    m.fdopen = fdopen

    def removedirs(p):
        cur().fs.rmdir(p)
        while True:
            p = p.rpartition("/")[0]
            if not p:
                break
            try:
                cur().fs.rmdir(p)
            except OSError:
                break
    m.removedirs = removedirs
    m.rename = m.replace = lambda a, b: cur().fs.rename(a, b)
    m.getenv = lambda k, d=None: cur().environ.get(k, d)
    m.getpid = lambda: 4242
    m.error = OSError
    m.fsencode = lambda s: s.encode("utf-8")
    m.fsync = lambda fd: None
    m.PathLike = _os.PathLike
    m.F_OK, m.R_OK, m.W_OK, m.X_OK = _os.F_OK, _os.R_OK, _os.W_OK, _os.X_OK
    m.O_RDONLY, m.O_WRONLY, m.O_RDWR, m.O_CREAT, m.O_EXCL, m.O_TRUNC = (_os.O_RDONLY, _os.O_WRONLY, _os.O_RDWR,
                                                                        _os.O_CREAT, _os.O_EXCL, _os.O_TRUNC)

    def stat(p, **kw):
        import stat as _st
        n = cur().fs.lookup(fspath(p))
        d = isinstance(n, Dir)
        r = types.SimpleNamespace(st_mode=(_st.S_IFDIR | 0o755) if d else (_st.S_IFREG | 0o644), st_size=4096 if d else len(n.data),
                                  st_mtime=cur().now, st_ctime=cur().now, st_nlink=1, st_uid=0, st_gid=0, st_dev=1, st_ino=id(n))
        return r
    m.stat = m.lstat = stat
    m.access = lambda p, mode, **k: pathmod.exists(p)
    m.chmod = m.utime = m.chown = lambda p, *a, **k: cur().fs.lookup(fspath(p)) and None
    m.umask = lambda v: 0o022

    def chdir(p):
        if not pathmod.isdir(p):
            cur().fs.lookup(p)
            raise NotADirectoryError(20, "Not a directory", p)
        cur().fs.cwd = pathmod.abspath(p)
    m.chdir = chdir

    def blocked(*a, **k):
        raise Unsupported("os function outside the file system model")
    m.open = m.read = m.write = m.close = m.system = m.popen = m.kill = m.symlink = m.link = m.readlink = blocked

    def makedirs(name, mode=0o777, exist_ok=False):
        head, tail = pathmod.split(name)
        if not len(tail):
            head, tail = pathmod.split(head)
        if len(head) and len(tail) and not pathmod.exists(head):
            try:
                makedirs(head, exist_ok=exist_ok)
            except FileExistsError:
                pass
            if tail == ".":
                return
        try:
            m.mkdir(name)
        except OSError:
            if not exist_ok or not pathmod.isdir(name):
                raise
    m.makedirs = makedirs

    def walk(top, topdown=True, onerror=None, followlinks=False):
        try:
            names = cur().fs.names(top)
        except OSError as e:
            if onerror:
                onerror(e)
            return
        dirs, files = [], []
        for n in names:
            (dirs if pathmod.isdir(pathmod.join(top, n)) else files).append(n)
        if topdown:
            yield top, dirs, files
        for d in dirs:
            yield from walk(pathmod.join(top, d), topdown, onerror)
        if not topdown:
            yield top, dirs, files
    m.walk = walk

    class _DirEntry:
        def __init__(self, d, n):
            self.name, self.path = n, pathmod.join(d, n)

        def is_dir(self, follow_symlinks=True):
            return pathmod.isdir(self.path)

        def is_file(self, follow_symlinks=True):
            return pathmod.isfile(self.path)

        def is_symlink(self):
            return False

        def stat(self, **k):
            return m.stat(self.path)

        def __fspath__(self):
            return self.path

    class _Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    m.scandir = lambda p=".": _Scan(_DirEntry(p, n) for n in cur().fs.names(p))

    class _Environ:
        def get(self, k, d=None):
            return cur().environ.get(k, d)

        def __contains__(self, k):
            return k in cur().environ

        def __getitem__(self, k):
            return cur().environ[k]

        def __setitem__(self, k, v):
            cur().environ[k] = v

        def __delitem__(self, k):
            del cur().environ[k]

        def pop(self, k, *d):
            return cur().environ.pop(k, *d)
    m.environ = _Environ()
    return m


# ------------------------------------------------------------ urllib.parse
def _quote_char(safe):
    return lambda c: _up.quote(c, safe=safe)


_qcache = {}


def _q(s, safe, plus):
    if s.__class__ is not SymStr:
        s2 = concretise(s)
        return (_up.quote_plus if plus else _up.quote)(s2, safe)
    k = (safe, plus)
    f = _qcache.get(k)
    if f is None:
        f = _qcache[k] = (lambda c: _up.quote_plus(c, safe)) if plus else (lambda c: _up.quote(c, safe))
    out = []
    for p in s.p:
        out.extend(map_piece(p, f))
    return mk(out)


def quote(string, safe="/", encoding=None, errors=None):
    return _q(string, concretise(safe), False)


def quote_plus(string, safe="", encoding=None, errors=None):
    return _q(string, concretise(safe), True)


def unquote(string, encoding="utf-8", errors="replace"):
    if string.__class__ is not SymStr:
        return _up.unquote(string, encoding, errors)
    out = []
    ps = string.p
    run = []

    def flush():
        if run:
            b = mk(list(run), SymBytes)
            run.clear()
            if b.__class__ is bytes:
                out.extend(b.decode("utf-8", "replace"))
            else:
                try:
                    out.extend(pieces(decode_bytes(b)))
                except UnicodeDecodeError:
                    out.extend(concretise(b).decode("utf-8", "replace"))
    ishex = lambda p: bool(ch_test(p, "hexdigit", lambda c: c in "0123456789abcdefABCDEF"))  # noqa
    i = 0
    while i < len(ps):
        p = ps[i]
        if ch_eq(p, "%") and i + 2 < len(ps) + 0 and ishex(ps[i + 1]) and ishex(ps[i + 2]):
            v = lift(lambda h: bytes([int(h, 16)]), (mk(ps[i + 1:i + 3]),), {}) if issym(mk(ps[i + 1:i + 3])) else bytes([int("".join(ps[i + 1:i + 3]), 16)])
            run.extend(pieces(v) if v.__class__ is SymBytes else v.decode("latin-1"))
            i += 3
        elif run and ch_test(p, "isascii", str.isascii):
            flush()
            out.append(p)
            i += 1
        else:
            flush()
            out.append(p)
            i += 1
    flush()
    return mk(out)


def unquote_plus(string, encoding="utf-8", errors="replace"):
    return unquote(string.replace("+", " "), encoding, errors)


def parse_qs(qs, *a, **k):
    return from_native(lift_or(_up.parse_qs, qs, *a, **k))


def lift_or(f, x, *a, **k):
    return f(concretise(x), *a, **k)


def urlparse(x, *a, **k):
    return _up.urlparse(concretise(x), *a, **k)


urlsplit = urlparse


def urllib_modules():
    p = types.ModuleType("urllib.parse")
    p.quote_from_bytes = lambda b, safe="/": lift(_up.quote_from_bytes, (b, safe), {}) if issym(b) else _up.quote_from_bytes(b, safe)
    p.unquote_to_bytes = lambda b: _up.unquote_to_bytes(concretise(b))
    p.urljoin = lambda a, b, **k: _up.urljoin(concretise(a), concretise(b), **k)
    p.urlencode, p.urlunparse, p.urlunsplit = _up.urlencode, _up.urlunparse, _up.urlunsplit
    for n in ("quote", "quote_plus", "unquote", "unquote_plus", "parse_qs", "urlparse", "urlsplit"):
        setattr(p, n, globals()[n])
    u = types.ModuleType("urllib")
    u.parse = p
    return u, p


# ------------------------------------------------------------ logging
class _Logger:
    def __init__(self, name="root"):
        self.name = name
        self.level = 30
        self.handlers = []

    def _log(self, lvl, msg, a):
        cur().logs.append((lvl, msg, a))

    def debug(self, msg, *a, **k):
        pass

    info = debug

    def warning(self, msg, *a, **k):
        self._log("warning", msg, a)

    warn = warning

    def error(self, msg, *a, **k):
        self._log("error", msg, a)

    critical = exception = error

    def log(self, lvl, msg, *a, **k):
        self._log(lvl, msg, a)

    def setLevel(self, lvl):
        self.level = lvl

    def addHandler(self, h):
        pass

    removeHandler = addHandler

    def isEnabledFor(self, lvl):
        return False

    def getEffectiveLevel(self):
        return 30


def logging_module():
    m = types.ModuleType("logging")
    root = _Logger()
    for n in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log"):
        setattr(m, n, getattr(root, n))
    m.getLogger = lambda name=None: root
    m.basicConfig = lambda **k: None
    m.DEBUG, m.INFO, m.WARNING, m.WARN, m.ERROR, m.CRITICAL = 10, 20, 30, 30, 40, 50
    m.Logger = _Logger
    m.StreamHandler = m.FileHandler = lambda *a, **k: _Logger()
    m.Formatter = lambda *a, **k: None
    m.NullHandler = m.StreamHandler
    return m


def tempfile_module(osm):
    m = types.ModuleType("tempfile")

    def mkdtemp(suffix="", prefix="tmp", dir=None):
        f = cur().fs
        f.ntemp += 1
        p = (dir or "/tmp") + "/" + (prefix or "tmp") + "%04d" % f.ntemp + (suffix or "")
        f.putdir("/tmp")
        f.mkdir(p)
        return p
    m.mkdtemp = mkdtemp
    m.gettempdir = lambda: "/tmp"

    class TemporaryDirectory:
        def __init__(self, *a, **k):
            self.name = mkdtemp()

        def __enter__(self):
            return self.name

        def __exit__(self, *a):
            cur().fs.rmtree(self.name)
    m.TemporaryDirectory = TemporaryDirectory

    def mktemp(suffix="", prefix="tmp", dir=None):
        f = cur().fs
        f.ntemp += 1
        f.putdir("/tmp")
        return (dir or "/tmp") + "/" + (prefix or "tmp") + "%04d" % f.ntemp + (suffix or "")
    m.mktemp = mktemp

    def mkstemp(suffix="", prefix="tmp", dir=None, text=False):
        p = mktemp(suffix, prefix, dir)
        h = cur().fs.open(p, "x")
        h.close()
        return Fd(h), p
    m.mkstemp = mkstemp

    class _Named:
        def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix="", prefix="tmp", dir=None,
                     delete=True, **k):
            self.name = mktemp(suffix, prefix, dir)
            self.h = cur().fs.open(self.name, mode.replace("+", "").replace("x", "w"), encoding=encoding)
            self.delete = delete
            self.file = self.h

        def __getattr__(self, n):
            return getattr(self.h, n)

        def __enter__(self):
            return self

        def close(self):
            self.h.close()
            if self.delete and cur().fs.exists(self.name):
                cur().fs.remove(self.name)

        def __exit__(self, *a):
            self.close()
            return False

        def __iter__(self):
            return iter(self.h)
    m.NamedTemporaryFile = lambda *a, **k: _Named(*a, **k)
    return m


class Fd:
    """A file descriptor: only good for os.fdopen, os.close and os.fsync."""

    def __init__(self, h):
        self.h = h


def fdopen(fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True):
    return cur().fs.open(fd.h.path if isinstance(fd, Fd) else fd, mode, encoding=encoding)


def time_module():
    import time as _t
    m = types.ModuleType("time")
    m.time = lambda: cur().now
    m.sleep = lambda s: None
    m.gmtime, m.strftime, m.localtime, m.mktime = _t.gmtime, _t.strftime, _t.gmtime, _t.mktime
    return m


def codecs_module():
    import codecs as _c
    m = types.ModuleType("codecs")
    for n in dir(_c):
        if not n.startswith("__"):
            setattr(m, n, getattr(_c, n))

    def encode(obj, encoding="utf-8", errors="strict"):
        if issym(obj):
            return lift(_c.encode, (obj, encoding, errors), {})
        return _c.encode(obj, encoding, errors)
    m.encode = encode

    def open_(filename, mode="r", encoding=None, errors="strict", buffering=-1):
        return cur().fs.open(filename, mode, encoding=encoding)
    m.open = open_
    return m


def sys_module():
    import sys as _s
    m = types.ModuleType("sys")
    for n in ("version_info", "version", "maxsize", "platform", "byteorder", "exc_info", "getrecursionlimit",
              "getdefaultencoding", "getfilesystemencoding", "path", "prefix", "implementation", "hexversion"):
        setattr(m, n, getattr(_s, n))

    class _Out:
        def __init__(self, which):
            self.which = which
            self.encoding = "utf-8"

        def write(self, s):
            cur().stdout.append(s)

        def flush(self):
            pass

        def isatty(self):
            return False
    m.stdout, m.stderr = _Out("out"), _Out("err")
    m.stdin = None
    m.argv = ["prog"]
    m.modules = {}
    m.intern = lambda x: x
    m.audit = lambda *a: None

    def exit(code=None):
        raise SystemExit(code)
    m.exit = exit
    return m


def copy_module():
    import copy as _c
    return _c


# ------------------------------------------------------------ io
class StringIO:
    """In-memory text or byte stream over symbolic data."""
    empty = ""

    def __init__(self, initial=None, newline="\n"):
        self.data = self.empty if initial is None else initial
        self.pos = 0
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def write(self, s):
        from .content import cat
        if self.pos != len(self.data):
            raise Unsupported("write inside an in-memory stream")
        self.data = s if len(self.data) == 0 else cat(self.data, s)
        self.pos = len(self.data)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return self.data

    def read(self, n=-1):
        r = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, limit=-1):
        rest = self.data[self.pos:]
        i = rest.find("\n" if self.empty == "" else b"\n")
        r = rest if i < 0 else rest[:i + 1]
        self.pos += len(r)
        return r

    def readlines(self):
        out = []
        while True:
            line = self.readline()
            if len(line) == 0:
                return out
            out.append(line)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(self.data) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def flush(self):
        return None

    def close(self):
        self.closed = True

    def truncate(self, size=None):
        self.data = self.data[:self.pos if size is None else size]
        return len(self.data)

    def readable(self):
        return True

    writable = seekable = readable


class BytesIO(StringIO):
    empty = b""

    def __init__(self, initial=None):
        StringIO.__init__(self, initial)


def io_module():
    import io as _io
    m = types.ModuleType("io")
    for n in ("SEEK_SET", "SEEK_CUR", "SEEK_END", "UnsupportedOperation", "DEFAULT_BUFFER_SIZE", "IOBase", "RawIOBase",
              "BufferedIOBase", "TextIOBase"):
        setattr(m, n, getattr(_io, n))
    m.StringIO, m.BytesIO = StringIO, BytesIO
    m.open = lambda p, mode="r", *a, **k: cur().fs.open_builtin(fspath(p), mode, *a, **k)
    m.text_encoding = lambda e, stacklevel=2: e if e is not None else "utf-8"

    class TextIOWrapper:
        def __new__(cls, raw, encoding="utf-8", errors=None, newline=None, **k):
            t = raw.read().decode(encoding or "utf-8")
            if newline is None:
                t = t.replace("\r\n", "\n").replace("\r", "\n")
            return StringIO(t)
    m.TextIOWrapper = TextIOWrapper
    m.BufferedReader = lambda raw, *a, **k: raw
    return m


class Blocked(types.ModuleType):
    """A module whose effects are outside the model: using anything in it ends the path as unsupported."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def use(*a, **k):
            raise Unsupported("%s.%s is outside the model" % (self.__name__, name))
        return use


def shutil_module(osm, fss):
    m = types.ModuleType("shutil")
    path = osm.path

    class Error(OSError):
        pass
    m.Error = Error

    def copyfile(src, dst, **k):
        with cur().fs.open(fspath(src), "rb") as a:
            data = a.read()
        with cur().fs.open(fspath(dst), "wb") as b:
            b.write(data)
        return dst

    def copy(src, dst, **k):
        if path.isdir(dst):
            dst = path.join(dst, path.basename(src))
        return copyfile(src, dst)

    def copyfileobj(a, b, length=0):
        while True:
            data = a.read(length or 262144)
            if len(data) == 0:
                return
            b.write(data)

    def copytree(src, dst, symlinks=False, ignore=None, copy_function=copy, dirs_exist_ok=False, **k):
        if ignore is not None:
            raise Unsupported("copytree with ignore")
        names = osm.listdir(src)
        osm.makedirs(dst, exist_ok=dirs_exist_ok)
        for n in names:
            a, b = path.join(src, n), path.join(dst, n)
            if path.isdir(a):
                copytree(a, b, copy_function=copy_function, dirs_exist_ok=dirs_exist_ok)
            else:
                copy_function(a, b)
        return dst

    def rmtree(p, ignore_errors=False, onerror=None, **k):
        try:
            cur().fs.rmtree(fspath(p))
        except OSError:
            if not ignore_errors:
                raise

    def move(src, dst, **k):
        if path.isdir(dst):
            dst = path.join(dst, path.basename(src))
        cur().fs.rename(fspath(src), fspath(dst))
        return dst
    m.copyfile, m.copy, m.copy2, m.copyfileobj, m.copytree, m.rmtree, m.move = copyfile, copy, copy, copyfileobj, copytree, rmtree, move
    m.copystat = m.copymode = lambda a, b, **k: None
    m.get_terminal_size = lambda *a, **k: _os.terminal_size((80, 24))
    return m
