"""Model of a POSIX file system tree (directories and regular files only).

Paths and names may be symbolic.  Every mutating primitive first calls
step(kind, path), where a harness may inject a crash or an I/O error, and logs
itself to .log.
"""
import errno
import os as _os
from ..core import E, Control, Unsupported
from ..symstr import SymStr, SymBytes, issym, concretise, ch_eq, ch_test, mk, pieces
from ..containers import SDict
from .content import JSeq, cat


class Dir:
    __slots__ = ("kids",)

    def __init__(self):
        self.kids = SDict()


class File:
    __slots__ = ("data",)

    def __init__(self, data=b""):
        self.data = data


def _err(cls, no, path):
    return cls(no, _os.strerror(no), path)


def size_of(data):
    return len(data)


class ModelFS:
    """The tree plus POSIX-like primitives over absolute paths."""

    def __init__(self):
        self.root = Dir()
        self.cwd = "/"
        self.hook = None
        self.dead = False          # after a simulated crash nothing changes any more
        self.log = []
        self.reverse = False       # directory listing order
        self.ntemp = 0

    # ------------------------------------------------------------ helpers
    def comps(self, path):
        if not isinstance(path, str) and path.__class__ is not SymStr:
            if hasattr(path, "__fspath__"):
                path = path.__fspath__()
            else:
                raise TypeError("stat: path should be string, bytes, os.PathLike or integer, not %s" % type(path).__name__)
        if len(path) == 0:
            raise _err(FileNotFoundError, errno.ENOENT, path)
        if path.__class__ is SymStr:
            for p in path.p:
                if p.__class__ is not str and bool(ch_eq(p, "\0")):
                    raise ValueError("embedded null byte")
        if "\0" in (path if path.__class__ is str else ()):
            raise ValueError("embedded null byte")
        if not bool(path.startswith("/")) if path.__class__ is SymStr else not path.startswith("/"):
            path = self.cwd + "/" + path
        parts = path.split("/")
        out = []
        trailing = False
        for i, c in enumerate(parts):
            if len(c) == 0 or c == ".":
                trailing = i == len(parts) - 1 and i > 0
                continue
            trailing = False
            out.append(c)
            if len(c) > 60 and len(concretise_len(c)) > 255:
                raise _err(OSError, errno.ENAMETOOLONG, path)
        return out, trailing

    def lookup(self, path):
        """Node at path; raises FileNotFoundError / NotADirectoryError."""
        comps, trailing = self.comps(path)
        stack = [self.root]
        for c in comps:
            cur = stack[-1]
            if not isinstance(cur, Dir):
                raise _err(NotADirectoryError, errno.ENOTDIR, path)
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            nxt = cur.kids.get(c)
            if nxt is None:
                raise _err(FileNotFoundError, errno.ENOENT, path)
            stack.append(nxt)
        if trailing and not isinstance(stack[-1], Dir):
            raise _err(NotADirectoryError, errno.ENOTDIR, path)
        return stack[-1]

    def parent(self, path):
        """(parent Dir, final name) for creating or removing an entry."""
        comps, trailing = self.comps(path)
        stack = [self.root]
        if not comps:
            return None, None, trailing
        for c in comps[:-1]:
            cur = stack[-1]
            if not isinstance(cur, Dir):
                raise _err(NotADirectoryError, errno.ENOTDIR, path)
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            nxt = cur.kids.get(c)
            if nxt is None:
                raise _err(FileNotFoundError, errno.ENOENT, path)
            stack.append(nxt)
        if not isinstance(stack[-1], Dir):
            raise _err(NotADirectoryError, errno.ENOTDIR, path)
        last = comps[-1]
        if last == "..":
            return None, None, trailing
        return stack[-1], last, trailing

    def step(self, kind, path):
        if self.hook is not None and not self.dead:
            self.hook(kind, path)
        self.log.append((kind, path))

    # ------------------------------------------------------------ queries
    def node(self, path):
        try:
            return self.lookup(path)
        except (OSError, ValueError):
            return None

    def exists(self, path):
        return self.node(path) is not None

    def isdir(self, path):
        return isinstance(self.node(path), Dir)

    def isfile(self, path):
        return isinstance(self.node(path), File)

    def names(self, path):
        d = self.lookup(path)
        if not isinstance(d, Dir):
            raise _err(NotADirectoryError, errno.ENOTDIR, path)
        ns = list(d.kids.keys())
        if self.reverse:
            ns.reverse()
        return ns

    # ------------------------------------------------------------ mutation
    def mkdir(self, path):
        p, name, _ = self.parent(path)
        if p is None or name in p.kids:
            raise _err(FileExistsError, errno.EEXIST, path)
        self.step("mkdir", path)
        if not self.dead:
            p.kids[name] = Dir()

    def remove(self, path):
        n = self.lookup(path)
        if isinstance(n, Dir):
            raise _err(IsADirectoryError, errno.EISDIR, path)
        p, name, _ = self.parent(path)
        self.step("remove", path)
        if not self.dead:
            del p.kids[name]

    def rmdir(self, path):
        n = self.lookup(path)
        if not isinstance(n, Dir):
            raise _err(NotADirectoryError, errno.ENOTDIR, path)
        if len(n.kids):
            raise _err(OSError, errno.ENOTEMPTY, path)
        p, name, _ = self.parent(path)
        self.step("rmdir", path)
        if not self.dead:
            del p.kids[name]

    def rmtree(self, path):
        n = self.lookup(path)
        if not isinstance(n, Dir):
            raise _err(NotADirectoryError, errno.ENOTDIR, path)
        for name in list(n.kids.keys()):
            sub = path + "/" + name
            if isinstance(n.kids[name], Dir):
                self.rmtree(sub)
            else:
                self.remove(sub)
        self.rmdir(path)

    def rename(self, a, b):
        n = self.lookup(a)
        pa, na, _ = self.parent(a)
        pb, nb, _ = self.parent(b)
        old = pb.kids.get(nb)
        if old is not None:
            if isinstance(n, Dir) != isinstance(old, Dir):
                raise _err(OSError, errno.EISDIR if isinstance(old, Dir) else errno.ENOTDIR, b)
            if isinstance(old, Dir) and len(old.kids):
                raise _err(OSError, errno.ENOTEMPTY, b)
        self.step("rename", a)
        if not self.dead:
            del pa.kids[na]
            pb.kids[nb] = n

    def open(self, path, mode="r", encoding=None, errors=None, newline=None, **kw):
        binary = "b" in mode
        m = mode.replace("b", "").replace("t", "")
        if m not in ("r", "w", "a", "x", "r+"):
            raise Unsupported("open mode %s" % mode)
        if m in ("r", "r+"):
            n = self.lookup(path)
            if isinstance(n, Dir):
                raise _err(IsADirectoryError, errno.EISDIR, path)
            if m == "r+":
                raise Unsupported("open mode r+")
            return Handle(self, path, n, "r", binary, encoding, newline)
        p, name, trailing = self.parent(path)
        if p is None:
            raise _err(IsADirectoryError, errno.EISDIR, path)
        n = p.kids.get(name)
        if isinstance(n, Dir):
            raise _err(IsADirectoryError, errno.EISDIR, path)
        if trailing:
            raise _err(IsADirectoryError if n is None else NotADirectoryError, errno.EISDIR, path)
        if m == "x" and n is not None:
            raise _err(FileExistsError, errno.EEXIST, path)
        if m == "a" and n is not None:
            return Handle(self, path, n, "w", binary, encoding, newline)
        self.step("open-w", path)
        if self.dead:
            return Handle(self, path, File(), "w", binary, encoding, newline)
        if n is None:
            n = File()
            p.kids[name] = n
        n.data = b""
        return Handle(self, path, n, "w", binary, encoding, newline)

    def open_builtin(self, path, mode="r", *a, **kw):
        if a:
            kw.pop("buffering", None)
        kw = {k: v for k, v in kw.items() if k in ("encoding", "errors", "newline")}
        return self.open(path, mode, **kw)

    # ------------------------------------------------------------ harness side
    def put(self, path, data):
        """Create a file and its parents without counting as an operation."""
        comps, _ = self.comps(path)
        d = self.root
        for c in comps[:-1]:
            nxt = d.kids.get(c)
            if nxt is None:
                nxt = Dir()
                d.kids[c] = nxt
            d = nxt
        d.kids[comps[-1]] = File(data)

    def putdir(self, path):
        comps, _ = self.comps(path)
        d = self.root
        for c in comps:
            nxt = d.kids.get(c)
            if nxt is None:
                nxt = Dir()
                d.kids[c] = nxt
            d = nxt

    def delete(self, path):
        p, name, _ = self.parent(path)
        del p.kids[name]

    def tree(self, path="/"):
        """[(relative path, File or Dir)] below path."""
        out = []

        def rec(d, pre):
            for name, n in d.kids.items():
                rel = name if pre is None else pre + "/" + name
                out.append((rel, n))
                if isinstance(n, Dir):
                    rec(n, rel)
        n = self.node(path)
        if isinstance(n, Dir):
            rec(n, None)
        return out


def concretise_len(c):
    """Lower bound on the encoded length of a component, as a string of that length."""
    if c.__class__ is str:
        return c.encode("utf-8", "surrogateescape")
    return c


class Handle:
    """File object (text or binary)."""

    def __init__(self, fs, path, node, mode, binary, encoding=None, newline=None):
        self.fs, self.path, self.node, self.m, self.binary = fs, path, node, mode, binary
        self.newline = newline
        self.encoding = encoding or "utf-8"
        self.closed = False
        self.name = path
        self.pos = 0
        self.buf = None
        self.wrote = False
        self.mode = mode + ("b" if binary else "")
        if mode == "r":
            self.buf = node.data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        return None

    def fileno(self):
        return -1

    def isatty(self):
        return False

    def readable(self):
        return self.m == "r"

    def writable(self):
        return self.m == "w"

    def _text(self):
        d = self.buf
        if self.binary:
            return d
        if isinstance(d, JSeq):
            return JSeq(d.parts, "t")
        t = d.decode(self.encoding)
        if self.newline is None and ("\r" in t):
            t = t.replace("\r\n", "\n").replace("\r", "\n")
        self.buf = None
        self.cached = t
        return t

    cached = None

    def read(self, n=-1):
        if self.m != "r":
            import io
            raise io.UnsupportedOperation("not readable")
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        d = self.cached if self.cached is not None else self._text()
        empty = b"" if self.binary else ""
        if isinstance(d, JSeq):
            if self.pos or (n == 0):
                return empty
            if n is None or n < 0 or n >= JSeq.NOMINAL:
                self.pos = 1
                return d
            raise Unsupported("partial read of a JSON document")
        if n is None or n < 0:
            r = d[self.pos:]
        else:
            r = d[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self, limit=-1):
        d = self.cached if self.cached is not None else self._text()
        if isinstance(d, JSeq):
            raise Unsupported("readline of a JSON document")
        rest = d[self.pos:]
        if len(rest) == 0:
            return rest
        i = rest.find("\n" if not self.binary else b"\n")
        r = rest if i < 0 else rest[:i + 1]
        self.pos += len(r)
        return r

    def readlines(self):
        out = []
        while True:
            line = self.readline()
            if len(line) == 0:
                return out
            out.append(line)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, pos, whence=0):
        d = self.cached if self.cached is not None else self._text()
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(d) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        if self.m != "w":
            import io
            raise io.UnsupportedOperation("not writable")
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not self.binary:
            if not isinstance(data, (str, SymStr, JSeq)):
                raise TypeError("write() argument must be str, not %s" % type(data).__name__)
            enc = data.encode(self.encoding)
        else:
            if isinstance(data, (str, SymStr)):
                raise TypeError("a bytes-like object is required, not 'str'")
            enc = data
        if len(enc) and not self.wrote:
            self.wrote = True
            self.fs.step("write", self.path)
        if not self.fs.dead:
            self.node.data = cat(self.node.data, enc)
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, size=None):
        raise Unsupported("truncate")
