"""posixpath, transcribed from the standard library (loaded instrumented)."""
sep = "/"
curdir = "."
pardir = ".."
extsep = "."
altsep = None
pathsep = ":"
devnull = "/dev/null"
from symx_os_env import getcwd, fs_exists, fs_isdir, fs_isfile, fspath, home


def isabs(s):
    return fspath(s).startswith("/")


def join(a, *p):
    a = fspath(a)
    path = a
    for b in p:
        b = fspath(b)
        if not isinstance(b, str):
            raise TypeError("join() argument must be str, bytes, or os.PathLike object")
        if b.startswith("/"):
            path = b
        elif not path or path.endswith("/"):
            path += b
        else:
            path += "/" + b
    return path


def split(p):
    p = fspath(p)
    i = p.rfind("/") + 1
    head, tail = p[:i], p[i:]
    if head and head != "/" * len(head):
        head = head.rstrip("/")
    return head, tail


def splitext(p):
    p = fspath(p)
    sepIndex = p.rfind("/")
    dotIndex = p.rfind(".")
    if dotIndex > sepIndex:
        filenameIndex = sepIndex + 1
        while filenameIndex < dotIndex:
            if p[filenameIndex:filenameIndex + 1] != ".":
                return p[:dotIndex], p[dotIndex:]
            filenameIndex += 1
    return p, p[:0]


def splitdrive(p):
    return p[:0], p


def splitroot(p):
    if p[:1] != "/":
        return "", "", p
    if p[1:2] != "/" or p[2:3] == "/":
        return "", "/", p[1:]
    return "", "//", p[2:]


def basename(p):
    p = fspath(p)
    i = p.rfind("/") + 1
    return p[i:]


def dirname(p):
    p = fspath(p)
    i = p.rfind("/") + 1
    head = p[:i]
    if head and head != "/" * len(head):
        head = head.rstrip("/")
    return head


def normpath(path):
    path = fspath(path)
    if not path:
        return "."
    initial_slashes = 1 if path.startswith("/") else 0
    if initial_slashes and path.startswith("//") and not path.startswith("///"):
        initial_slashes = 2
    path = path[initial_slashes:]
    comps = path.split("/")
    new_comps = []
    for comp in comps:
        if not comp or comp == ".":
            continue
        if (comp != ".." or (not initial_slashes and not new_comps) or (new_comps and new_comps[-1] == "..")):
            new_comps.append(comp)
        elif new_comps:
            new_comps.pop()
    comps = new_comps
    path = "/" * initial_slashes + "/".join(comps)
    return path or "."


def abspath(path):
    path = fspath(path)
    if not path.startswith("/"):
        path = join(getcwd(), path)
    return normpath(path)


def realpath(path, strict=False):
    return abspath(path)


def expanduser(path):
    path = fspath(path)
    if not path.startswith("~"):
        return path
    i = path.find("/", 1)
    if i < 0:
        i = len(path)
    if i != 1:
        return path
    return (home() + path[i:]) or "/"


def expandvars(path):
    return path


def normcase(s):
    return fspath(s)


def relpath(path, start=None):
    if not path:
        raise ValueError("no path specified")
    path = fspath(path)
    if start is None:
        start = "."
    else:
        start = fspath(start)
    start_tail = abspath(start).lstrip("/")
    path_tail = abspath(path).lstrip("/")
    start_list = start_tail.split("/") if start_tail else []
    path_list = path_tail.split("/") if path_tail else []
    i = len(commonprefix([start_list, path_list]))
    rel_list = [".."] * (len(start_list) - i) + path_list[i:]
    if not rel_list:
        return "."
    return join(*rel_list)


def commonprefix(m):
    if not m:
        return ""
    if not isinstance(m[0], (list, tuple)):
        m = tuple(map(fspath, m))
    s1 = min(m)
    s2 = max(m)
    for i, c in enumerate(s1):
        if c != s2[i]:
            return s1[:i]
    return s1


def commonpath(paths):
    paths = tuple(map(fspath, paths))
    if not paths:
        raise ValueError("commonpath() arg is an empty sequence")
    split_paths = [path.split("/") for path in paths]
    isabs_ = [p[:1] == "/" for p in paths]
    if any(isabs_) and not all(isabs_):
        raise ValueError("Can't mix absolute and relative paths")
    split_paths = [[c for c in s if c and c != "."] for s in split_paths]
    s1 = min(split_paths)
    s2 = max(split_paths)
    common = s1
    for i, c in enumerate(s1):
        if c != s2[i]:
            common = s1[:i]
            break
    prefix = "/" if isabs_[0] else ""
    return prefix + "/".join(common)


def exists(p):
    return fs_exists(p)


lexists = exists


def isdir(p):
    return fs_isdir(p)


def isfile(p):
    return fs_isfile(p)


def islink(p):
    return False


def ismount(p):
    return False


def getsize(p):
    from symx_os_env import fs_size
    return fs_size(p)


def samefile(a, b):
    return realpath(a) == realpath(b)
