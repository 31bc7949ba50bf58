"""fsspec AbstractFileSystem / LocalFileSystem / DirFileSystem, transcribed from
the installed fsspec (loaded instrumented, over the model file system)."""
import symx_os as os
import symx_os_env as base


class AbstractFileSystem:
    protocol = "abstract"
    root_marker = ""
    sep = "/"
    async_impl = False
    asynchronous = False

    def __init__(self, *args, **storage_options):
        pass

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        path = base.stringify(path)
        protos = (cls.protocol,) if isinstance(cls.protocol, str) else cls.protocol
        for protocol in protos:
            if path.startswith(protocol + "://"):
                path = path[len(protocol) + 3:]
            elif path.startswith(protocol + "::"):
                path = path[len(protocol) + 2:]
        path = path.rstrip("/")
        return path or cls.root_marker

    def exists(self, path, **kwargs):
        try:
            self.info(path, **kwargs)
            return True
        except Exception:
            return False

    lexists = exists

    def makedir(self, path, create_parents=True, **kwargs):
        return self.mkdir(path, create_parents=create_parents, **kwargs)

    def mkdirs(self, path, exist_ok=False):
        return self.makedirs(path, exist_ok=exist_ok)

    def listdir(self, path, detail=True, **kwargs):
        return self.ls(path, detail=detail, **kwargs)

    def stat(self, path, **kwargs):
        return self.info(path, **kwargs)

    def size(self, path):
        return self.info(path).get("size", None)

    def delete(self, path, recursive=False, maxdepth=None):
        return self.rm(path, recursive=recursive, maxdepth=maxdepth)

    def rename(self, path1, path2, **kwargs):
        return self.mv(path1, path2, **kwargs)

    def move(self, path1, path2, **kwargs):
        return self.mv(path1, path2, **kwargs)

    def read_text(self, path, encoding=None, errors=None, newline=None, **kwargs):
        with self.open(path, mode="r", encoding=encoding, errors=errors, newline=newline, **kwargs) as f:
            return f.read()

    def write_text(self, path, value, encoding=None, errors=None, newline=None, **kwargs):
        with self.open(path, mode="w", encoding=encoding, errors=errors, newline=newline, **kwargs) as f:
            return f.write(value)

    def read_bytes(self, path, start=None, end=None, **kwargs):
        with self.open(path, "rb") as f:
            d = f.read()
        return d[start:end] if start is not None or end is not None else d

    cat_file = read_bytes

    def write_bytes(self, path, value, **kwargs):
        with self.open(path, "wb") as f:
            f.write(value)

    pipe_file = write_bytes

    def to_json(self, *a, **k):
        return '{"cls": "%s"}' % type(self).__name__

    def walk(self, path, maxdepth=None, topdown=True, on_error="omit", **kwargs):
        path = self._strip_protocol(path)
        full_dirs = {}
        dirs = {}
        files = {}
        detail = kwargs.pop("detail", False)
        try:
            listing = self.ls(path, detail=True, **kwargs)
        except (FileNotFoundError, OSError) as e:
            if on_error == "raise":
                raise
            if callable(on_error):
                on_error(e)
            return
        for info in listing:
            pathname = info["name"].rstrip("/")
            name = pathname.rsplit("/", 1)[-1]
            if info["type"] == "directory" and pathname != path:
                full_dirs[name] = pathname
                dirs[name] = info
            elif pathname == path:
                files[""] = info
            else:
                files[name] = info
        if not detail:
            dirs = list(dirs)
            files = list(files)
        if topdown:
            yield path, dirs, files
        if maxdepth is not None:
            maxdepth -= 1
            if maxdepth < 1:
                if not topdown:
                    yield path, dirs, files
                return
        for d in dirs:
            yield from self.walk(full_dirs[d], maxdepth=maxdepth, detail=detail, topdown=topdown, **kwargs)
        if not topdown:
            yield path, dirs, files

    def find(self, path, maxdepth=None, withdirs=False, detail=False, **kwargs):
        path = self._strip_protocol(path)
        out = {}
        for p, dirs, files in self.walk(path, maxdepth, detail=True, **kwargs):
            if withdirs:
                for info in dirs.values():
                    out[info["name"]] = info
            for info in files.values():
                out[info["name"]] = info
        if not out and self.isfile(path):
            out[path] = {}
        names = sorted(out)
        return names if not detail else {n: out[n] for n in names}


class LocalFileSystem(AbstractFileSystem):
    root_marker = "/"
    protocol = ("file", "local")

    def __init__(self, auto_mkdir=False, **kwargs):
        self.auto_mkdir = auto_mkdir

    @classmethod
    def _strip_protocol(cls, path):
        path = base.stringify(path)
        for proto in ("file", "local"):
            done = False
            for s in ("://", ":"):
                if path.startswith(proto + s):
                    path = path.removeprefix(proto + s)
                    done = True
                    break
            if done:
                break
        path = make_path_posix(path)
        return path.rstrip("/") or cls.root_marker

    def mkdir(self, path, create_parents=True, **kwargs):
        path = self._strip_protocol(path)
        if self.exists(path):
            raise FileExistsError(path)
        if create_parents:
            self.makedirs(path, exist_ok=True)
        else:
            os.mkdir(path)

    def makedirs(self, path, exist_ok=False):
        path = self._strip_protocol(path)
        os.makedirs(path, exist_ok=exist_ok)

    def rmdir(self, path):
        os.rmdir(self._strip_protocol(path))

    def ls(self, path, detail=False, **kwargs):
        path = self._strip_protocol(path)
        path_info = self.info(path)
        infos = []
        if path_info["type"] == "directory":
            for name in os.listdir(path):
                f = os.path.join(path, name)
                infos.append(self.info(f) if detail else self._strip_protocol(f))
        else:
            infos = [path_info] if detail else [path_info["name"]]
        return infos

    def info(self, path, **kwargs):
        path = self._strip_protocol(path)
        kind, size = base.fs_stat(path)
        return {"name": path, "size": size, "type": kind, "created": 0.0, "islink": False, "mode": 0, "uid": 0,
                "gid": 0, "mtime": 0.0, "ino": 0, "nlink": 1}

    def isfile(self, path):
        return base.fs_isfile(self._strip_protocol(path))

    def isdir(self, path):
        return base.fs_isdir(self._strip_protocol(path))

    def cp_file(self, path1, path2, **kwargs):
        path1 = self._strip_protocol(path1)
        path2 = self._strip_protocol(path2)
        if self.isfile(path1):
            with base.fs_open(path1, "rb") as a:
                with base.fs_open(path2, "wb") as b:
                    b.write(a.read())
        elif self.isdir(path1):
            self.mkdirs(path2, exist_ok=True)
        else:
            raise FileNotFoundError(path1)

    copy = cp_file

    def mv(self, path1, path2, recursive=True, **kwargs):
        os.rename(self._strip_protocol(path1), self._strip_protocol(path2))

    def islink(self, path):
        return False

    def rm_file(self, path):
        os.remove(self._strip_protocol(path))

    def rm(self, path, recursive=False, maxdepth=None):
        if not isinstance(path, list):
            path = [path]
        for p in path:
            p = self._strip_protocol(p)
            if self.isdir(p):
                if not recursive:
                    raise ValueError("Cannot delete directory, set recursive=True")
                base.fs_rmtree(p)
            else:
                os.remove(p)

    def touch(self, path, truncate=True, **kwargs):
        path = self._strip_protocol(path)
        base.fs_open(path, "wb" if truncate else "ab").close()

    def open(self, path, mode="rb", block_size=None, cache_options=None, compression=None, **kwargs):
        path = self._strip_protocol(path)
        return base.fs_open(path, mode, **kwargs)

    def __str__(self):
        return "<LocalFileSystem>"


def make_path_posix(path):
    if path.startswith("/"):
        return path
    elif path.startswith("~"):
        return os.path.expanduser(path)
    elif path.startswith("./"):
        path = path[2:]
    elif path == ".":
        path = ""
    return f"{os.getcwd()}/{path}"


def _escapes_root(path):
    depth = 0
    for part in path.split("/"):
        if part == "..":
            depth -= 1
            if depth < 0:
                return True
        elif part and part != ".":
            depth += 1
    return False


class DirFileSystem(AbstractFileSystem):
    protocol = "dir"

    def __init__(self, path=None, fs=None, fo=None, target_protocol=None, target_options=None, **storage_options):
        if fs is None:
            fs = filesystem(target_protocol)
        path = path or fo
        self.path = fs._strip_protocol(path)
        self.fs = fs

    def _join(self, path):
        if isinstance(path, str):
            if not self.path:
                return path
            if not path:
                return self.path
            path = self._strip_protocol(path)
            if isinstance(self.fs, LocalFileSystem) and _escapes_root(path):
                raise ValueError(f"path {path!r} escapes the {self.path!r} root of the filesystem")
            return self.fs.sep.join((self.path, path))
        if isinstance(path, dict):
            return {self._join(_path): value for _path, value in path.items()}
        return [self._join(_path) for _path in path]

    def _relpath(self, path):
        if isinstance(path, str):
            if not self.path:
                return path
            if path == self.path or (self.path.startswith(self.fs.sep) and path == self.path[1:]):
                return ""
            prefix = self.path + self.fs.sep
            if self.path.startswith(self.fs.sep) and not path.startswith(self.fs.sep):
                prefix = prefix[1:]
            assert path.startswith(prefix)
            return path[len(prefix):]
        return [self._relpath(_path) for _path in path]

    def rm_file(self, path, **kwargs):
        return self.fs.rm_file(self._join(path), **kwargs)

    def rm(self, path, *args, **kwargs):
        return self.fs.rm(self._join(path), *args, **kwargs)

    def delete(self, path, recursive=False, maxdepth=None):
        return self.fs.delete(self._join(path), recursive=recursive, maxdepth=maxdepth)

    def cp_file(self, path1, path2, **kwargs):
        return self.fs.cp_file(self._join(path1), self._join(path2), **kwargs)

    def copy(self, path1, path2, *args, **kwargs):
        return self.fs.copy(self._join(path1), self._join(path2), *args, **kwargs)

    def isfile(self, path):
        return self.fs.isfile(self._join(path))

    def isdir(self, path):
        return self.fs.isdir(self._join(path))

    def size(self, path):
        return self.fs.size(self._join(path))

    def exists(self, path):
        return self.fs.exists(self._join(path))

    def info(self, path, **kwargs):
        info = self.fs.info(self._join(path), **kwargs)
        info = info.copy()
        info["name"] = self._relpath(info["name"])
        return info

    def ls(self, path, detail=True, **kwargs):
        ret = self.fs.ls(self._join(path), detail=detail, **kwargs).copy()
        if detail:
            out = []
            for entry in ret:
                entry = entry.copy()
                entry["name"] = self._relpath(entry["name"])
                out.append(entry)
            return out
        return self._relpath(ret)

    def walk(self, path, *args, **kwargs):
        for root, dirs, files in self.fs.walk(self._join(path), *args, **kwargs):
            yield (self._relpath(root), dirs, files)

    def find(self, path, *args, **kwargs):
        return self._relpath(self.fs.find(self._join(path), *args, **kwargs))

    def mkdir(self, path, *args, **kwargs):
        return self.fs.mkdir(self._join(path), *args, **kwargs)

    def makedirs(self, path, *args, **kwargs):
        return self.fs.makedirs(self._join(path), *args, **kwargs)

    def rmdir(self, path):
        return self.fs.rmdir(self._join(path))

    def mv(self, path1, path2, **kwargs):
        return self.fs.mv(self._join(path1), self._join(path2), **kwargs)

    def touch(self, path, **kwargs):
        return self.fs.touch(self._join(path), **kwargs)

    def write_text(self, path, value, encoding=None, errors=None, newline=None, **kwargs):
        return self.fs.write_text(self._join(path), value, encoding=encoding, errors=errors, newline=newline, **kwargs)

    def open(self, path, *args, **kwargs):
        return self.fs.open(self._join(path), *args, **kwargs)

    def __str__(self):
        return f"DirFileSystem(path='{self.path}')"


class ZipFileSystem(AbstractFileSystem):
    protocol = "zip"

    def __init__(self, fo=None, **kw):
        raise FileNotFoundError(fo)


class S3FileSystem(AbstractFileSystem):
    protocol = ("s3", "s3a")

    def __init__(self, **kw):
        self.kw = kw

    def ls(self, path, detail=False):
        raise FileNotFoundError(path)


def filesystem(protocol, **kw):
    if protocol in ("file", "local"):
        return LocalFileSystem()
    raise ValueError("Protocol not known: %s" % protocol)
