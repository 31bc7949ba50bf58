"""Replay server: runs harnesses on concrete inputs against the real, uninstrumented code.

Runs under the interpreter the code under test uses.  Reads JSON lines
{"mod","fn","params","inputs","repo"} and answers with JSON lines.  Drops to an
unprivileged user and refuses (audit hook) every write outside its scratch directory.
"""
import base64
import builtins
import contextlib
import importlib
import io
import json
import os
import shutil
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
NOBODY = 65534


class PathEnd(BaseException):
    pass


class SimCrash(BaseException):
    pass


class Escape(BaseException):
    """Code under test tried to write outside its scratch directory."""


class Guard:
    """Audit hook: containment, and counting of mutating steps for fault injection."""

    def __init__(self):
        self.scratch = None
        self.on = False
        self.escapes = []
        self.fault = None
        self.dead = False

    def within(self, p):
        if isinstance(p, int):
            return True
        p = os.fsdecode(p)
        q = os.path.realpath(os.path.join(os.getcwd(), p))
        return q == self.scratch or q.startswith(self.scratch + "/")

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            w = (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            if not w or isinstance(path, int) or path is None:
                return
            self.mutate("open-w", path)
        elif event in ("os.mkdir", "os.remove", "os.rmdir"):
            p = args[0]
            fd = args[-1]
            if isinstance(fd, int) and fd >= 0:
                p = os.path.join(os.readlink("/proc/self/fd/%d" % fd), os.fsdecode(p))
            self.mutate(event[3:], p)
        elif event in ("os.rename", "os.link", "os.symlink"):
            self.mutate("rename", args[0], args[1])
        elif event in ("os.truncate", "os.chmod", "os.chown", "os.utime", "os.setxattr"):
            self.contain(args[0])
        elif event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork", "os.kill", "socket.connect"):
            self.on = False
            raise Escape("forbidden %s" % event)

    def contain(self, *paths):
        for p in paths:
            if not self.within(p):
                if os.fsdecode(p) == "/dev/null":
                    continue
                self.escapes.append(os.fsdecode(p))
                raise PermissionError(13, "write outside the scratch directory", os.fsdecode(p))

    def mutate(self, kind, *paths):
        self.contain(*paths)
        if self.fault is not None:
            # only count operations that are going to succeed, as the model does
            p = os.fsdecode(paths[0])
            if kind == "mkdir" and os.path.lexists(p):
                return
            if kind in ("remove", "rmdir", "rename") and not os.path.lexists(p):
                return
            if kind == "open-w" and (os.path.isdir(p) or not os.path.isdir(os.path.dirname(p) or ".")):
                return
            if kind == "mkdir" and not os.path.isdir(os.path.dirname(p.rstrip("/")) or "."):
                return
            self.fault(kind, p)


GUARD = Guard()
real_open = builtins.open


class WriteProxy:
    """File object proxy that reports its first write as a step."""

    def __init__(self, f, path):
        self.__dict__["_f"], self.__dict__["_path"], self.__dict__["_w"] = f, path, False

    def write(self, data):
        if not self._w and len(data):
            self.__dict__["_w"] = True
            if GUARD.fault is not None:
                GUARD.fault("write", self._path)
        return self._f.write(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


def patched_open(file, mode="r", *a, **k):
    f = real_open(file, mode, *a, **k)
    if GUARD.fault is not None and any(c in mode for c in "wax+"):
        return WriteProxy(f, file)
    return f


class ConcCtx:
    sym = False

    def __init__(self, inputs, root):
        self.inputs = inputs
        self.used = {}
        self.root = root
        self.obs = []
        self.labels = {}
        self.violations = []
        self.known_hits = []
        self.steps = 0

    def _get(self, name):
        self.used[name] = self.used.get(name, 0) + 1
        if self.used[name] > 1:
            name = "%s#%d" % (name, self.used[name])
        return self.inputs[name]

    def choice(self, name, options):
        return options[self._get(name)]

    def boolean(self, name):
        return self.choice(name, (False, True))

    def str(self, name, lo, hi=None, alphabet=None):
        if hi is not None and hi > lo:
            self._get(name + ".len")
        return self._get(name)

    def sel(self, name, options):
        if len(set(map(len, options))) > 1:
            self._get(name + ".len")
        return self._get(name)

    def int(self, name, lo, hi):
        return self._get(name)

    def assume(self, cond):
        if not cond:
            raise PathEnd("assumption does not hold")

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def check(self, cond, label, known=(), **info):
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond:
            return True
        for kid, kc in known:
            if kc:
                self.known_hits.append((kid, label))
                break
        else:
            self.violations.append((label, {k: self.norm(repr(v)) for k, v in info.items()}))
        raise PathEnd(label)

    def fail(self, label, known=(), **info):
        self.check(False, label, known=known, **info)

    def norm(self, v):
        if isinstance(v, str):
            return v.replace(self.root, "/s")
        if isinstance(v, bytes):
            return v.replace(self.root.encode(), b"/s")
        if isinstance(v, (list, tuple)):
            return [self.norm(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return {self.norm(x) for x in v}
        if isinstance(v, dict):
            return {self.norm(k): self.norm(x) for k, x in v.items()}
        return v

    def observe(self, name, value):
        self.obs.append((name, self.norm(value)))

    def eq(self, a, b):
        return a == b

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def no(self, cond):
        return not cond

    def concrete(self, x):
        return x

    def path(self, *rel):
        p = self.root
        for r in rel:
            p = p + "/" + r
        return p

    def _quiet(self):
        return _Quiet()

    def put(self, rel, data):
        with _Quiet():
            p = self.root + "/" + rel
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(data, str):
                data = data.encode("utf-8")
            with real_open(p, "wb") as fh:
                fh.write(data)

    def mkdir(self, rel):
        with _Quiet():
            os.makedirs(self.root + "/" + rel, exist_ok=True)

    def putjson(self, rel, obj):
        self.put(rel, json.dumps(obj, indent=2))

    def remove(self, rel):
        with _Quiet():
            p = self.root + "/" + rel
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.remove(p)

    def rename(self, a, b):
        with _Quiet():
            os.makedirs(os.path.dirname(self.root + "/" + b), exist_ok=True)
            os.rename(self.root + "/" + a, self.root + "/" + b)

    def exists(self, rel):
        return os.path.lexists(self.root + "/" + rel)

    def isdir(self, rel):
        return os.path.isdir(self.root + "/" + rel)

    def isfile(self, rel):
        return os.path.isfile(self.root + "/" + rel)

    def listdir(self, rel):
        return os.listdir(self.root + "/" + rel)

    def read(self, rel):
        with real_open(self.root + "/" + rel, "rb") as fh:
            return fh.read()

    def readjson(self, rel):
        return json.loads(self.read(rel))

    def _walk(self, rel):
        base = self.root + ("/" + rel if rel else "")
        for d, dn, fn in os.walk(base):
            dn.sort()
            for x in dn:
                yield os.path.relpath(os.path.join(d, x), base), True
            for x in sorted(fn):
                yield os.path.relpath(os.path.join(d, x), base), False

    def files(self, rel=""):
        return {p: self.read((rel + "/" if rel else "") + p) for p, isd in self._walk(rel) if not isd}

    def dirs(self, rel=""):
        return [p for p, isd in self._walk(rel) if isd]

    def snapshot(self, rel=""):
        return {p: (None if isd else self.read((rel + "/" if rel else "") + p)) for p, isd in self._walk(rel)}

    def snapshot_outside(self):
        return list(GUARD.escapes)

    def cwd(self, rel=""):
        os.chdir(self.root + ("/" + rel if rel else ""))

    def listing_order(self, reverse):
        global _REVERSE
        _REVERSE = reverse

    def run_with_fault(self, fn, kind, maxstep=200):
        target = self._get("fault.step")
        state = {"n": 0, "hit": None}

        def fault(k, path):
            if state["hit"] is not None:
                if kind == "crash":
                    raise SimCrash()
                return
            i = state["n"]
            state["n"] = i + 1
            if i == target:
                state["hit"] = (k, path)
                if kind == "crash":
                    raise SimCrash()
                raise OSError(28, "No space left on device", path)
        GUARD.fault = fault
        try:
            fn()
            r = "done"
        except SimCrash:
            r = "crashed"
        except Exception as e:  # noqa
            if state["hit"] is None:
                raise
            r = ("exc", e)
        finally:
            GUARD.fault = None
        self.fault_hit = state["hit"] is not None
        self.steps = state["n"]
        return r

    def run_script(self, fname, argv):
        path = os.path.join(REPO, fname)
        out = io.StringIO()
        saved = sys.argv
        sys.argv = [path] + list(argv)
        self.script_exc = None
        try:
            with contextlib.redirect_stdout(out):
                try:
                    code = _script_code(path)
                    exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": builtins})
                    st = 0
                except SystemExit as e:
                    st = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
                except Exception as e:  # noqa: a script ends with a traceback and status 1
                    self.script_exc = type(e).__name__
                    st = 1
        finally:
            sys.argv = saved
        return st, self.norm(out.getvalue())

    def stdout_mark(self):
        return _STDOUT.tell()

    def stdout_since(self, mark):
        return self.norm(_STDOUT.getvalue()[mark:])

    def native(self, fn, *args):
        return fn(*args)


_codes = {}
_STDOUT = io.StringIO()
_REVERSE = False
_real_listdir = os.listdir


def _script_code(path):
    if path not in _codes:
        with real_open(path, encoding="utf-8") as fh:
            _codes[path] = compile(fh.read(), path, "exec")
    return _codes[path]


class _Quiet:
    """Harness-side file operations are not the code under test."""

    def __enter__(self):
        self.f, GUARD.fault = GUARD.fault, None

    def __exit__(self, *a):
        GUARD.fault = self.f


def jenc(v):
    if isinstance(v, bytes):
        return {"__b": base64.b64encode(v).decode()}
    if isinstance(v, str):
        try:
            v.encode("utf-8")
            return v
        except UnicodeEncodeError:
            return {"__s": v.encode("utf-8", "surrogatepass").hex()}
    if isinstance(v, (list, tuple)):
        return [jenc(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {"__set": sorted((jenc(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True, default=str))}
    if isinstance(v, dict):
        return {"__d": [[jenc(k), jenc(x)] for k, x in v.items()]}
    if v is None or isinstance(v, (bool, int, float)):
        return v
    return {"__r": type(v).__name__}


def jdec(v):
    if isinstance(v, dict):
        if "__b" in v:
            return base64.b64decode(v["__b"])
        if "__s" in v:
            return bytes.fromhex(v["__s"]).decode("utf-8", "surrogatepass")
        if "__d" in v:
            return {jdec(k): jdec(x) for k, x in v["__d"]}
        if "__set" in v:
            return {jdec(x) for x in v["__set"]}
        if "__r" in v:
            return "<%s>" % v["__r"]
    if isinstance(v, list):
        return [jdec(x) for x in v]
    return v


_state = []


def save_state():
    """Remember mutable module and class state of the code under test."""
    import copy
    for name, m in list(sys.modules.items()):
        if name == "ocfl" or name.startswith("ocfl."):
            _remember(m)
            for v in list(vars(m).values()):
                if isinstance(v, type) and v.__module__ == name:
                    _remember(v)


def _remember(ns):
    import copy
    saved = {}
    for k, v in vars(ns).items():
        if not (k.startswith("__") and k.endswith("__")):
            saved[k] = (v, copy.deepcopy(v) if isinstance(v, (list, dict, set)) else None)
    _state.append((ns, saved))


def restore_state():
    for ns, saved in _state:
        for k in list(vars(ns)):
            if not (k.startswith("__") and k.endswith("__")) and k not in saved:
                delattr(ns, k)
        for k, (v, c) in saved.items():
            if vars(ns).get(k) is not v:
                setattr(ns, k, v)
            if c is not None and v != c:
                import copy
                c2 = copy.deepcopy(c)
                if isinstance(v, list):
                    v[:] = c2
                else:
                    v.clear()
                    v.update(c2)


def run_one(req, base):
    root = tempfile.mkdtemp(prefix="r", dir=base)
    GUARD.scratch = os.path.realpath(root)
    GUARD.escapes = []
    tempfile.tempdir = os.path.join(root, "tmp")
    os.mkdir(tempfile.tempdir)
    work = os.path.join(root, "s")
    os.mkdir(work)
    os.chdir(work)
    global _REVERSE
    _REVERSE = False
    mod = importlib.import_module("harness." + req["mod"])
    restore_state()
    ctx = ConcCtx(jdec(req["inputs"]), work)
    err = None
    _STDOUT.seek(0)
    _STDOUT.truncate()
    GUARD.on = True
    import random
    random.seed(1)
    try:
        with contextlib.redirect_stdout(_STDOUT), contextlib.redirect_stderr(io.StringIO()):
            getattr(mod, req["fn"])(ctx, **req.get("params", {}))
        status = "ok"
    except PathEnd as e:
        status = "end"
    except SimCrash:
        status = "crash-escaped"
    except KeyError as e:
        if e.args and isinstance(e.args[0], str) and e.args[0] not in ctx.inputs and e.args[0].split("#")[0] in ctx.used:
            status = "missing-input"
            err = e.args[0]
        else:
            status = "exception"
            err = "KeyError: %r" % (e.args,)
            tb = traceback.format_exc()
            ctx.violations.append(("unexpected exception", {"exc": err, "tb": tb[-1500:]}))
    except Escape as e:
        status = "escape"
        ctx.violations.append(("forbidden operation", {"exc": str(e)}))
    except Exception as e:  # noqa
        status = "exception"
        err = "%s: %s" % (type(e).__name__, e)
        ctx.violations.append(("unexpected exception", {"exc": err, "tb": traceback.format_exc()[-1500:]}))
    finally:
        GUARD.on = False
        GUARD.fault = None
    if GUARD.escapes:
        ctx.violations.append(("write outside the scratch directory", {"paths": list(GUARD.escapes)}))
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    return {"status": status, "err": err, "violations": jenc(ctx.violations), "known": jenc(ctx.known_hits),
            "obs": jenc(ctx.obs), "labels": ctx.labels}


def main():
    base = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    shutil._USE_CP_SENDFILE = False
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.environ["HOME"] = base
    os.environ["TMPDIR"] = base
    import logging
    logging.disable(logging.CRITICAL)
    for m in sys.argv[2:]:
        importlib.import_module("harness." + m)
    import ocfl  # noqa
    save_state()

    def listdir(p="."):
        r = sorted(_real_listdir(p))
        if _REVERSE:
            r.reverse()
        return r
    builtins.open = patched_open
    sys.addaudithook(GUARD.hook)
    out = sys.stdout
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run_one(req, base)
        except BaseException as e:  # noqa
            r = {"status": "server-error", "err": "%s: %s" % (type(e).__name__, e), "violations": [], "known": [],
                 "obs": [], "labels": {}, "tb": traceback.format_exc()}
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
