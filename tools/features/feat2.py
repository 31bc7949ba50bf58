import os, os.path, pathlib, shutil, tempfile, glob, fnmatch, json, io, contextlib, functools, itertools, operator, re, sys, datetime, time, logging, textwrap, string, hashlib, collections, types, typing, dataclasses, uuid, copy, warnings, traceback, abc
from pathlib import Path, PurePosixPath

B = "/s"
def _mk(s):
    os.makedirs((B+"/d/e"), exist_ok=True)
    with open((B+"/d/a.txt"), "w", encoding="utf-8") as fh: fh.write("x" + s)
    with open((B+"/d/e/b.json"), "w", encoding="utf-8") as fh: json.dump({"k": s}, fh)

def g_scandir(s):
    _mk(s)
    with os.scandir((B+"/d")) as it:
        r = sorted((e.name, e.is_dir(), e.is_file()) for e in it)
    return r == [("a.txt", False, True), ("e", True, False)]
def g_walk(s):
    _mk(s)
    r = [(d, sorted(ds), sorted(fs)) for d, ds, fs in os.walk((B+"/d"))]
    return r == [((B+"/d"), ["e"], ["a.txt"]), ((B+"/d/e"), [], ["b.json"])]
def g_path(s):
    _mk(s)
    p = Path((B+"")) / "d"
    return sorted(x.name for x in p.iterdir()) == ["a.txt", "e"] and (p / "a.txt").read_text(encoding="utf-8") == "x" + s.replace("\n","\n")
def g_path2(s):
    _mk(s)
    p = Path((B+"/d"))
    (p / "q").mkdir(parents=True, exist_ok=True)
    (p / "q" / "z").write_text(s + "!", encoding="utf-8")
    return (p / "q" / "z").exists() and (p/"q").is_dir() and not (p / "n").exists() and (p/"q"/"z").suffix == "" and (p/"a.txt").stem == "a"
def g_rglob(s):
    _mk(s)
    return sorted(str(x) for x in Path((B+"/d")).rglob("*.*")) == [(B+"/d/a.txt"), (B+"/d/e/b.json")]
def g_relto(s):
    return str(Path((B+"/d/a")).relative_to((B+""))) == "d/a" and Path((B+"/d")).parent == Path((B+"")) and Path("a/b").parts == ("a", "b") and Path("a/b").as_posix() == "a/b"
def g_glob(s):
    _mk(s)
    return sorted(glob.glob((B+"/d/*"))) == [(B+"/d/a.txt"), (B+"/d/e")]
def g_shutil(s):
    _mk(s)
    shutil.copytree((B+"/d"), (B+"/c"))
    shutil.copyfile((B+"/d/a.txt"), (B+"/c/n"))
    shutil.copy((B+"/d/a.txt"), (B+"/c/m"))
    shutil.copy2((B+"/d/a.txt"), (B+"/c/m2"))
    shutil.move((B+"/c/n"), (B+"/c/o"))
    r = sorted(os.listdir((B+"/c")))
    shutil.rmtree((B+"/c"))
    return r == ["a.txt", "e", "m", "m2", "o"] and not os.path.exists((B+"/c"))
def g_fileobj(s):
    _mk(s)
    with open((B+"/d/a.txt"), "rb") as i, open((B+"/d/o"), "wb") as o:
        shutil.copyfileobj(i, o)
    return os.path.getsize((B+"/d/o")) == os.path.getsize((B+"/d/a.txt"))
def g_temp(s):
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "x"), "w") as fh: fh.write("y")
        ok = os.path.isfile(os.path.join(d, "x"))
    return ok and not os.path.exists(d)
def g_named(s):
    os.makedirs((B+"/t"))
    with tempfile.NamedTemporaryFile("w", dir=(B+"/t"), delete=False) as fh:
        fh.write("abc")
    os.replace(fh.name, (B+"/t/final"))
    return os.listdir((B+"/t")) == ["final"]
def g_mkstemp(s):
    os.makedirs((B+"/t"))
    fd, n = tempfile.mkstemp(dir=(B+"/t"))
    with os.fdopen(fd, "w") as fh:
        fh.write("abc")
    os.rename(n, (B+"/t/final"))
    return os.listdir((B+"/t")) == ["final"]
def g_fsync(s):
    os.makedirs((B+"/t"))
    with open((B+"/t/f"), "w") as fh:
        fh.write("abc"); fh.flush(); os.fsync(fh.fileno())
    return os.stat((B+"/t/f")).st_size == 3
def g_lines(s):
    _mk(s)
    with open((B+"/d/l"), "w") as fh:
        fh.writelines(["a\n", "b\n"])
        print("c", file=fh)
    with open((B+"/d/l")) as fh: a = [x.rstrip("\n") for x in fh]
    with open((B+"/d/l")) as fh: b = fh.readlines()
    with open((B+"/d/l")) as fh: c = fh.read().splitlines()
    with open((B+"/d/l")) as fh: first = fh.readline()
    return a == c == ["a", "b", "c"] and b == ["a\n", "b\n", "c\n"] and first == "a\n"
def g_iterchunk(s):
    _mk(s)
    n = 0
    with open((B+"/d/a.txt"), "rb") as fh:
        for chunk in iter(lambda: fh.read(4), b""):
            n += len(chunk)
    with open((B+"/d/a.txt"), "rb") as fh:
        m = sum(len(c) for c in iter(functools.partial(fh.read, 4), b""))
    return n == m == os.path.getsize((B+"/d/a.txt"))
def g_walrus(s):
    _mk(s)
    h = hashlib.sha256(); h2 = hashlib.new("sha256")
    with open((B+"/d/a.txt"), "rb") as fh:
        while chunk := fh.read(3): h.update(chunk)
    with open((B+"/d/a.txt"), "rb") as fh: h2.update(fh.read())
    return h.hexdigest() == h2.hexdigest()
def g_readinto(s):
    _mk(s)
    h = hashlib.sha256(); h2 = hashlib.new("sha256")
    b = bytearray(8); mv = memoryview(b)
    with open((B+"/d/a.txt"), "rb", buffering=0) as fh:
        while n := fh.readinto(mv): h.update(mv[:n])
    with open((B+"/d/a.txt"), "rb") as fh: h2.update(fh.read())
    return h.hexdigest() == h2.hexdigest()
def g_filedigest(s):
    _mk(s)
    with open((B+"/d/a.txt"), "rb") as fh: d = hashlib.file_digest(fh, "sha512")
    with open((B+"/d/a.txt"), "rb") as fh: d2 = hashlib.sha512(fh.read())
    return d.hexdigest() == d2.hexdigest()
def g_relpath(s):
    return os.path.relpath((B+"/a/b"), (B+"")) == "a/b" and os.path.commonpath([(B+"/a"), (B+"/b")]) == (B+"") and os.path.commonprefix(["ab", "ac"]) == "a" and os.path.normpath("a/../b") == "b" and os.path.splitext("a.b")[1] == ".b" and os.fspath(Path("a")) == "a"
def g_json(s):
    t = json.dumps({"a": s, "b": [1, None]}, sort_keys=True, indent=2, ensure_ascii=False)
    return json.loads(t)["a"] == s
def g_jsonerr(s):
    try: json.loads("{" + s)
    except json.JSONDecodeError as e: return bool(str(e)) and isinstance(e, ValueError)
    return False
def g_jsonhook(s):
    def hook(pairs):
        return dict(pairs)
    return json.loads(json.dumps({"a": s}), object_pairs_hook=hook) == {"a": s}
def g_dt(s):
    d = datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)
    return d.isoformat() == "2020-01-02T03:04:05+00:00" and d.strftime("%Y") == "2020" and (d + datetime.timedelta(days=1)).day == 3
def g_dtnow(s):
    return len(datetime.datetime.now(datetime.timezone.utc).isoformat()) > 10
def g_time(s):
    return time.time() > 0 and time.gmtime(0).tm_year == 1970 and time.strftime("%Y", time.gmtime(0)) == "1970"
def g_log(s):
    lg = logging.getLogger(__name__)
    lg.debug("x %s", s); lg.warning("w %s %d", s, 3); lg.exception
    if lg.isEnabledFor(logging.DEBUG): lg.debug("z")
    lg.log(logging.INFO, "%r", s)
    return True
def g_warn(s):
    warnings.warn("dep", DeprecationWarning, stacklevel=2)
    return True
def g_uuid(s):
    return len(str(uuid.uuid4())) == 36 and uuid.uuid4().hex
def g_copy(s):
    a = {"x": [s, {"y": 1}]}
    b = copy.deepcopy(a); c = copy.copy(a)
    b["x"][0] = "zz"
    return a["x"][0] == s and c["x"] is a["x"]
def g_suppress(s):
    with contextlib.suppress(FileNotFoundError, KeyError):
        open((B+"/none"))
        return False
    return True
def g_exc(s):
    class E1(Exception):
        def __init__(self, m, *, code=None):
            super().__init__(m); self.code = code
    try:
        try: raise KeyError(s)
        except KeyError as e: raise E1("m", code=s) from e
    except E1 as e:
        return e.code == s and isinstance(e.__cause__, KeyError) and str(e) == "m"
def g_excelse(s):
    r = []
    for i in (0, 1):
        try:
            if i: raise ValueError(s)
        except (ValueError, TypeError) as e: r.append(e.args[0])
        else: r.append("ok")
        finally: r.append(i)
    return r == ["ok", 0, s, 1]
def g_abc(s):
    class B(abc.ABC):
        @property
        @abc.abstractmethod
        def x(self): ...
        @classmethod
        def make(cls, *a): return cls(*a)
        @staticmethod
        def st(v): return v + "1"
    class D(B):
        __slots__ = ("_v",)
        def __init__(self, v): self._v = v
        @property
        def x(self): return self._v
        @x.setter
        def x(self, v): self._v = v
    d = D.make(s); d.x = D.st(d.x)
    return d.x == s + "1"
def g_dc(s):
    @dataclasses.dataclass(frozen=True, order=True)
    class P:
        a: str
        b: int = 0
        c: typing.List[str] = dataclasses.field(default_factory=list, compare=False)
    p = P(s); q = dataclasses.replace(p, b=2)
    return q.b == 2 and q.a == s and p == P(s) and p < q and dataclasses.asdict(q)["a"] == s
def g_ns(s):
    n = types.SimpleNamespace(a=s); n.b = 1
    t = typing.NamedTuple("T", [("x", str)])(s)
    return n.a == t.x and vars(n)["b"] == 1 and getattr(n, "zz", None) is None and hasattr(n, "a")
def g_gen(s):
    def w(n):
        if n:
            yield n
            yield from w(n - 1)
        return n
    def stop():
        try:
            yield s
        finally: pass
    return list(w(3)) == [3, 2, 1] and next(stop()) == s and next(iter([]), None) is None
def g_iter(s):
    return list(itertools.chain.from_iterable([[s], ["b"]])) == [s, "b"] and list(itertools.islice(itertools.count(1), 3)) == [1, 2, 3] and dict(zip("ab", [1, s]))["b"] == s and list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])) == [1, 2] and list(itertools.accumulate([1,2,3])) == [1,3,6] and list(itertools.zip_longest("a", "bc"))[1] == (None, "c")
def g_reduce(s):
    return functools.reduce(lambda a, b: a + b, ["x", s, "y"]) == "x" + s + "y" and functools.reduce(operator.or_, [{1}, {2}], set()) == {1, 2}
def g_comp(s):
    d = {k: v for k, v in (("a", s), ("b", "x"))}
    inv = {}
    for k, v in d.items(): inv.setdefault(v, []).append(k)
    return any(v == ["b"] for v in inv.values()) if s != "x" else True
def g_dictops(s):
    a = {"a": s}; b = {**a, "b": 1} ; c = a | {"c": 2}
    a |= {"d": 4}
    return b.keys() - {"b"} == {"a"} and c.items() >= {("c", 2)} and "d" in a and b.pop("zz", None) is None and list(reversed(b)) == ["b", "a"] and a.popitem() == ("d", 4)
def g_setops(s):
    x = {"a", s}; y = {"a"}
    return y <= x and (x - y == ({s} if s != "a" else set())) and (x ^ y) == x - y and y.issubset(x) and not x.isdisjoint(y) and frozenset(x) == x
def g_str(s):
    return s.partition("/")[0] == s.split("/", 1)[0] and s.removeprefix("a") == (s[1:] if s.startswith("a") else s) and s.casefold() == s.lower() and s.strip().lstrip("/").rstrip("/") == s.strip().strip("/") and s.zfill(3)[-len(s):] == s if s and s[0] not in "+-" else True
def g_str2(s):
    return f"{s:>4}" == s.rjust(4) and f"{s!r}" == repr(s) and "%s-%05d" % (s, 3) == s + "-00003" and "{0}{1:02d}{x}".format(s, 1, x="q") == s + "01q" and "%(a)s" % {"a": s} == s
def g_str3(s):
    return s.isdigit() == bool(re.fullmatch(r"[0-9]+", s)) and s.isascii() == all(ord(c) < 128 for c in s) and s.count("a") == len(re.findall("a", s)) and s.find("/") == (s.index("/") if "/" in s else -1) and s.rpartition("/")[2] == s.rsplit("/", 1)[-1]
def g_re(s):
    m = re.match(r"(?P<d>\d*)(?P<r>.*)", s, re.S)
    return m["d"] + m.group("r") == s and m.groupdict()["d"] == m[1] and m.end() == len(s) and re.compile("a|b").sub(lambda q: q.group().upper(), s) == s.replace("a", "A").replace("b", "B")
def g_bytes(s):
    b = s.encode("utf-8")
    return b.decode("utf-8") == s and len(b) >= len(s) and (b"x" + b).startswith(b"x") and b.hex() == "".join("%02x" % c for c in b)
def g_global(s):
    global _G
    _G = s
    def inner():
        nonlocal s
        s = s + "x"
        return s
    return inner() == _G + "x"
_G = None
def g_lambda(s):
    f = {"a": lambda x: x + "1", "b": str.upper}.get(s, lambda x: x)
    return f(s).startswith("a1" if s == "a" else "B" if s == "b" else s)
def g_kw(s):
    def f(a, /, b=1, *args, c=2, **kw): return (a, b, args, c, kw)
    return f(s, 2, 3, c=4, d=5) == (s, 2, (3,), 4, {"d": 5}) and f(*[s], **{"c": 1}) == (s, 1, (), 1, {})
def g_star(s):
    a, *b = s + "xy"
    *c, d = [1, 2, 3]
    (e, f), g = ("ab", s)
    return "".join([a] + b) == s + "xy" and c == [1, 2] and d == 3 and g == s
def g_while(s):
    i = 0
    while i < len(s):
        if s[i] == "a": break
        i += 1
    else:
        return "a" not in s
    return s.index("a") == i
def g_sort(s):
    l = ["b", s, "a"]
    l.sort(key=lambda x: (len(x), x), reverse=True)
    return sorted(l) == sorted(["b", s, "a"]) and max(l, key=len) in l and l[::-1][0] == l[-1]
def g_int(s):
    try: n = int(s)
    except ValueError: return True
    return str(n) == s.strip().lstrip("0") or n == 0 or "_" in s
def g_singled(s):
    @functools.singledispatch
    def f(x): return "o"
    @f.register
    def _(x: int): return "i"
    @f.register(str)
    def _(x): return "s"
    return f(1) == "i" and f(s) == "s" and f([]) == "o"
def g_partial(s):
    p = functools.partial(os.path.join, (B+""))
    m = operator.methodcaller("upper"); g = operator.itemgetter("a"); at = operator.attrgetter("__class__")
    return p("x") == (B+"/x") and m(s) == s.upper() and g({"a": s}) == s
def g_exit(s):
    try: sys.exit(s)
    except SystemExit as e: return e.code == s
def g_environ(s):
    return os.environ.get("NOPE", s) == s and os.getenv("NOPE2") is None and os.getcwd()
def g_stdout(s):
    sys.stdout.write(s + "\n"); print(s, end="", flush=True); print("a", s, sep="-", file=sys.stderr)
    return True
def g_access(s):
    _mk(s)
    return os.access((B+"/d/a.txt"), os.R_OK) and os.path.islink((B+"/d")) is False and os.path.samefile((B+"/d"), (B+"/d/."))
def g_unlink(s):
    _mk(s)
    os.unlink((B+"/d/a.txt")); os.remove((B+"/d/e/b.json")); os.rmdir((B+"/d/e")); os.removedirs((B+"/d"))
    return not os.path.exists((B+"/d"))
def g_textwrap(s):
    return textwrap.dedent("  a\n  b") == "a\nb" and textwrap.indent("a", " ") == " a"
def g_fn(s):
    return fnmatch.fnmatch("a" + s, "a*") and [x for x in fnmatch.filter(["ab", "c"], "a*")] == ["ab"]
def g_tb(s):
    try: 1 / 0
    except ZeroDivisionError: return "Zero" in traceback.format_exc()
def g_closing(s):
    @contextlib.contextmanager
    def cm(v):
        r.append("in")
        try: yield v
        finally: r.append("out")
    r = []
    with cm(s) as v, contextlib.ExitStack() as st:
        st.callback(r.append, "cb"); w = st.enter_context(cm("q"))
    return r == ["in", "in", "out", "cb", "out"] and v == s and contextlib.nullcontext(s).__enter__() == s
def g_open2(s):
    os.makedirs((B+"/q"))
    p = Path((B+"/q/f"))
    with p.open("w", encoding="utf-8") as fh: fh.write("a")
    with p.open("a") as fh: fh.write("b")
    try:
        with open((B+"/q/f"), "x") as fh: return False
    except FileExistsError: pass
    with io.open((B+"/q/f"), mode="r", encoding="utf-8", newline=None, errors="strict") as fh: t = fh.read()
    p.rename((B+"/q/g")); 
    r = t == "ab" and Path((B+"/q/g")).stat().st_size == 2
    Path((B+"/q/g")).unlink(missing_ok=True); Path((B+"/q")).rmdir()
    return r and not os.path.lexists((B+"/q"))
def g_fexc(s):
    try: open((B+"/nofile") + "z")
    except FileNotFoundError as e: a = e.errno == 2 and e.filename and isinstance(e, OSError)
    try: os.listdir((B+"/nodir"))
    except OSError as e: b = e.strerror and str(e)
    try: os.mkdir((B+""))
    except FileExistsError: c = True
    return a and b and c
def g_meta(s):
    class M(type):
        reg = {}
        def __new__(mcs, n, b, ns):
            c = super().__new__(mcs, n, b, ns); mcs.reg[n] = c; return c
    class A(metaclass=M):
        def __getattr__(self, n): return n
        def __len__(self): return 2
        def __getitem__(self, i): return s
        def __contains__(self, x): return x == s
        def __iter__(self): return iter([s])
        def __eq__(self, o): return True
        def __hash__(self): return 1
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def __call__(self, x): return x
        def __bool__(self): return True
    a = A()
    with a as b: pass
    return a.foo == "foo" and len(a) == 2 and a[0] == s and s in a and list(a) == [s] and a(s) == s and "A" in M.reg
def g_initsub(s):
    class B:
        reg = {}
        def __init_subclass__(cls, name="", **k): super().__init_subclass__(**k); B.reg[name] = cls
        def __set_name__(self, o, n): pass
    class C(B, name="c"): pass
    return B.reg["c"] is C
def g_cachedprop(s):
    class C:
        n = 0
        @functools.cached_property
        def v(self): self.n += 1; return s
    c = C(); c.v; return c.v == s and c.n == 1
def g_typing(s):
    T = typing.TypeVar("T")
    class G(typing.Generic[T]):
        def __init__(self, x: T): self.x = x
    v: typing.Optional[str] = typing.cast(str, s)
    class P(typing.Protocol):
        def z(self) -> int: ...
    TD = typing.TypedDict("TD", {"a": str})
    return G[str](v).x == s and TD(a=s)["a"] == s and not typing.TYPE_CHECKING
def g_decor(s):
    def deco(n):
        def w(f):
            @functools.wraps(f)
            def inner(*a, **k): return f(*a, **k) + n
            return inner
        return w
    @deco("z")
    def f(x): "d"; return x
    return f(s) == s + "z" and f.__name__ == "f"
def g_async(s):
    return True
def g_del(s):
    d = {"a": 1, "b": s}; del d["a"]; l = [1, 2, 3]; del l[0]; l[0:1] = [9, 8]; l.insert(0, s); l.extend(["q"]); x = l.pop(); l.remove(8)
    assert l == [s, 9, 3], "no"
    return "a" not in d and x == "q"
def g_chainmap(s):
    return collections.ChainMap({"a": s}, {"b": 1})["a"] == s and collections.ChainMap({"a": s}, {"b": 1})["b"] == 1
def g_pure(s):
    return PurePosixPath("a/b").joinpath("c").name == "c" and PurePosixPath("a/b").with_name("q") == PurePosixPath("a/q") and not PurePosixPath("a").is_absolute() and PurePosixPath("/x/y").match("*/y")
def g_symp(s):
    p = PurePosixPath("r") / ("x" + s.replace("/", "_").replace("\n", "_").replace(" ", "_"))
    return p.name.startswith("x") and str(p).startswith("r/x")
