"""Feature test: functions using many features on symbolic strings compared with a reference."""
import re, os, functools, itertools, collections, dataclasses, enum, io, string, operator, contextlib, bisect, heapq, pathlib, posixpath, textwrap, json, copy, typing
@dataclasses.dataclass
class P:
    a: str
    b: int = 0
    c: list = dataclasses.field(default_factory=list)
@dataclasses.dataclass(frozen=True, order=True)
class Q:
    a: str
    b: str = "x"
class NT(typing.NamedTuple):
    a: str
    b: int = 1
PT = collections.namedtuple("PT", "x y")
def f_dataclass(s):
    p = P(s, c=[s]); q = dataclasses.replace(p, b=3)
    return q.a == s and q == P(s, 3, [s]) and Q(s) == Q(s) and not (Q(s) < Q(s)) and dataclasses.asdict(p)["a"] == s
def f_nt(s):
    n = NT(s); x, y = n; p = PT(s, s)._replace(y=1)
    return n.a == s and x == s and p.x == s and n == NT(s)
def f_hash(s):
    d = {Q(s): 1}
    return Q(s) in d and d[Q(s)] == 1
def f_counter(s):
    c = collections.Counter(s); c.update(["a"])
    return c["a"] == sum(1 for x in s if x == "a") + 1
def f_defdict(s):
    d = collections.defaultdict(list)
    for i, x in enumerate(s): d[x].append(i)
    return sum(len(v) for v in d.values()) == len(s)
def f_ordered(s):
    d = collections.OrderedDict(); d[s] = 1; d["zz"] = 2; d.move_to_end(s)
    return list(d)[-1] == s
def f_deque(s):
    q = collections.deque(s); q.rotate(1); q.rotate(-1)
    return "".join(q) == s
def f_groupby(s):
    return "".join(k for k, g in itertools.groupby(s) for _ in g) == s
def f_chain(s):
    return "".join(itertools.chain(s, "x")) == s + "x" and list(itertools.chain.from_iterable([[s], ["y"]])) == [s, "y"]
def f_translate(s):
    return s.translate(str.maketrans({"/": "_", "\\": None})) == s.replace("/", "_").replace("\\", "")
def f_resub(s):
    return re.sub(r"[^a-z]", lambda m: "%%%02x" % (ord(m.group()) % 256), s).count("%") == sum(1 for c in s if not ("a" <= c <= "z"))
def f_resplit(s):
    return "/".join(re.split("/", s)) == s
def f_finditer(s):
    return len([m.start() for m in re.finditer("a", s)]) == s.count("a") and len(re.findall("a", s)) == s.count("a")
def f_stringio(s):
    f = io.StringIO(); f.write(s); print("x", file=f, end=""); return f.getvalue() == s + "x"
def f_template(s):
    return string.Template("a $x").substitute(x=s) == "a " + s
def f_lru(s):
    calls = []
    @functools.lru_cache(maxsize=None)
    def g(x): calls.append(1); return x + "!"
    return g(s) == s + "!" and g(s) == s + "!" and len(calls) == 1
def f_cached(s):
    class A:
        def __init__(self): self.n = 0
        @functools.cached_property
        def v(self): self.n += 1; return s * 2
    a = A(); return a.v == s + s and a.v == s + s and a.n == 1
def f_single(s):
    @functools.singledispatch
    def g(x): return "o"
    @g.register(str)
    def _(x): return "s"
    @g.register(list)
    def _(x): return "l"
    return g(s) == "s" and g([s]) == "l" and g(1) == "o"
def f_ctx(s):
    @contextlib.contextmanager
    def cm(x):
        yield x + "."
    with cm(s) as y, contextlib.suppress(KeyError):
        {}[s]
    return y == s + "."
def f_gen(s):
    def g():
        yield from s
        return 3
    def h():
        r = yield from g(); yield str(r)
    return "".join(h()) == s + "3"
def f_pure(s):
    return str(pathlib.PurePosixPath("a") / "b") == "a/b" and posixpath.join("a", s).endswith(s) and (pathlib.PurePosixPath("x/" + s).parts[0] == "x")
def f_bisect(s):
    l = sorted(["b", "d"]); bisect.insort(l, s); return l == sorted(["b", "d", s])
def f_heap(s):
    h = ["b"]; heapq.heappush(h, s); return heapq.heappop(h) == min("b", s)
def f_match(s):
    match s.split("/"):
        case [""]: r = 0
        case [x]: r = 1 if x == s else -1
        case [x, y] if x == y: r = 2
        case [x, *rest]: r = 3 if [x] + rest == s.split("/") else -1
    return r >= 0
def f_match2(s):
    match {"k": s, "z": 1}:
        case {"k": ("a" | "b") as q, **rest}: return (s == "a" or s == "b") and q == s and rest == {"z": 1}
        case {"k": str(q)}: return q == s
    return False
def f_match3(s):
    match P(s, 2):
        case P(a="a"): return s == "a"
        case P(a, 2): return a == s
    return False
def f_sortkey(s):
    l = sorted(["B", s, "a"], key=str.lower); l2 = sorted(["B", s], key=lambda x: (len(x), x), reverse=True)
    return len(l) == 3 and s in l2
def f_minmax(s):
    return max([s, "b"], key=len) in (s, "b") and min(s, default="") == (sorted(s)[0] if s else "")
def f_set(s):
    a = set(s) | {"x"}; b = frozenset(s)
    return b <= a and "x" in a and len(a - b) <= 1 and {c for c in s} == set(s)
def f_dictops(s):
    d = {s: 1} | {"q": 2}; d2 = {**d, "r": 3}; d3 = dict(zip([s], [1])); d4 = dict.fromkeys(s, 0)
    return d["q"] == 2 and (s in ("q",) or d[s] == 1) and "r" in d2 and d3 == {s: 1} and all(c in d4 for c in s)
def f_fmt(s):
    return f"{s!s:}" == s and "{0}{0}".format(s) == s + s and "{x}".format(x=s) == s and "%(a)s" % {"a": s} == s and "{:>5}".format(s)[-len(s) or 5:] in (s, "     ")
def f_enc(s):
    return s.encode("utf-8").decode("utf-8") == s and len(s.encode()) >= len(s) and s.casefold() == s.casefold()
def f_int(s):
    try: n = int(s, 10)
    except ValueError: return True
    return isinstance(n, int)
def f_star(s):
    first, *rest = s + "zz"; a, b = (s, 1); return first + "".join(rest) == s + "zz" and a == s
def f_del(s):
    d = {"a": 1, s: 2}; del d[s]; v = d.pop("a", None); return len(d) == 0 and (v == 1 or s == "a")
def f_exc(s):
    class X(Exception):
        def __init__(self, m, **k): super().__init__(m); self.k = k
    try: raise X("bad %s" % s, s=s) from None
    except X as e: return str(e) == "bad " + s and e.k["s"] == s and e.args == ("bad " + s,)
def f_prop(s):
    class A:
        __slots__ = ("_v",)
        def __init__(self, v): self._v = v
        v = property(operator.attrgetter("_v"))
        def __eq__(self, o): return self._v == o._v
        def __hash__(self): return hash(self._v)
    return A(s).v == s and A(s) == A(s) and A(s) in {A(s)}
def f_enum(s):
    class K(str, enum.Enum):
        A = "a"
        B = "b"
    try: k = K(s)
    except ValueError: return s not in ("a", "b")
    return k.value == s
def f_json(s):
    return json.loads(json.dumps({"a": [s]}))["a"][0] == s and copy.deepcopy([s]) == [s]
def f_walk(s):
    return all(map(s.startswith, [s[:1], ""])) and list(filter(s.__eq__, [s])) == [s] and s.__contains__("") and "".join(map("{}".format, s)) == s
def f_aug(s):
    t = "a%s"; t %= s; u = s; u += "b"; u *= 2; return t == "a" + s and u == s + "b" + s + "b"
def f_unb(s):
    return str.upper(s) == s.upper() and list(map(str.strip, [s])) == [s.strip()] and str.join("/", [s, s]) == s + "/" + s and functools.reduce(operator.add, s, "") == s
def f_tern(s):
    return (lambda *a, **k: a[0])(s) == s and [*s] == list(s) and (*s,) == tuple(s) and not (s != s) and (s or "e") in (s, "e")
def f_splitl(s):
    return "".join(s.splitlines(True)) == s and s.rpartition("/")[2] == s.split("/")[-1] and s.zfill(4)[-1:] == (s[-1:] or "0") and s.title().lower() == s.title().lower()
def f_text(s):
    return textwrap.dedent("  a") == "a" and os.path.basename(s) == s.rsplit("/", 1)[-1] and os.path.split(s)[1] == os.path.basename(s) and os.path.commonprefix(["a" + s, "a"]) == "a"
def f_nonlocal(s):
    n = 0
    def inc():
        nonlocal n
        n += len(s)
        return n
    inc(); inc()
    return n == 2 * len(s)
def f_type(s):
    return type(s) is str and isinstance(s, (str, bytes)) and type(s) == str and type(s).__name__ == "str" and issubclass(type(s), str) and isinstance({}, dict) and isinstance({}, collections.abc.Mapping) and isinstance([s], collections.abc.Sequence) and isinstance(s, collections.abc.Sequence) and isinstance(s, typing.cast(type, str)) and hasattr(s, "lower") and callable(s.lower)
def f_union(s):
    return isinstance(s, str | None) and isinstance(1, int | str)
ALL = [f for n, f in sorted(globals().items()) if n.startswith("f_")]
