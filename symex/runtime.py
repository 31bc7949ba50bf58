"""Run-time helpers called by instrumented code, and the builtins it sees."""
import builtins as _b
import collections.abc
import enum as _enum
import re as _re
import sys
import types
import unicodedata
import functools
from .core import E, SymBool, Tab, Unsupported, Control, bits, s_and, s_not
from .symstr import (SymStr, SymBytes, SymInt, Ch, issym, has_sym, concretise, deep_concretise, mk,
                     ch_test, ch_mk, tabmask, pieces, byte_int)
from .containers import SDict, SSet, SFrozen, _View, _Keys, _Items, _Values


def _noop_copy(self, memo=None):
    return self


for _cls in (SymStr, SymBytes, SymInt, SymBool, Ch):
    _cls.__deepcopy__ = _noop_copy
    _cls.__copy__ = lambda self: self


# ------------------------------------------------------------ str and repr
def to_str(x):
    """str(x) that keeps symbolic text symbolic."""
    c = x.__class__
    if c is str or c is SymStr:
        return x
    if c is SymInt or c is SymBool:
        return str(concretise(x))
    if c is SymBytes:
        return str(concretise(x))
    if c.__name__ == "JSeq" and x.kind == "t":
        return x
    if c in (list, tuple, SDict, SSet, dict, set) or isinstance(x, _View):
        return to_repr(x)
    if isinstance(x, BaseException):
        f = type(x).__str__
        if f is BaseException.__str__ or f is OSError.__str__ and len(x.args) != 2:
            if len(x.args) == 0:
                return ""
            if len(x.args) == 1:
                return to_str(x.args[0])
            return to_repr(x.args)
        if f is KeyError.__str__:
            return to_repr(x.args[0]) if len(x.args) == 1 else to_repr(x.args)
        if has_sym(x.args):
            return "".join(["[", type(x).__name__, "]"]) if not _is_instr_func(f) else f(x)
        return f(x)
    f = type(x).__str__
    if isinstance(f, types.FunctionType):
        return f(x)
    f = type(x).__repr__
    if type(x).__str__ is object.__str__ and isinstance(f, types.FunctionType):
        return f(x)
    return str(x)


def to_repr(x):
    c = x.__class__
    if c is SymStr:
        return mk(("'",) + x.p + ("'",))
    if c is SymInt or c is SymBool or c is SymBytes:
        return repr(concretise(x))
    if c is list:
        return mk(("[",) + pieces(", " if 0 else SymStr(tuple(", ")).join([to_repr(y) for y in x]) if x else "") + ("]",))
    if c is tuple:
        body = SymStr(tuple(", ")).join([to_repr(y) for y in x]) if x else ""
        return mk(("(",) + pieces(body) + ((",", ")") if len(x) == 1 else (")",)))
    if c is SDict or c is dict:
        parts = [mk(pieces(to_repr(k)) + (":", " ") + pieces(to_repr(v))) for k, v in x.items()]
        return mk(("{",) + (pieces(SymStr(tuple(", ")).join(parts)) if parts else ()) + ("}",))
    if c is SSet or c is set:
        if not x:
            return "set()"
        return mk(("{",) + pieces(SymStr(tuple(", ")).join([to_repr(y) for y in x])) + ("}",))
    if c is _Keys or c is _Values or c is _Items:
        return to_str("dict_%s(" % c.__name__[1:].lower()) + to_repr(list(x)) + ")"
    return repr(x)


def _is_instr_func(f):
    return isinstance(f, types.FunctionType) and "_symx_m" in f.__globals__.get("__builtins__", {})


_PCT = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<type>.)", _re.S)


def fmt_percent(fmt, args):
    """printf-style formatting with symbolic arguments."""
    if isinstance(fmt, SymStr):
        fmt = concretise(fmt)
    if isinstance(args, SDict):
        if not has_sym(args) and not any(isinstance(v, (SDict, SSet)) for v in args.values()):
            return fmt % dict(args.items())
    out = []
    pos = 0
    argi = 0
    is_tuple = args.__class__ is tuple
    n = len(args) if is_tuple else 1
    usedkey = False

    def nextarg():
        nonlocal argi
        if argi >= n:
            raise TypeError("not enough arguments for format string")
        a = args[argi] if is_tuple else args
        argi += 1
        return a
    while True:
        i = fmt.find("%", pos)
        if i < 0:
            out.extend(fmt[pos:])
            break
        out.extend(fmt[pos:i])
        m = _PCT.match(fmt, i)
        if m is None:
            raise ValueError("incomplete format")
        pos = m.end()
        t = m.group("type")
        if t == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            usedkey = True
            a = args[m.group("key")]
        else:
            if m.group("width") == "*" or m.group("prec") == "*":
                return fmt % deep_concretise(args)
            a = nextarg()
        spec = m.group("flags") + (m.group("width") or "") + ("." + m.group("prec") if m.group("prec") else "")
        if t == "s" and not spec:
            out.extend(pieces(to_str(a)))
        elif t in "ra" and not spec:
            out.extend(pieces(to_repr(a)))
        else:
            if t in "sra":
                a = concretise(to_str(a) if t == "s" else to_repr(a))
                t = "s"
            out.extend(("%" + spec + t) % (deep_concretise(a),))
    if not usedkey and argi < n and not isinstance(args, (dict, SDict)) and (is_tuple or argi == 0):
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


def sc_mod(a, b):
    if a.__class__ is str or a.__class__ is SymStr:
        return fmt_percent(a, b)
    return a % b


def fmt_value(v, conv, spec):
    if conv == 115:
        v = to_str(v)
    elif conv in (114, 97):
        v = to_repr(v)
    if spec == "" or spec is None:
        return to_str(v)
    if spec.__class__ is SymStr:
        spec = concretise(spec)
    if v.__class__ is SymStr:
        m = _re.fullmatch(r"(.?[<>=^])?(\d+)?(\.\d+)?s?", spec)
        if m and not m.group(1) and not m.group(3):
            return v.ljust(int(m.group(2) or 0))
    return format(deep_concretise(v), spec)


def sc_fstr(*parts):
    out = []
    for p in parts:
        if p.__class__ is tuple:
            p = fmt_value(*p)
        out.extend(pieces(p))
    return mk(out)


def fmt_format(fmt, a, k):
    import string
    if issym(fmt):
        fmt = concretise(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        first, rest = _string_split(field)
        if first == "":
            first = auto
            auto += 1
        v = a[first] if isinstance(first, int) else k[first]
        for is_attr, nm in rest:
            v = getattr(v, nm) if is_attr else v[nm]
        if spec and "{" in spec:
            spec = concretise(fmt_format(spec, a, k))
        out.extend(pieces(fmt_value(v, ord(conv) if conv else -1, spec)))
    return mk(out)


def _string_split(field):
    import _string
    return _string.formatter_field_name_split(field)


# ------------------------------------------------------------ calls
def sc_in(a, b):
    c = b.__class__
    if c is str:
        if a.__class__ is SymStr:
            return SymStr(tuple(b)).__contains__(a) if b else len(a) == 0
        return a in b
    if c is bytes and issym(a):
        if a.__class__ is SymInt:
            return any(bool(a == x) for x in b)
        return SymBytes(tuple(b.decode("latin-1"))).__contains__(a)
    if c is SymBytes and (a.__class__ is SymInt or isinstance(a, int)):
        return any(bool(a == x) for x in b)
    return a in b


_OKBUILTIN = {len, isinstance, issubclass, sorted, enumerate, zip, map, filter, any, all, min, max, sum, list, tuple,
              iter, next, reversed, range, bool, abs, id, callable, hasattr, getattr, setattr, delattr, print,
              super, vars, object, slice, divmod, property, classmethod, staticmethod, type, round, pow}
_OKMODS = ("bisect", "heapq", "itertools", "functools", "operator", "copy", "collections", "contextlib", "typing", "types", "weakref")


def _safe_callable(f):
    """May f receive symbolic values directly?"""
    t = f.__class__
    if t is types.FunctionType:
        m = f.__module__ or ""
        if m.startswith("symex") or "_symx_m" in (f.__globals__.get("__builtins__") if isinstance(f.__globals__.get("__builtins__"), dict) else ()):
            return True
        return m.split(".")[0] in _OKMODS
    if t is types.MethodType:
        return _safe_callable(f.__func__) if isinstance(f.__func__, types.FunctionType) else True
    if t is types.BuiltinFunctionType:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if f in _OKBUILTIN:
                return True
            m = getattr(s, "__name__", "")
            return m in _OKMODS or m.lstrip("_") in _OKMODS
        # bound builtin method: containers may hold symbolic values
        return isinstance(s, (list, tuple, dict, set, types.GeneratorType)) or not isinstance(s, (str, bytes, int))
    if isinstance(f, type):
        if f in _OKBUILTIN or issubclass(f, BaseException):
            return True
        m = f.__module__
        if m.startswith("symex"):
            return True
        return getattr(f, "_symx_instr__", False) or m in _INSTR_MODULES or m.split(".")[0] in _OKMODS
    return True


_INSTR_MODULES = set()


def lift(f, a, k):
    """Call native f on symbolic arguments: tabulate over one variable, else concretise."""
    vs = set()
    _vars_of(a, vs)
    _vars_of(list(k.values()), vs)
    if len(vs) == 1:
        v, = vs
        if v not in E.entangled or True:
            vals = {}
            groups = {}
            for i in bits(E.dom[v]):
                try:
                    r = f(*[_inst(x, v, i) for x in a], **{q: _inst(x, v, i) for q, x in k.items()})
                    g = (type(r), len(r)) if isinstance(r, (str, bytes)) else (type(r), None)
                    if g[0] not in (str, bytes, int, bool, type(None)):
                        break
                    if r is None or r is True or r is False:
                        g = (type(r), r)
                except Exception as e:  # noqa
                    r = e
                    g = ("exc", type(e), str(e))
                vals[i] = r
                groups[g] = groups.get(g, 0) | 1 << i
            else:
                items = list(groups.items())
                for g, m in items[:-1]:
                    if E.branch(SymBool(masks={v: m})):
                        break
                else:
                    g, m = items[-1]
                i0 = next(bits(m & E.dom[v]))
                if g[0] == "exc":
                    raise vals[i0]
                if g[0] in (str, bytes):
                    conv = (lambda r: r) if g[0] is str else (lambda r: r.decode("latin-1"))
                    ps = []
                    for j in range(g[1]):
                        ps.append(ch_mk(v, Tab((conv(vals[i])[j] if m >> i & 1 else conv(vals[i0])[j]) for i in range(v.n))))
                    return mk(ps, SymBytes if g[0] is bytes else SymStr)
                if g[0] is int:
                    return SymInt(tab=(v, Tab((vals[i] if m >> i & 1 else vals[i0]) for i in range(v.n))))
                return vals[i0]
    E.note("concretised arguments of native %s" % getattr(f, "__qualname__", f))
    return f(*[deep_concretise(x) for x in a], **{q: deep_concretise(x) for q, x in k.items()})


def _vars_of(x, vs):
    c = x.__class__
    if c is SymStr or c is SymBytes:
        for p in x.p:
            if p.__class__ is not str:
                vs.add(p.var)
    elif c is SymInt or c is SymBool:
        vs.update(x.vars)
    elif c in (list, tuple):
        for y in x:
            _vars_of(y, vs)
    elif c is SDict:
        for kk, y in x.items():
            _vars_of(kk, vs)
            _vars_of(y, vs)
    elif c is SSet:
        for y in x:
            _vars_of(y, vs)


def _inst(x, v, i):
    c = x.__class__
    if c is SymStr or c is SymBytes:
        s = "".join(p if p.__class__ is str else p.tab.v[i] for p in x.p)
        return s if c is SymStr else s.encode("latin-1")
    if c is SymInt and x.tab is not None:
        return x.tab[1].v[i]
    if c in (list, tuple):
        return c(_inst(y, v, i) for y in x)
    if issym(x) or has_sym(x):
        return deep_concretise(x)
    return x


def _hasshim(x):
    return x.__class__ in (SDict, SSet, SFrozen) or (x.__class__ in (list, tuple) and any(_hasshim(y) for y in x))


def sc_f(f, /, *a, **k):
    if a or k:
        if f.__class__ is _enum.EnumMeta and len(a) == 1 and not k and issym(a[0]):
            for mem in f:
                if a[0] == mem.value:
                    return mem
            raise ValueError("%s is not a valid %s" % (deep_concretise(a[0]), f.__qualname__))
        if not _safe_callable(f):
            for x in a:
                if issym(x) or has_sym(x):
                    return lift(f, a, k)
            for x in k.values():
                if issym(x) or has_sym(x):
                    return lift(f, a, k)
            if any(_hasshim(x) for x in a):
                a = [deep_concretise(x) for x in a]
            if any(_hasshim(x) for x in k.values()):
                k = {q: deep_concretise(x) for q, x in k.items()}
    return f(*a, **k)


def sc_m(obj, name, /, *a, **k):
    t = obj.__class__
    if t is str:
        if name == "join":
            items = list(a[0])
            for x in items:
                if x.__class__ is SymStr:
                    return SymStr(tuple(obj)).join(items)
            return obj.join(items)
        if name == "format":
            return fmt_format(obj, a, k)
        for x in a:
            if issym(x) or has_sym(x):
                return getattr(SymStr(tuple(obj)), name)(*a, **k)
        if name == "translate" and a[0].__class__ is SDict:
            return obj.translate(dict(a[0].items()))
        return getattr(obj, name)(*a, **k)
    if t is bytes:
        if name == "join":
            items = list(a[0])
            if any(x.__class__ is SymBytes for x in items):
                return SymBytes(tuple(obj.decode("latin-1"))).join(items)
            return obj.join(items)
        for x in a:
            if issym(x):
                return getattr(SymBytes(tuple(obj.decode("latin-1"))), name)(*a, **k)
        return getattr(obj, name)(*a, **k)
    return sc_f(getattr(obj, name), *a, **k)


def sc_dict(*items):
    d = SDict()
    for it in items:
        if len(it) == 2:
            d[it[0]] = it[1]
        else:
            d.update(it[0])
    return d


def sc_dictcomp(it):
    d = SDict()
    for kk, v in it:
        d[kk] = v
    return d


def sc_set(it):
    return SSet(it)


_LEAK = _re.compile(r"\b(SymStr|SymBytes|SymInt|SymBool|SDict|SSet|SFrozen|_Keys|_Items|_Values)\b")


def sc_exc():
    """Entered at the start of every except handler of instrumented code."""
    e = sys.exc_info()[1]
    if isinstance(e, (TypeError, AttributeError, ValueError, SystemError)):
        try:
            s = " ".join(x for x in e.args if isinstance(x, str))
        except Exception:
            s = ""
        if _LEAK.search(s):
            raise Unsupported("model type leaked into native code: %s" % s)


# ------------------------------------------------------------ builtins shims
class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str) or x.__class__ is SymStr

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, str)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return to_str(a[0])
        if a and issym(a[0]):
            return a[0].decode(*a[1:], **k)
        return str(*a, **k)

    def __getattr__(cls, name):
        native = getattr(str, name)

        def f(x, *a, **k):
            return sc_m(x, name, *a, **k) if isinstance(x, (str, SymStr)) else native(x, *a, **k)
        return native if name.startswith("__") or name == "maketrans" else f

    def __eq__(cls, o):
        return o is cls or o is str or o is SymStr

    def __hash__(cls):
        return hash(str)

    def __repr__(cls):
        return "<class 'str'>"

    def __or__(cls, o):
        return (cls, o) if not isinstance(o, tuple) else (cls,) + o

    def __ror__(cls, o):
        return (o, cls) if not isinstance(o, tuple) else o + (cls,)


class StrShim(metaclass=_StrMeta):
    pass


StrShim.__name__ = "str"


def to_int(x=0, base=None):
    c = x.__class__
    if base is not None:
        return lift(int, (x, base), {}) if has_sym((x, base)) else int(x, base)
    if c is SymInt:
        return x
    if c is SymBool:
        return int(bool(x))
    if c is not SymStr:
        return int(x)
    s = x.strip()
    ps = list(pieces(s))
    neg = False
    bad = ValueError("invalid literal for int() with base 10")
    if not ps:
        raise bad
    if ch_test(ps[0], "plusminus", lambda ch: ch in "+-"):
        if ch_test(ps[0], "minus", lambda ch: ch == "-"):
            neg = True
        ps = ps[1:]
        if not ps:
            raise bad
    digits = []
    prevdigit = False
    for i, p in enumerate(ps):
        if ch_test(p, "isdecimal", str.isdecimal):
            digits.append(p)
            prevdigit = True
        elif ch_test(p, "underscore", lambda ch: ch == "_") and prevdigit and i + 1 < len(ps):
            prevdigit = False
        else:
            raise bad
    if not prevdigit:
        raise bad
    val = 0
    for p in digits:
        if p.__class__ is str:
            d = unicodedata.decimal(p)
        else:
            d = SymInt(tab=(p.var, p.tab.map(lambda ch: unicodedata.decimal(ch, 0))))
            live = {d.tab[1].v[i] for i in bits(E.dom[p.var])}
            if len(live) == 1:
                d = live.pop()
            elif all(_digitrun(p, i) for i in bits(E.dom[p.var])):
                d = SymInt(p.var.z - _digitbase(p), {p.var}) if p.tab is _alphatab() else d
        val = val * 10 + d
    return -val if neg else val


def _alphatab():
    from .core import ALPHATAB
    return ALPHATAB


def _digitrun(p, i):
    return p.tab.v[i] in "0123456789"


def _digitbase(p):
    from .core import AIDX
    return AIDX["0"]


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or x.__class__ is SymInt or x.__class__ is SymBool

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)

    def __call__(cls, *a, **k):
        return to_int(*a, **k)

    def __getattr__(cls, name):
        return getattr(int, name)

    def __eq__(cls, o):
        return o is cls or o is int or o is SymInt

    def __hash__(cls):
        return hash(int)

    def __repr__(cls):
        return "<class 'int'>"

    def __or__(cls, o):
        return (cls, o) if not isinstance(o, tuple) else (cls,) + o

    def __ror__(cls, o):
        return (o, cls) if not isinstance(o, tuple) else o + (cls,)


class IntShim(metaclass=_IntMeta):
    pass


IntShim.__name__ = "int"


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bytes) or x.__class__ is SymBytes

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, bytes)

    def __call__(cls, *a, **k):
        if a and a[0].__class__ is SymStr:
            return a[0].encode(*a[1:], **k)
        if a and a[0].__class__ is SymBytes:
            return a[0]
        if a and has_sym(a[0]):
            ps = []
            for x in a[0]:
                if x.__class__ is SymInt and x.tab is not None:
                    ps.append(ch_mk(x.tab[0], x.tab[1].map(lambda n: chr(n) if 0 <= n < 256 else "\0")))
                else:
                    ps.append(chr(concretise(x)))
            return mk(ps, SymBytes)
        return bytes(*a, **k)

    def __getattr__(cls, name):
        return getattr(bytes, name)

    def __eq__(cls, o):
        return o is cls or o is bytes or o is SymBytes

    def __hash__(cls):
        return hash(bytes)


class BytesShim(metaclass=_BytesMeta):
    pass


BytesShim.__name__ = "bytes"
_TYPEMAP = {str: StrShim, SymStr: StrShim, int: IntShim, SymInt: IntShim, dict: SDict, set: SSet, bytes: BytesShim,
            SymBytes: BytesShim, SymBool: bool}


def sc_type(*a):
    if len(a) == 1:
        t = type(a[0])
        return _TYPEMAP.get(t, t)
    return type(*a)


def sc_isinstance(x, t):
    """isinstance with unions built from shims."""
    c = x.__class__
    if c is SymBool:
        ts = t if isinstance(t, tuple) else (t,)
        return any(y is bool or y is IntShim or y is object for y in ts)
    return isinstance(x, t)


def sc_ord(c):
    if c.__class__ is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        p = c.p[0]
        return SymInt(tab=(p.var, p.tab.map(ord)))
    return ord(c)


def sc_chr(i):
    if i.__class__ is SymInt:
        if i.tab is not None and all(0 <= x < 0x110000 for x in i.tab[1].v):
            return mk((ch_mk(i.tab[0], i.tab[1].map(chr)),))
        return chr(concretise(i))
    return chr(i)


def sc_sorted(it, *, key=None, reverse=False):
    return sorted(list(it), key=key, reverse=reverse)


def sc_print(*a, **k):
    from .stubs.env import current
    f = k.get("file")
    text = SymStr(tuple(concretise(k.get("sep") or " "))).join([to_str(x) for x in a]) if len(a) != 1 else to_str(a[0])
    end = k.get("end")
    text = text + ("\n" if end is None else end)
    if f is not None and hasattr(f, "write"):
        f.write(text)
    else:
        current().stdout.append(text)


def sc_open(path, mode="r", *a, **k):
    from .stubs.env import current
    return current().fs.open_builtin(path, mode, *a, **k)


def sc_hash(x):
    return hash(x)


def sc_format(v, spec=""):
    return fmt_value(v, -1, spec)


def sc_exit(code=None):
    raise SystemExit(code)


def sc_attr(obj, name):
    """A method of a string used as a value takes symbolic arguments too."""
    if obj.__class__ is str or obj.__class__ is bytes:
        return functools.partial(sc_m, obj, name)
    return getattr(obj, name)


def sc_base(c):
    """The native type where a class derives from a built-in one whose values may be symbolic."""
    if c is sc_type:
        return type
    return {StrShim: str, IntShim: int, BytesShim: bytes}.get(c, c) if isinstance(c, type) else c


collections.abc.MutableMapping.register(SDict)
collections.abc.MutableSet.register(SSet)
collections.abc.Set.register(SFrozen)
collections.abc.Sequence.register(SymStr)
collections.abc.Sequence.register(SymBytes)
collections.abc.KeysView.register(_Keys)
collections.abc.ItemsView.register(_Items)
collections.abc.ValuesView.register(_Values)


# ---- match statements
def sc_true(*a):
    return True


def sc_matchseq(x, n, star):
    if isinstance(x, (bytearray, BytesShim, StrShim)) or not isinstance(x, collections.abc.Sequence):
        return False
    return len(x) >= n if star else len(x) == n


def sc_matchstar(x, i, after):
    return list(x)[i:len(x) - after]


def sc_matchmap(x):
    return isinstance(x, (SDict, collections.abc.Mapping))


def sc_matchrest(x, keys):
    return SDict([(k, v) for k, v in x.items() if not any(k == q for q in keys)])


def sc_matchpos(x, cls, i):
    if hasattr(cls, "__match_args__"):
        return getattr(x, cls.__match_args__[i])
    return x


def make_builtins(importer):
    d = dict(vars(_b))
    d.update({
        "__import__": importer,
        "str": StrShim, "int": IntShim, "bytes": BytesShim, "dict": SDict, "set": SSet, "frozenset": SFrozen,
        "type": sc_type, "isinstance": sc_isinstance, "ord": sc_ord, "chr": sc_chr, "sorted": sc_sorted,
        "print": sc_print, "open": sc_open, "repr": to_repr, "format": sc_format, "exit": sc_exit, "quit": sc_exit,
        "_symx_m": sc_m, "_symx_f": sc_f, "_symx_mod": sc_mod, "_symx_fstr": sc_fstr, "_symx_in": sc_in,
        "_symx_dict": sc_dict, "_symx_dictcomp": sc_dictcomp, "_symx_set": sc_set, "_symx_exc": sc_exc,
        "_symx_attr": sc_attr, "_symx_base": sc_base, "hash": sc_hash, "_symx_true": sc_true, "_symx_matchseq": sc_matchseq, "_symx_matchstar": sc_matchstar, "_symx_matchmap": sc_matchmap,
        "_symx_matchrest": sc_matchrest, "_symx_matchpos": sc_matchpos,
        "_symx_cov": E.cov.add,
    })
    return d


_OKBUILTIN.update({sc_true, sc_matchseq, sc_matchstar, sc_matchmap, sc_matchrest, sc_matchpos, sc_type, sc_isinstance, sc_ord, sc_chr, sc_sorted, sc_print, sc_open, to_repr})
