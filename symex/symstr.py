"""Symbolic strings, bytes and integers.

SymStr: concrete length; each piece is a 1-character str or a Ch = (var, Tab)
whose character is Tab[var].  SymBytes is the same over latin-1 characters.
None of these classes subclass the builtin types, so uninstrumented code that
receives one fails loudly instead of computing nonsense.
"""
import z3
from .core import (E, SymBool, Tab, ALPHATAB, AIDX, NALPHA, mask_expr, bits, s_and, s_or,
                   s_not, Unsupported)


class Ch:
    """One symbolic character: table lookup on a variable. Interned per (var, tab)."""
    __slots__ = ("var", "tab")

    def __init__(self, var, tab):
        self.var, self.tab = var, tab

    def __eq__(self, o):
        return isinstance(o, Ch) and o.var is self.var and o.tab is self.tab

    def __hash__(self):
        return hash((id(self.var), self.tab._hash))

    def mask(self, pred):
        """Mask of variable values whose character satisfies pred."""
        m = 0
        for c, cm in self.tab.inv.items():
            if pred(c):
                m |= cm
        return m

    def live(self):
        """Set of characters possible on the current path (per-variable domain)."""
        d = E.dom[self.var]
        return {c for c, m in self.tab.inv.items() if m & d}

    def __repr__(self):
        return "<Ch %s>" % "".join(sorted(self.live()))[:12]


_predcache = {}


def tabmask(tab, key, pred):
    k = (tab, key)
    m = _predcache.get(k)
    if m is None:
        m = 0
        for c, cm in tab.inv.items():
            if pred(c):
                m |= cm
        _predcache[k] = m
    return m


def ch_test(p, key, pred):
    """Condition: piece p satisfies the pure predicate pred (cached under key)."""
    if p.__class__ is str:
        return pred(p)
    return SymBool(masks={p.var: tabmask(p.tab, key, pred)})


def ch_eq(a, b):
    """Condition: pieces a and b are the same character."""
    if a.__class__ is str:
        if b.__class__ is str:
            return a == b
        return SymBool(masks={b.var: b.tab.inv.get(a, 0)})
    if b.__class__ is str:
        return SymBool(masks={a.var: a.tab.inv.get(b, 0)})
    if a == b:
        return True
    if a.var is b.var:
        m = 0
        for c, ma in a.tab.inv.items():
            m |= ma & b.tab.inv.get(c, 0)
        return SymBool(masks={a.var: m})
    return _rel_eq(a, b)


def _rel_eq(a, b):
    da, db = E.dom[a.var], E.dom[b.var]
    pairs = []
    ka = kb = 0
    na = nb = 0
    for c, ma in a.tab.inv.items():
        ma &= da
        if ma:
            na += 1
            mb = b.tab.inv.get(c, 0) & db
            if mb:
                pairs.append((ma, mb))
                ka |= ma
                kb |= mb
    if not pairs:
        return False
    if len(pairs) == 1:
        return SymBool(masks={a.var: pairs[0][0], b.var: pairs[0][1]})
    if a.tab is b.tab and a.tab.injective:
        return SymBool(expr=a.var.z == b.var.z, vars={a.var, b.var})
    e = z3.Or([z3.And(mask_expr(a.var.z, ma, a.var.n), mask_expr(b.var.z, mb, b.var.n)) for ma, mb in pairs])
    return SymBool(expr=e, vars={a.var, b.var})


def ch_lt(a, b):
    """Condition: character of a sorts before character of b."""
    if a.__class__ is str and b.__class__ is str:
        return a < b
    if b.__class__ is str:
        return SymBool(masks={a.var: tabmask(a.tab, ("lt", b), lambda c: c < b)})
    if a.__class__ is str:
        return SymBool(masks={b.var: tabmask(b.tab, ("gt", a), lambda c: c > a)})
    if a.var is b.var:
        m = 0
        for i in range(a.var.n):
            if a.tab.v[i] < b.tab.v[i]:
                m |= 1 << i
        return SymBool(masks={a.var: m})
    if a.tab is b.tab and a.tab is ALPHATAB:
        return SymBool(expr=a.var.z < b.var.z, vars={a.var, b.var})
    da, db = E.dom[a.var], E.dom[b.var]
    parts = []
    for c, ma in a.tab.inv.items():
        ma &= da
        if not ma:
            continue
        mb = 0
        for c2, m2 in b.tab.inv.items():
            if c2 > c:
                mb |= m2
        mb &= db
        if mb:
            parts.append(z3.And(mask_expr(a.var.z, ma, a.var.n), mask_expr(b.var.z, mb, b.var.n)))
    if not parts:
        return False
    return SymBool(expr=z3.Or(parts), vars={a.var, b.var})


def pieces(x):
    """Pieces of a native or symbolic string."""
    if isinstance(x, str):
        return tuple(x)
    return x.p


_eqcache = {}


def seq_eq(pa, pb):
    """Condition: piece tuples are equal as strings."""
    if pa is pb:
        return True
    if len(pa) != len(pb):
        return False
    masks = {}
    rel = None
    for a, b in zip(pa, pb):
        if a.__class__ is str:
            if b.__class__ is str:
                if a != b:
                    return False
                continue
            v, m = b.var, b.tab.inv.get(a, 0)
        elif b.__class__ is str:
            v, m = a.var, a.tab.inv.get(b, 0)
        elif a.var is b.var:
            if a.tab is b.tab:
                continue
            v = a.var
            m = 0
            for c, ma in a.tab.inv.items():
                m |= ma & b.tab.inv.get(c, 0)
        else:
            if rel is None:
                rel = {}
            rel.setdefault((a.var, b.var), {})[(a.tab, b.tab)] = (a, b)
            continue
        if v in masks:
            m &= masks[v]
        masks[v] = m
        if not m & E.dom[v]:
            return False
    if rel is None:
        return SymBool(masks=masks) if masks else True
    conds = [SymBool(masks=masks)] if masks else []
    for (va, vb), tabs in rel.items():
        if len(tabs) == 1:
            (a, b), = tabs.values()
            c = _rel_eq(a, b)
        else:
            c = _rel_eq_joint(va, vb, list(tabs))
        if c is False:
            return False
        conds.append(c)
    return s_and(*conds)


def _rel_eq_joint(va, vb, tabs):
    """Several characters share the same two variables (digests): relate values jointly."""
    ga, gb = {}, {}
    for i in bits(E.dom[va]):
        k = tuple(ta.v[i] for ta, _ in tabs)
        ga[k] = ga.get(k, 0) | 1 << i
    for j in bits(E.dom[vb]):
        k = tuple(tb.v[j] for _, tb in tabs)
        gb[k] = gb.get(k, 0) | 1 << j
    pairs = [(m, gb[k]) for k, m in ga.items() if k in gb]
    if not pairs:
        return False
    if len(pairs) == 1:
        return SymBool(masks={va: pairs[0][0], vb: pairs[0][1]})
    if len(pairs) == len(ga) == len(gb) and all(ma == mb and ma & (ma - 1) == 0 for ma, mb in pairs):
        return SymBool(expr=va.z == vb.z, vars={va, vb})
    e = z3.Or([z3.And(mask_expr(va.z, ma, va.n), mask_expr(vb.z, mb, vb.n)) for ma, mb in pairs])
    return SymBool(expr=e, vars={va, vb})


def ch_mk(var, tab):
    """Ch, or its constant when the table is constant."""
    if len(tab.inv) == 1:
        return tab.v[0]
    return Ch(var, tab)


def mk(ps, cls=None):
    """Build a SymStr (or native str when every piece is concrete)."""
    for p in ps:
        if p.__class__ is not str:
            return (cls or SymStr)(tuple(ps))
    s = "".join(ps)
    if cls is SymBytes:
        return s.encode("latin-1")
    return s


def issym(x):
    return x.__class__ in _SYMTYPES


class _Seq:
    """Operations shared by SymStr and SymBytes (pieces are characters)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    # conversions of an operand to pieces, None if wrong type
    @classmethod
    def _ps(cls, x):
        raise NotImplementedError

    def _need(self, x, what):
        ps = self._ps(x)
        if ps is None:
            raise TypeError("%s must be %s, not %s" % (what, self._tname, _tname(x)))
        return ps

    def _mk(self, ps):
        return mk(ps, self.__class__)

    def __len__(self):
        return len(self.p)

    def __bool__(self):
        return len(self.p) > 0

    def __eq__(self, o):
        if self is o:
            return True
        ps = self._ps(o)
        if ps is None:
            return False
        return seq_eq(self.p, ps)

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __hash__(self):
        return hash(concretise(self))

    def _cmp(self, o, lt, on_equal):
        ps = self._ps(o)
        if ps is None:
            return NotImplemented
        for a, b in zip(self.p, ps):
            c = ch_eq(a, b)
            if c is True:
                continue
            if c is not False and bool(c):
                continue
            return ch_lt(a, b) if lt else ch_lt(b, a)
        la, lb = len(self.p), len(ps)
        if la == lb:
            return on_equal
        return la < lb if lt else la > lb

    def __lt__(self, o):
        return self._cmp(o, True, False)

    def __le__(self, o):
        return self._cmp(o, True, True)

    def __gt__(self, o):
        return self._cmp(o, False, False)

    def __ge__(self, o):
        return self._cmp(o, False, True)

    def __add__(self, o):
        ps = self._ps(o)
        if ps is None:
            if o.__class__.__name__ == "JSeq":
                return NotImplemented
            raise TypeError("can only concatenate %s (not %s)" % (self._tname, _tname(o)))
        return self._mk(self.p + ps)

    def __radd__(self, o):
        ps = self._ps(o)
        if ps is None:
            if o.__class__.__name__ == "JSeq":
                return NotImplemented
            raise TypeError("can only concatenate %s (not %s)" % (self._tname, _tname(o)))
        return self._mk(ps + self.p)

    def __mul__(self, n):
        return self._mk(self.p * n.__index__())

    __rmul__ = __mul__

    def _slice(self, i):
        i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
        return self._mk(self.p[i])

    # ---- searching
    def _at(self, i, sub):
        return seq_eq(self.p[i:i + len(sub)], sub)

    def _range(self, start, end):
        n = len(self.p)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def _find(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        if start is not None and start > len(self.p):
            return -1
        for i in range(s, e - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def _rfind(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(self._need(sub, "argument"), start, end)

    def rfind(self, sub, start=None, end=None):
        return self._rfind(self._need(sub, "argument"), start, end)

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        sub = self._need(sub, "argument")
        s, e = self._range(start, end)
        if len(sub) == 0:
            return e - s + 1
        n, i = 0, s
        while i + len(sub) <= e:
            if self._at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def __contains__(self, sub):
        return self._find(self._need(sub, "'in <string>' requires string as left operand")) >= 0

    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return any(bool(self.startswith(x, start, end)) for x in pre)
        pre = self._need(pre, "startswith first arg")
        s, e = self._range(start, end)
        if len(pre) > e - s:
            return False
        return seq_eq(self.p[s:s + len(pre)], pre)

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return any(bool(self.endswith(x, start, end)) for x in suf)
        suf = self._need(suf, "endswith first arg")
        s, e = self._range(start, end)
        if len(suf) > e - s:
            return False
        return seq_eq(self.p[e - len(suf):e], suf)

    # ---- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._splitws(maxsplit)
        sep = self._need(sep, "sep")
        if not sep:
            raise ValueError("empty separator")
        out, last, i = [], 0, 0
        while i + len(sep) <= len(self.p) and (maxsplit < 0 or len(out) < maxsplit):
            if self._at(i, sep):
                out.append(self._mk(self.p[last:i]))
                i += len(sep)
                last = i
            else:
                i += 1
        out.append(self._mk(self.p[last:]))
        return out

    def _splitws(self, maxsplit):
        out, cur, i = [], [], 0
        n = len(self.p)
        while i < n:
            while i < n and self._isspace(self.p[i]):
                i += 1
            if i >= n:
                break
            if 0 <= maxsplit <= len(out):
                rest = self._mk(self.p[i:]).rstrip()
                out.append(rest)
                return out
            cur = []
            while i < n and not self._isspace(self.p[i]):
                cur.append(self.p[i])
                i += 1
            out.append(self._mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._splitws(-1)
            raise Unsupported("rsplit(None, n)")
        sep = self._need(sep, "sep")
        if not sep:
            raise ValueError("empty separator")
        out, end, i = [], len(self.p), len(self.p) - len(sep)
        while i >= 0 and (maxsplit < 0 or len(out) < maxsplit):
            if self._at(i, sep):
                out.append(self._mk(self.p[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self._mk(self.p[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        sep = self._need(sep, "sep")
        i = self._find(sep)
        e = self._mk(())
        if i < 0:
            return (self, e, e)
        return (self._mk(self.p[:i]), self._mk(sep), self._mk(self.p[i + len(sep):]))

    def rpartition(self, sep):
        sep = self._need(sep, "sep")
        i = self._rfind(sep)
        e = self._mk(())
        if i < 0:
            return (e, e, self)
        return (self._mk(self.p[:i]), self._mk(sep), self._mk(self.p[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, cur = [], []
        i, n = 0, len(self.p)
        while i < n:
            p = self.p[i]
            if self._islinebreak(p):
                end = [p]
                if ch_eq(p, "\r") and i + 1 < n and ch_eq(self.p[i + 1], "\n"):
                    i += 1
                    end.append(self.p[i])
                out.append(self._mk(cur + end if keepends else cur))
                cur = []
            else:
                cur.append(p)
            i += 1
        if cur:
            out.append(self._mk(cur))
        return out

    def _instrip(self, chars):
        if chars is None:
            return self._isspace
        cs = self._need(chars, "strip arg")

        def test(p):
            for c in cs:
                if ch_eq(p, c):
                    return True
            return False

        def testc(p):
            key = ("in", cs)
            s = frozenset(cs)
            return bool(ch_test(p, key, lambda c: c in s))
        return testc if all(c.__class__ is str for c in cs) else test

    def lstrip(self, chars=None):
        t = self._instrip(chars)
        i = 0
        while i < len(self.p) and t(self.p[i]):
            i += 1
        return self._mk(self.p[i:])

    def rstrip(self, chars=None):
        t = self._instrip(chars)
        i = len(self.p)
        while i > 0 and t(self.p[i - 1]):
            i -= 1
        return self._mk(self.p[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if len(r) else r

    def replace(self, old, new, count=-1):
        old = self._need(old, "old")
        new = self._need(new, "new")
        if not old:
            raise Unsupported("replace of empty string")
        if len(old) == 1 and len(new) == 1 and count < 0 and old[0].__class__ is str and new[0].__class__ is str:
            o, w = old[0], new[0]
            return self._mk([(w if p == o else p) if p.__class__ is str
                             else ch_mk(p.var, p.tab.map(lambda c: w if c == o else c)) for p in self.p])
        out, i, k = [], 0, 0
        while i < len(self.p):
            if (count < 0 or k < count) and i + len(old) <= len(self.p) and self._at(i, old):
                out.extend(new)
                i += len(old)
                k += 1
            else:
                out.append(self.p[i])
                i += 1
        return self._mk(out)

    def removeprefix(self, pre):
        return self._mk(self.p[len(pre):]) if self.startswith(pre) else self

    def removesuffix(self, suf):
        return self._mk(self.p[:len(self.p) - len(suf)]) if len(suf) and self.endswith(suf) else self

    def join(self, items):
        out = []
        first = True
        for x in items:
            ps = self._ps(x)
            if ps is None:
                raise TypeError("sequence item: expected %s instance, %s found" % (self._tname, _tname(x)))
            if not first:
                out.extend(self.p)
            out.extend(ps)
            first = False
        return self._mk(out)

    # ---- per character maps and predicates
    def _mapc(self, fn):
        """Apply a pure per-character function whose results may have any length."""
        out = []
        for p in self.p:
            out.extend(map_piece(p, fn))
        return self._mk(out)

    def _all(self, key, pred):
        if not self.p:
            return False
        return s_and(*[ch_test(p, key, pred) for p in self.p])

    def lower(self):
        return self._mapc(_lower)

    def upper(self):
        return self._mapc(_upper)

    def casefold(self):
        return self._mapc(str.casefold)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isprintable(self):
        return True if not self.p else self._all("isprintable", str.isprintable)

    def isascii(self):
        return True if not self.p else self._all("isascii", str.isascii)

    def islower(self):
        c = concretise(self)
        return c.islower()

    def isupper(self):
        c = concretise(self)
        return c.isupper()

    def zfill(self, n):
        if len(self.p) >= n:
            return self
        if self.p and ch_test(self.p[0], "sign", lambda c: c in "+-"):
            return self._mk((self.p[0],) + ("0",) * (n - len(self.p)) + self.p[1:])
        return self._mk(("0",) * (n - len(self.p)) + self.p)

    def ljust(self, n, fill=" "):
        return self._mk(self.p + (fill,) * (n - len(self.p)))

    def rjust(self, n, fill=" "):
        return self._mk((fill,) * (n - len(self.p)) + self.p)

    def __getattr__(self, name):
        if hasattr(self._native, name) and not name.startswith("__"):
            native = getattr(self._native, name)

            def call(*a, **k):
                E.note("concretised receiver of %s.%s" % (self._tname, name))
                return native(concretise(self), *[deep_concretise(x) for x in a], **k)
            return call
        raise AttributeError("'%s' object has no attribute '%s'" % (self._tname, name))

    def __repr__(self):
        return "<%s %r>" % (type(self).__name__, self.p)


def _lower(c):
    return c.lower()


def _upper(c):
    return c.upper()


_mapcache = {}


def map_piece(p, fn, key=None):
    """Pieces of fn(character); forks on the length of the result when it varies."""
    if p.__class__ is str:
        return tuple(fn(p))
    k = (p.tab, key or fn)
    res = _mapcache.get(k)
    if res is None:
        vals = {}
        for c in p.tab.inv:
            try:
                vals[c] = fn(c)
            except Exception as e:   # pure function may reject a character
                vals[c] = e
        groups = {}
        for c, r in vals.items():
            g = ("exc", type(r)) if isinstance(r, Exception) else len(r)
            groups[g] = groups.get(g, 0) | p.tab.inv[c]
        res = _mapcache[k] = (vals, groups)
    vals, groups = res
    live = [(g, m) for g, m in groups.items() if m & E.dom[p.var]]
    for g, m in live[:-1]:
        if E.branch(SymBool(masks={p.var: m})):
            break
    else:
        g, m = live[-1]
    if isinstance(g, tuple):
        i = next(bits(m & E.dom[p.var]))
        raise vals[p.tab.v[i]]
    out = []
    for j in range(g):
        tab = Tab(vals[c][j] if isinstance(vals[c], (str, list, tuple)) and len(vals[c]) == g else "\0" for c in p.tab.v)
        if len({x for i, x in enumerate(tab.v) if E.dom[p.var] >> i & 1}) == 1:
            out.append(tab.v[next(bits(E.dom[p.var]))])
        else:
            out.append(ch_mk(p.var, tab))
    return tuple(out)


class SymStr(_Seq):
    __slots__ = ()
    _tname = "str"
    _native = str

    @classmethod
    def _ps(cls, x):
        if x.__class__ is SymStr:
            return x.p
        if isinstance(x, str):
            return tuple(x)
        return None

    def _isspace(self, p):
        return bool(ch_test(p, "isspace", str.isspace))

    def _islinebreak(self, p):
        return bool(ch_test(p, "linebreak", lambda c: len(("a" + c + "b").splitlines()) == 2))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        return mk((self.p[i.__index__()],))

    def __iter__(self):
        for p in self.p:
            yield p if p.__class__ is str else SymStr((p,))

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("-", "").replace("_", "")
        if enc not in ("utf8", "ascii", "latin1"):
            return concretise(self).encode(encoding, errors)
        out = []
        for p in self.p:
            if enc == "utf8":
                out.extend(map_piece(p, _utf8))
            elif enc == "ascii":
                out.extend(map_piece(p, _ascii))
            else:
                out.extend(map_piece(p, _latin1))
        return mk(out, SymBytes)

    def __format__(self, spec):
        if spec in ("", "s"):
            return str(self)
        return format(concretise(self), spec)

    def __str__(self):
        # Reached from uninstrumented formatting only: exact by concretisation.
        return concretise(self)

    def __mod__(self, o):
        return concretise(self) % deep_concretise(o)

    def __rmod__(self, o):
        from .runtime import fmt_percent
        return fmt_percent(o, self)

    def translate(self, table):
        def f(c):
            r = table.get(ord(c), c) if hasattr(table, "get") else c.translate(table)
            return "" if r is None else (chr(r) if isinstance(r, int) else r)
        out = []
        for p in self.p:
            out.extend(map_piece(p, f, key=("translate", id(table))))
        return mk(out)

    def format(self, *a, **k):
        return concretise(self).format(*[deep_concretise(x) for x in a], **k)


def _utf8(c):
    return c.encode("utf-8").decode("latin-1")


def _ascii(c):
    return c.encode("ascii").decode("latin-1")


def _latin1(c):
    return c.encode("latin-1").decode("latin-1")


class SymBytes(_Seq):
    __slots__ = ()
    _tname = "bytes"
    _native = bytes

    @classmethod
    def _ps(cls, x):
        if x.__class__ is SymBytes:
            return x.p
        if isinstance(x, (bytes, bytearray)):
            return tuple(bytes(x).decode("latin-1"))
        return None

    def _isspace(self, p):
        return bool(ch_test(p, "bisspace", lambda c: c in " \t\n\r\x0b\x0c"))

    def _islinebreak(self, p):
        return bool(ch_test(p, "blinebreak", lambda c: c in "\n\r"))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        return byte_int(self.p[i.__index__()])

    def __iter__(self):
        for p in self.p:
            yield byte_int(p)

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self, encoding, errors)

    def hex(self):
        out = []
        for p in self.p:
            out.extend(map_piece(p, _hex2))
        return mk(out)

    def lower(self):
        return self._mapc(lambda c: chr(c.encode("latin-1").lower()[0]))

    def upper(self):
        return self._mapc(lambda c: chr(c.encode("latin-1").upper()[0]))


def _hex2(c):
    return "%02x" % ord(c)


def byte_int(p):
    if p.__class__ is str:
        return ord(p)
    return SymInt(tab=(p.var, p.tab.map(ord)))


def decode_bytes(b, encoding="utf-8", errors="strict"):
    """Decode SymBytes: forks on UTF-8 lead byte classes."""
    enc = encoding.lower().replace("-", "").replace("_", "")
    if enc == "latin1":
        return mk(b.p)
    if enc not in ("utf8", "ascii"):
        return concretise(b).decode(encoding, errors)
    out = []
    ps = b.p
    i = 0
    while i < len(ps):
        p = ps[i]
        if ch_test(p, "ascii", lambda c: ord(c) < 128):
            out.append(p)
            i += 1
            continue
        if enc == "ascii" or errors != "strict":
            raise UnicodeDecodeError(enc, b"?", i, i + 1, "ordinal not in range")
        n = None
        for k, lo, hi in ((2, 0xC2, 0xDF), (3, 0xE0, 0xEF), (4, 0xF0, 0xF4)):
            if ch_test(p, ("lead", k), lambda c, lo=lo, hi=hi: lo <= ord(c) <= hi):
                n = k
                break
        if n is None or i + n > len(ps):
            raise UnicodeDecodeError("utf-8", b"?", i, i + 1, "invalid start byte")
        seq = ps[i:i + n]
        syms = [q for q in seq if q.__class__ is not str]
        vs = {q.var for q in syms}
        if len(vs) <= 1:
            if not vs:
                out.append("".join(seq).encode("latin-1").decode("utf-8"))
            else:
                v, = vs
                vals = []
                bad = 0
                for idx in range(v.n):
                    s = "".join(q if q.__class__ is str else q.tab.v[idx] for q in seq)
                    try:
                        c = s.encode("latin-1").decode("utf-8")
                    except (UnicodeDecodeError, UnicodeEncodeError):
                        c = "\0"
                        bad |= 1 << idx
                    if len(c) != 1:
                        c = "\0"
                        bad |= 1 << idx
                    vals.append(c)
                if E.branch(SymBool(masks={v: bad})):
                    raise UnicodeDecodeError("utf-8", b"?", i, i + 1, "invalid sequence")
                out.append(ch_mk(v, Tab(vals)))
        else:
            out.append(concretise(SymBytes(seq)).decode("utf-8"))
        i += n
    return mk(out)


# ------------------------------------------------------------------ integers
class SymInt:
    """Symbolic mathematical integer: z3 Int expression, or table on one variable."""
    __slots__ = ("_e", "vars", "tab")

    def __init__(self, expr=None, vars=None, tab=None):
        self._e, self.tab = expr, tab
        self.vars = {tab[0]} if tab is not None else vars

    @property
    def e(self):
        if self._e is None:
            v, t = self.tab
            base = t.v[0]
            if all(x == base + i for i, x in enumerate(t.v)):
                self._e = v.z + base if base else v.z
            else:
                e = z3.IntVal(t.v[-1])
                for x, m in t.inv.items():
                    e = z3.If(mask_expr(v.z, m, v.n), z3.IntVal(x), e)
                self._e = e
        return self._e

    @staticmethod
    def _co(o):
        if o.__class__ is SymInt:
            return o
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return o
        return None

    def _bin(self, o, f, rev=False):
        o2 = self._co(o)
        if o2 is None:
            if isinstance(o, float):
                return f(o, self.__index__()) if rev else f(self.__index__(), o)
            return NotImplemented
        if self.tab is not None:
            v, t = self.tab
            if o2.__class__ is int:
                return SymInt(tab=(v, Tab((f(o2, x) if rev else f(x, o2)) for x in t.v)))
            if o2.tab is not None and o2.tab[0] is v:
                return SymInt(tab=(v, Tab((f(y, x) if rev else f(x, y)) for x, y in zip(t.v, o2.tab[1].v))))
        a = self.e
        b, vs = (z3.IntVal(o2), set()) if o2.__class__ is int else (o2.e, o2.vars)
        return SymInt(f(b, a) if rev else f(a, b), self.vars | vs)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        o2 = self._co(o)
        if o2 is None and not isinstance(o, float):
            return o * self.__index__()
        if o2.__class__ is SymInt and not (self.tab and o2.tab and self.tab[0] is o2.tab[0]):
            return self.__index__() * o2
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _divmod(self, o, which):
        o2 = self._co(o)
        if o2.__class__ is SymInt:
            o2 = o2.__index__()
        if o2 == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if self.tab is not None:
            return self._bin(o2, lambda a, b: a // b if which == "d" else a % b)
        if o2 < 0:
            return (self.__index__() // o2) if which == "d" else (self.__index__() % o2)
        return SymInt(self.e / o2 if which == "d" else self.e % o2, self.vars)

    def __floordiv__(self, o):
        return self._divmod(o, "d")

    def __mod__(self, o):
        return self._divmod(o, "m")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return self.__index__() / o

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, (str, SymStr)):
            from .runtime import fmt_percent
            return fmt_percent(o, self)
        return o % self.__index__()

    def __neg__(self):
        return self._bin(0, lambda a, b: b - a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(self, o, f):
        o2 = self._co(o)
        if o2 is None:
            if isinstance(o, float):
                return f(self.__index__(), o)
            return NotImplemented
        if self.tab is not None:
            v, t = self.tab
            if o2.__class__ is int:
                m = 0
                for x, xm in t.inv.items():
                    if f(x, o2):
                        m |= xm
                return SymBool(masks={v: m})
            if o2.tab is not None and o2.tab[0] is v:
                m = 0
                for i, (x, y) in enumerate(zip(t.v, o2.tab[1].v)):
                    if f(x, y):
                        m |= 1 << i
                return SymBool(masks={v: m})
        b, vs = (z3.IntVal(o2), set()) if o2.__class__ is int else (o2.e, o2.vars)
        return SymBool(expr=f(self.e, b), vars=self.vars | vs)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        return concretise(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __repr__(self):
        return "<SymInt>"


_SYMTYPES = {SymStr, SymBytes, SymInt, SymBool}
_TN = {SymStr: "str", SymBytes: "bytes", SymInt: "int", SymBool: "bool"}


def _tname(x):
    return _TN.get(x.__class__) or type(x).__name__


def concretise(x):
    """Concrete value, forking over every feasible one (exact up to the cap)."""
    c = x.__class__
    if c is SymStr or c is SymBytes:
        out = []
        for p in x.p:
            if p.__class__ is str:
                out.append(p)
            else:
                out.append(p.tab.v[E.pick_index(p.var)])
        s = "".join(out)
        return s if c is SymStr else s.encode("latin-1")
    if c is SymInt:
        if x.tab is not None:
            v, t = x.tab
            live = sorted({t.v[i] for i in bits(E.dom[v])})
            for val in live[:-1]:
                if E.branch(SymBool(masks={v: t.inv[val]})):
                    return val
            return live[-1]
        return E.pick_int(x.e, x.vars)
    if c is SymBool:
        return bool(x)
    return x


def deep_concretise(x):
    c = x.__class__
    if c in _SYMTYPES:
        return concretise(x)
    if c in (list, tuple):
        return c(deep_concretise(y) for y in x)
    from .containers import SDict, SSet
    if c is SDict or c is dict:
        return {deep_concretise(k): deep_concretise(v) for k, v in x.items()}
    if c is SSet or c is set:
        return {deep_concretise(k) for k in x}
    return x


def has_sym(x, depth=3):
    """Does x contain a symbolic value (looking into small containers)?"""
    c = x.__class__
    if c in _SYMTYPES:
        return True
    if depth and c in (list, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and getattr(x, "_is_sdict", False):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if depth and getattr(x, "_is_sset", False):
        return any(has_sym(k, depth - 1) for k in x)
    return False


def val_at(x, values):
    """Evaluate a (possibly nested) symbolic value under a model (list of indices)."""
    c = x.__class__
    if c is SymStr:
        return "".join(p if p.__class__ is str else p.tab.v[values[p.var.id]] for p in x.p)
    if c is SymBytes:
        return "".join(p if p.__class__ is str else p.tab.v[values[p.var.id]] for p in x.p).encode("latin-1")
    if c is SymInt:
        if x.tab is not None:
            return x.tab[1].v[values[x.tab[0].id]]
        s = z3.simplify(z3.substitute(x.e, *[(v.z, z3.IntVal(values[v.id])) for v in x.vars]))
        return s.as_long()
    if c is SymBool:
        s = z3.simplify(z3.substitute(x.z(), *[(v.z, z3.IntVal(values[v.id])) for v in x.vars]))
        return z3.is_true(s)
    if c in (list, tuple):
        return c(val_at(y, values) for y in x)
    if getattr(x, "_is_sdict", False) or c is dict:
        return {val_at(k, values): val_at(v, values) for k, v in x.items()}
    if getattr(x, "_is_sset", False) or c in (set, frozenset):
        return {val_at(k, values) for k in x}
    return x
