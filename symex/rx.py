"""Backtracking regex matcher over symbolic strings (forks per character test).

Patterns are parsed with the interpreter's own parser, and every
single-character test is tabulated with the real re module, so that Unicode
classes, '$' before a trailing newline etc. behave exactly as in CPython.
"""
import re as _re
try:
    from re import _parser as _p, _constants as _c
except ImportError:  # pragma: no cover
    import sre_parse as _p
    import sre_constants as _c
from .core import E, Unsupported
from .symstr import SymStr, SymBytes, ch_test, ch_eq, mk, issym, concretise, has_sym, deep_concretise

_CATS = {
    _c.CATEGORY_DIGIT: r"\d", _c.CATEGORY_NOT_DIGIT: r"\D",
    _c.CATEGORY_SPACE: r"\s", _c.CATEGORY_NOT_SPACE: r"\S",
    _c.CATEGORY_WORD: r"\w", _c.CATEGORY_NOT_WORD: r"\W",
}
_treecache = {}
_predcache = {}


def _tree(pattern, flags):
    k = (pattern, flags)
    t = _treecache.get(k)
    if t is None:
        t = _treecache[k] = _p.parse(pattern, flags)
    return t


def _esc(o):
    return "\\U%08x" % o


def _charpred(op, av, flags):
    """(key, predicate) deciding a one-character node exactly as re does."""
    key = ("rx", str(op), repr(av), flags & (_re.I | _re.A | _re.S))
    pred = _predcache.get(key)
    if pred is None:
        def cls_body(items):
            out = ""
            for o, a in items:
                if o is _c.LITERAL:
                    out += _esc(a)
                elif o is _c.RANGE:
                    out += _esc(a[0]) + "-" + _esc(a[1])
                elif o is _c.CATEGORY:
                    out += _CATS[a]
                elif o is _c.NEGATE:
                    out = "^" + out
                else:
                    raise Unsupported("regex class item %s" % o)
            return out
        if op is _c.LITERAL:
            pat = "[%s]" % _esc(av)
        elif op is _c.NOT_LITERAL:
            pat = "[^%s]" % _esc(av)
        elif op is _c.ANY:
            pat = "."
        elif op is _c.IN:
            pat = "[%s]" % cls_body(av)
        else:
            raise Unsupported("regex op %s" % op)
        cre = _re.compile(pat, flags & (_re.I | _re.A | _re.S))
        cache = {}

        def pred(c):
            r = cache.get(c)
            if r is None:
                r = cache[c] = cre.fullmatch(c) is not None
            return r
        _predcache[key] = pred
    return key, pred


_SINGLE = (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN)


class _M:
    def __init__(self, ps, flags, start=0):
        self.ps, self.flags, self.n = ps, flags, len(ps)

    def one(self, op, av, pos, flags):
        if pos >= self.n:
            return False
        key, pred = _charpred(op, av, flags)
        return bool(ch_test(self.ps[pos], key, pred))

    def seq(self, nodes, i, pos, gr, k, flags):
        while i < len(nodes):
            op, av = nodes[i]
            if op in _SINGLE:
                if not self.one(op, av, pos, flags):
                    return None
                pos += 1
                i += 1
                continue
            if op is _c.AT:
                if not self.at(av, pos, flags):
                    return None
                i += 1
                continue
            nxt = (lambda i: lambda p, g: self.seq(nodes, i + 1, p, g, k, flags))(i)
            if op is _c.SUBPATTERN:
                gid, addf, delf, sub = av
                f2 = (flags | addf) & ~delf

                def after(p, g, gid=gid, pos=pos, nxt=nxt):
                    if gid is not None:
                        g = dict(g)
                        g[gid] = (pos, p)
                    return nxt(p, g)
                return self.seq(list(sub), 0, pos, gr, after, f2)
            if op is _c.BRANCH:
                for alt in av[1]:
                    r = self.seq(list(alt), 0, pos, gr, nxt, flags)
                    if r is not None:
                        return r
                return None
            if op in (_c.MAX_REPEAT, _c.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
                if str(op) == "POSSESSIVE_REPEAT":
                    raise Unsupported("possessive repeat")
                lo, hi, sub = av
                return self.rep(list(sub), lo, hi, op is _c.MAX_REPEAT, 0, pos, gr, nxt, flags, -1)
            if op is _c.GROUPREF:
                if av not in gr:
                    return None
                a, b = gr[av]
                for j in range(a, b):
                    if pos >= self.n or not bool(ch_eq(self.ps[j], self.ps[pos])):
                        return None
                    pos += 1
                i += 1
                continue
            if op in (_c.ASSERT, _c.ASSERT_NOT):
                d, sub = av
                sub = list(sub)
                if d > 0:
                    r = self.seq(sub, 0, pos, gr, lambda p, g: (p, g), flags)
                else:
                    w = _p.SubPattern(_p.State(), sub).getwidth()
                    if w[0] != w[1] or pos - w[0] < 0:
                        r = None
                    else:
                        r = self.seq(sub, 0, pos - w[0], gr, lambda p, g: (p, g), flags)
                if (r is not None) != (op is _c.ASSERT):
                    return None
                if op is _c.ASSERT:
                    gr = r[1]
                i += 1
                continue
            raise Unsupported("regex op %s" % op)
        return k(pos, gr)

    def rep(self, sub, lo, hi, greedy, cnt, pos, gr, nxt, flags, last):
        single = len(sub) == 1 and sub[0][0] in _SINGLE
        if single:
            op, av = sub[0]
            if greedy:
                p = pos
                c = 0
                while (hi is _c.MAXREPEAT or c < hi) and self.one(op, av, p, flags):
                    p += 1
                    c += 1
                while c >= lo:
                    r = nxt(p, gr)
                    if r is not None:
                        return r
                    c -= 1
                    p -= 1
                return None
            p, c = pos, 0
            while True:
                if c >= lo:
                    r = nxt(p, gr)
                    if r is not None:
                        return r
                if (hi is not _c.MAXREPEAT and c >= hi) or not self.one(op, av, p, flags):
                    return None
                p += 1
                c += 1

        def more():
            if (hi is not _c.MAXREPEAT and cnt >= hi) or (pos == last and cnt >= lo):
                return None
            return self.seq(sub, 0, pos, gr,
                            lambda p, g: self.rep(sub, lo, hi, greedy, cnt + 1, p, g, nxt, flags, pos), flags)
        if cnt < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else nxt(pos, gr)
        r = nxt(pos, gr)
        return r if r is not None else more()

    def isword(self, pos, flags):
        if pos < 0 or pos >= self.n:
            return False
        return self.one(_c.IN, [(_c.CATEGORY, _c.CATEGORY_WORD)], pos, flags)

    def at(self, av, pos, flags):
        if av is _c.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(flags & _re.M) and bool(ch_eq(self.ps[pos - 1], "\n"))
        if av is _c.AT_BEGINNING_STRING:
            return pos == 0
        if av is _c.AT_END:
            if pos == self.n:
                return True
            if flags & _re.M:
                return bool(ch_eq(self.ps[pos], "\n"))
            return pos == self.n - 1 and bool(ch_eq(self.ps[pos], "\n"))
        if av is _c.AT_END_STRING:
            return pos == self.n
        if av is _c.AT_BOUNDARY:
            return self.isword(pos - 1, flags) != self.isword(pos, flags)
        if av is _c.AT_NON_BOUNDARY:
            return self.isword(pos - 1, flags) == self.isword(pos, flags)
        raise Unsupported("regex anchor %s" % av)


class SymMatch:
    """Match object over a symbolic subject."""

    def __init__(self, string, pat, pos, end, gr, ngroups, names):
        self.string, self.re = string, pat
        self._s, self._e, self._g, self._n, self._names = pos, end, gr, ngroups, names
        self.lastindex = max(gr, key=lambda g: gr[g][1]) if gr else None

    def __bool__(self):
        return True

    def _gi(self, g):
        if isinstance(g, str):
            if g not in self._names:
                raise IndexError("no such group")
            return self._names[g]
        if g < 0 or g > self._n:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._gi(g)
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self._n + 1))

    def groupdict(self, default=None):
        from .containers import SDict
        return SDict({k: self._one(i, default) for k, i in self._names.items()})


def _run(pattern, string, flags, mode, pos=0):
    tree = _tree(pattern, flags)
    fl = tree.state.flags | flags
    if isinstance(string, SymStr) and not fl & _re.A:
        fl |= _re.U
    m = _M(string.p if issym(string) else tuple(string), fl)
    nodes = list(tree)
    ng = tree.state.groups - 1
    fin = (lambda p, g: (p, g)) if mode != "fullmatch" else (lambda p, g: (p, g) if p == m.n else None)
    starts = range(pos, m.n + 1) if mode == "search" else (pos,)
    for s in starts:
        r = m.seq(nodes, 0, s, {}, fin, fl)
        if r is not None:
            return SymMatch(string, pattern, s, r[0], r[1], ng, tree.state.groupdict)
    return None


class Pattern:
    """Compiled pattern usable with symbolic subjects."""

    def __init__(self, pattern, flags=0):
        self._re = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, flags
        self.groups, self.groupindex = self._re.groups, self._re.groupindex

    def _go(self, mode, string, pos=0):
        if string.__class__ is not SymStr:
            if string.__class__ is SymBytes:
                string = concretise(string)
            return getattr(self._re, mode)(string, pos) if pos else getattr(self._re, mode)(string)
        return _run(self.pattern, string, int(self.flags), mode, pos)

    def match(self, string, pos=0):
        return self._go("match", string, pos)

    def fullmatch(self, string, pos=0):
        return self._go("fullmatch", string, pos)

    def search(self, string, pos=0):
        return self._go("search", string, pos)

    def finditer(self, string):
        if string.__class__ is not SymStr:
            yield from self._re.finditer(string)
            return
        pos = 0
        while pos <= len(string):
            m = _run(self.pattern, string, int(self.flags), "search", pos)
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, string):
        if string.__class__ is not SymStr:
            return self._re.findall(string)
        out = []
        for m in self.finditer(string):
            out.append(m.group() if not self.groups else (m.group(1) if self.groups == 1 else m.groups()))
        return out

    def sub(self, repl, string, count=0):
        if string.__class__ is not SymStr and not has_sym(repl):
            return self._re.sub(repl, string, count) if not callable(repl) or True else None
        out = []
        last = 0
        n = 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            out.extend(string[last:m.start()])
            if callable(repl):
                out.extend(repl(m))
            else:
                if "\\" in repl:
                    raise Unsupported("regex template")
                out.extend(repl)
            last = m.end()
            n += 1
        out.extend(string[last:])
        return SymStr(()).join(out)

    def split(self, string, maxsplit=0):
        if string.__class__ is not SymStr:
            return self._re.split(string, maxsplit)
        out, last = [], 0
        for m in self.finditer(string):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
        out.append(string[last:])
        return out


_pats = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if issym(pattern):
        pattern = concretise(pattern)
    k = (pattern, int(flags))
    p = _pats.get(k)
    if p is None:
        p = _pats[k] = Pattern(pattern, flags)
    return p


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def escape(s):
    return _re.escape(concretise(s))


error = _re.error
for _n in ("NOFLAG", "I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "A", "ASCII", "U", "UNICODE", "X", "VERBOSE"):
    globals()[_n] = getattr(_re, _n)
