"""Dict and set models that accept symbolic keys (insertion ordered)."""
from .symstr import SymStr, SymInt, SymBytes, issym, concretise
from .core import SymBool, Unsupported, s_and


class _Key:
    """Slot token for a symbolic key."""
    __slots__ = ()


def _symkey(k):
    """True if k is (or contains) symbolic data and so cannot be hashed natively."""
    c = k.__class__
    if c is str or c is int:
        return False
    if c is SymStr or c is SymBytes or c is SymInt or c is SymBool:
        return True
    if c is tuple:
        return any(_symkey(x) for x in k)
    if c is SDict or c is SSet or c is list or c is dict or c is set:
        raise TypeError("unhashable type: '%s'" % {"SDict": "dict", "SSet": "set"}.get(c.__name__, c.__name__))
    return False


def _canbe(a, b):
    """Cheap filter: could symbolic/concrete keys a and b be equal?"""
    if a.__class__ is SymStr:
        if isinstance(b, str) or b.__class__ is SymStr:
            return len(a) == len(b)
        return False
    if b.__class__ is SymStr:
        return isinstance(a, str) and len(a) == len(b)
    return True


class _Meta(type):
    _native = object

    def __instancecheck__(cls, x):
        return x.__class__ is cls or isinstance(x, cls._native)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._native)


class _DictMeta(_Meta):
    _native = dict


class _SetMeta(_Meta):
    _native = set


_MISSING = object()


class SDict(metaclass=_DictMeta):
    """dict with possibly symbolic keys."""
    __slots__ = ("_m", "_n")
    _is_sdict = True

    def __init__(self, *args, **kw):
        self._m = {}      # token -> (key, value)
        self._n = 0       # number of symbolic keys
        if args:
            self.update(*args)
        if kw:
            self.update(kw)

    # -- lookup: returns token or _MISSING
    def _tok(self, k):
        if not _symkey(k):
            if k in self._m:
                return k
            if self._n:
                for t, (kk, _) in list(self._m.items()):
                    if t.__class__ is _Key and _canbe(kk, k) and bool(kk == k):
                        return t
            return _MISSING
        for t, (kk, _) in list(self._m.items()):
            if kk is k:
                return t
        for t, (kk, _) in list(self._m.items()):
            if _canbe(k, kk):
                r = k == kk
                if r is True or (r is not False and bool(r)):
                    return t
        return _MISSING

    def __getitem__(self, k):
        t = self._tok(k)
        if t is _MISSING:
            raise KeyError(k)
        return self._m[t][1]

    def __setitem__(self, k, v):
        t = self._tok(k)
        if t is _MISSING:
            if _symkey(k):
                t = _Key()
                self._n += 1
            else:
                t = k
            self._m[t] = (k, v)
        else:
            self._m[t] = (self._m[t][0], v)

    def __delitem__(self, k):
        t = self._tok(k)
        if t is _MISSING:
            raise KeyError(k)
        del self._m[t]
        if t.__class__ is _Key:
            self._n -= 1

    def __contains__(self, k):
        return self._tok(k) is not _MISSING

    def get(self, k, d=None):
        t = self._tok(k)
        return d if t is _MISSING else self._m[t][1]

    def pop(self, k, *d):
        t = self._tok(k)
        if t is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        if t.__class__ is _Key:
            self._n -= 1
        return self._m.pop(t)[1]

    def popitem(self):
        t, kv = self._m.popitem()
        if t.__class__ is _Key:
            self._n -= 1
        return kv

    def setdefault(self, k, d=None):
        t = self._tok(k)
        if t is _MISSING:
            self[k] = d
            return d
        return self._m[t][1]

    def update(self, *args, **kw):
        for o in args:
            if o.__class__ is SDict:
                for k, v in list(o._m.values()):
                    self[k] = v
            elif hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._m.clear()
        self._n = 0

    def copy(self):
        return self.__copy__()

    def __copy__(self):
        d = SDict()
        d._m = dict(self._m)
        d._n = self._n
        return d

    def __deepcopy__(self, memo):
        import copy
        d = SDict()
        memo[id(self)] = d
        for t, (k, v) in self._m.items():
            d._m[t] = (k, copy.deepcopy(v, memo))
        d._n = self._n
        return d

    def keys(self):
        return _Keys(self)

    def values(self):
        return _Values(self)

    def items(self):
        return _Items(self)

    def __iter__(self):
        for kv in self._m.values():
            yield kv[0]

    def __reversed__(self):
        for kv in reversed(list(self._m.values())):
            yield kv[0]

    def __len__(self):
        return len(self._m)

    def __bool__(self):
        return bool(self._m)

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (dict, SDict)) or not (o.__class__ is SDict or isinstance(o, dict)):
            return False
        if len(self) != len(o):
            return False
        if o.__class__ is not SDict:
            o = SDict(o)
        for k, v in list(self._m.values()):
            t = o._tok(k)
            if t is _MISSING:
                return False
            if not (v is o._m[t][1] or bool(v == o._m[t][1])):
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SDict(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self._m.values())

    __str__ = __repr__


class _View:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def _set(self):
        return SSet(self)

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._set()

    def __rand__(self, o):
        return SSet(o) & self._set()

    def __xor__(self, o):
        return self._set() ^ SSet(o)

    def __eq__(self, o):
        if isinstance(o, (_View, SSet, set, frozenset)):
            return self._set() == SSet(o)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __le__(self, o):
        return self._set() <= SSet(o)

    def __ge__(self, o):
        return self._set() >= SSet(o)

    def __lt__(self, o):
        return self._set() < SSet(o)

    def __gt__(self, o):
        return self._set() > SSet(o)

    __hash__ = None

    def __repr__(self):
        return "dict_view(%r)" % (list(self),)


class _Keys(_View):
    __slots__ = ()

    def __iter__(self):
        for kv in self.d._m.values():
            yield kv[0]

    def __contains__(self, k):
        return k in self.d

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __reversed__(self):
        return reversed(list(self))


class _Values(_View):
    __slots__ = ()
    __eq__ = object.__eq__
    __hash__ = object.__hash__

    def __iter__(self):
        for kv in self.d._m.values():
            yield kv[1]

    def __contains__(self, v):
        return any(bool(x == v) for x in self)


class _Items(_View):
    __slots__ = ()

    def __iter__(self):
        for kv in self.d._m.values():
            yield kv

    def __contains__(self, kv):
        k, v = kv
        return k in self.d and bool(self.d[k] == v)

    def __reversed__(self):
        return reversed(list(self))


class SSet(metaclass=_SetMeta):
    """set with possibly symbolic members (iterates in insertion order)."""
    __slots__ = ("_d",)
    _is_sset = True

    def __init__(self, it=()):
        self._d = SDict()
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self._d:
            self._d[x] = True

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        del self._d[x]

    def discard(self, x):
        if x in self._d:
            del self._d[x]

    def pop(self):
        if not self._d:
            raise KeyError("pop from an empty set")
        k = next(iter(self._d))
        del self._d[k]
        return k

    def clear(self):
        self._d.clear()

    def copy(self):
        s = SSet()
        s._d = self._d.copy()
        return s

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def update(self, *its):
        for it in its:
            for x in list(it):
                self.add(x)

    def union(self, *its):
        s = self.copy()
        s.update(*its)
        return s

    def intersection(self, *its):
        s = self
        for it in its:
            o = it if isinstance(it, (SSet, SDict, set, frozenset, dict)) else SSet(it)
            o = SSet(o) if isinstance(o, (set, frozenset)) and not o.__class__ is SSet else o
            r = SSet()
            for x in s:
                if x in o:
                    r.add(x)
            s = r
        return s.copy() if s is self else s

    def difference(self, *its):
        s = self.copy()
        for it in its:
            for x in list(it):
                s.discard(x)
        return s

    def symmetric_difference(self, it):
        o = SSet(it)
        return self.difference(o).union(o.difference(self))

    def intersection_update(self, *its):
        self._d = self.intersection(*its)._d

    def difference_update(self, *its):
        self._d = self.difference(*its)._d

    def symmetric_difference_update(self, it):
        self._d = self.symmetric_difference(it)._d

    def issubset(self, it):
        o = SSet(it)
        return all(x in o for x in self)

    def issuperset(self, it):
        return all(x in self for x in it)

    def isdisjoint(self, it):
        return not any(x in self for x in it)

    @staticmethod
    def _isset(o):
        return o.__class__ is SSet or isinstance(o, (set, frozenset, _View))

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return SSet(o).difference(self) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    __rxor__ = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __eq__(self, o):
        if not self._isset(o):
            return False
        o = o if o.__class__ is SSet else SSet(o)
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(SSet(o)) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(SSet(o)) and self.issuperset(o)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(repr(x) for x in self._d) if self._d else "set()"

    __str__ = __repr__


class _FMeta(_SetMeta):
    _native = frozenset


class SFrozen(SSet, metaclass=_FMeta):
    """frozenset model (hash concretises)."""
    __slots__ = ()

    def __hash__(self):
        return hash(frozenset(concretise(x) for x in self))


def plain(x):
    """Native copy of nested SDict/SSet (leaves kept)."""
    if x.__class__ is SDict:
        return {k if not issym(k) else concretise(k): plain(v) for k, v in x.items()}
    if x.__class__ is SSet:
        return {k if not issym(k) else concretise(k) for k in x}
    if x.__class__ in (list, tuple):
        return x.__class__(plain(y) for y in x)
    return x


def from_native(x):
    """SDict/SSet copy of nested native containers."""
    if isinstance(x, dict) and x.__class__ is not SDict:
        d = SDict()
        for k, v in x.items():
            d[k] = from_native(v)
        return d
    if isinstance(x, set) and x.__class__ is not SSet:
        return SSet(x)
    if x.__class__ is list:
        return [from_native(y) for y in x]
    if x.__class__ is tuple:
        return tuple(from_native(y) for y in x)
    return x
