"""File content model: bytes, symbolic bytes, and opaque JSON documents."""
import copy
import json as _json
from ..core import E, Unsupported
from ..symstr import SymStr, SymBytes, SymInt, issym, has_sym, concretise, mk, pieces, val_at
from ..containers import SDict, SSet, from_native
from ..runtime import to_str, StrShim, IntShim


class JsonDoc:
    """The text json.dump produced for a value (an opaque, comparable token)."""
    __slots__ = ("tree", "sort_keys", "fmt", "_native")

    def __init__(self, tree, sort_keys=False, fmt=None):
        self.tree, self.sort_keys, self.fmt = tree, bool(sort_keys), fmt
        self._native = None

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, JsonDoc):
            return False
        if self.fmt != o.fmt or self.sort_keys != o.sort_keys:
            return False
        return tree_eq(self.tree, o.tree, not self.sort_keys)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<JsonDoc %r>" % (self.tree,)


def tree_eq(a, b, ordered):
    """Structural equality of JSON trees (key order matters when ordered)."""
    if a is b:
        return True
    da, db = a.__class__ is SDict, b.__class__ is SDict
    if da or db:
        if not (da and db) or len(a) != len(b):
            return False
        if ordered:
            for (k1, v1), (k2, v2) in zip(a.items(), b.items()):
                if not bool(k1 == k2) or not tree_eq(v1, v2, ordered):
                    return False
            return True
        for k, v in a.items():
            if k not in b or not tree_eq(v, b[k], ordered):
                return False
        return True
    if a.__class__ is list or b.__class__ is list:
        if a.__class__ is not list or b.__class__ is not list or len(a) != len(b):
            return False
        return all(tree_eq(x, y, ordered) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if a is None or b is None:
        return a is b
    return bool(a == b)


class JSeq:
    """Content containing JSON documents: parts are text pieces and JsonDocs.

    kind is "t" (text) or "b" (bytes).  Treated as having a fixed nominal
    length of 500 (longer than every non-JSON content used)."""
    __slots__ = ("parts", "kind")
    NOMINAL = 500

    def __init__(self, parts, kind):
        self.parts, self.kind = parts, kind

    def __len__(self):
        return self.NOMINAL

    def __bool__(self):
        return True

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, JSeq) or o.kind != self.kind or len(o.parts) != len(self.parts):
            return False
        return all(bool(a == b) for a, b in zip(self.parts, o.parts))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __deepcopy__(self, memo):
        return self

    def encode(self, *a, **k):
        return JSeq(self.parts, "b")

    def decode(self, *a, **k):
        return JSeq(self.parts, "t")

    def __add__(self, o):
        return cat(self, o)

    def __radd__(self, o):
        return cat(o, self)

    def strip(self):
        return self

    rstrip = lstrip = strip

    def replace(self, a, b):
        return self


def _parts(x):
    if isinstance(x, JSeq):
        return list(x.parts)
    if len(x) == 0:
        return []
    if isinstance(x, (bytes, SymBytes)):
        return [mk(pieces(x if isinstance(x, SymBytes) else x.decode("latin-1")))]
    return [x]


def cat(a, b):
    """Concatenate two contents (either may be a JSeq)."""
    if isinstance(a, JSeq) or isinstance(b, JSeq):
        kind = a.kind if isinstance(a, JSeq) else b.kind
        ps = []
        for p in _parts(a) + _parts(b):
            if ps and not isinstance(p, JsonDoc) and not isinstance(ps[-1], JsonDoc):
                ps[-1] = ps[-1] + p
            else:
                ps.append(p)
        return JSeq(ps, kind)
    return a + b


def jsonify(x, depth=0):
    """Value as json.dumps would write it (SDict/list tree), or TypeError."""
    c = x.__class__
    if x is None or x is True or x is False or c in (str, int, float, SymStr, SymInt):
        return x
    if c is list or c is tuple:
        return [jsonify(y, depth + 1) for y in x]
    if c is SDict or isinstance(x, dict):
        d = SDict()
        for k, v in x.items():
            if k.__class__ not in (str, SymStr):
                if k is None or k is True or k is False:
                    k = {None: "null", True: "true", False: "false"}[k]
                elif isinstance(k, (int, float)):
                    k = str(k)
                elif k.__class__ is SymInt:
                    k = str(concretise(k))
                else:
                    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            d[k] = jsonify(v, depth + 1)
        return d
    if c.__name__ == "SymBool":
        return bool(x)
    raise TypeError("Object of type %s is not JSON serializable" % (
        {"SSet": "set", "SymBytes": "bytes"}.get(c.__name__, c.__name__)))


def fresh(x):
    """Fresh copy of a JSON tree, as a parser would return it."""
    c = x.__class__
    if c is SDict:
        d = SDict()
        for t, (k, v) in x._m.items():
            d._m[t] = (k, fresh(v))
        d._n = x._n
        return d
    if c is list:
        return [fresh(y) for y in x]
    return x


# ---------------------------------------------------------------- json module
JSONDecodeError = _json.JSONDecodeError


class decoder:
    """The json.decoder namespace."""
    JSONDecodeError = _json.JSONDecodeError


def _doc(obj, indent=None, sort_keys=False, separators=None, ensure_ascii=True, **kw):
    return JSeq([JsonDoc(jsonify(obj), sort_keys, (indent, separators, bool(ensure_ascii)))], "t")


def dumps(obj, *, indent=None, sort_keys=False, separators=None, ensure_ascii=True, **kw):
    return _doc(obj, indent, sort_keys, separators, ensure_ascii)


def dump(obj, fp, *, indent=None, sort_keys=False, separators=None, ensure_ascii=True, **kw):
    fp.write(_doc(obj, indent, sort_keys, separators, ensure_ascii))


def loads(s, **kw):
    if isinstance(s, JSeq):
        docs = [p for p in s.parts if isinstance(p, JsonDoc)]
        rest = [p for p in s.parts if not isinstance(p, JsonDoc)]
        for r in rest:
            if not all(bool(c in " \t\n\r") if c.__class__ is str else bool(sc_ws(c)) for c in pieces(r)):
                raise JSONDecodeError("Extra data", "", 0)
        if len(docs) != 1:
            raise JSONDecodeError("Extra data", "", 0)
        return fresh(docs[0].tree)
    if issym(s):
        if s.__class__ not in (SymStr, SymBytes):
            raise TypeError("the JSON object must be str, bytes or bytearray, not int")
        s = concretise(s)
    return from_native(_json.loads(s, **kw))


def sc_ws(p):
    from ..symstr import ch_test
    return ch_test(p, "jsonws", lambda c: c in " \t\n\r")


def load(fp, **kw):
    return loads(fp.read(), **kw)
