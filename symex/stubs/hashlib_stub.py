"""hashlib model.

Concrete data: the real digest.  Data that depends on one symbolic variable:
the real digest for every value, as a table.  Anything else: a digest constant
interned per distinct content on the path (collision-free hash assumption).
"""
import hashlib as _h
from ..core import E, Tab, bits
from ..symstr import SymBytes, SymStr, ch_mk, mk, issym
from ..runtime import _vars_of, _inst
from . import env
from .content import JSeq, cat

algorithms_guaranteed = _h.algorithms_guaranteed
algorithms_available = _h.algorithms_available
_tabcache = {}


def _hexs(name, kw, data):
    if name.startswith("blake2"):
        return getattr(_h, name)(data, **kw).hexdigest()
    return _h.new(name, data).hexdigest()


def _exact(content):
    seen = env.current().hashed_exact
    for c in seen:
        if c is content or (c.__class__ is bytes and content.__class__ is bytes and c == content):
            return
    seen.append(content)


def digest_hex(name, kw, content):
    if isinstance(content, (bytes, bytearray)):
        content = bytes(content)
    if content.__class__ is bytes:
        key = content
        for c, k in env.current().hashed:
            if not isinstance(c, JSeq) and len(c) == len(content) and bool(c == content):
                key = k
                break
        else:
            _exact(content)
        return _hexs(name, kw, key)
    if content.__class__ is SymBytes:
        vs = set()
        _vars_of(content, vs)
        if len(vs) == 1:
            v, = vs
            for c, k in env.current().hashed:
                if not isinstance(c, JSeq) and len(c) == len(content) and bool(c == content):
                    return _hexs(name, kw, k)
            _exact(content)
            ck = (name, tuple(sorted(kw.items())), v.n, tuple(p if p.__class__ is str else p.tab for p in content.p))
            tabs = _tabcache.get(ck)
            if tabs is None:
                hs = [_hexs(name, kw, _inst(content, v, i)) for i in range(v.n)]
                tabs = _tabcache[ck] = [Tab(h[j] for h in hs) for j in range(len(hs[0]))]
            return mk([ch_mk(v, t) for t in tabs])
    k = intern(content)
    return _hexs(name, kw, k) if k.__class__ is bytes else digest_hex(name, kw, k)


def intern(content):
    """Stand-in bytes for a content: equal contents (on this path) get equal bytes."""
    hashed = env.current().hashed
    for c, k in hashed:
        if c is content:
            return k
    for c, k in hashed:
        if c.__class__ is content.__class__ and len(c) == len(content) and bool(c == content):
            return k
    if not isinstance(content, JSeq):
        for c in env.current().hashed_exact:
            if len(c) == len(content) and bool(c == content):
                return c
    k = b"interned-content-%d" % len(hashed)
    E.path_approx.append("abstract digest")
    hashed.append((content, k))
    return k


class Hash:
    def __init__(self, name, data=b"", **kw):
        self.name, self.kw = name, kw
        h = getattr(_h, name)(**kw) if name.startswith("blake2") else _h.new(name)
        self.digest_size, self.block_size = h.digest_size, h.block_size
        self._data = b""
        if data is not None and len(data):
            self.update(data)

    def update(self, data):
        if isinstance(data, (str, SymStr)):
            raise TypeError("Strings must be encoded before hashing")
        self._data = data if len(self._data) == 0 else cat(self._data, data)

    def hexdigest(self):
        return digest_hex(self.name, self.kw, self._data)

    def digest(self):
        h = self.hexdigest()
        if h.__class__ is str:
            return bytes.fromhex(h)
        from ..runtime import lift
        return lift(bytes.fromhex, (h,), {})

    def copy(self):
        h = Hash(self.name, b"", **self.kw)
        h._data = self._data
        return h


def new(name, data=b"", **kw):
    if issym(name):
        from ..symstr import concretise
        name = concretise(name)
    kw.pop("usedforsecurity", None)
    _h.new(name)    # raises ValueError when unsupported
    return Hash(name.lower(), data, **kw)


def _mk(name):
    def ctor(data=b"", **kw):
        kw.pop("usedforsecurity", None)
        return Hash(name, data, **kw)
    ctor.__name__ = name
    return ctor


md5, sha1, sha224, sha256, sha384, sha512 = map(_mk, ("md5", "sha1", "sha224", "sha256", "sha384", "sha512"))
blake2b, blake2s = _mk("blake2b"), _mk("blake2s")
sha3_256, sha3_512 = _mk("sha3_256"), _mk("sha3_512")


def file_digest(fh, digest, **kw):
    h = new(digest) if isinstance(digest, (str, SymStr)) else digest()
    while True:
        b = fh.read(262144)
        if len(b) == 0:
            return h
        h.update(b)
