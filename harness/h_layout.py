"""Harnesses: storage layouts (C01, C02, C03, C04)."""
import hashlib
import json
from ocfl.fsw import fsw_openfs
from ocfl.layout import Layout, LayoutException
from ocfl.layout_registry import add_layout, get_layout, layout_is_supported
from ocfl.layout_nnnn_tuple_tree import Layout_NNNN_Tuple_Tree
from ocfl.layout_nnnn_uuid_quadtree import Layout_NNNN_UUID_Quadtree
from ocfl.storage_root import StorageRoot, StorageRootException

UUIDHEX = "0123456789abcdef"


def make_layout(name, size=None, prefix=None, n=None, alg=None):
    lay = get_layout(name)
    if name == "nnnn-tuple-tree" and size is not None:
        lay = Layout_NNNN_Tuple_Tree(tuple_size=size)
    elif name == "nnnn-uuid-quadtree" and prefix is not None:
        lay = Layout_NNNN_UUID_Quadtree(prefix=prefix)
    elif name.startswith("0003") and size is not None:
        lay.check_and_set_layout_params({"digestAlgorithm": alg or "sha256", "tupleSize": size, "numberOfTuples": n},
                                        require_extension_name=False)
    return lay


def map_id(lay, identifier):
    """Path for identifier, or None when the layout refuses it with LayoutException."""
    try:
        return lay.identifier_to_path(identifier)
    except LayoutException:
        return None


def check_safe(ctx, p, what):
    ctx.check(len(p) > 0, what + ": path is not empty")
    ctx.check(p[0] != "/", what + ": path is relative")
    for seg in p.split("/"):
        ctx.check(len(seg) > 0, what + ": no empty path component")
        ctx.check(seg != ".", what + ": no . component")
        ctx.check(seg != "..", what + ": no .. component")


def path_safe(ctx, layout, lo, hi, size=None, n=None, alg=None, alphabet=None, fixed=""):
    """Every identifier either maps to a path that stays strictly inside the root, or LayoutException."""
    lay = make_layout(layout, size=size, n=n, alg=alg)
    identifier = fixed + ctx.str("id", lo, hi, alphabet)
    p = map_id(lay, identifier)
    if p is None:
        ctx.reach("rejected")
        ctx.observe("path", None)
        return
    ctx.observe("path", p)
    check_safe(ctx, p, layout)
    p2 = map_id(make_layout(layout, size=size, n=n, alg=alg), identifier)
    ctx.check(p2 == p, "the mapping is deterministic")


def uuid_safe(ctx, prefix, free):
    """uuid-quadtree: arbitrary characters at `free` positions of an otherwise good identifier."""
    lay = make_layout("nnnn-uuid-quadtree", prefix=prefix)
    base = "6ba7b810-9dad-11d1-80b4-00c04fd430c8"
    out = prefix
    for i, c in enumerate(base):
        if i in free:
            out = out + ctx.str("c%d" % i, 1)
        else:
            out = out + c
    tail = ctx.str("tail", 0, 2)
    identifier = out + tail
    p = map_id(lay, identifier)
    ctx.observe("path", p)
    conds = [len(tail) == 0]
    for i in free:
        c = identifier[len(prefix) + i]
        if base[i] == "-":
            conds.append(ctx.eq(c, "-"))
        else:
            conds.append(ctx.any([ctx.eq(c, h) for h in UUIDHEX]))
    good = ctx.all(conds)
    if p is None:
        ctx.check(ctx.no(good), "a well-formed uuid identifier is accepted")
        return
    ctx.check(good, "only well-formed uuid identifiers are accepted")
    check_safe(ctx, p, "uuid")
    ctx.check(p.replace("/", "") == identifier[len(prefix):].replace("-", ""), "path spells the uuid")


def uuid_arbitrary(ctx, lo, hi):
    """uuid-quadtree: arbitrary short identifiers are all refused with LayoutException."""
    lay = make_layout("nnnn-uuid-quadtree")
    identifier = ctx.choice("pre", ("", "urn:uuid:", "URN:UUID:")) + ctx.str("id", lo, hi)
    ctx.check(map_id(lay, identifier) is None, "malformed identifier refused")


def injective(ctx, layout, la, lb, size=None, n=None, alg=None, alphabet=None, fixed="", pad=0, tail=0, prefix=None):
    """Different identifiers never share a path, and no object path lies inside another."""
    lay = make_layout(layout, size=size, n=n, alg=alg, prefix=prefix)
    a = fixed + "a" * pad + ctx.str("a", la, la, alphabet) + "b" * tail
    b = fixed + "a" * pad + ctx.str("b", lb, lb, alphabet) + "b" * tail
    if la == lb:
        ctx.assume(a != b)
    pa, pb = map_id(lay, a), map_id(lay, b)
    if pa is None or pb is None:
        ctx.reach("rejected")
        return
    ctx.check(pa != pb, "distinct identifiers have distinct paths")
    ka = kb = ()
    if layout == "nnnn-tuple-tree":
        # one identifier is exactly one tuple long and the other repeats that tuple:
        # the encapsulation directory of the first is a tuple directory of the second
        ea, eb = lay.encode(a), lay.encode(b)
        ts = lay.tuple_size
        if len(ea) == ts:
            ka = (("tuple-tree-nested", ctx.eq(eb[:2 * ts], ea + ea)),)
        if len(eb) == ts:
            kb = (("tuple-tree-nested", ctx.eq(ea[:2 * ts], eb + eb)),)
    ctx.check(ctx.no(nested(pa, pb)), "no object path inside another", known=ka)
    ctx.check(ctx.no(nested(pb, pa)), "no object path inside another", known=kb)


def nested(outer, inner):
    return inner.startswith(outer + "/")


def spec_0003(identifier, alg, size, n):
    """Reference for extension 0003, written from its specification."""
    digest = hashlib.new(alg, identifier.encode("utf-8")).hexdigest().lower()
    parts = [digest[i * size:(i + 1) * size] for i in range(n)]
    enc = ""
    for c in identifier:
        if ("a" <= c and c <= "z") or ("A" <= c and c <= "Z") or ("0" <= c and c <= "9") or c == "-" or c == "_":
            enc = enc + c
        else:
            enc = enc + pct(c)
    if len(enc) > 100:
        enc = enc[:100] + "-" + digest
    parts.append(enc)
    return "/".join(parts)


def pct(c):
    out = ""
    h = c.encode("utf-8").hex()
    for i in range(0, len(h), 2):
        out = out + "%" + h[i:i + 2]
    return out


def conforms_0003(ctx, lo, hi, alg="sha256", size=3, n=3, alphabet=None, pad=0):
    """Layout 0003 equals the specified algorithm."""
    lay = make_layout("0003", size=size, n=n, alg=alg)
    ident = "a" * pad + ctx.str("id", lo, hi, alphabet)
    p = map_id(lay, ident)
    ctx.check(p is not None, "identifier accepted")
    ctx.check(p == spec_0003(ident, alg, size, n), "path equals the extension's algorithm")


def roundtrip_encode(ctx, layout, lo, hi, alphabet=None):
    """decode(encode(id)) == id for the quoting layouts."""
    lay = Layout() if layout == "base" else make_layout(layout)
    ident = ctx.str("id", lo, hi, alphabet)
    e = lay.encode(ident)
    ctx.observe("enc", e)
    ctx.check(lay.decode(e) == ident, "decode inverts encode")


def strip_root(ctx, lo, hi, alphabet="ab/."):
    """strip_root: the path relative to root exactly when it is root or lies inside it; never a path outside the root."""
    lay = Layout()
    path, root = ctx.str("path", lo, hi, alphabet), ctx.str("root", 0, hi, alphabet)
    try:
        got = lay.strip_root(path, root)
    except LayoutException:
        got = None
    r = root
    while r != "" and r[-1] == "/":
        r = r[:-1]
    inside = r == "" or path == r or path.startswith(r + "/")
    if not inside:
        ctx.check(got is None, "a path outside the root is refused")
        return
    parts = []
    escapes = False
    for e in path[len(r):].split("/"):
        if e == "..":
            if len(parts) == 0:
                escapes = True
                break
            parts.pop()
        elif e != "" and e != ".":
            parts.append(e)
    if escapes:
        ctx.check(got is None, "a path that leaves the root is refused")
    else:
        ctx.check(got is not None, "a path inside the root is accepted")
        ctx.check(got == ("/".join(parts) if len(parts) > 0 else "."), "the rest of the path is returned")


def base_layout(ctx):
    """The base layout maps nothing; an identifier is valid for every layout of the registry; names can be registered."""
    ident = ctx.str("id", 0, 2)
    try:
        Layout().identifier_to_path(ident)
        ctx.fail("the base layout maps identifiers")
    except LayoutException:
        pass
    ctx.check(Layout().is_valid(ident) is True, "is_valid")
    name = ctx.str("name", 1, 2)
    ctx.check(not layout_is_supported(name), "unknown layout name")
    add_layout(name, Layout_NNNN_Tuple_Tree)
    ctx.check(layout_is_supported(name), "a registered layout name is supported")
    ctx.check(isinstance(get_layout(name), Layout_NNNN_Tuple_Tree), "the layout registered is used")
    other = ctx.str("other", 1, 2)
    ctx.check(layout_is_supported(other) == (other == name), "registering a name supports no other name")


# ------------------------------------------------------------------ C04 configuration
CANON = {"0002-flat-direct-storage-layout": "0002-flat-direct-storage-layout", "0002": "0002-flat-direct-storage-layout",
         "flat-direct": "0002-flat-direct-storage-layout",
         "0003-hash-and-id-n-tuple-storage-layout": "0003-hash-and-id-n-tuple-storage-layout",
         "0003": "0003-hash-and-id-n-tuple-storage-layout",
         "nnnn-flat-quoted-storage-layout": "nnnn-flat-quoted-storage-layout",
         "flat-quoted": "nnnn-flat-quoted-storage-layout",
         "nnnn-tuple-tree": "nnnn-tuple-tree-layout", "nnnn-uuid-quadtree": "nnnn-uuid-quadtree"}
MISSING = "<missing>"
HASHLEN = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32}


def odd_int(ctx, name, lo, hi):
    """A JSON value where an integer is expected: integers lo..hi or something else."""
    kind = ctx.choice(name + ".kind", ("int", "missing", "null", "true", "false", "float", "str", "list"))
    if kind == "int":
        return ctx.int(name, lo, hi)
    return {"missing": MISSING, "null": None, "true": True, "false": False, "float": 3.0, "str": "3", "list": [3]}[kind]


def odd_alg(ctx):
    kind = ctx.choice("alg.kind", ("good", "odd", "missing", "null", "int", "list", "str"))
    if kind == "good":
        return ctx.choice("alg", ("sha512", "sha256", "sha1", "md5"))
    if kind == "odd":
        return ctx.choice("odd", ("SHA256", "sha3-256", "sha384", "", "sha256 "))
    if kind == "str":
        return ctx.str("algstr", 3, 3, "md5 D")
    return {"missing": MISSING, "null": None, "int": 5, "list": ["sha256"]}[kind]


def is_int(v, lo, hi):
    if v is None or v is True or v is False or isinstance(v, (str, list, float)):
        return False
    return v >= lo and v <= hi


def build_config(ctx, name, require):
    """(config, set of acceptance conditions)."""
    ext = ctx.choice("ext", ("right", "wrong", "missing", "null"))
    config = {}
    if ext != "missing":
        config["extensionName"] = {"right": CANON[name], "wrong": "0002x", "null": None}[ext]
    ok = ext == "right" or (ext == "missing" and not require)
    return config, ok


def config_0003(ctx, lo, hi, require=True):
    """Extension 0003 configurations are accepted exactly when the extension allows them."""
    config, ok = build_config(ctx, "0003", require)
    alg = odd_alg(ctx)
    size = odd_int(ctx, "size", lo, hi)
    n = odd_int(ctx, "n", lo, hi)
    for k, v in (("digestAlgorithm", alg), ("tupleSize", size), ("numberOfTuples", n)):
        if not (isinstance(v, str) and v == MISSING):
            config[k] = v
    lay = get_layout("0003")
    accepted = True
    try:
        lay.check_and_set_layout_params(config, require_extension_name=require)
    except LayoutException:
        accepted = False
    good_alg = isinstance(alg, str) and (alg == "md5" or alg in HASHLEN)
    ctx.observe("accepted", accepted)
    if not (ok and good_alg and is_int(size, 0, 32) and is_int(n, 0, 32)):
        ctx.check(not accepted, "a bad parameter is refused")
        return
    if (size == 0) != (n == 0) or size * n > HASHLEN["md5" if alg == "md5" else alg]:
        ctx.check(not accepted, "a bad combination of parameters is refused")
        return
    ctx.check(accepted, "a good configuration is accepted")
    size, n, alg = ctx.concrete(size), ctx.concrete(n), ctx.concrete(alg)
    ctx.check(lay.identifier_to_path("obj:1") == spec_0003("obj:1", alg, size, n), "configured mapping is used")
    c = lay.config
    ctx.check(c["digestAlgorithm"] == alg, "config has the digest algorithm")
    ctx.check(c["tupleSize"] == size and c["numberOfTuples"] == n, "config has the sizes")
    ctx.check(c["extensionName"] == CANON["0003"], "config has the extension name")


def config_other(ctx, lay, lo, hi, require=True):
    """Same for the layouts with one or no parameter."""
    name = lay
    config, ok = build_config(ctx, name, require)
    lay = get_layout(name)
    if name == "nnnn-tuple-tree":
        v = odd_int(ctx, "size", lo, hi)
        if not (isinstance(v, str) and v == MISSING):
            config["tupleSize"] = v
        ok = ok and is_int(v, 2, 6)
    elif name == "nnnn-uuid-quadtree":
        kind = ctx.choice("prefix.kind", ("str", "missing", "null", "int", "list"))
        v = ctx.str("prefix", 0, 2) if kind == "str" else {"missing": MISSING, "null": None, "int": 3, "list": ["a"]}[kind]
        if kind != "missing":
            config["prefix"] = v
        ok = ok and kind == "str" and len(v) > 0
    else:
        if ctx.boolean("extra"):
            config["other"] = 1
    accepted = True
    try:
        lay.check_and_set_layout_params(config, require_extension_name=require)
    except LayoutException:
        accepted = False
    ctx.observe("accepted", accepted)
    ctx.check(accepted == ok, "configuration accepted exactly when it is valid")
    if accepted and name == "nnnn-tuple-tree":
        n = ctx.concrete(v)
        p = lay.identifier_to_path("abcdefghijklm")
        ctx.check(p.split("/")[0] == "abcdefghijklm"[:n], "configured size is used")
    if accepted and name == "nnnn-uuid-quadtree":
        p = lay.identifier_to_path(v + "6ba7b810-9dad-11d1-80b4-00c04fd430c8")
        ctx.check(p == "6ba7/b810/9dad/11d1/80b4/00c0/4fd4/30c8", "configured prefix is used")


def config_notdict(ctx, lay):
    """Configurations that are not JSON objects are refused with LayoutException, on file or as parameter."""
    name = lay
    cfg = ctx.choice("cfg", ([], ["extensionName"], "extensionName", 3, None, True))
    via = ctx.boolean("file")
    lay = get_layout(name)
    refused = False
    try:
        if via:
            ctx.putjson("r/extensions/" + lay.NAME + "/config.json", cfg)
            lay.read_layout_params(root_fs=fsw_openfs(ctx.path("r")))
        else:
            lay.check_and_set_layout_params(cfg, require_extension_name=False)
    except LayoutException:
        refused = True
    ctx.check(refused, "not a JSON object: refused")


def registry(ctx, lo, hi):
    """Supported names are exactly the registered ones; every supported layout's own name is supported too."""
    if ctx.boolean("known"):
        name = ctx.choice("name", sorted(CANON.keys()))
        ctx.check(layout_is_supported(name), "documented layout name is supported")
        lay = get_layout(name)
        ctx.check(lay.NAME == CANON[name], "name resolves to the right layout")
        ctx.check(layout_is_supported(lay.NAME), "the name a layout writes is supported")
        ctx.check(get_layout(lay.NAME).NAME == lay.NAME, "the name a layout writes resolves to the same layout")
        return
    name = ctx.str("s", lo, hi)
    if name in CANON:
        return
    ctx.check(not layout_is_supported(name), "unknown layout is not supported")
    refused = False
    try:
        get_layout(name)
    except Exception:
        refused = True
    ctx.check(refused, "unknown layout is refused")


def config_roundtrip(ctx, lay, lo, hi, alphabet=None):
    """The mapping a storage root is created with is the mapping used when it is opened again."""
    name = lay
    params = {}
    if CANON[name].startswith("0003"):
        params = {"digestAlgorithm": ctx.choice("alg", ("sha512", "md5")), "tupleSize": ctx.choice("size", (0, 1, 4)),
                  "numberOfTuples": 0}
        if params["tupleSize"] > 0:
            params["numberOfTuples"] = ctx.choice("n", (1, 8))
    elif name == "nnnn-tuple-tree":
        params = {"tupleSize": ctx.int("size", 2, 6)}
        params["tupleSize"] = ctx.concrete(params["tupleSize"])
    elif name == "nnnn-uuid-quadtree":
        params = {"prefix": ctx.str("prefix", 1, 1)}
    ident = ctx.str("id", lo, hi, alphabet)
    use = ctx.boolean("params")
    sr = StorageRoot(root=ctx.path("root"), layout_name=name)
    sv = ctx.choice("sv", ("1.0", "1.1"))
    sr.initialize(spec_version=sv, layout_params=json.dumps(params) if use else None)
    lay = get_layout(name)
    if use:
        lay.check_and_set_layout_params(params, require_extension_name=False)
    if name == "nnnn-uuid-quadtree":
        ident = (params["prefix"] if use else "urn:uuid:") + "6ba7b810-9dad-11d1-80b4-00c04fd430c8"
    want = map_id(lay, ident)
    again = StorageRoot(root=ctx.path("root"))
    try:
        got = again.object_path(ident)
    except (LayoutException, StorageRootException):
        got = None
    ctx.observe("path", got)
    ctx.check((got is None) == (want is None), "same identifiers refused")
    ctx.check(got == want, "same path after reopening")
    ctx.check(again.layout_name == CANON[name], "declared layout name")
    ctx.check(again.spec_version == sv, "declared version")
    ctx.check(again.validate(), "a new storage root is valid")
