"""Storage roots: listing, adding and validating objects (C23), creating and opening roots (C24)."""
import json

import ocfl
from ocfl.layout import LayoutException
from ocfl.layout_registry import get_layout
from ocfl.storage_root import StorageRoot, StorageRootException
from harness.lib import write_object

LAYOUTS = ("0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout",
           "nnnn-tuple-tree-layout", "nnnn-uuid-quadtree")
ALIASES = {"0002": LAYOUTS[0], "flat-direct": LAYOUTS[0], "0003": LAYOUTS[1], "flat-quoted": LAYOUTS[2], "nnnn-tuple-tree": LAYOUTS[3]}


DEEP = b"[" * 100000  # JSON nested too deeply to be read


def declare(ctx, root="r", spec="1.1"):
    ctx.put(root + "/0=ocfl_" + spec, "ocfl_" + spec + "\n")


def layout_file(ctx, name, root="r", params=None):
    ctx.putjson(root + "/ocfl_layout.json", {"extension": name, "description": "a layout"})
    if params is not None:
        cfg = {"extensionName": name}
        for k in params:
            cfg[k] = params[k]
        ctx.putjson(root + "/extensions/" + name + "/config.json", cfg)


def objects_listed(ctx, store, want, what):
    """list_objects yields exactly want (path -> id)."""
    seen = []
    for path, oid in store.list_objects():
        ctx.check(path in want, what + ": only objects are listed")
        ctx.check(path not in seen, what + ": every object is listed once")
        ctx.check(oid == want[path], what + ": with its identifier")
        seen.append(path)
    ctx.check(len(seen) == len(want), what + ": every object is listed")
    ctx.check(store.num_objects == len(want), what + ": the number of objects")


DEFECTS = ("none", "file in directory", "file beside objects", "empty directory", "nested empty directory", "two declarations", "two known declarations", "unknown version",
           "unrecognised declaration", "near-miss declaration", "file in extensions")


def listing(ctx, alphabet=None, hi=1, defects=DEFECTS, spec=("1.0", "1.1"), listing_order=False):
    """Trees with objects at several depths, other entries that are allowed, and at most one defect."""
    sp = ctx.choice("spec", spec)
    declare(ctx, spec=sp)
    if listing_order:
        ctx.listing_order(ctx.boolean("reverse listing"))
    name = ctx.str("name", 1, hi, alphabet)
    ctx.assume(name != "." and name != ".." and name != "extensions")
    ctx.assume(name not in ("b", "q", "0=ocfl_1.0", "0=ocfl_1.1", "ocfl_layout.json"))
    want = {}
    if ctx.boolean("object at depth 1"):
        write_object(ctx, "r/" + name, [{"f": b"1"}], oid="info:1", spec="1.0")
        want[name] = "info:1"
    if ctx.boolean("object at depth 2"):
        write_object(ctx, "r/b/" + name, [{"f": b"1", "0=g": b"2"}], oid="info:2", spec=sp)
        want["b/" + name] = "info:2"
    if ctx.boolean("object at depth 3"):
        write_object(ctx, "r/b/c" + name + "/extensions", [{}, {"f": b"1"}], oid="info:3", spec=sp)
        want["b/c" + name + "/extensions"] = "info:3"
    if ctx.boolean("other root file"):
        ctx.put("r/readme" + name, "x")
    ext = ctx.choice("extension", (None, "registered", "unregistered"))
    if ext == "registered":
        ctx.put("r/extensions/0003-hash-and-id-n-tuple-storage-layout/config.json", "{}")
    elif ext == "unregistered":
        ctx.put("r/extensions/" + name + "/x", "{}")
    defect = ctx.choice("defect", defects)
    if defect == "file in directory":
        ctx.put("r/q/" + name, "x")
    elif defect == "file beside objects":
        write_object(ctx, "r/q/o", [{"f": b"1"}], oid="info:4", spec=sp)
        ctx.put("r/q/f" + name, "x")
    elif defect == "empty directory":
        ctx.mkdir("r/q")
    elif defect == "nested empty directory":
        ctx.mkdir("r/q/" + name + "/z")
    elif defect == "two declarations":
        write_object(ctx, "r/q", [{"f": b"1"}], oid="info:4", spec="1.0")
        ctx.put("r/q/0=" + ctx.choice("before or after", ("", "zz")) + name, "x")
    elif defect == "two known declarations":
        write_object(ctx, "r/q", [{"f": b"1"}], oid="info:4", spec="1.0")
        ctx.put("r/q/0=ocfl_object_1.1", "ocfl_object_1.1\n")
        if ctx.boolean("and a third"):
            ctx.put("r/q/0=ocfl_object_9", "ocfl_object_9\n")
    elif defect == "unknown version":
        ctx.put("r/q/0=ocfl_object_2.0", "ocfl_object_2.0\n")
    elif defect == "unrecognised declaration":
        ctx.put("r/q/0=" + name, "x")
    elif defect == "near-miss declaration":
        ctx.put("r/q/0=ocfl_object_1.0" + name, "ocfl_object_1.0\n")
    elif defect == "file in extensions":
        ctx.put("r/extensions/f" + name, "x")
    before = ctx.snapshot("r")
    objects_listed(ctx, StorageRoot(root=ctx.path("r")), want, "list")
    store = StorageRoot(root=ctx.path("r"))
    kind = ctx.choice("validate", ("objects", "no objects"))
    ok = store.validate(validate_objects=kind == "objects", check_digests=False)
    ctx.check(ok is True or ok is False, "the verdict is a boolean")
    if defect == "none":
        ctx.check(ok, "a well-formed storage root is valid", log=str(store.log), errors=str(store.errors))
        ctx.check(store.log.num_errors == 0, "no error is logged for a valid storage root")
    else:
        ctx.check(not ok, "a defect of the hierarchy is an error")
        ctx.check(store.log.num_errors > 0, "and is logged")
    if kind == "objects":
        ctx.check(store.num_objects == len(want) and store.good_objects == len(want), "every object is validated and counted")
    ctx.check(ctx.snapshot("r") == before, "listing and validating change nothing")


def special_names(ctx, hi=1, alphabet=None):
    """Only the extensions directory of the root itself is special, whatever names resemble it."""
    declare(ctx)
    name = ctx.choice("stem", ("extension", "extensions", "ocfl_layout.json", "0=", "0=ocfl_1.", "logs", "inventory.json")) + ctx.str("tail", 0, hi, alphabet)
    above = ctx.choice("above", ("", "b/", "extensions2/"))
    ctx.assume(above != "" or name not in ("extensions", "0=ocfl_1.1", "0=ocfl_1.0") and not name.startswith("0="))
    rel = above + name
    kind = ctx.choice("kind", ("object", "object below", "file below", "empty", "broken object"))
    want = {}
    if kind == "object" or kind == "broken object":
        write_object(ctx, "r/" + rel, [{"f": b"1"}], oid="info:1")
        want[rel] = "info:1"
        if kind == "broken object":
            ctx.remove("r/" + rel + "/v1/content/f")
    elif kind == "object below":
        write_object(ctx, "r/" + rel + "/extensions", [{"f": b"1"}], oid="info:1")
        want[rel + "/extensions"] = "info:1"
    elif kind == "file below":
        ctx.put("r/" + rel + "/f", "x")
    else:
        ctx.mkdir("r/" + rel)
    if ctx.boolean("extensions"):
        ctx.put("r/extensions/0003-hash-and-id-n-tuple-storage-layout/config.json", "{}")
    if name == "ocfl_layout.json" and above == "":
        return
    objects_listed(ctx, StorageRoot(root=ctx.path("r")), want, "list")
    store = StorageRoot(root=ctx.path("r"))
    ctx.check(store.validate() == (kind in ("object", "object below")), "valid exactly if every directory leads to a valid object", log=str(store.log))
    ctx.check(store.num_objects == len(want) and store.good_objects == (len(want) if kind != "broken object" else 0), "every object is validated")


def object_declaration(ctx, lo=0, hi=1):
    """Which declaration files make a directory an object."""
    sp = ctx.choice("spec", ("1.0", "1.1"))
    declare(ctx, spec=sp)
    stem = ctx.choice("stem", ("0=ocfl_object_", "0=ocfl_object_1", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object", "0=ocfl_1.0", "0=", "0ocfl_object_1.0"))
    name = stem + ctx.str("tail", lo, hi)
    ctx.assume("/" not in name and "\0" not in name)
    ctx.put("r/o/" + name, "x")
    ctx.put("r/o/inventory.json", "{")
    store = StorageRoot(root=ctx.path("r"))
    got = list(store.list_objects())
    want = name == "0=ocfl_object_1.0" or name == "0=ocfl_object_1.1"
    newer = sp == "1.0" and name == "0=ocfl_object_1.1"
    if want:
        if not newer:
            ctx.check(len(got) == 1 and got[0][0] == "o", "an object with a known declaration is listed")
    else:
        ctx.check(len(got) == 0, "a directory without a known object declaration is not an object")
    store = StorageRoot(root=ctx.path("r"))
    ok = store.validate(validate_objects=False)
    ctx.check(ok == (want and not newer), "the hierarchy is valid exactly if the directory is an object of a version the root allows")


def object_inventories(ctx, listing_order=True):
    """Listing copes with whatever an object's inventory holds."""
    declare(ctx)
    if listing_order:
        ctx.listing_order(ctx.boolean("reverse listing"))
    write_object(ctx, "r/a", [{"f": b"1"}], oid="info:1")
    write_object(ctx, "r/o", [{"f": b"1"}], oid="info:2")
    write_object(ctx, "r/z", [{"f": b"1"}], oid="info:3")
    want = {"a": "info:1", "o": "UNKNOWN-ID", "z": "info:3"}
    more = 0
    for at in ("a", "z"):
        if ctx.boolean(at + " has no inventory"):
            ctx.remove("r/" + at + "/inventory.json")
            want[at] = "UNKNOWN-ID"
            more += 1
    bad = ctx.choice("inventory", ("missing", "directory", "bytes", "json"))
    inv = ctx.readjson("r/o/inventory.json")
    if bad == "missing":
        ctx.remove("r/o/inventory.json")
    elif bad == "directory":
        ctx.remove("r/o/inventory.json")
        ctx.mkdir("r/o/inventory.json")
    elif bad == "bytes":
        ctx.put("r/o/inventory.json", DEEP if ctx.boolean("deep") else ctx.sel("data", [b"", b"{", b"\xff", b"nul", b"[]", b'"x"', b"{}"]))
    else:
        key = ctx.choice("key", ("id", "type", "digestAlgorithm", "head", "manifest", "versions"))
        inv[key] = ctx.choice("value", (None, 1, "x", [], {}, {"v1": 1}, {"x": [1]}))
        ctx.putjson("r/o/inventory.json", inv)
        if key == "id" and inv["id"] == "x":
            want["o"] = "x"
    store = StorageRoot(root=ctx.path("r"))
    got = {}
    for p, i in store.list_objects():
        ctx.check(p not in got, "every object once")
        got[p] = i
    ctx.check(len(got) == 3 and store.num_objects == 3, "every object is listed")
    ctx.check(got["a"] == want["a"] and got["z"] == want["z"], "identifiers of the other objects are shown")
    ctx.check(got["o"] == want["o"], "an object without a valid inventory has no identifier, whatever was listed before")
    store = StorageRoot(root=ctx.path("r"))
    idx = bad == "json" and key == "id" and inv["id"] == "x"
    ctx.check(store.validate(validate_objects=True) is False, "a storage root with an invalid object is invalid")
    ctx.check(store.num_objects == 3 and store.good_objects == 2 - more, "counts of objects and of valid objects")


FAULTS = ("none", "content", "sidecar", "extra file", "no inventory", "digest only")


def break_object(ctx, rel, fault, tag):
    if fault == "content":
        ctx.remove(rel + "/v1/content/f")
    elif fault == "sidecar":
        ctx.put(rel + "/inventory.json.sha512", "0" * 128 + " inventory.json\n")
    elif fault == "extra file":
        ctx.put(rel + "/x" + ctx.str("x" + tag, 0, 1, "ab."), "x")
    elif fault == "no inventory":
        ctx.remove(rel + "/inventory.json")
    elif fault == "digest only":
        c = ctx.str("c" + tag, 1, 1)
        ctx.assume(c != "1")
        ctx.put(rel + "/v1/content/f", c)


def validate_objects(ctx, faults=FAULTS):
    """The verdict and the counts reflect every object; the same instance can be used again."""
    declare(ctx)
    kinds = [ctx.choice("fault a", faults), ctx.choice("fault b", faults)]
    for rel, kind, t in (("r/a", kinds[0], "a"), ("r/b/c", kinds[1], "b")):
        write_object(ctx, rel, [{"f": b"1"}], oid="info:" + t)
        break_object(ctx, rel, kind, t)
    stray = ctx.boolean("stray file")
    if stray:
        ctx.put("r/d/f", "x")
    objs, digs = ctx.boolean("validate objects"), ctx.boolean("check digests")
    warn, errs = ctx.boolean("log warnings"), ctx.boolean("log errors")
    bad = 0
    for k in kinds:
        if k != "none" and (digs or k not in ("digest only", "sidecar")):
            bad += 1
    store = StorageRoot(root=ctx.path("r"))
    ok = store.validate(validate_objects=objs, check_digests=digs, log_warnings=warn, log_errors=errs)
    if objs:
        ctx.check(ok == (bad == 0 and not stray), "valid exactly if the hierarchy and every object checked are valid")
        ctx.check(store.num_objects == 2, "number of objects")
        ctx.check(store.good_objects == 2 - bad, "number of valid objects")
        named = [e[0] for e in store.errors]
        for p, k in (("a", kinds[0]), ("b/c", kinds[1])):
            if k != "none" and (digs or k not in ("digest only", "sidecar")):
                ctx.check(p in named, "details of every invalid object are recorded")
    else:
        ctx.check(ok == (not stray), "valid exactly if the hierarchy is valid")
    ctx.check((store.log.num_errors > 0) == stray, "errors of the hierarchy are logged")
    # repair everything and validate again with the same instance
    if ctx.boolean("again"):
        ctx.remove("r")
        declare(ctx)
        write_object(ctx, "r/a", [{"f": b"1"}], oid="info:a")
        ctx.check(store.validate() is True, "an instance validates again independently of earlier runs")
        ctx.check(store.num_objects == 1 and store.good_objects == 1 and len(store.errors) == 0, "counts are those of the last validation")
    elif ctx.boolean("not a root any more"):
        ctx.remove("r/0=ocfl_1.1")
        ctx.check(store.validate() is False, "an instance validates again independently of earlier runs")
        ctx.check(store.num_objects == 0 and store.good_objects == 0 and len(store.errors) == 0, "counts are those of the last validation")


def max_errors(ctx):
    """max_errors limits what is recorded, not the verdict."""
    declare(ctx)
    n = 3
    for i in range(n):
        write_object(ctx, "r/o%d" % i, [{"f": b"1"}], oid="info:%d" % i)
        ctx.put("r/o%d/x" % i, "x")
    m = ctx.choice("max", (0, 1, 2, 3, 4))
    store = StorageRoot(root=ctx.path("r"))
    ctx.check(store.validate(max_errors=m) is False, "invalid objects make the root invalid whatever is recorded")
    ctx.check(len(store.errors) == min(m, n), "as many errors recorded as asked for")
    ctx.check(store.num_objects == n and store.good_objects == 0, "all objects are counted")


def add(ctx, layouts=LAYOUTS, lo=1, hi=2, alphabet=None, prefix=""):
    """An added object is at the path of its identifier, byte for byte, and nothing else changes."""
    lname = ctx.choice("layout", layouts)
    declare(ctx)
    params = None
    if lname.startswith("0003"):
        params = ctx.choice("params", (None, {"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 1}, {"digestAlgorithm": "sha256", "tupleSize": 0, "numberOfTuples": 0}))
    layout_file(ctx, lname, params=params)
    oid = prefix + ctx.str("id", lo, hi, alphabet)
    inv = write_object(ctx, "src", [{"f": b"1"}, {"f": b"1", "d/g": b"2"}], oid=oid)
    other = ctx.choice("other object", (None, "info:other"))
    lay = get_layout(lname)
    if params is not None:
        lay.check_and_set_layout_params(params, require_extension_name=False)
    want = {}
    if other is not None:
        try:
            op = lay.identifier_to_path(other)
        except LayoutException:
            op = None
        ctx.assume(op is not None)
        write_object(ctx, "r/" + op, [{"f": b"9"}], oid=other)
        want[op] = other
    try:
        path = lay.identifier_to_path(oid)
    except LayoutException:
        path = None
    given = ctx.choice("layout argument", (None, "nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"))
    store = StorageRoot(root=ctx.path("r"), layout_name=given)
    if given is not None and ctx.boolean("object_path first"):
        try:
            store.object_path("info:x")
        except (StorageRootException, LayoutException):
            pass
    before, src, outside = ctx.snapshot("r"), ctx.snapshot("src"), ctx.snapshot_outside()
    try:
        got = store.add(object_path=ctx.path("src"))
    except (StorageRootException, LayoutException, ocfl.ObjectException) as e:
        ctx.check(path is None or oid == other or reserved(path) or "\0" in path, "an object is refused only if its identifier has no path or is in use", exc=str(e))
        ctx.check(ctx.snapshot("r") == before, "a refused object changes nothing")
        ctx.check(ctx.snapshot("src") == src, "the source is unchanged")
        return
    ctx.check(path is not None, "an identifier without a path is refused")
    ctx.check(got[0] == oid and got[1] == path, "the identifier and path are returned")
    ctx.check(ctx.snapshot("r/" + path) == src, "the object is copied byte for byte")
    ctx.check(ctx.snapshot("src") == src, "the source is unchanged")
    ctx.check(ctx.snapshot_outside() == outside, "nothing else changes")
    after = ctx.snapshot("r")
    for p in before:
        ctx.check(p in after and after[p] == before[p], "everything else in the root is unchanged")
    want[path] = oid
    store = StorageRoot(root=ctx.path("r"))
    ctx.check(store.object_path(oid) == path, "the object is found at the path of its identifier")
    objects_listed(ctx, StorageRoot(root=ctx.path("r")), want, "list")
    ctx.check(StorageRoot(root=ctx.path("r")).validate() is True, "the root is still valid")


def reserved(path):
    first = path.split("/")[0]
    return first in ("extensions", "ocfl_layout.json") or first.startswith("0=")


def add_refused(ctx):
    """Objects that cannot be added change nothing."""
    declare(ctx)
    why = ctx.choice("why", ("in use", "file in the way", "inside an object", "above an object", "no layout", "no object", "bad inventory", "bad root", "newer version", "reserved"))
    oid = "abcd"
    layout_file(ctx, "nnnn-tuple-tree")
    path = "ab/cd/abcd"
    if why == "no layout":
        ctx.remove("r/ocfl_layout.json")
    elif why == "in use":
        write_object(ctx, "r/" + path, [{"f": b"9"}], oid=oid)
    elif why == "file in the way":
        ctx.put("r/" + ctx.choice("at", ("ab", "ab/cd", "ab/cd/abcd")), "x")
    elif why == "inside an object":
        write_object(ctx, "r/" + ctx.choice("at", ("ab", "ab/cd")), [{"f": b"9"}], oid="info:x")
    elif why == "above an object":
        write_object(ctx, "r/" + path + "/x", [{"f": b"9"}], oid="info:x")
    elif why == "bad root":
        ctx.put("r/0=ocfl_1.1", "wrong")
    elif why == "newer version":
        ctx.remove("r/0=ocfl_1.1")
        declare(ctx, spec="1.0")
    elif why == "reserved":
        layout_file(ctx, "0002-flat-direct-storage-layout")
        oid = ctx.choice("id", ("extensions", "0=x", "0=ocfl_1.0", "0=ocfl_1.1", "ocfl_layout.json"))
    if why != "no object":
        inv = write_object(ctx, "src", [{"f": b"1"}], oid=oid)
        if why == "bad inventory":
            bad = ctx.choice("bad", ("json", "id", "head", "missing", "bytes"))
            if bad == "json":
                ctx.put("src/inventory.json", "{")
            elif bad == "missing":
                ctx.remove("src/inventory.json")
            elif bad == "bytes":
                ctx.put("src/inventory.json", b"\xff")
            else:
                inv[bad] = ctx.choice("value", (None, 1, "", [], "v9x"))
                ctx.assume(not (bad == "id" and inv["id"] == "v9x"))
                ctx.putjson("src/inventory.json", inv)
    before = ctx.snapshot("")
    store = StorageRoot(root=ctx.path("r"))
    try:
        store.add(object_path=ctx.path("src"))
    except (StorageRootException, ocfl.ObjectException):
        ctx.check(ctx.snapshot("") == before, "a refused object changes nothing")
        return
    ctx.fail("an object that cannot be added is refused")


# ------------------------------------------------------------------ C24
def root_declaration(ctx, lo=0, hi=2):
    """Which declarations make a directory a storage root, and of which version."""
    stem = ctx.choice("stem", ("0=ocfl_", "0=ocfl_1.", "0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl", "0=", "ocfl_1.0", "0=ocfl_object_1.0"))
    tail = ctx.str("tail", lo, hi)
    name = stem + tail
    ctx.assume("/" not in tail and "\0" not in tail and name != "")
    good = name == "0=ocfl_1.0" or name == "0=ocfl_1.1"
    ctx.put("r/" + name, name[2:] + "\n")
    expect = ctx.choice("expected version", (None, "1.0", "1.1"))
    kw = {} if expect is None else {"spec_version": expect}
    match = good and (expect is None or name == "0=ocfl_" + expect)
    store = StorageRoot(root=ctx.path("r"), **kw)
    ctx.check(store.validate() == match, "valid exactly with a correct declaration of the expected version")
    if match:
        ctx.check("0=ocfl_" + store.spec_version == name, "the declared version is used")
    else:
        ctx.check(store.log.num_errors == 1, "exactly one error is logged")
        bad = False
        try:
            list(StorageRoot(root=ctx.path("r"), **kw).list_objects())
        except StorageRootException:
            bad = True
        ctx.check(bad, "listing something else than a storage root is refused")


def root_content(ctx):
    """Content and number of declaration files."""
    sp = ctx.choice("spec", ("1.0", "1.1"))
    case = ctx.choice("case", ("content", "two", "many", "directory", "none"))
    ok = False
    if case == "content":
        text = "ocfl_" + sp
        text = text + "\n"
        i = ctx.choice("at", range(len(text) + 1))
        c = ctx.str("c", 0, 1)
        body = text[:i] + c + text[i + 1:] if ctx.boolean("replace") else text[:i] + c + text[i:]
        ctx.put("r/0=ocfl_" + sp, body)
        ok = body.replace("\r\n", "\n").replace("\r", "\n") == text
    elif case == "two":
        declare(ctx, spec=sp)
        ctx.put("r/0=" + ctx.choice("other", ("ocfl_1.0", "ocfl_1.1", "x", "ocfl_2.0")), "x")
        ctx.assume(len(ctx.listdir("r")) == 2)
    elif case == "many":
        declare(ctx, spec=sp)
        for i in range(12):
            ctx.put("r/0=x%d" % i, "x")
    elif case == "directory":
        ctx.mkdir("r/0=ocfl_" + sp)
    else:
        ctx.put("r/x", "x")
    store = StorageRoot(root=ctx.path("r"))
    got = store.validate()
    if ok:
        ctx.check(got is True, "a storage root is valid")
    else:
        ctx.check(got is False, "a wrong declaration is an error")
        ctx.check(store.log.num_errors >= 1, "and is logged")


def layout_shapes(ctx):
    """ocfl_layout.json of any shape: accepted exactly if it names a known layout with a valid configuration."""
    declare(ctx)
    ok = False
    case = ctx.choice("case", ("absent", "value", "known", "near", "bytes", "directory", "config"))
    if case == "absent":
        ok = True
    elif case == "value":
        ext = ctx.choice("extension", ("absent", None, 1, [], {}, "", LAYOUTS[0]))
        desc = ctx.choice("description", ("absent", None, 1, [], {}, "", "text"))
        body = {"extra": 1}
        if ext != "absent":
            body["extension"] = ext
        if desc != "absent":
            body["description"] = desc
        ok = ext == LAYOUTS[0] and (desc == "" or desc == "text")
        ctx.putjson("r/ocfl_layout.json", body)
    elif case == "known":
        ok = True
        layout_file(ctx, ctx.choice("layout", LAYOUTS))
    elif case == "near":
        n = ctx.choice("layout", LAYOUTS[:2])
        i = ctx.choice("at", (0, 4, len(n)))
        c = ctx.str("c", 1, 1)
        ctx.assume("/" not in c)
        layout_file(ctx, n[:i] + c + n[i:])
    elif case == "bytes":
        ctx.put("r/ocfl_layout.json", ctx.sel("bytes", [b"", b"{", b"\xff", b"[]", b"1", b"null", b"{}", b'"x"']))
    elif case == "directory":
        ctx.mkdir("r/ocfl_layout.json")
    else:
        n = "0003-hash-and-id-n-tuple-storage-layout"
        size = ctx.choice("size", (0, 1, 3, -1, "3", None, True))
        num = ctx.choice("number", (0, 1, 3))
        layout_file(ctx, n, params={"digestAlgorithm": ctx.choice("algorithm", ("sha256", "md5")), "tupleSize": size, "numberOfTuples": num})
        ok = size is not True and size in (0, 1, 3) and (size == 0) == (num == 0)
        if size is None:
            ok = None
    store = StorageRoot(root=ctx.path("r"))
    got = store.validate()
    if ok is None:
        return
    ctx.check(got == ok, "valid exactly with a known layout and a valid configuration", log=str(store.log))
    if not ok:
        ctx.check(store.log.num_errors >= 1, "the error is logged")
        bad = False
        try:
            list(StorageRoot(root=ctx.path("r")).list_objects())
        except StorageRootException:
            bad = True
        ctx.check(bad, "and listing is refused")


def reopen(ctx):
    """The layout and parameters declared in the root are used whatever the instance was told or did before."""
    first = ctx.choice("first", (None,) + LAYOUTS[:4])
    declared = ctx.choice("declared", LAYOUTS[:4])
    given = ctx.choice("given", (None,) + LAYOUTS[:4])
    params = None
    if declared.startswith("0003"):
        params = ctx.choice("params", (None, {"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 1}))
    elif declared == "nnnn-tuple-tree-layout":
        params = ctx.choice("params", (None, {"tupleSize": 3}))
    declare(ctx)
    store = StorageRoot(root=ctx.path("r"), layout_name=given)
    if first is not None:
        layout_file(ctx, first, params={"digestAlgorithm": "md5", "tupleSize": 1, "numberOfTuples": 2} if first.startswith("0003") else None)
        how = ctx.choice("used first", ("validate", "list", "path"))
        if how == "validate":
            ctx.check(store.validate() is True, "a root with a known layout is valid")
        elif how == "list":
            ctx.check(list(store.list_objects()) == [], "no objects")
        else:
            store.object_path("abcdef")
        ctx.remove("r/extensions/" + first + "/config.json") if first.startswith("0003") else None
        ctx.remove("r/extensions") if first.startswith("0003") else None
    layout_file(ctx, declared, params=params)
    lay = get_layout(declared)
    if params is not None:
        lay.check_and_set_layout_params(params, require_extension_name=False)
    if ctx.choice("opened by", ("validate", "list")) == "validate":
        ctx.check(store.validate() is True, "the root is valid")
    else:
        ctx.check(list(store.list_objects()) == [], "no objects")
    ctx.check(store.layout_name == declared and store.layout.NAME == declared, "the layout declared is the one used")
    ctx.check(store.object_path("abcdef") == lay.identifier_to_path("abcdef"), "with the parameters declared")


def initialize(ctx):
    """A new storage root holds exactly the declaration, layout and configuration asked for."""
    ctx.mkdir("p")
    where = ctx.choice("where", ("new", "exists", "exists with files", "file", "no parent"))
    root = "p/r"
    if where == "exists":
        ctx.mkdir(root)
    elif where == "exists with files":
        ctx.put(root + "/x", "x")
    elif where == "file":
        ctx.put(root, "x")
    elif where == "no parent":
        root = "p/q/r"
    con, arg = ctx.choice("constructor version", (None, "1.0", "1.1")), ctx.choice("argument version", (None, "1.0", "1.1", "1.2", "1", ""))
    name = ctx.choice("layout", (None, "bogus") + LAYOUTS + tuple(ALIASES))
    params, config = None, None
    if name is not None and name.startswith("0003"):
        params = ctx.choice("params", (None, '{"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 3}', '{"digestAlgorithm": "md5", "tupleSize": 0, "numberOfTuples": 3}', "{", "[]"))
    elif name == LAYOUTS[3]:
        params = ctx.choice("params", (None, '{"tupleSize": 3}', '{"tupleSize": 1}', ""))
    before = ctx.snapshot("")
    cwd = ctx.boolean("relative path")
    if cwd:
        ctx.cwd("p")
    path = root[2:] if cwd else ctx.path(root)
    kw = {} if con is None else {"spec_version": con}
    good = where == "new" and arg in (None, "1.0", "1.1") and name != "bogus" and (params is None or params.endswith("3}")) and \
        params != '{"digestAlgorithm": "md5", "tupleSize": 0, "numberOfTuples": 3}'
    try:
        StorageRoot(root=path, layout_name=name, **kw).initialize(**({} if arg is None else {"spec_version": arg}),
                                                                 **({} if params is None else {"layout_params": params}))
    except StorageRootException as e:
        ctx.check(not good, "refused only for a reason", exc=str(e))
        ctx.check(ctx.snapshot("") == before, "a refused initialisation changes nothing")
        return
    ctx.check(good, "an unusable request is refused")
    spec = arg if arg is not None else (con if con is not None else "1.1")
    ctx.check(ctx.read(root + "/0=ocfl_" + spec) == ("ocfl_" + spec + "\n").encode("utf-8"), "the declaration of the version asked for")
    names = ["0=ocfl_" + spec]
    if name is not None:
        names.append("ocfl_layout.json")
        name = ALIASES.get(name, name)
        lay = ctx.readjson(root + "/ocfl_layout.json")
        ctx.check(lay["extension"] == name and isinstance(lay["description"], str), "the layout file names the layout")
        if ctx.exists(root + "/extensions"):
            names.append("extensions")
            ctx.check(ctx.listdir(root + "/extensions") == [name], "only the layout's configuration directory")
            cfg = ctx.readjson(root + "/extensions/" + name + "/config.json")
            ctx.check(cfg["extensionName"] == name, "the configuration names the extension")
            if params is not None:
                want = json.loads(params)
                for k in want:
                    ctx.check(cfg[k] == want[k], "the configuration holds the parameters given")
        else:
            ctx.check(params is None, "parameters given are stored")
    ctx.check(sorted(ctx.listdir(root)) == sorted(names), "nothing else in the new storage root")
    store = StorageRoot(root=path)
    ctx.check(store.validate() is True, "the new storage root is valid")
    ctx.check(store.spec_version == spec, "with the version asked for")
    ctx.check(list(StorageRoot(root=path).list_objects()) == [], "and has no objects")


def missing_root(ctx):
    """Operations on a root that does not exist are refused."""
    ctx.put("f", "x")
    rel = ctx.choice("root", ("nothing", "f", "a/b"))
    store = StorageRoot(root=ctx.path(rel))
    op = ctx.choice("op", ("list", "validate", "add", "object_path"))
    before = ctx.snapshot("")
    try:
        if op == "list":
            list(store.list_objects())
        elif op == "validate":
            ctx.check(store.validate() is False, "not a storage root")
            return
        elif op == "add":
            store.add(object_path=ctx.path("f"))
        else:
            store.object_path("x")
    except StorageRootException:
        ctx.check(ctx.snapshot("") == before, "nothing changes")
        return
    ctx.fail("an operation on a missing storage root is refused")
