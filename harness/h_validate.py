"""Object validation: single corruptions (C18), tampered histories (C20), log options (C21), totality (C22), sidecars (C25)."""
from ocfl.inventory_validator import InventoryValidator
from ocfl.object import Object
from ocfl.validator import Validator
from ocfl.validation_logger import ValidationLogger
from harness.lib import digest, write_object, put_inventory
from harness.h_inventory import mutate, base, DA, DB

JSONCHARS = "{}[]\",:0-.\\e \n\x00\u00e9\ufeffx"
SHAPES = ("plain", "sha256", "noinv", "stuff", "padded", "fixity", "extras", "one", "three", "empty")


def sample(ctx, shape, symbolic=True):
    """A valid object at obj; returns (inventory, algorithm, version directories, content directory)."""
    a = ctx.sel("a", [b"x", b"y"]) if symbolic else b"x"
    versions = [{"a": a, "d/b": b"z"}, {"a": b"x", "c": b"w"}]
    kw = {}
    if shape == "sha256":
        kw["alg"] = "sha256"
    elif shape == "noinv":
        kw["versions_inv"] = False
    elif shape == "stuff":
        kw["cd"] = "stuff"
    elif shape == "padded":
        kw["width"] = 3
    elif shape == "fixity":
        kw["fixity"] = ("md5",)
    elif shape == "one":
        versions = versions[:1]
    elif shape == "three":
        versions.append({"a": b"t"})
    elif shape == "empty":
        versions = [{"a": b"x"}, {}]
    inv = write_object(ctx, "obj", versions, **kw)
    if shape == "extras":
        ctx.put("obj/logs/log.txt", b"log")
        ctx.put("obj/extensions/0005-mutable-head/head", b"e")
    alg = inv["digestAlgorithm"]
    return inv, alg, list(inv["versions"].keys()), inv.get("contentDirectory", "content")


def verdict(rel="obj", ctx=None, **kw):
    v = Validator(**kw)
    got = v.validate_object(ctx.path(rel))
    return got, v


def expect(ctx, valid, what, rel="obj"):
    got, v = verdict(rel, ctx)
    ctx.check(got is True or got is False, "the verdict is a boolean")
    if valid:
        ctx.check(got, what + ": accepted", log=str(v))
    else:
        ctx.check(not got, what + ": refused")
    ctx.check(got == (v.log.num_errors == 0), "invalid exactly when an error is logged")
    passed, _ = Object().validate(objdir=ctx.path(rel), log_warnings=False)
    ctx.check(passed == got, "Object.validate agrees")


def is_content(p, vdirs, cd):
    parts = p.split("/")
    return len(parts) > 2 and parts[0] in vdirs and parts[1] == cd


def free_area(p, vdirs=()):
    """Files OCFL leaves to the user."""
    parts = p.split("/")
    return len(parts) > 1 and parts[0] == "logs" or len(parts) > 2 and parts[0] == "extensions" or \
        len(parts) > 2 and parts[0] in vdirs and parts[1] not in ("content", "stuff")


# ------------------------------------------------------------------ C18
def valid_samples(ctx):
    """All the sample objects are accepted (so a refusal below is due to the corruption)."""
    shape = ctx.choice("shape", SHAPES)
    sample(ctx, shape)
    expect(ctx, True, "sample")


def corrupt_file(ctx, shapes=SHAPES):
    """Any change to the bytes of any file of the object, or its deletion."""
    shape = ctx.choice("shape", shapes)
    inv, alg, vdirs, cd = sample(ctx, shape, symbolic=shape == "plain")
    files = sorted(ctx.files("obj").keys())
    p = ctx.choice("file", files)
    how = ctx.choice("how", ("delete", "append", "prepend", "replace", "empty", "directory", "upper"))
    data = ctx.read("obj/" + p)
    if how == "delete":
        ctx.remove("obj/" + p)
        if is_content(p, vdirs, cd) and len(ctx.files("obj/" + p[:p.rindex("/")])) == 0:
            ctx.remove("obj/" + p[:p.rindex("/")])
    elif how == "directory":
        ctx.remove("obj/" + p)
        if ctx.boolean("inner"):
            ctx.put("obj/" + p + "/x", b"x")
        else:
            ctx.mkdir("obj/" + p)
    else:
        if how == "append":
            t = ctx.str("tail", 1, 2)
            ctx.assume(not (p.startswith("0=") and t == "\r"))
            new = data + t.encode("utf-8")
            if p.split("/")[-1].startswith("inventory.json."):
                return  # trailing text in sidecars is decided by the sidecar property
        elif how == "prepend":
            t = ctx.str("head", 1, 2)
            new = t.encode("utf-8") + data
        elif how == "empty":
            ctx.assume(len(data) > 0)
            new = b""
        elif how == "upper":
            ctx.assume(p.startswith("0="))
            new = data.upper()
        else:
            new = ctx.str("new", 1, 2, JSONCHARS if p.endswith("inventory.json") else None).encode("utf-8")
            ctx.assume(new != data)
        ctx.put("obj/" + p, new)
    expect(ctx, free_area(p), "changed file (%s)" % how)


def flip_content(ctx, n=3, alphabet=None):
    """Any change of any single byte of a longer content file or declaration."""
    data = ctx.str("data", n, n, alphabet).encode("utf-8")
    versions = [{"a": b"x"}, {"a": b"x", "b": data}]
    write_object(ctx, "obj", versions, fixity=("sha1",) if ctx.boolean("fixity") else None, alg=ctx.choice("alg", ("sha512", "sha256")))
    ctx.assume(data != b"x")
    new = ctx.str("other", n, n, alphabet).encode("utf-8")
    ctx.put("obj/v2/content/b", new)
    expect(ctx, new == data, "content")


def newlines(t):
    """Text as read in text mode."""
    return t.replace("\r\n", "\n").replace("\r", "\n")


def declaration(ctx):
    """Any change of the object declaration's text or name."""
    write_object(ctx, "obj", [{"a": b"x"}])
    what = ctx.choice("what", ("text", "edited", "name", "second", "missing", "lower"))
    if what == "text":
        t = ctx.choice("text", ("ocfl_object_1.1", "", "ocfl_object_1.0\n", "ocfl_object_1.1 \n", "0=ocfl_object_1.1\n", "ocfl_object_1.10\n",
                                "ocfl_1.1\n", "ocfl_object_1.1\nx\n", "OCFL_OBJECT_1.1\n", " ocfl_object_1.1\n", "ocfl_object_\n"))
        ctx.put("obj/0=ocfl_object_1.1", t)
    elif what == "edited":
        full = "ocfl_object_1.1\n"
        i = ctx.choice("at", range(len(full) + 1))
        c = ctx.str("c", 0, 1)
        t = full[:i] + c + (full[i + 1:] if ctx.boolean("replace") else full[i:])
        ctx.put("obj/0=ocfl_object_1.1", t)
        expect(ctx, newlines(t) == full, "declaration (edited)")
        return
    elif what == "name":
        ctx.remove("obj/0=ocfl_object_1.1")
        name = "0=ocfl_object_1." + ctx.str("n", 0, 2, "0123456789.x ")
        ctx.assume(name != "0=ocfl_object_1.1")
        ctx.put("obj/" + name, name[2:] + "\n")
    elif what == "second":
        name = ctx.choice("name", ("0=ocfl_object_1.0", "0=ocfl_object_1.2", "0=ocfl_1.1", "0=x", "0=ocfl_object_2.0"))
        ctx.put("obj/" + name, name[2:] + "\n")
    elif what == "missing":
        ctx.remove("obj/0=ocfl_object_1.1")
    else:
        ctx.remove("obj/0=ocfl_object_1.1")
        ctx.put("obj/0=ocfl_object_1.0", "ocfl_object_1.0\n")
    expect(ctx, False, "declaration (%s)" % what)


def extra_entry(ctx, kind, shapes=SHAPES, hi=2):
    """Any additional file or directory anywhere in the object, under any name."""
    shape = ctx.choice("shape", shapes)
    inv, alg, vdirs, cd = sample(ctx, shape, symbolic=False)
    dirs = [""] + [d for d in sorted(ctx.dirs("obj"))]
    d = ctx.choice("dir", dirs)
    stems = ["", "inventory.json", "inventory.json.", "content", "logs", "extensions", "v", "a", "0="]
    if d == "" or d == vdirs[0]:
        stems += ["inventory.json.sha", "inventory.json.sha512", "v0", "v1", "0=ocfl_object_1.", ".", "~"]
    name = ctx.choice("stem", stems) + ctx.str("name", 0, hi)
    ctx.assume(name != "" and name != "." and name != ".." and "/" not in name and "\0" not in name)
    p = name if d == "" else d + "/" + name
    ctx.assume(not ctx.exists("obj/" + p))
    parts = p.split("/")
    top = parts[0]
    # a directory named like a sidecar where there is no inventory: not specified
    ctx.assume(kind == "file" or len(parts) < 2 or not parts[1].startswith("inventory.json") or ctx.isfile("obj/" + top + "/inventory.json"))
    if kind == "file":
        ctx.put("obj/" + p, ctx.choice("data", (b"", b"x")))
        ok = free_area(p, vdirs)
    elif kind == "dir":
        ctx.mkdir("obj/" + p)
        ok = top in ("logs", "extensions") or len(parts) > 1 and top in vdirs and (parts[1] != cd or len(parts) == 2) \
            and parts[1] not in ("inventory.json", "inventory.json." + alg)
    else:
        ctx.put("obj/" + p + "/x", b"x")
        ok = top == "logs" or top == "extensions" and (len(parts) > 1) or len(parts) > 1 and top in vdirs and parts[1] != cd \
            and parts[1] not in ("inventory.json", "inventory.json." + alg)
    expect(ctx, ok, "additional " + kind)


def moved(ctx, shapes=("plain", "sha256", "stuff", "noinv", "three")):
    """Any content file renamed or moved, any two content files swapped, any version directory missing or renamed."""
    shape = ctx.choice("shape", shapes)
    inv, alg, vdirs, cd = sample(ctx, shape, symbolic=False)
    files = [p for p in sorted(ctx.files("obj").keys()) if is_content(p, vdirs, cd)]
    what = ctx.choice("what", ("rename", "swap", "novdir", "mvvdir", "copy"))
    if what in ("rename", "copy"):
        p = ctx.choice("file", files)
        base_dir = ctx.choice("dir", [v + "/" + cd + "/" for v in vdirs] + [vdirs[0] + "/" + cd + "/d/", vdirs[0] + "/", "", "v9/" + cd + "/"])
        name = ctx.str("name", 1, 2)
        ctx.assume(name != "." and name != ".." and "/" not in name and "\0" not in name)
        q = base_dir + name
        ctx.assume(not ctx.exists("obj/" + q) and q != p)
        data = ctx.read("obj/" + p)
        if what == "rename":
            ctx.remove("obj/" + p)
        ctx.put("obj/" + q, data)
    elif what == "swap":
        p, q = ctx.choice("p", files), ctx.choice("q", files)
        ctx.assume(p < q)
        dp, dq = ctx.read("obj/" + p), ctx.read("obj/" + q)
        ctx.put("obj/" + p, dq)
        ctx.put("obj/" + q, dp)
        ctx.assume(dp != dq)
    else:
        v = ctx.choice("v", vdirs)
        ctx.assume(ctx.isdir("obj/" + v))
        if what == "novdir":
            ctx.remove("obj/" + v)
        else:
            ctx.rename("obj/" + v, "obj/" + ctx.choice("as", ("v9", "v0" + v[1:], "w1", "V1", v + "x")))
    expect(ctx, False, what)


# ------------------------------------------------------------------ C20
def resign(ctx, inv, vdir=None, alg=None):
    """Write inv as root inventory (and the head version's), or as the inventory of vdir, with sidecars."""
    alg = inv["digestAlgorithm"] if alg is None else alg
    if vdir is None:
        put_inventory(ctx, "obj", inv, alg)
        put_inventory(ctx, "obj/" + inv["head"], inv, alg)
    else:
        put_inventory(ctx, "obj/" + vdir, inv, alg)


def history(ctx, alg_prior="sha512"):
    """Two versions with arbitrary logical paths in the inventories of v1 (in v1 and in the root): valid iff they agree."""
    p = [ctx.str("p%d" % i, 1, 1, "abc") for i in range(2)]
    q = [ctx.str("q%d" % i, 1, 1, "abc") for i in range(2)]
    ctx.assume(p[0] != p[1] and q[0] != q[1])
    x, y = b"x", b"y"
    ctx.put("obj/0=ocfl_object_1.1", "ocfl_object_1.1\n")
    ctx.put("obj/v1/content/f", x)
    ctx.put("obj/v1/content/g", y)
    created = "2020-01-02T03:04:05Z"

    def inv_for(alg, v1, v2):
        out = {"id": "info:a", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg, "head": "v2" if v2 else "v1",
               "manifest": {digest(alg, x): ["v1/content/f"], digest(alg, y): ["v1/content/g"]},
               "versions": {"v1": {"created": created, "state": {digest(alg, x): [v1[0]], digest(alg, y): [v1[1]]}}}}
        if v2:
            out["versions"]["v2"] = {"created": created, "state": {digest(alg, x): ["a"], digest(alg, y): ["b"]}}
        return out
    resign(ctx, inv_for("sha512", q, True))
    resign(ctx, inv_for(alg_prior, p, False), "v1")
    new, old = InventoryValidator(), InventoryValidator()
    ctx.check(new.validate(inv_for("sha512", q, True)) and old.validate(inv_for(alg_prior, p, False)), "each inventory is valid by itself")
    ctx.check(new.validate_as_prior_version(old) == (p[0] == q[0] and p[1] == q[1]), "validate_as_prior_version")
    ctx.check((new.log.num_errors == 0) == (p[0] == q[0] and p[1] == q[1]), "validate_as_prior_version logs what it refuses")
    expect(ctx, p[0] == q[0] and p[1] == q[1], "the state of v1 in its own inventory and in the root inventory")


def tamper(ctx, alg_prior="sha512", shape="three"):
    """One inventory of a three-version object re-written consistently with a different content: detected."""
    versions = [{"a": b"x", "d/b": b"z"}, {"a": b"y", "d/b": b"z"}, {"a": b"y"}]
    inv = write_object(ctx, "obj", versions, fixity=("md5",))
    if alg_prior != "sha512":
        for i in (1, 2):
            tmp = "tmp%d" % i
            old = write_object(ctx, tmp, versions[:i], alg=alg_prior, fixity=("md5",))
            ctx.remove("obj/v%d/inventory.json.sha512" % i)
            put_inventory(ctx, "obj/v%d" % i, old, alg_prior)
            ctx.remove(tmp)
    expect(ctx, True, "before tampering")
    which = ctx.choice("which", ("root", "v1", "v2"))
    inv = ctx.readjson("obj/inventory.json" if which == "root" else "obj/" + which + "/inventory.json")
    alg = inv["digestAlgorithm"]
    dx, dy, dz = digest(alg, b"x"), digest(alg, b"y"), digest(alg, b"z")
    what = ctx.choice("what", ("swap", "add", "drop", "id", "cd", "cdname", "type", "rename", "manifest", "fixity", "extra_version", "drop_version", "metadata",
                               "case", "head", "dup_content", "claim", "copy"))
    v = ctx.choice("v", [k for k in inv["versions"].keys() if k != inv["head"] or which != "root"]) if what in ("swap", "add", "drop", "rename", "metadata") else None
    valid = False
    if what == "swap":
        st = inv["versions"][v]["state"]
        keys = list(st.keys())
        ctx.assume(len(keys) == 2)
        st[keys[0]], st[keys[1]] = st[keys[1]], st[keys[0]]
    elif what == "add":
        inv["versions"][v]["state"][dz].append("q")
    elif what == "drop":
        st = inv["versions"][v]["state"]
        d = list(st.keys())[0]
        ctx.assume(len(inv["versions"]) > 1 or which == "root")
        del st[d]
        used = [e for k in inv["versions"] for e in inv["versions"][k]["state"]]
        ctx.assume(d in used)
    elif what == "rename":
        st = inv["versions"][v]["state"]
        d = list(st.keys())[0]
        st[d] = [ctx.str("name", 1, 2, "abx.")]
        ctx.assume(st[d][0] not in (".", "..") and st[d] != ["a"])
    elif what == "id":
        inv["id"] = "info:" + ctx.str("id", 0, 2)
        valid = inv["id"] == "info:a"
    elif what == "cd":
        # naming the default explicitly: allowed in the first version only
        inv["contentDirectory"] = "content"
        valid = which == "v1"
    elif what == "cdname":
        inv["contentDirectory"] = "stuff"
        for d in inv["manifest"]:
            inv["manifest"][d] = [p.replace("/content/", "/stuff/") for p in inv["manifest"][d]]
        inv["fixity"] = {}
    elif what == "type":
        inv["type"] = "https://ocfl.io/1.0/spec/#inventory"
        valid = which == "v1"
    elif what == "manifest":
        ctx.assume(which != "v1")
        inv["manifest"][dx], inv["manifest"][dy] = inv["manifest"][dy], inv["manifest"][dx]
    elif what == "fixity":
        inv["fixity"]["md5"] = {digest("md5", b"q"): ["v1/content/a"]}
    elif what == "extra_version":
        n = "v%d" % (len(inv["versions"]) + 1)
        inv["versions"][n] = inv["versions"][inv["head"]]
        inv["head"] = n
        valid = which == "v1" and False
        ctx.assume(which == "root" or len(inv["versions"]) > 3 or which == "v2")
    elif what == "drop_version":
        ctx.assume(which == "root")
        del inv["versions"][inv["head"]]
        inv["head"] = "v2"
    elif what == "metadata":
        inv["versions"][v]["message"] = "another"
        valid = True
    elif what == "case":
        st = inv["versions"]["v1"]["state"]
        inv["manifest"] = {d.upper(): inv["manifest"][d] for d in inv["manifest"]}
        for k in inv["versions"]:
            st = inv["versions"][k]["state"]
            inv["versions"][k]["state"] = {d.upper(): st[d] for d in st}
        valid = True
    elif what == "claim":
        # another digest for a file, throughout the inventory
        d, q = ctx.choice("claimed", (dx, dy, dz)), digest(alg, b"q")
        ctx.assume(d in inv["manifest"])
        inv["manifest"][q] = inv["manifest"].pop(d)
        for k in inv["versions"]:
            st = inv["versions"][k]["state"]
            if d in st:
                st[q] = st.pop(d)
    elif what == "copy":
        # the root inventory in place of an earlier one
        ctx.assume(which != "root")
        ctx.remove("obj/" + which + "/inventory.json." + alg)
        inv = ctx.readjson("obj/inventory.json")
        alg = "sha512"
    elif what == "head":
        inv["head"] = ctx.choice("head", ("v0", "v4", "v01", "", "v1 "))
    else:
        # an inventory that maps a content path to another digest as well
        inv["manifest"][dx] = ["v1/content/a", "v1/content/d/b"]
        ctx.assume(inv["manifest"][dz] == ["v1/content/d/b"])
    if which == "root":
        alg = inv["digestAlgorithm"]
        put_inventory(ctx, "obj", inv, alg)
        put_inventory(ctx, "obj/v3", inv, alg)
    else:
        put_inventory(ctx, "obj/" + which, inv, alg)
    expect(ctx, valid, what)
    if what == "metadata":
        _, w = verdict("obj", ctx)
        ctx.check("W011" in w.log.codes, "changed metadata is warned about")


def rewritten_content(ctx, alg_prior="sha512"):
    """Content replaced and the root inventory re-signed for it: the earlier inventories give it away."""
    new = ctx.sel("new", [b"x", b"n"])
    versions = [{"a": b"x"}, {"a": b"x", "b": b"y"}]
    write_object(ctx, "obj", versions)
    if alg_prior != "sha512":
        old = write_object(ctx, "tmp", versions[:1], alg=alg_prior)
        ctx.remove("obj/v1/inventory.json.sha512")
        put_inventory(ctx, "obj/v1", old, alg_prior)
        ctx.remove("tmp")
    write_object(ctx, "forged", [{"a": new}, {"a": new, "b": b"y"}])
    for p in ("inventory.json", "inventory.json.sha512", "v2/inventory.json", "v2/inventory.json.sha512", "v1/content/a"):
        ctx.put("obj/" + p, ctx.read("forged/" + p))
    ctx.remove("forged")
    expect(ctx, new == b"x", "content replaced")


def duplicates(ctx, alg_prior="sha512"):
    """Content stored twice: no inventory lists a content file that is not there or loses one listed before."""
    x = b"x"
    cd = ctx.choice("cd", (None, "stuff"))
    name = "content" if cd is None else cd
    a, b, ghost = ["v1/" + name + "/" + f for f in ("a", "b", "ghost")]
    ctx.put("obj/0=ocfl_object_1.1", "ocfl_object_1.1\n")
    ctx.put("obj/" + a, x)
    ctx.put("obj/" + b, x)
    lists = []
    for i in range(3):
        lists.append([p for p in (a, b, ghost) if ctx.boolean("%d %s" % (i, p[-1]))])
        ctx.assume(len(lists[i]) > 0)
        alg = alg_prior if i < 2 else "sha512"
        d = digest(alg, x)
        inv = {"id": "i", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg, "head": "v%d" % (i + 1),
               "manifest": {d: lists[i]}, "versions": {}}
        if cd is not None:
            inv["contentDirectory"] = cd
        for k in range(i + 1):
            inv["versions"]["v%d" % (k + 1)] = {"created": "2020-01-02T03:04:05Z", "state": {d: ["f"]}}
        ctx.mkdir("obj/v%d" % (i + 1))
        put_inventory(ctx, "obj/v%d" % (i + 1), inv, alg)
    put_inventory(ctx, "obj", inv, "sha512")
    both = [a, b]
    valid = lists[0] == both and lists[1] == both and lists[2] == both
    if not valid and lists[2] == both and all(ghost not in lst for lst in lists) and all(p in lists[1] for p in lists[0]):
        return      # an earlier inventory that leaves out a second copy: not specified
    expect(ctx, valid, "content stored twice")


FIXITY = ("md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512")


def fixity_claims(ctx, algs=FIXITY, alg_prior="sha512"):
    """What any inventory of the object says about any file in any fixity block has to be true."""
    versions = [{"a": b"x", "b": b"y"}, {"a": b"x", "c": b"z"}]
    write_object(ctx, "obj", versions)
    if alg_prior != "sha512":
        old = write_object(ctx, "tmp", versions[:1], alg=alg_prior)
        ctx.remove("obj/v1/inventory.json.sha512")
        put_inventory(ctx, "obj/v1", old, alg_prior)
        ctx.remove("tmp")
    data = {"v1/content/a": b"x", "v1/content/b": b"y", "v2/content/c": b"z"}
    valid = True
    upper = ctx.boolean("upper")
    both = ctx.choice("fixity in", ("root", "v1", "both"))
    for where in ("root", "v1"):
        if both not in (where, "both"):
            continue
        rel = "obj" if where == "root" else "obj/v1"
        inv = ctx.readjson(rel + "/inventory.json")
        inv["fixity"] = {"md5": {}}
        first = ctx.choice(where + " path", ("v1/content/a", "v2/content/c")) if where == "root" else "v1/content/a"
        other = ctx.choice(where + " algorithm", algs if both != "both" else algs[1:4])
        for a in ("md5", other) if other != "md5" else ("md5",):
            claim = ctx.sel(where + " " + a, [data[first], b"q"])
            d = digest(a, claim)
            if upper:
                d = d.upper()
            inv["fixity"][a] = {d: [first]}
            if claim != data[first]:
                valid = False
        put_inventory(ctx, rel, inv, inv["digestAlgorithm"])
        if where == "root":
            put_inventory(ctx, "obj/v2", inv, inv["digestAlgorithm"])
    expect(ctx, valid, "fixity information")
    got, _ = verdict("obj", ctx, check_digests=False)
    ctx.check(got, "fixity digests are not checked when asked not to")


def fixity_many(ctx, algs=FIXITY):
    """One false claim among many algorithms and files is found, wherever it is."""
    versions = [{"a": b"x", "b": b"y"}, {"a": b"x", "c": b"z"}]
    write_object(ctx, "obj", versions)
    data = {"v1/content/a": b"x", "v1/content/b": b"y", "v2/content/c": b"z"}
    where = ctx.choice("where", ("root", "v1"))
    inv = ctx.readjson("obj/inventory.json" if where == "root" else "obj/v1/inventory.json")
    paths = sorted(p for p in data if where == "root" or p.startswith("v1/"))
    bad = ctx.choice("bad", [None] + [(a, p) for a in algs for p in paths])
    order = list(algs)
    if ctx.boolean("reverse"):
        order.reverse()
    inv["fixity"] = {}
    for a in order:
        inv["fixity"][a] = {}
        for p in paths:
            inv["fixity"][a][digest(a, b"q" if bad == (a, p) else data[p])] = [p]
    if where == "root":
        put_inventory(ctx, "obj", inv, "sha512")
        put_inventory(ctx, "obj/v2", inv, "sha512")
    else:
        put_inventory(ctx, "obj/v1", inv, "sha512")
    expect(ctx, bad is None, "fixity information")


def settings(ctx, content=(None, 0, 2)):
    """Three versions whose inventories name content directories, specification versions and identifiers of their own."""
    cds = [ctx.choice("cd%d" % i, (None, "content", "stuff")) for i in range(3)]
    specs = [ctx.choice("spec%d" % i, ("1.0", "1.1")) for i in range(3)]
    ids = ["i", "i", "i"]
    odd = ctx.choice("odd id", (None, 0, 1))
    if odd is not None:
        ids[odd] = ctx.str("id", 1, 2, "ij ")
    at = ctx.choice("content", content)    # the version with content, if any
    x = b"x"
    d = digest("sha512", x)
    ctx.put("obj/0=ocfl_object_" + specs[2], "ocfl_object_" + specs[2] + "\n")
    if at is not None:
        name = ("content" if cds[2] is None else cds[2])
        ctx.put("obj/v%d/%s/a" % (at + 1, name), x)
    for i in range(3):
        inv = {"id": ids[i], "type": "https://ocfl.io/" + specs[i] + "/spec/#inventory", "digestAlgorithm": "sha512", "head": "v%d" % (i + 1),
               "manifest": {}, "versions": {}}
        if cds[i] is not None:
            inv["contentDirectory"] = cds[i]
        for k in range(i + 1):
            inv["versions"]["v%d" % (k + 1)] = {"created": "2020-01-02T03:04:05Z", "state": {d: ["a"]} if at is not None and k >= at else {}}
        if at is not None and i >= at:
            inv["manifest"][d] = ["v%d/%s/a" % (at + 1, "content" if cds[i] is None else cds[i])]
        ctx.mkdir("obj/v%d" % (i + 1))
        put_inventory(ctx, "obj/v%d" % (i + 1), inv, "sha512")
    put_inventory(ctx, "obj", inv, "sha512")
    names = ["content" if c is None else c for c in cds]
    valid = names[0] == names[1] and names[1] == names[2] and ids[0] == ids[2] and ids[1] == ids[2] \
        and specs[0] <= specs[1] and specs[1] <= specs[2]
    if cds[0] is None and (cds[1] is not None or cds[2] is not None):
        valid = False
    if valid and cds[0] is not None and (cds[1] is None or cds[2] is None):
        return   # whether the default may be left out later is not specified
    expect(ctx, valid, "settings of earlier inventories")


def content_paths(ctx, alg_prior="sha512"):
    """A logical file of v1 that refers to other content in the root inventory is detected, whatever the digest algorithms."""
    x, y = b"x", b"y"
    ctx.put("obj/0=ocfl_object_1.1", "ocfl_object_1.1\n")
    ctx.put("obj/v1/content/f", x)
    ctx.put("obj/v1/content/g", y)
    created = "2020-01-02T03:04:05Z"
    pf, pg = ctx.choice("prior", (("a", "b"), ("b", "a")))
    rf, rg = ctx.choice("root", (("a", "b"), ("b", "a")))

    def man(alg):
        return {digest(alg, x): ["v1/content/f"], digest(alg, y): ["v1/content/g"]}

    def st(alg, f, g):
        return {"created": created, "state": {digest(alg, x): [f], digest(alg, y): [g]}}
    prior = {"id": "i", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg_prior, "head": "v1",
             "manifest": man(alg_prior), "versions": {"v1": st(alg_prior, pf, pg)}}
    root = {"id": "i", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": "sha512", "head": "v2",
            "manifest": man("sha512"), "versions": {"v1": st("sha512", rf, rg), "v2": st("sha512", "a", "b")}}
    if ctx.boolean("wrong"):
        # the earlier manifest has its digests exchanged as well
        prior["manifest"] = {digest(alg_prior, x): ["v1/content/g"], digest(alg_prior, y): ["v1/content/f"]}
        valid = False
    else:
        valid = pf == rf
    resign(ctx, root)
    put_inventory(ctx, "obj/v1", prior, alg_prior)
    expect(ctx, valid, "content of a logical file of v1")


# ------------------------------------------------------------------ C21
def spoil(ctx):
    """An object that is valid or has one or two of several defects; returns True when valid."""
    shape = ctx.choice("shape", ("plain", "extras", "padded", "noinv"))
    inv, alg, vdirs, cd = sample(ctx, shape, symbolic=False)
    bad = ctx.choice("bad", ("", "content", "extra", "inventory", "sidecar", "declaration", "none", "json", "missing", "vextra", "json1"))
    if bad == "content":
        ctx.put("obj/" + vdirs[0] + "/" + cd + "/a", ctx.str("new", 1).encode("utf-8"))
    elif bad == "extra":
        ctx.put("obj/extra", b"x")
    elif bad == "inventory":
        inv["head"] = "v9"
        put_inventory(ctx, "obj", inv, alg)
    elif bad == "sidecar":
        ctx.put("obj/inventory.json." + alg, "00 inventory.json\n")
    elif bad == "declaration":
        ctx.put("obj/0=ocfl_object_1.1", "x")
    elif bad == "none":
        ctx.remove("obj/inventory.json")
    elif bad == "json":
        ctx.put("obj/inventory.json", "{")
    elif bad == "json1":
        ctx.assume(shape != "noinv")
        ctx.put("obj/" + vdirs[0] + "/inventory.json", "[")
    elif bad == "missing":
        ctx.remove("obj/" + vdirs[0] + "/" + cd + "/a")
    elif bad == "vextra":
        ctx.put("obj/" + vdirs[0] + "/extra", b"x")
    return bad


def log_options(ctx):
    """The verdict, the codes found and the counts do not depend on what is shown."""
    bad = spoil(ctx)
    got, v = verdict("obj", ctx)
    lw, le = ctx.boolean("log_warnings"), ctx.boolean("log_errors")
    lang = ctx.choice("lang", ("en", "de", ""))
    v2 = Validator(log_warnings=lw, log_errors=le, lang=lang)
    got2 = v2.validate_object(ctx.path("obj"))
    ctx.check(got == got2, "same verdict whatever is shown")
    ctx.check(v.log.num_errors == v2.log.num_errors, "same number of errors whatever is shown")
    ctx.check(v.log.num_warnings == v2.log.num_warnings, "same number of warnings whatever is shown")
    ctx.check(sorted(v.log.codes.keys()) == sorted(v2.log.codes.keys()), "same codes whatever is shown")
    shown = [m for m in v2.log.messages]
    ctx.check(len(shown) == (v2.log.num_errors if le else 0) + (v2.log.num_warnings if lw else 0), "exactly the kinds asked for are shown")
    got3, v3 = Object().validate(objdir=ctx.path("obj"), log_warnings=lw, log_errors=le)
    ctx.check(got3 == got, "Object.validate: same verdict whatever is shown")
    v4 = Validator(log_warnings=lw, log_errors=le)
    got4 = v4.validate_object(ctx.path("obj"))
    got5 = v4.validate_object(ctx.path("obj"))
    ctx.check(got4 == got and got5 == got, "same verdict when the validator is used again")
    write_object(ctx, "other", [{"a": b"x"}])
    ctx.check(v4.validate_object(ctx.path("other")), "a valid object is accepted by a validator that saw another")
    ctx.check(v4.validate_object(ctx.path("obj")) == got, "same verdict by a validator that saw another")
    log = ValidationLogger(log_warnings=lw, log_errors=le)
    log.error("E001a", file="x")
    ctx.check(Validator(log=log).validate_object(ctx.path("obj")) == got, "same verdict with a log that has entries")


REUSE = ("plain", "sha256", "noinv", "stuff", "padded", "fixity", "lower version", "other algorithm earlier", "sidecar without inventory", "wrong sidecar",
         "content", "unlisted", "no declaration", "two declarations", "no inventory", "bad json", "bad spec", "bad id", "bad algorithm",
         "bad content directory", "extra version", "warnings", "fixity mismatch", "missing version", "empty directory")


def reuse_object(ctx, rel, shape):
    """One of many objects, valid or not, at rel."""
    versions = [{"a": b"x", "d/b": b"z"}, {"a": b"x", "c": b"w"}]
    kw = {"sha256": {"alg": "sha256"}, "noinv": {"versions_inv": False}, "stuff": {"cd": "stuff"}, "padded": {"width": 3},
          "fixity": {"fixity": ("md5",)}, "fixity mismatch": {"fixity": ("md5",)}, "lower version": {"spec": "1.0"}}.get(shape, {})
    if shape == "empty directory":
        ctx.mkdir(rel)
        return
    inv = write_object(ctx, rel, versions, oid="info:" + rel, **kw)
    if shape == "other algorithm earlier":
        old = write_object(ctx, "tmp", versions[:1], oid="info:" + rel, alg="sha256")
        ctx.remove("tmp")
        ctx.remove(rel + "/v1/inventory.json.sha512")
        put_inventory(ctx, rel + "/v1", old, "sha256")
    elif shape == "sidecar without inventory":
        ctx.remove(rel + "/v1/inventory.json")
    elif shape == "wrong sidecar":
        ctx.put(rel + "/inventory.json.sha512", "0" * 128 + " inventory.json\n")
    elif shape == "content":
        ctx.put(rel + "/v1/content/a", b"changed")
    elif shape == "unlisted":
        ctx.put(rel + "/v2/content/q", b"q")
    elif shape == "no declaration":
        ctx.remove(rel + "/0=ocfl_object_1.1")
    elif shape == "two declarations":
        ctx.put(rel + "/0=ocfl_object_1.0", "ocfl_object_1.0\n")
    elif shape == "no inventory":
        ctx.remove(rel + "/inventory.json")
    elif shape == "bad json":
        ctx.put(rel + "/inventory.json", b"[")
    elif shape == "fixity mismatch":
        ctx.put(rel + "/v1/content/a", b"changed")
    elif shape == "missing version":
        ctx.remove(rel + "/v1")
    elif shape.startswith("bad ") or shape in ("extra version", "warnings"):
        if shape == "bad spec":
            inv["type"] = "https://ocfl.io/1.0/spec/#inventory"
        elif shape == "bad id":
            inv["id"] = 3
        elif shape == "bad algorithm":
            inv["digestAlgorithm"] = "md4"
        elif shape == "bad content directory":
            inv["contentDirectory"] = "a/b"
        elif shape == "extra version":
            inv["versions"]["v3"] = inv["versions"]["v2"]
        else:
            inv["versions"]["v2"] = {"created": "2020-01-02T03:04:05Z", "state": inv["versions"]["v2"]["state"]}
        put_inventory(ctx, rel, inv, "sha512")
        put_inventory(ctx, rel + "/v2", inv, "sha512")


def reuse(ctx, k=2):
    """What a validator says about an object does not depend on the objects it saw before."""
    kw = {"check_digests": ctx.boolean("check digests"), "lax_digests": ctx.boolean("lax digests")}
    v = Validator(log_warnings=True, **kw)
    for i in range(k):
        shape = ctx.choice("shape%d" % i, REUSE)
        rel = "o%d" % i
        reuse_object(ctx, rel, shape)
        fresh = Validator(log_warnings=True, **kw)
        want = fresh.validate_object(ctx.path(rel))
        errors, warnings, shown = v.log.num_errors, v.log.num_warnings, len(v.log.messages)
        got = v.validate_object(ctx.path(rel))
        ctx.check(got == want, "same verdict by a validator that saw other objects", shape=shape)
        ctx.check(v.log.num_errors - errors == fresh.log.num_errors, "same number of errors", shape=shape)
        ctx.check(v.log.num_warnings - warnings == fresh.log.num_warnings, "same number of warnings", shape=shape)
        ctx.check(v.log.messages[shown:] == fresh.log.messages, "same messages", shape=shape)
        for name in ("id", "spec_version", "digest_algorithm", "content_directory"):
            ctx.check(getattr(v, name) == getattr(fresh, name), "same properties", shape=shape, name=name)


def no_digests(ctx):
    """Without digest checks nothing valid is refused, nothing but digest mismatches is accepted."""
    bad = spoil(ctx)
    got, v = verdict("obj", ctx)
    got2, v2 = verdict("obj", ctx, check_digests=False)
    ctx.check(got2 or not got, "no valid object is refused without digest checks")
    if bad not in ("content", "sidecar", "json1"):
        ctx.check(got2 == got, "everything but digests is still checked")
    if bad in ("content", "sidecar"):
        ctx.check(got2, "digests are not checked when asked not to")
    ctx.check(v2.log.num_errors <= v.log.num_errors, "no additional errors without digest checks")
    before = ctx.snapshot("obj")
    Object().tree(objdir=ctx.path("obj")) if got2 else None
    ctx.check(ctx.snapshot("obj") == before, "nothing is changed")


def listing(ctx):
    """The verdict does not depend on the order in which directories are listed."""
    bad = spoil(ctx)
    got, v = verdict("obj", ctx)
    ctx.listing_order(True)
    got2, v2 = verdict("obj", ctx)
    ctx.check(got == got2, "same verdict in every listing order")
    ctx.check(sorted(v.log.codes.keys()) == sorted(v2.log.codes.keys()), "same codes in every listing order")


# ------------------------------------------------------------------ C22
def total_bytes(ctx, hi=2):
    """Any bytes in any of the object's files: a verdict, never an exception."""
    shape = ctx.choice("shape", ("plain", "fixity", "extras"))
    inv, alg, vdirs, cd = sample(ctx, shape, symbolic=False)
    p = ctx.choice("file", [f for f in sorted(ctx.files("obj").keys()) if not is_content(f, vdirs, cd)])
    what = ctx.choice("what", ("text", "bytes", "json", "dir"))
    if what == "text":
        data = ctx.str("data", 0, hi, JSONCHARS if p.endswith("inventory.json") else None).encode("utf-8")
    elif what == "bytes":
        data = ctx.choice("raw", (b"\xff", b"\xff\xfe{\x00}\x00", b"\x80 inventory.json\n", b"{\"a\": \"\xed\xa0\x80\"}", b"\xef\xbb\xbf{}", b"\x00", b"NaN", b"1e999",
                                  b"{\"id\": \"\\ud800\"}", b"[" * 3, b"{\"a\":1,\"a\":2}", b"\"x\"", b"123", b"true", b"null", b"[]", b"{}"))
    else:
        data = None
    if what == "json":
        ctx.assume(p.endswith("inventory.json"))
        ctx.putjson("obj/" + p, ctx.choice("doc", (None, True, 1, "x", [], {}, ["a"], {"x": 1}, [[]], {"manifest": 1}, {"versions": {"v1": 1}},
                                                  {"id": "a", "versions": {"v1": {}}, "manifest": {}})))
        if ctx.boolean("signed"):
            d = p[:-len("inventory.json")]
            ctx.put("obj/" + d + "inventory.json." + alg, digest(alg, ctx.read("obj/" + p)) + " inventory.json\n")
    elif what == "dir":
        ctx.remove("obj/" + p)
        ctx.mkdir("obj/" + p)
    else:
        ctx.put("obj/" + p, data)
    for kw in ({}, {"check_digests": False}, {"lax_digests": True}):
        v = Validator(**kw)
        got = v.validate_object(ctx.path("obj"))
        ctx.check(got is True or got is False, "the verdict is a boolean")
        ctx.check(got == (v.log.num_errors == 0), "invalid exactly when an error is logged")
    use(ctx)


def use(ctx):
    """Other readers of the object: they work or raise the library's own exceptions."""
    Object().tree(objdir=ctx.path("obj"))
    passed, v = Object().validate_inventory(ctx.path("obj/inventory.json"))
    ctx.check(passed is True or passed is False, "the verdict is a boolean")


def total_json(ctx, where, muts=1, lax=(False,)):
    """Any structural change of an inventory, with matching sidecars: a verdict, never an exception."""
    inv = write_object(ctx, "obj", [{"a": b"x"}, {"a": b"x", "b": b"y"}], fixity=("md5",))
    if where == "prior":
        inv = ctx.readjson("obj/v1/inventory.json")
    for i in range(muts):
        inv = mutate(ctx, inv, str(i))
    if where == "prior":
        put_inventory(ctx, "obj/v1", inv, "sha512")
    else:
        put_inventory(ctx, "obj", inv, "sha512")
        put_inventory(ctx, "obj/v2", inv, "sha512")
    v = Validator(lax_digests=ctx.choice("lax", lax))
    got = v.validate_object(ctx.path("obj"))
    ctx.check(got is True or got is False, "the verdict is a boolean")
    ctx.check(got == (v.log.num_errors == 0), "invalid exactly when an error is logged")
    str(v)
    use(ctx)


def total_paths(ctx):
    """Paths that are not objects: a verdict, never an exception."""
    write_object(ctx, "obj", [{"a": b"x"}])
    ctx.mkdir("empty")
    ctx.put("file", b"x")
    p = ctx.choice("path", ("empty", "file", "missing", "obj/v1", "obj/v1/content", "obj/inventory.json", "missing/too", "file/x", "obj/", "obj/."))
    v = Validator()
    got = v.validate_object(ctx.path(p) if not p.endswith("/") and not p.endswith(".") else ctx.path("obj") + p[3:])
    ctx.check(got == (p in ("obj/", "obj/.")), "only the object is valid")
    ctx.check(got == (v.log.num_errors == 0), "invalid exactly when an error is logged")
    got2, v2 = Object().validate(objdir=ctx.path(p) if not p.endswith("/") and not p.endswith(".") else ctx.path("obj") + p[3:])
    ctx.check(got2 == got, "Object.validate agrees")


# ------------------------------------------------------------------ C25
def sidecar_text(ctx, where, lo=0, hi=2):
    """A sidecar is accepted exactly when it is the digest, spaces or tabs, and the name of the inventory."""
    alg = ctx.choice("alg", ("sha512", "sha256"))
    write_object(ctx, "obj", [{"a": b"x"}, {"a": b"y"}], alg=alg)
    rel = ctx.choice("dir", ("", "v1/", "v2/"))
    d = digest(alg, ctx.read("obj/" + rel + "inventory.json"))
    sep, name, tail, head = " ", "inventory.json", "\n", ""
    if where == "sep":
        sep = ctx.str("sep", lo, hi)
    elif where == "name":
        k = ctx.choice("k", (0, 5, 9, 10, 13, 14))
        name = name[:k] + ctx.str("c", 0, 1) + name[k + 1:]
        if ctx.boolean("extra"):
            name = name + ctx.str("d", 1)
    elif where == "head":
        head = ctx.str("head", 1, hi)
    elif where == "tail":
        tail = ctx.str("tail", 0, hi)
    elif where == "path":
        name = ctx.choice("name", ("v1/inventory.json", "./inventory.json", "inventory.json.sha512", "INVENTORY.JSON", "*inventory.json", "inventory", "/inventory.json", ""))
    ctx.put("obj/" + rel + "inventory.json." + alg, head + d + sep + name + tail)
    ok = head == "" and len(sep) > 0 and name == "inventory.json"
    for c in sep:
        if c != " " and c != "\t":
            ok = False
    if where == "tail":
        line = True
        for c in tail:
            if c == "\n" or c == "\r":
                break
            if c != " " and c != "\t":
                line = False
        ctx.assume(not (line and tail != "" and tail != "\n" and tail != "\r\n"))
        # other Unicode white space at the end of the line is left open
        ctx.assume(tail == "" or not tail.isspace() or tail == "\n" or tail == "\r\n")
        for c in tail:
            if c == "\n" or c == "\r" or c.isspace():
                ctx.assume(tail == "\n" or tail == "\r\n")
        ok = tail == "" or tail == "\n" or tail == "\r\n"
    if where == "name":
        for c in name:
            ctx.assume(not c.isspace())
    expect(ctx, ok, "sidecar")


def sidecar_digest(ctx):
    """A sidecar with any other digest is refused."""
    alg = ctx.choice("alg", ("sha512", "sha256"))
    write_object(ctx, "obj", [{"a": b"x"}, {"a": b"y"}], alg=alg)
    rel = ctx.choice("dir", ("", "v1/", "v2/"))
    other = "sha256" if alg == "sha512" else "sha512"
    what = ctx.choice("what", ("content", "otheralg", "version", "short", "long", "empty", "none", "renamed", "both", "missing"))
    inv = ctx.read("obj/" + rel + "inventory.json")
    good = digest(alg, inv)
    bad = {"content": digest(alg, b"x"), "otheralg": digest(other, inv),
           "version": digest(alg, ctx.read("obj/" + ("v1/" if rel != "v1/" else "") + "inventory.json")), "empty": "", "none": "none",
           "short": digest(alg, b"x")[:-1], "long": digest(alg, b"x") + "0"}
    f = "obj/" + rel + "inventory.json."
    if what in bad:
        ctx.put(f + alg, bad[what] + " inventory.json\n")
    elif what == "renamed":
        ctx.remove(f + alg)
        ctx.put(f + other, digest(other, inv) + " inventory.json\n")
    elif what == "both":
        ctx.put(f + other, digest(other, inv) + " inventory.json\n")
    else:
        ctx.remove(f + alg)
    expect(ctx, False, "sidecar (%s)" % what)


def sidecar_lax(ctx):
    """With lax digests any supported algorithm may address content, and its sidecars are checked."""
    alg = ctx.choice("alg", ("md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512"))
    write_object(ctx, "obj", [{"a": ctx.sel("a", [b"x", b"y"])}, {"a": b"x"}], alg=alg)
    bad = ctx.choice("bad", ("", "sidecar", "content", "v1"))
    if bad == "sidecar":
        ctx.put("obj/inventory.json." + alg, digest(alg, b"q") + " inventory.json\n")
    elif bad == "v1":
        ctx.put("obj/v1/inventory.json." + alg, digest(alg, b"q") + " inventory.json\n")
    elif bad == "content":
        ctx.put("obj/v1/content/a", b"q")
    v = Validator(lax_digests=True)
    got = v.validate_object(ctx.path("obj"))
    ctx.check(got == (bad == ""), "lax validation", log=str(v))
    strict, _ = verdict("obj", ctx)
    ctx.check(strict == (bad == "" and alg in ("sha512", "sha256")), "strict validation")
