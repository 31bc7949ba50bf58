"""History immutability (C15), crash safety (C16) and I/O faults (C28)."""
from ocfl.object import Object
from ocfl.object_utils import ObjectException
from ocfl.version_metadata import VersionMetadata
from harness.lib import (digest, MD, check_object, check_sidecar, put_tree, write_object, put_inventory)
from harness.h_object import tree, meta, vm, validates, make, params
from ocfl.storage_root import StorageRoot


def vname(i, width):
    return "v%0*d" % (width, i) if width else "v%d" % i


# ------------------------------------------------------------------ C15 history
def norm_block(block):
    out = dict(block)
    out["state"] = {}
    for d in block["state"]:
        out["state"][d.lower()] = sorted(block["state"][d])
    return out


def history(ctx, n, width=0, upper=(), extras=False, how=("content", "edit", "metadata"), algs=None, cd=None, spec=None):
    """Adding a version leaves every existing file (but the root inventory and its sidecar) as it was, keeps
    the blocks of all earlier versions, and continues the version numbering."""
    spec = ctx.choice("spec", ("1.0", "1.1")) if spec is None else spec
    alg, new = ctx.choice("algs", algs) if algs else ("sha512", "sha512")
    versions = []
    for i in range(n):
        f = {}
        if i < 2 or i == n - 1:
            f["a"] = ctx.sel("a%d" % i, [b"x", b"y"])
        if i % 2 == 1:
            f["d/b"] = b"z"
        versions.append(f)
    inv = write_object(ctx, "obj", versions, alg=alg, width=width, upper=upper, cd=cd, spec=spec, versions_inv=not ctx.boolean("noinv"))
    if extras:
        ctx.put("obj/logs/log.txt", b"log")
        ctx.put("obj/extensions/0001-digest-algorithms/x", b"ext")
    before = ctx.files("obj")
    outside = ctx.snapshot_outside()
    v2 = {"a": ctx.sel("new", [b"x", b"n"])}
    put_tree(ctx, "src", v2)
    kind = ctx.choice("how", how)
    ob = Object(digest_algorithm=new)
    last = versions[-1]
    if kind == "content":
        ob.add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
        want = v2
    elif kind == "metadata":
        ob.add_version_with_content(objdir=ctx.path("obj"), metadata=vm(MD))
        want = dict(last)
    else:
        nv = ob.start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD), digest_algorithm=new)
        want = dict(last)
        if "d/b" in want:
            nv.delete("d/b")
            del want["d/b"]
        if "a" in want:
            nv.rename("a", "r")
            want["r"] = want.pop("a")
        nv.add("a", "a")
        want["a"] = v2["a"]
        ob.write_new_version(nv)
    after = ctx.files("obj")
    for p in before:
        if p not in ("inventory.json", "inventory.json." + alg):
            ctx.check(p in after, "no existing file disappears")
            ctx.check(after[p] == before[p], "existing files keep their bytes")
    head = vname(n + 1, width)
    for p in after:
        ctx.check(p in before or p.startswith(head + "/") or p == "inventory.json." + new, "new files only in the new version directory")
    ctx.check(ctx.snapshot_outside() == outside, "nothing outside the object is touched")
    got = ctx.readjson("obj/inventory.json")
    ctx.check(got["head"] == head, "the next version number in the same style")
    ctx.check(got["id"] == inv["id"], "the identifier is kept")
    ctx.check(got["type"] == inv["type"], "the specification version is kept")
    ctx.check(len(got["versions"]) == n + 1, "one version is added")
    for v in inv["versions"]:
        old, now = inv["versions"][v], got["versions"][v]
        for k in ("created", "message", "user"):
            ctx.check(now[k] == old[k], "metadata of earlier versions is kept")
        if new == alg:
            ctx.check(norm_block(now)["state"] == norm_block(old)["state"], "state of earlier versions is kept")
    oldmap = {}
    for d in inv["manifest"]:
        for p in inv["manifest"][d]:
            oldmap[p] = d.lower()
    for d in got["manifest"]:
        for p in got["manifest"][d]:
            if p in oldmap:
                ctx.check(d == digest(new, ctx.read("obj/" + p)), "manifest digests of earlier content")
                del oldmap[p]
    ctx.check(len(oldmap) == 0, "all earlier content stays in the manifest")
    for i in range(n):
        v = vname(i + 1, width)
        st = got["versions"][v]["state"]
        seen = 0
        for d in st:
            for p in st[d]:
                ctx.check(p in versions[i], "logical paths of earlier versions")
                ctx.check(d == digest(new, versions[i][p]), "content of earlier versions")
                seen += 1
        ctx.check(seen == len(versions[i]), "logical files of earlier versions")
    ctx.check({p: d for d in got["versions"][head]["state"] for p in got["versions"][head]["state"][d]}
              == {p: digest(new, want[p]) for p in want}, "the new version is as asked")
    validates(ctx, "obj")


def overflow(ctx, width):
    """A zero padded object at its highest possible version number refuses another one unchanged."""
    n = 9 if width == 2 else 99
    versions = [{"a": b"x"}] + [{} for i in range(n - 1)]
    write_object(ctx, "obj", versions, width=width)
    put_tree(ctx, "src", {"a": ctx.sel("new", [b"x", b"y"])})
    before = ctx.snapshot("obj")
    raised = False
    try:
        if ctx.boolean("edit"):
            ob = Object()
            nv = ob.start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"))
            ob.write_new_version(nv)
        else:
            Object().add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
    except ObjectException:
        raised = True
    ctx.check(raised, "refused")
    ctx.check(ctx.snapshot("obj") == before, "the object is unchanged")


def read_only(ctx, n=2):
    """Operations that only read leave every file as it was."""
    versions = [tree(ctx, "v%d" % (i + 1), ["a", "d/b"], contents=[b"x", b"y"]) for i in range(n)]
    write_object(ctx, "root/o1", versions, alg=ctx.choice("alg", ("sha512", "sha256")), oid="o1")
    ctx.put("root/0=ocfl_1.1", "ocfl_1.1\n")
    ctx.put("src/a", b"n")
    broken = ctx.choice("broken", ("", "content", "inventory", "extra"))
    if broken == "content":
        ctx.put("root/o1/v1/content/zz", b"q")
    elif broken == "inventory":
        ctx.put("root/o1/inventory.json", b"{")
    elif broken == "extra":
        ctx.put("root/o1/extra", b"q")
    before = ctx.snapshot("")
    op = ctx.choice("op", ("validate", "validate_inventory", "tree", "parse", "id", "start", "list", "vroot"))
    ob = Object()
    try:
        if op == "validate":
            ob.validate(objdir=ctx.path("root/o1"))
        elif op == "validate_inventory":
            ob.validate_inventory(ctx.path("root/o1/inventory.json"))
        elif op == "tree":
            ob.tree(objdir=ctx.path("root/o1"))
        elif op == "parse":
            Object(path=ctx.path("root/o1")).parse_inventory()
        elif op == "id":
            Object(path=ctx.path("root/o1")).id_from_inventory()
        elif op == "start":
            nv = ob.start_new_version(objdir=ctx.path("root/o1"), srcdir=ctx.path("src"))
            nv.add("a", "new")
        elif op == "list":
            for x in StorageRoot(root=ctx.path("root")).list_objects():
                pass
        else:
            StorageRoot(root=ctx.path("root")).validate()
    except Exception:  # noqa
        ctx.check(broken != "", "reading a valid object does not raise")
    ctx.check(ctx.snapshot("") == before, "nothing is changed")


# ------------------------------------------------------------------ C16 / C28 crashes and I/O errors
def version_complete(ctx, rel, v, alg):
    """The version directory v holds a complete inventory, its sidecar, and all content it adds."""
    ctx.check(ctx.isfile(rel + "/" + v + "/inventory.json"), "version inventory is written before the root inventory")
    check_sidecar(ctx, rel + "/" + v, alg, v)
    vi = ctx.readjson(rel + "/" + v + "/inventory.json")
    for d in vi["manifest"]:
        for p in vi["manifest"][d]:
            ctx.check(ctx.isfile(rel + "/" + p), "content is written before the root inventory")
            ctx.check(d == digest(alg, ctx.read(rel + "/" + p)), "content is complete before the root inventory is written")


def update_fault(ctx, kind, n=1, algs=(("sha512", "sha512"),), how=("content", "edit")):
    """An update stopped at any file-system step leaves the earlier versions and the root inventory usable."""
    alg, new = ctx.choice("algs", list(algs))
    versions = [{"a": ctx.sel("c%d" % i, [b"x", b"y"])} for i in range(n)]
    inv = write_object(ctx, "obj", versions, alg=alg)
    want = {"a": ctx.sel("n0", [b"x", b"p"]), "d/b": ctx.sel("n1", [b"x", b"p", b"q"])}
    put_tree(ctx, "src", want)
    before = ctx.files("obj")
    src = ctx.files("src")
    mode = ctx.choice("how", list(how))

    def op():
        ob = Object(digest_algorithm=new)
        if mode == "content":
            ob.add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
        else:
            nv = ob.start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD), digest_algorithm=new)
            nv.delete("a")
            nv.add_from_srcdir()
            ob.write_new_version(nv)
    r = ctx.run_with_fault(op, kind, 60)
    if r == "done":
        ctx.check(not ctx.fault_hit, "a failed write is reported")
        check_object(ctx, "obj", versions + [want], alg=new, algs=[alg] * n + [new])
        return
    after = ctx.files("obj")
    for p in before:
        if p not in ("inventory.json", "inventory.json." + alg):
            ctx.check(p in after, "no file of an earlier version disappears")
            ctx.check(after[p] == before[p], "files of earlier versions keep their bytes")
    head = "v%d" % (n + 1)
    untouched = True
    for p in ("inventory.json", "inventory.json." + alg):
        if p not in after or after[p] != before[p]:
            untouched = False
    for p in after:
        ctx.check(p in before or p.startswith(head + "/") or p == "inventory.json." + new, "nothing is written elsewhere")
    if not untouched:
        version_complete(ctx, "obj", head, new)
    ctx.check(ctx.files("src") == src, "the source is unchanged")
    passed, _ = Object().validate(objdir=ctx.path("obj"))
    if passed:
        ctx.reach("the interrupted object is valid")
        if untouched:
            check_object(ctx, "obj", versions, alg=alg)
        else:
            check_object(ctx, "obj", versions + [want], alg=new, algs=[alg] * n + [new])
    else:
        ctx.reach("the interrupted object is invalid")


def create_fault(ctx, kind, how):
    """An interrupted creation never leaves an object that passes validation but is incomplete."""
    n = 2 if how == "build" else 1
    versions = [{"a": ctx.sel("c%d" % i, [b"x", b"y"]), "d/b": ctx.sel("d%d" % i, [b"x", b"z"])} for i in range(n)]
    for i in range(n):
        put_tree(ctx, "src/v%d" % (i + 1), versions[i])
    src = ctx.files("src")

    def op():
        ob = Object(identifier="info:a")
        if how == "build":
            ob.build(srcdir=ctx.path("src"), objdir=ctx.path("obj"))
        else:
            ob.create(srcdir=ctx.path("src/v1"), objdir=ctx.path("obj"), metadata=vm(MD))
    r = ctx.run_with_fault(op, kind, 60)
    ctx.check(ctx.files("src") == src, "the source is unchanged")
    if r == "done":
        ctx.check(not ctx.fault_hit, "a failed write is reported")
        check_object(ctx, "obj", versions, oid="info:a")
        return
    if not ctx.exists("obj"):
        return
    passed, _ = Object().validate(objdir=ctx.path("obj"))
    if passed:
        ctx.reach("the interrupted object is valid")
        check_object(ctx, "obj", versions, oid="info:a")
    else:
        ctx.reach("the interrupted object is invalid")


def extract_fault(ctx, kind):
    """An extraction with a failing write reports it, and never touches the object."""
    files = {"a": ctx.sel("a", [b"x", b"y"]), "d/b": b"x"}
    write_object(ctx, "obj", [files])
    before = ctx.snapshot("obj")
    ctx.mkdir("out")
    single = ctx.boolean("single")

    def op():
        if single:
            Object().extract_file(objdir=ctx.path("obj"), version="v1", dstdir=ctx.path("out/dst"), logical_path="d/b")
        else:
            Object().extract(objdir=ctx.path("obj"), version="v1", dstdir=ctx.path("out/dst"))
    r = ctx.run_with_fault(op, kind, 30)
    ctx.check(ctx.snapshot("obj") == before, "the object is unchanged")
    if r == "done":
        ctx.check(not ctx.fault_hit, "a failed write is reported")
        want = {"b": b"x"} if single else files
        ctx.check(ctx.files("out/dst") == want, "a completed extraction is complete")


def root_fault(ctx, kind):
    """Initialising a storage root or adding an object to it with a failing write reports the failure."""
    v1 = {"a": ctx.sel("a", [b"x", b"y"]), "d/b": b"x"}
    write_object(ctx, "in/obj", [v1], oid="o1")
    write_object(ctx, "root/old", [v1], oid="old")
    ctx.put("root/0=ocfl_1.1", "ocfl_1.1\n")
    ctx.putjson("root/ocfl_layout.json", {"extension": "0002-flat-direct-storage-layout", "description": "d"})
    src = ctx.snapshot("in")
    before = ctx.files("root")
    what = ctx.choice("what", ("init", "add"))

    def op():
        if what == "init":
            StorageRoot(root=ctx.path("new"), layout_name="0002-flat-direct-storage-layout").initialize()
        else:
            StorageRoot(root=ctx.path("root")).add(object_path=ctx.path("in/obj"))
    r = ctx.run_with_fault(op, kind, 40)
    ctx.check(ctx.snapshot("in") == src, "the source object is unchanged")
    after = ctx.files("root")
    for p in before:
        ctx.check(p in after and after[p] == before[p], "existing objects are unchanged")
    for p in after:
        ctx.check(p in before or p.startswith("o1/"), "only the new object is written")
    if r == "done":
        ctx.check(not ctx.fault_hit, "a failed write is reported")
        if what == "add":
            ctx.check(ctx.files("root/o1") == ctx.files("in/obj"), "a completed addition is complete")
        else:
            ctx.check(ctx.read("new/0=ocfl_1.1") == b"ocfl_1.1\n", "declaration")
            ctx.check(ctx.readjson("new/ocfl_layout.json")["extension"] == "0002-flat-direct-storage-layout", "layout")
    elif what == "add" and ctx.exists("root/o1"):
        passed, _ = Object().validate(objdir=ctx.path("root/o1"))
        if passed:
            ctx.check(ctx.files("root/o1") == ctx.files("in/obj"), "a partly added object does not validate")
