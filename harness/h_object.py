"""Harnesses: object life cycle (C13-C17, C25, C28, C29)."""
import hashlib
import ocfl
from ocfl import Object, ObjectException, VersionMetadata, NewVersion, NewVersionException
from ocfl.storage_root import StorageRoot
from harness.lib import put_inventory, check_object, check_metadata, put_tree, write_object, digest, state_of, MD

CONTENTS = [b"x", b"y", b""]


def meta(ctx, i, free):
    """Version metadata: full, or with each field optional when free."""
    md = dict(MD)
    md["message"] = "version %d" % i
    if free:
        for k in ("created", "message", "name", "address"):
            if ctx.boolean("no_%s%d" % (k, i)):
                md[k] = None
        if md["name"] is None and md["address"] is not None:
            ctx.reach("address without name")
    return md


def vm(md):
    if all(md[k] is None for k in ("created", "message", "name", "address")):
        return None   # no metadata at all
    return VersionMetadata(created=md["created"], message=md["message"], name=md["name"], address=md["address"])


def tree(ctx, tag, names, contents=CONTENTS, optional=True):
    """A set of files with given names, each present or not, with symbolic contents."""
    files = {}
    for i, nm in enumerate(names):
        if optional and ctx.boolean("has_%s_%d" % (tag, i)):
            continue
        files[nm] = ctx.sel("c_%s_%d" % (tag, i), contents)
    return files


def validates(ctx, rel, what="the written object", known=()):
    passed, v = Object().validate(objdir=ctx.path(rel))
    ctx.check(passed, what + " passes validation", known=known, log=str(v.log.codes))
    ctx.check(v.log.num_errors == 0, what + " has no errors")


def make(ctx, how, versions, kw, mds):
    """Write an object with these versions using create+update or build."""
    n = len(versions)
    if how == "build":
        for i in range(n):
            put_tree(ctx, "src/v%d" % (i + 1), versions[i])
        ob = Object(identifier="info:a", **kw)
        inv = ob.build(srcdir=ctx.path("src"), versions_metadata={i + 1: vm(mds[i]) for i in range(n) if vm(mds[i]) is not None}, objdir=ctx.path("obj"))
    else:
        for i in range(n):
            put_tree(ctx, "src%d" % i, versions[i])
        ob = Object(identifier="info:a", **kw)
        inv = ob.create(srcdir=ctx.path("src0"), metadata=vm(mds[0]), objdir=ctx.path("obj"))
        for i in range(1, n):
            ob = Object(identifier="info:a", **kw) if how == "update" else ob
            inv = ob.add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src%d" % i), metadata=vm(mds[i]))
    return inv


def params(ctx, free, **over):
    kw = dict(spec_version="1.1", digest_algorithm="sha512", content_directory="content", content_path_normalization="uri",
              forward_delta=True, dedupe=True)
    if "spec" in free:
        kw["spec_version"] = ctx.choice("spec", ("1.0", "1.1"))
    if "alg" in free:
        kw["digest_algorithm"] = ctx.choice("alg", ("sha512", "sha256"))
    if "cd" in free:
        kw["content_directory"] = ctx.choice("cd", ("content", "stuff", "v1"))
    if "norm" in free:
        kw["content_path_normalization"] = ctx.choice("norm", ("uri", "md5", None))
    if "delta" in free:
        kw["forward_delta"] = ctx.boolean("forward_delta")
    if "dedupe" in free:
        kw["dedupe"] = ctx.boolean("dedupe")
    if "fixity" in free:
        kw["fixity"] = ctx.choice("fixity", (None, ["md5"], ["sha256", "blake2b-160"]))
    kw.update(over)
    return kw


def write_valid(ctx, how, n, names, free, metafree=False, optional=True, alphabet=None, norm="uri", small=False):
    """create / build / update write valid objects that record exactly what was given."""
    kw = params(ctx, free)
    if "norm" not in free:
        kw["content_path_normalization"] = norm
    ctx.listing_order(ctx.boolean("rev"))
    if alphabet is not None:
        names = [nm + ctx.str("name%d" % i, 1, 1, alphabet) for i, nm in enumerate(names)]
        if len(names) > 1 and names[1][0] == ".":
            ctx.assume(ctx.no(ctx.eq(names[1], "..")))
    contents = [b"x", b"y"] if small else CONTENTS
    versions = [tree(ctx, "v%d" % (i + 1), names, optional=optional, contents=contents) for i in range(n)]
    mds = [meta(ctx, i + 1, metafree) for i in range(n)]
    if any(md["name"] is None and md["address"] is not None for md in mds):
        try:
            make(ctx, how, versions, kw, mds)
            ctx.fail("a user address without a name, which OCFL does not allow, is refused")
        except ObjectException:
            pass
        return
    inv = make(ctx, how, versions, kw, mds)
    disk = check_object(ctx, "obj", versions, oid="info:a", alg=kw["digest_algorithm"], spec=kw["spec_version"],
                        cd=kw["content_directory"], metadata=mds)
    ctx.check(inv.data == disk, "the returned inventory is the one written")
    validates(ctx, "obj")
    copies(ctx, disk, versions, kw)
    fixity_complete(ctx, disk, kw.get("fixity") or ())


def mapped(norm, name):
    """Content path documented for a source path: percent-encoded as a URI path with any leading period too,
    the first half of its MD5 digest, or unchanged."""
    if norm == "md5":
        return hashlib.md5(name.encode("utf-8")).hexdigest()[:16]
    if norm == "uri":
        keep = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/"
        enc = "".join(c if c in keep else "".join("%%%02X" % b for b in c.encode("utf-8")) for c in name)
        return "%2E" + enc[1:] if enc.startswith(".") else enc
    return name


def normalization(ctx, stems, alphabet):
    """Content paths follow the normalisation asked for, whatever the name of the source file."""
    norm = ctx.choice("norm", ("uri", "md5", None))
    stem = ctx.choice("stem", stems)
    name = stem[0] + ctx.str("c", 1, 1, alphabet) + stem[1]
    files = {name: b"x"}
    if ctx.boolean("other"):
        files["zz/.q%"] = b"y"
    put_tree(ctx, "src", files)
    inv = Object(identifier="info:a", content_path_normalization=norm).create(srcdir=ctx.path("src"), metadata=vm(MD), objdir=ctx.path("obj"))
    for p in files:
        want = "v1/content/" + ctx.native(mapped, norm, p)
        ctx.check(inv.data["manifest"][digest("sha512", files[p])] == [want], "the content path follows the normalisation", norm=norm)
        ctx.check(ctx.read("obj/" + want) == files[p], "the content is stored there")
        ctx.check(state_of(inv.data, "v1")[p] == digest("sha512", files[p]), "the logical path is the name of the file")


def copies(ctx, inv, versions, kw):
    """How many copies of each content the dedupe and forward delta settings ask for."""
    alg = kw["digest_algorithm"]
    for d in inv["manifest"]:
        paths = inv["manifest"][d]
        earlier = False
        want = 0
        for i, files in enumerate(versions):
            here = len([p for p in files if digest(alg, files[p]) == d])
            got = len([p for p in paths if p.startswith("v%d/" % (i + 1))])
            if here == 0:
                exp = 0
            elif earlier and kw["forward_delta"]:
                exp = 0
            elif kw["dedupe"]:
                exp = 1
            else:
                exp = here
            ctx.check(got == exp, "number of stored copies follows the dedupe and forward delta settings")
            earlier = earlier or here > 0


# ------------------------------------------------------------------ C12 editing a new version
def edits(ctx, k, base, dedupe=True, alg=None, first=False, contents=(b"x", b"y"), fixity=None, pre=()):
    """A sequence of k add / delete / rename operations behaves like the same operations on a
    dictionary of logical paths, and the version written records exactly that dictionary."""
    contents = [c.encode("utf-8") if isinstance(c, str) else c for c in contents]
    srcs = {"s1": ctx.sel("s1", contents), "d/s2": ctx.sel("s2", contents)}
    put_tree(ctx, "src", srcs)
    if first:
        versions = []
        ob = Object(identifier="info:a", dedupe=dedupe)
        nv = NewVersion.first_version(srcdir=ctx.path("src"), identifier="info:a", dedupe=dedupe, fixity=fixity)
        model = {}
        ob.open_obj_fs(ctx.path("obj"), create=True)
        ob.write_object_declaration()
        a = "sha512"
    else:
        files = {}
        for i, nm in enumerate(base):
            files[nm] = ctx.sel("b%d" % i, contents)
        versions = [files]
        write_object(ctx, "obj", versions, alg=alg or "sha512", fixity=fixity)
        ob = Object(dedupe=dedupe)
        carry = ctx.boolean("carry")
        nv = ob.start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"), carry_content_forward=carry)
        model = dict(files) if carry else {}
        a = alg or "sha512"
    pool = ["p", "q"][:2 if len(base) < 2 else 1] + list(base)
    for p in pre:
        nv.add("s1", p)
        model[p] = srcs["s1"]
    for i in range(k):
        op = ctx.choice("op%d" % i, ("add", "delete", "rename", "stop"))
        if op == "stop":
            break
        raised = False
        if op == "add":
            src = ctx.choice("src%d" % i, ("s1", "d/s2")[:len(contents) + (k < 3)])
            lp = ctx.choice("lp%d" % i, pool)
            bad = lp in model
            try:
                nv.add(src, lp)
            except NewVersionException:
                raised = True
            if not bad:
                model[lp] = srcs[src]
        elif op == "delete":
            lp = ctx.choice("lp%d" % i, pool)
            bad = lp not in model
            try:
                nv.delete(lp)
            except NewVersionException:
                raised = True
            if not bad:
                del model[lp]
        else:
            lp = ctx.choice("lp%d" % i, pool)
            new = ctx.choice("new%d" % i, pool)
            bad = lp not in model or new in model
            try:
                nv.rename(lp, new)
            except NewVersionException:
                raised = True
            if not bad:
                model[new] = model[lp]
                del model[lp]
        ctx.check(raised == bad, "refused exactly when the paths do not allow it")
        got = nv.inventory.current_version.logical_paths
        ctx.check(sorted(got) == sorted(model.keys()), "logical paths after each operation")
    nv.created = MD["created"]
    nv.message = MD["message"]
    nv.user_name = MD["name"]
    nv.user_address = MD["address"]
    versions.append(model)
    ob.write_new_version(nv)
    disk = check_object(ctx, "obj", versions, oid="info:a", alg=a, metadata=[None] * (len(versions) - 1) + [MD])
    validates(ctx, "obj")
    fixity_complete(ctx, disk, fixity or ())


def fixity_complete(ctx, disk, want):
    """The fixity block has the given types, each with the digest of every content file."""
    fix = disk.get("fixity", {})
    ctx.check(sorted(fix.keys()) == sorted(want), "the fixity types are those asked for")
    for a in fix:
        n = 0
        for d in fix[a]:
            for p in fix[a][d]:
                ctx.check(d.lower() == digest(a, ctx.read("obj/" + p)), "fixity digests are those of the files")
                n += 1
        ctx.check(n == len(inv_paths(disk)), "fixity is recorded for every file")


def edit_paths(ctx, where, lo, hi, alphabet):
    """Any logical or content path is either refused with NewVersionException, or the object stays valid
    and nothing is written outside it."""
    put_tree(ctx, "src", {"s": b"new", "t": b"other"})
    versions = [{"a": b"x", "d/b": b"y", "d/bb/c": b"x"}]
    write_object(ctx, "obj", versions)
    outside = ctx.snapshot_outside()
    ob = Object()
    nv = ob.start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"))
    nv.created, nv.message, nv.user_name, nv.user_address = MD["created"], MD["message"], MD["name"], MD["address"]
    model = dict(versions[0])
    p = ctx.str("path", lo, hi, alphabet)
    try:
        if where == "logical":
            nv.add("s", p)
            model[p] = b"new"
        elif where == "content":
            cp = ctx.choice("pre", ("", "v2/content/", "v1/content/", "v2/", "v2/content", "v2/contents/", "v2/Content/", "v2/content.")) + p
            nv.add("s", "new", content_path=cp)
            ctx.check(cp[:11] == "v2/content/", "content is accepted only under the content directory of the new version")
            model["new"] = b"new"
        elif where == "content2":
            nv.add("t", "t", content_path="v2/content/a/b")
            model["t"] = b"other"
            nv.add("s", "new", content_path="v2/content/" + p)
            model["new"] = b"new"
        elif where == "src":
            try:
                nv.add(p, "new")
            except (OSError, IndexError, ValueError):
                ctx.reach("no such source file")
                return
            model["new"] = b"new" if ctx.native(only_name, p) == "s" else b"other"
        else:
            old = ctx.choice("old", ("d/b", "a"))
            nv.rename(old, p)
            model[p] = model[old]
            del model[old]
    except NewVersionException:
        ctx.reach("refused")
        if where in ("logical", "rename"):
            others = [x for x in ("a", "d/b", "d/bb/c") if where == "logical" or x != old]
            # Renaming a path to itself is neither required nor forbidden
            ctx.check(ctx.any([ctx.no(usable(ctx, p, others)), where == "rename" and ctx.eq(p, old)]), "only a path with bad elements or that conflicts with another is refused")
        elif where == "src":
            ctx.check(ctx.all([ctx.no(ctx.eq(p, x)) for x in ("s", "t")]), "a source file that exists can be added")
        return
    ctx.reach("accepted")
    ob.write_new_version(nv)
    ctx.check(ctx.snapshot_outside() == outside, "nothing outside is touched")
    ctx.check(sorted(ctx.listdir("")) == ["obj", "src"], "nothing beside the object is touched")
    check_object(ctx, "obj", versions + [model])
    validates(ctx, "obj")


def only_name(p):
    return p.rsplit("/", 1)[-1]


def usable(ctx, p, others):
    """No empty, . or .. path elements, and not used as file or directory by any of the others."""
    n = len(p)
    bad = [n == 0]
    for size, name in ((0, ""), (1, "."), (2, "..")):
        for i in range(n - size + 1):
            j = i + size
            edge = [ctx.eq(p[i:j], name)]
            if i > 0:
                edge.append(ctx.eq(p[i - 1], "/"))
            if j < n:
                edge.append(ctx.eq(p[j], "/"))
            bad.append(ctx.all(edge))
    for x in others:
        bad.append(ctx.eq(p, x))
        if n > len(x):
            bad.append(ctx.eq(p[:len(x) + 1], x + "/"))
        elif n < len(x):
            bad.append(ctx.eq(p + "/", x[:n + 1]))
    return ctx.all([ctx.no(x) for x in bad])


# ------------------------------------------------------------------ C14 extraction
def same_files(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + ": exactly the files of the version")
    for p in want:
        ctx.check(p in got, what + ": every logical path")
        ctx.check(got[p] == want[p], what + ": the stored bytes")


def extract(ctx, n, names, how="hand", upper=(), alphabet=None, free=(), alg="sha512", cd=None, width=0, optional=True):
    """Extracting any version gives back exactly that version's files and metadata."""
    ctx.listing_order(ctx.boolean("rev"))
    if alphabet is not None:
        names = [nm + ctx.str("name%d" % i, 1, 1, alphabet) for i, nm in enumerate(names)]
    versions = [tree(ctx, "v%d" % (i + 1), names, optional=optional, contents=CONTENTS if optional else CONTENTS[:2]) for i in range(n)]
    if how == "hand":
        inv = write_object(ctx, "obj", versions, upper=upper, alg=alg, cd=cd, width=width)
        mds = [{"created": inv["versions"][v]["created"], "message": inv["versions"][v]["message"], "name": "N",
                "address": "mailto:n@example.org"} for v in inv["versions"]]
    else:
        mds = [meta(ctx, i + 1, False) for i in range(n)]
        make(ctx, how, versions, params(ctx, free), mds)
    before = ctx.snapshot("obj")
    which = ctx.choice("which", list(range(n)) + [None])
    i = n - 1 if which is None else which
    vdir = "v%0*d" % (width, i + 1) if width else "v%d" % (i + 1)
    dst = ctx.choice("dst", ("new", "empty"))
    ctx.mkdir("out")
    if dst == "empty":
        ctx.mkdir("out/dst")
    m = Object().extract(objdir=ctx.path("obj"), version="head" if which is None else vdir, dstdir=ctx.path("out/dst"))
    same_files(ctx, ctx.files("out/dst"), versions[i], "extracted")
    ctx.check(ctx.listdir("out") == ["dst"], "nothing beside the destination")
    ctx.check(ctx.snapshot("obj") == before, "the object is unchanged")
    ctx.check(m.id == "info:a", "extracted metadata: id")
    for k in ("created", "message", "name", "address"):
        ctx.check(getattr(m, k) == mds[i][k], "extracted metadata: " + k)


def many_versions(ctx, ns=(9, 10, 11, 12), widths=(0, 4)):
    """Every version of an object with many versions gives back its own files, whichever version they were added in."""
    n, width = ctx.choice("n", ns), ctx.choice("width", widths)
    versions = []
    for i in range(n):
        f = {"always": b"x", "only%d" % (i + 1): ctx.sel("c%d" % (i + 1), [b"y", b"z"]) if i in (1, n - 1) else b"c%d" % i}
        if i > 0:
            f["d/prior"] = versions[i - 1]["only%d" % i]
        if i > 7:
            f["late"] = b"late"
        versions.append(f)
    inv = write_object(ctx, "obj", versions, width=width)
    i = ctx.choice("which", range(n))
    head = i == n - 1 and ctx.boolean("head")
    vdir = "v%0*d" % (width, i + 1) if width else "v%d" % (i + 1)
    ctx.mkdir("out")
    m = Object().extract(objdir=ctx.path("obj"), version="head" if head else vdir, dstdir=ctx.path("out/dst"))
    same_files(ctx, ctx.files("out/dst"), versions[i], "extracted")
    ctx.check(m.message == "version %d" % (i + 1) and m.version == vdir, "metadata of the version")
    ctx.check(m.created == inv["versions"][vdir]["created"], "metadata of the version")
    Object().extract_file(objdir=ctx.path("obj"), version=vdir, dstdir=ctx.path("out/one"), logical_path="only%d" % (i + 1))
    ctx.check(ctx.files("out/one") == {"only%d" % (i + 1): versions[i]["only%d" % (i + 1)]}, "a single file of the version")
    if i + 1 < n:
        raised = False
        try:
            Object().extract_file(objdir=ctx.path("obj"), version=vdir, dstdir=ctx.path("out/two"), logical_path="only%d" % n)
        except ObjectException:
            raised = True
        ctx.check(raised, "a file of another version only is refused")


LAX = ("sha512", "sha256", "md5", "sha1", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512", "xyz")


def lax(ctx, algs=LAX):
    """Objects with digests beyond those of the specification can be used with lax_digests, and only then."""
    alg = ctx.choice("alg", algs)
    fix = ctx.choice("fixity", (None, "md5", "xyz"))
    known = alg in ("sha512", "sha256", "md5", "sha1", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512")
    strict = alg in ("sha512", "sha256")
    v1 = {"a": ctx.sel("a", [b"x", b"y"]), "b": b"x"}
    inv = write_object(ctx, "obj", [v1], alg=alg if known else "md5")
    if not known:
        inv["digestAlgorithm"] = alg
    if fix == "md5":
        inv["fixity"] = {"md5": {digest("md5", v1["a"]): ["v1/content/a"]}}
    elif fix == "xyz":
        inv["fixity"] = {"xyz": {"00": ["v1/content/a"]}}
    for d in ("obj", "obj/v1"):
        ctx.putjson(d + "/inventory.json", inv)
        for s in [x for x in ctx.listdir(d) if x.startswith("inventory.json.")]:
            ctx.remove(d + "/" + s)
        ctx.put(d + "/inventory.json." + alg, (digest(alg, ctx.read(d + "/inventory.json")) if known else "00") + " inventory.json\n")
    put_tree(ctx, "src", {"a": b"n", "c": b"x"})
    ctx.mkdir("out")
    before = ctx.snapshot("obj")
    relaxed = ctx.boolean("lax_digests")
    fits = relaxed or strict and fix != "xyz"
    op = ctx.choice("op", ("extract", "extract_file", "id", "update", "update to sha512", "validate", "list"))
    ob = Object(lax_digests=relaxed)
    try:
        if op == "extract":
            ob.extract(objdir=ctx.path("obj"), version="head", dstdir=ctx.path("out/dst"))
        elif op == "extract_file":
            ob.extract_file(objdir=ctx.path("obj"), version="v1", dstdir=ctx.path("out/dst"), logical_path="a")
        elif op == "id":
            got = Object(path=ctx.path("obj"), lax_digests=relaxed).id_from_inventory()
            ctx.check(got == ("info:a" if fits else "UNKNOWN-ID"), "identifier of an object with other digests")
            return
        elif op == "list":
            ctx.put("r/0=ocfl_1.1", "ocfl_1.1\n")
            for p, data in ctx.files("obj").items():
                ctx.put("r/o/" + p, data)
            got = list(StorageRoot(root=ctx.path("r"), lax_digests=relaxed).list_objects())
            ctx.check(len(got) == 1 and got[0][1] == ("info:a" if fits else "UNKNOWN-ID"), "identifier of an object with other digests")
            return
        elif op == "validate":
            passed, _ = ob.validate(objdir=ctx.path("obj"), check_digests=False)
            ctx.check(passed == fits, "validation of an object with other digests")
            return
        elif op == "update":
            Object(lax_digests=relaxed, digest_algorithm=None).add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
        else:
            Object(lax_digests=relaxed, digest_algorithm="sha512").add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
    except (ObjectException, NewVersionException) as e:
        ctx.check(not fits or op == "update" and not known, "refused only with a digest that is not allowed", exc=str(e))
        ctx.check(ctx.snapshot("obj") == before, "the object is unchanged")
        ctx.check(ctx.files("out") == {}, "nothing is written")
        return
    ctx.check(fits, "digests beyond the specification only if asked for")
    if op == "extract":
        ctx.check(ctx.files("out/dst") == v1, "the files of the version")
    elif op == "extract_file":
        ctx.check(ctx.files("out/dst") == {"a": v1["a"]}, "the file of the version")
    else:
        now = ctx.readjson("obj/inventory.json")
        ctx.check(now["head"] == "v2" and now["digestAlgorithm"] == ("sha512" if op == "update to sha512" else alg), "the version is added")
        ctx.check(Object(lax_digests=True).validate(objdir=ctx.path("obj"), check_digests=False)[0], "the object is valid with lax digests")
        a = now["digestAlgorithm"]
        ctx.check(state_of(now, "v2") == {"a": digest(a, b"n"), "c": digest(a, b"x")}, "the files of the new version")
        for x in now.get("fixity", {}):
            if x != "xyz" and not (x == alg and not known):
                for d in now["fixity"][x]:
                    for p in now["fixity"][x][d]:
                        ctx.check(digest(x, ctx.read("obj/" + p)) == d, "fixity digests are those of the files")


def different_copies(ctx):
    """Copies of one content that differ on disk: changing the digest algorithm is refused and changes nothing."""
    inv = write_object(ctx, "obj", [{"a": b"x"}, {"a": b"x"}])
    d = digest("sha512", b"x")
    inv["manifest"][d] = ["v1/content/a", "v2/content/a", "v2/content/b"]
    bad = ctx.choice("bad", ("v1/content/a", "v2/content/a", "v2/content/b", None))
    for p in inv["manifest"][d]:
        ctx.put("obj/" + p, b"x" if p != bad else ctx.sel("new", [b"x", b"y"]))
    put_inventory(ctx, "obj", inv, "sha512")
    put_inventory(ctx, "obj/v2", inv, "sha512")
    put_tree(ctx, "src", {"n": b"n"})
    before = ctx.files("obj")
    same = bad is None or before[bad] == b"x"
    alg = ctx.choice("alg", ("sha256", "sha512"))
    fixity = ctx.choice("fixity", (None, ["md5"]))
    try:
        Object(digest_algorithm=alg, fixity=fixity).add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
    except ObjectException:
        ctx.check(not same, "refused only if copies of one content differ")
        ctx.check(ctx.files("obj") == before, "a refused update changes nothing")
        return
    ctx.check(same or alg == "sha512", "copies of one content that differ are noticed when digests are calculated again")
    if same:
        validates(ctx, "obj")
        fixity_complete(ctx, ctx.readjson("obj/inventory.json"), (fixity or []) + (["sha512"] if alg == "sha256" and fixity is None else []))


def extract_refuse(ctx):
    """Extraction never overwrites: a non-empty destination, a missing parent or an unknown version is refused."""
    files = {"a": ctx.sel("ca", [b"x", b"y"]), "d/b": b"z"}
    write_object(ctx, "obj", [files])
    case = ctx.choice("case", ("nonempty", "noparent", "version", "file"))
    ctx.mkdir("out")
    version = "v1"
    dst = "out/dst"
    if case == "nonempty":
        ctx.put("out/dst/" + ctx.choice("there", ("a", "z", "d/b", ".hidden")), b"precious")
    elif case == "noparent":
        dst = "out/no/dst"
    elif case == "file":
        ctx.put("out/dst", b"precious")
    else:
        version = ctx.str("version", 0, 3, "vV0129head./ \u0661")
        ctx.assume(ctx.no(ctx.any([ctx.eq(version, "v1"), ctx.eq(version, "head")])))
    before = ctx.snapshot("")
    outside = ctx.snapshot_outside()
    raised = False
    try:
        Object().extract(objdir=ctx.path("obj"), version=version, dstdir=ctx.path(dst))
    except ObjectException:
        raised = True
    except OSError:
        raised = case == "file"
    ctx.check(raised, "refused with ObjectException")
    ctx.check(ctx.snapshot("") == before, "nothing was written")
    ctx.check(ctx.snapshot_outside() == outside, "nothing outside is touched")


def extract_file(ctx, hi, alphabet):
    """extract_file writes exactly the requested file, never over an existing one; unknown paths are refused."""
    names = ["a", "d/a", "d/e/c", "b"]
    v1 = {"a": b"1", "d/a": ctx.sel("c", [b"1", b"2"]), "d/e/c": b"3", "b": b"1"}
    v2 = {"a": b"other", "d/a": v1["d/a"]}
    write_object(ctx, "obj", [v1, v2])
    which = ctx.choice("which", ("v1", "v2", "head"))
    files = v1 if which == "v1" else v2
    lp = ctx.str("lp", 0, hi, alphabet) if ctx.boolean("any") else ctx.choice("lp", names)
    ctx.mkdir("out")
    dst = ctx.choice("dst", ("new", "empty", "other", "same", "same empty", "same dir"))
    if dst.startswith("same"):
        lp = ctx.concrete(lp)
    if dst == "empty":
        ctx.mkdir("out/dst")
    elif dst == "other":
        ctx.put("out/dst/zz", b"precious")
    elif dst == "same dir":
        ctx.put("out/dst/" + names_last(lp) + "/x", b"precious")
    elif dst.startswith("same"):
        ctx.put("out/dst/" + names_last(lp), b"precious" if dst == "same" else b"")
    before = ctx.files("out")
    obj = ctx.snapshot("obj")
    outside = ctx.snapshot_outside()
    raised = False
    try:
        m = Object().extract_file(objdir=ctx.path("obj"), version=which, dstdir=ctx.path("out/dst"), logical_path=lp)
    except ObjectException:
        raised = True
    ctx.check(ctx.snapshot("obj") == obj, "the object is unchanged")
    ctx.check(ctx.snapshot_outside() == outside, "nothing outside is touched")
    if lp not in files:
        ctx.check(raised, "an unknown logical path is refused")
        ctx.check(ctx.files("out") == before, "nothing is written for an unknown path")
        return
    if dst.startswith("same"):
        ctx.check(raised, "an existing file is not overwritten")
        ctx.check(ctx.files("out") == before, "the existing file is untouched")
        return
    ctx.check(not raised, "extracted")
    want = dict(before)
    want["dst/" + names_last(lp)] = files[lp]
    ctx.check(ctx.files("out") == want, "exactly the requested file with its bytes")
    ctx.check(m.id == "info:a", "metadata of the object")
    ctx.check(m.message == ("version 1" if which == "v1" else "version 2"), "metadata of the version")


def names_last(p):
    p = p.rstrip("/").split("/")[-1]
    return p if p not in ("", ".", "..") else "x"


# ------------------------------------------------------------------ C17 hostile inventories
def extract_hostile(ctx, where, lo, hi, alphabet, prefix=""):
    """Whatever paths an object's inventory holds, extraction never writes outside the destination and
    never reads from outside the object."""
    ctx.put("secret", b"SECRET")
    ctx.put("a", b"SECRET")
    p = prefix + ctx.str("p", lo, hi, alphabet)
    d = digest("sha512", b"x")
    inv = {"id": "info:a", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": "sha512", "head": "v1",
           "manifest": {d: ["v1/content/f"]},
           "versions": {"v1": {"created": "2020-01-01T00:00:00Z", "message": "m",
                               "user": {"name": "n", "address": "mailto:a@b.c"}, "state": {d: ["f"]}}}}
    if where == "logical":
        inv["versions"]["v1"]["state"][d] = [p]
    elif where == "logical2":
        inv["versions"]["v1"]["state"][d] = ["f", p]
    elif where == "content":
        inv["manifest"][d] = [p]
    elif where == "cd":
        inv["contentDirectory"] = p
        inv["manifest"][d] = ["v1/" + p + "/f"]
    elif where == "vdir":
        inv["versions"] = {p: inv["versions"]["v1"]}
        inv["head"] = p
        inv["manifest"][d] = [p + "/content/f"]
    ctx.put("obj/0=ocfl_object_1.1", "ocfl_object_1.1\n")
    ctx.put("obj/v1/content/f", b"x")
    ctx.putjson("obj/inventory.json", inv)
    ctx.put("obj/inventory.json.sha512", digest("sha512", ctx.read("obj/inventory.json")) + " inventory.json\n")
    ctx.mkdir("out")
    outside = ctx.snapshot_outside()
    before = ctx.snapshot("obj")
    top = sorted(ctx.listdir(""))
    single = ctx.boolean("single")
    raised = False
    try:
        if single:
            Object().extract_file(objdir=ctx.path("obj"), version="head", dstdir=ctx.path("out/dst"),
                                  logical_path=p if where == "logical" else "f")
        else:
            Object().extract(objdir=ctx.path("obj"), version="head", dstdir=ctx.path("out/dst"))
    except (ObjectException, OSError):
        raised = True
    ctx.check(ctx.snapshot_outside() == outside, "nothing outside is touched")
    ctx.check(sorted(ctx.listdir("")) == top, "nothing beside the destination is created")
    ctx.check(ctx.snapshot("obj") == before, "the object is unchanged")
    ctx.check(ctx.read("secret") == b"SECRET", "other files are untouched")
    ctx.check(ctx.read("a") == b"SECRET", "other files are untouched")
    for x in ctx.listdir("out"):
        ctx.check(x == "dst", "only the destination is written")
    if ctx.isdir("out/dst"):
        for q, data in ctx.files("out/dst").items():
            ctx.check(data == b"x", "only content of the object is extracted")
    if not raised:
        ctx.reach("extracted")
        ctx.check(ctx.isdir("out/dst"), "the destination exists")


# ------------------------------------------------------------------ C30 updates that change settings
def update_settings(ctx, algs, fixities, width=0):
    """An update may change the digest algorithm and the kept fixity types, with or without new content;
    every version keeps its files and the object stays valid."""
    first, second = ctx.choice("algs", algs)
    names = ["a", "b"]
    v1 = tree(ctx, "v1", names, contents=[b"x", b"y"])
    old = ctx.choice("fixity0", fixities)
    inv1 = write_object(ctx, "obj", [v1], alg=first, fixity=old, width=width)
    how = ctx.choice("how", ("content", "metadata", "edit", "inherit"))
    v2 = tree(ctx, "v2", ["a"], contents=[b"y", b"z"])
    put_tree(ctx, "src", v2)
    new = ctx.choice("fixity", [None] + list(fixities))
    ob = Object(digest_algorithm=second, fixity=new)
    md = meta(ctx, 2, False)
    before = ctx.snapshot("obj/" + inv1["head"])
    alg = second
    if how == "content":
        inv = ob.add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(md))
    elif how == "metadata":
        inv = ob.add_version_with_content(objdir=ctx.path("obj"), metadata=vm(md))
        v2 = dict(v1)
    else:
        alg = second if how == "edit" else first
        nv = ob.start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(md), fixity=new,
                                  digest_algorithm=second if how == "edit" else None)
        for p in v1:
            nv.delete(p)
        nv.add_from_srcdir()
        inv = ob.write_new_version(nv)
    md0 = {"created": inv1["versions"][inv1["head"]]["created"], "message": "version 1", "name": "N", "address": "mailto:n@example.org"}
    disk = check_object(ctx, "obj", [v1, v2], oid="info:a", alg=alg, algs=[first, alg], metadata=[md0, md], width=width)
    ctx.check(disk == inv.data, "the returned inventory is the one written")
    ctx.check(ctx.snapshot("obj/" + inv1["head"]) == before, "the earlier version's directory is unchanged")
    fix = disk.get("fixity", {})
    want = set(old if new is None else new)
    if new is None and alg != first:
        want.add(first)
    ctx.check(set(fix.keys()) == want, "the fixity types are those asked for, or kept")
    for a in fix:
        n = 0
        for d in fix[a]:
            for p in fix[a][d]:
                ctx.check(d == digest(a, ctx.read("obj/" + p)), "fixity digests are those of the files")
                n += 1
        ctx.check(n == len(inv_paths(disk)), "fixity is recorded for every file, earlier or new")
    validates(ctx, "obj")


def update_shared(ctx):
    """Changing the digest algorithm keeps every logical path, also of files that share their content."""
    files = {"e": b"y"}
    for p in ("a", "b", "d/c", "d/e", "f"):
        files[p] = b"x"
    if ctx.boolean("first"):
        versions = [files, {"a": b"x", "f": b"x", "e": b"y", "g": b"y"}]
    else:
        versions = [{"a": b"x", "z": b"z"}, files]
    first, second = ctx.choice("algs", (("sha512", "sha256"), ("sha256", "sha512"), ("sha512", "sha512")))
    fixity = ctx.choice("fixity", (None, ["md5"]))
    write_object(ctx, "obj", versions, alg=first, upper=(0,) if ctx.boolean("upper") else (), fixity=fixity)
    new = {"a": ctx.sel("new", [b"x", b"n"]), "h": b"x"}
    put_tree(ctx, "src", new)
    Object(digest_algorithm=second, dedupe=ctx.boolean("dedupe"),
           forward_delta=ctx.boolean("delta")).add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
    disk = ctx.readjson("obj/inventory.json")
    fixity_complete(ctx, disk, (fixity or []) + ([first] if second != first else []))
    for i, want in enumerate(versions + [new]):
        got = state_of(disk, "v%d" % (i + 1))
        ctx.check(sorted(got) == sorted(want), "the logical paths of every version")
        for p in want:
            ctx.check(got[p].lower() == digest(second, want[p]), "the digests of every version")
    validates(ctx, "obj")


def inv_paths(inv):
    out = []
    for d in inv["manifest"]:
        out += inv["manifest"][d]
    return out


def build_dirs(ctx, k):
    """build uses exactly the version directories 1..n of the source, whatever their naming, and refuses gaps."""
    names = ctx.choice("names", (("v1", "v2"), ("v01", "v02"), ("v1", "v02"), ("v0001",), ("v1", "v3"), ("v2",), ("v0", "v1"), ("v1", "x", "v2"),
                                 ("v1", "va"), ("v1", "v2", "v3"), ()))
    rev = ctx.boolean("rev")
    ctx.listing_order(rev)
    ctx.mkdir("src")
    if ctx.boolean("file"):
        ctx.put("src/v9", b"not a directory")
    want = {}
    for v in names:
        data = {"f": ctx.sel("c" + v, [b"x", b"y"])}
        put_tree(ctx, "src/" + v, data)
        num = int(v[1:]) if v[1:].isdigit() else 0
        if num > 0:
            want[num] = data
    nums = sorted(want)
    good = nums == list(range(1, len(nums) + 1))
    raised = False
    dry = ctx.boolean("dry")
    try:
        inv = Object(identifier="info:a").build(srcdir=ctx.path("src"), objdir=None if dry else ctx.path("obj"))
    except ObjectException:
        raised = True
    if not nums or not good:
        ctx.check(raised, "a source without a proper version sequence is refused")
        ctx.check(not ctx.exists("obj") or not ctx.exists("obj/inventory.json"), "no object is written")
        return
    ctx.check(not raised, "built")
    if dry:
        ctx.check(not ctx.exists("obj"), "a dry run writes nothing")
        ctx.check(len(inv.version_directories) == len(nums), "one version per directory")
        return
    disk = ctx.readjson("obj/inventory.json")
    w = len(disk["head"]) - 1 if disk["head"].startswith("v0") else 0
    check_object(ctx, "obj", [want[i] for i in nums], oid="info:a", width=w)
    validates(ctx, "obj")


def spec_lower(ctx):
    """A new version may not have an older specification version than the object."""
    have = ctx.choice("have", ("1.0", "1.1"))
    want = ctx.choice("want", ("1.0", "1.1"))
    inv = write_object(ctx, "obj", [{"a": b"x", "b": b"y"}], spec=have)
    inventory = ocfl.Inventory(data=inv)
    carry = ctx.boolean("carry")
    try:
        nv = NewVersion.next_version(inventory=inventory, srcdir=None, spec_version=want, metadata=vm(MD), carry_content_forward=carry,
                                     forward_delta=ctx.boolean("delta"), dedupe=ctx.boolean("dedupe"))
    except NewVersionException:
        ctx.check(want < have, "refused only for an older specification version")
        return
    ctx.check(want >= have, "an older specification version is refused")
    ctx.check(nv.inventory.spec_version == want, "the specification version is the one asked for")
    ctx.check(sorted(nv.inventory.current_version.logical_paths) == (["a", "b"] if carry else []), "state carried forward as asked")


DEFECTS = ("no sidecar", "no declaration", "extra file", "missing content", "extra content", "head", "no id", "created", "version gap",
           "extra version", "prior state", "prior missing content")


def update_invalid(ctx):
    """An object with any defect that can be seen without reading content is not updated, and nothing changes."""
    versions = [{"a": b"x"}, {"a": b"x", "b": b"y"}]
    inv = write_object(ctx, "obj", versions, alg=ctx.choice("alg", ("sha512", "sha256")))
    alg = inv["digestAlgorithm"]
    bad = ctx.choice("defect", DEFECTS)
    both = False
    if bad == "no sidecar":
        ctx.remove("obj/inventory.json." + alg)
    elif bad == "no declaration":
        ctx.remove("obj/0=ocfl_object_1.1")
    elif bad == "extra file":
        ctx.put("obj/extra", b"z")
    elif bad == "missing content":
        ctx.remove("obj/v2/content/b")
    elif bad == "prior missing content":
        ctx.remove("obj/v1/content/a")
    elif bad == "extra content":
        ctx.put("obj/v2/content/extra", b"z")
    elif bad == "extra version":
        ctx.put("obj/v3/content/a", b"z")
    elif bad == "prior state":
        old = ctx.readjson("obj/v1/inventory.json")
        old["versions"]["v1"]["state"] = {digest(alg, b"x"): ["c"]}
        put_inventory(ctx, "obj/v1", old, alg)
    else:
        both = True
        if bad == "head":
            inv["head"] = "v1"
        elif bad == "no id":
            inv.pop("id")
        elif bad == "created":
            inv["versions"]["v2"]["created"] = "yesterday"
        else:
            inv["versions"]["v4"] = inv["versions"].pop("v2")
    if both:
        put_inventory(ctx, "obj", inv, alg)
        put_inventory(ctx, "obj/v2", inv, alg)
    put_tree(ctx, "src", {"n": b"n"})
    before = ctx.snapshot("")
    raised = False
    how = ctx.choice("how", ("content", "metadata", "edit"))
    try:
        if how == "edit":
            Object().start_new_version(objdir=ctx.path("obj"), srcdir=ctx.path("src"), metadata=vm(MD))
        else:
            Object().add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src") if how == "content" else None, metadata=vm(MD))
    except ObjectException:
        raised = True
    ctx.check(raised, "an object with a defect is not updated")
    ctx.check(ctx.snapshot("") == before, "a refused update changes nothing")


def refuse_existing(ctx):
    """create and build never write over something that already exists at the destination."""
    put_tree(ctx, "src/v1", {"f": b"x"})
    ctx.put("obj/" + ctx.choice("there", ("f", ".hidden", "d/e", "inventory.json", "v1/content/f", "0=ocfl_object_1.0")), b"precious")
    before = ctx.snapshot("obj")
    raised = False
    try:
        if ctx.boolean("build"):
            Object(identifier="info:a").build(srcdir=ctx.path("src"), objdir=ctx.path("obj"))
        else:
            Object(identifier="info:a").create(srcdir=ctx.path("src/v1"), objdir=ctx.path("obj"))
    except ObjectException:
        raised = True
    ctx.check(ctx.snapshot("obj") == before, "existing files are untouched")
    ctx.check(raised, "an existing destination is refused")


def no_difference(ctx, n=2, width=0):
    """abort_if_no_difference writes a new version exactly when the content differs."""
    v1 = tree(ctx, "v1", ["a", "b"], contents=[b"x", b"y"])
    write_object(ctx, "obj", [{"z": b"z"}] * (n - 1) + [v1], alg=ctx.choice("alg", ("sha512", "sha256")), width=width)
    v2 = tree(ctx, "v2", ["a", "b"], contents=[b"x", b"y"])
    put_tree(ctx, "src", v2)
    before = ctx.snapshot("obj")
    inv = Object(digest_algorithm="sha512").add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src"),
                                                                    metadata=vm(meta(ctx, n + 1, False)), abort_if_no_difference=True)
    if v1 == v2:
        ctx.check(inv is None, "no new version when nothing changed")
        ctx.check(ctx.snapshot("obj") == before, "the object is unchanged")
    else:
        ctx.check(inv is not None, "a new version when something changed")
        check_state_head(ctx, inv, v2, "v%0*d" % (width, n + 1) if width else "v%d" % (n + 1))


def check_state_head(ctx, inv, want, head):
    ctx.check(inv.head == head, "one more version")
    got = inv.current_version
    ctx.check(sorted(got.logical_paths) == sorted(want.keys()), "logical paths of the new version")
    for p in want:
        ctx.check(got.digest_for_logical_path(p) == digest(inv.digest_algorithm, want[p]), "digests of the new version")


# ------------------------------------------------------------------ unusable settings and metadata
def settings(ctx, which, how, hi=2, alphabet=None):
    """Settings and metadata that cannot give a valid object are refused with nothing written; all others give one."""
    kw = dict(content_path_normalization="uri")
    md = dict(MD)
    oid = "info:a"
    if which == "cd":
        kw["content_directory"] = ctx.choice("cd", ("", "content", "Content", "CONTENT", "inventory.json", "inventory.json.sha512", "..")) + ctx.str("tail", 0, hi, alphabet)
    elif which == "spec":
        kw["spec_version"] = ctx.choice("spec", ("", "1", "1.0", "1.1")) + ctx.str("tail", 0, hi, alphabet)
    elif which == "alg":
        kw["digest_algorithm"] = ctx.choice("alg", ("", "sha", "sha256", "sha512", "SHA512", "md5", "sha1", "blake2b-256")) + ctx.str("tail", 0, hi, alphabet)
    elif which == "fixity":
        kw["fixity"] = [ctx.choice("fixity", ("", "md5", "sha1", "sha512", "MD5", "blake2b-256")) + ctx.str("tail", 0, hi, alphabet)]
    elif which == "id":
        oid = None if ctx.boolean("no id") else ctx.str("id", 0, hi, alphabet)
    elif which == "norm":
        kw["content_path_normalization"] = None if ctx.boolean("no norm") else ctx.choice("norm", ("", "uri", "md5", "URI")) + ctx.str("tail", 0, hi, alphabet)
    elif which == "created":
        md["created"] = ctx.choice("created", ("", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05", "2020-01-02")) + ctx.str("tail", 0, hi, alphabet)
    else:
        for k in ("message", "name", "address"):
            md[k] = ctx.str(k, 0, hi, alphabet) if ctx.boolean("has " + k) else None
    files = {"a": b"x", "d/b": b"y"}
    put_tree(ctx, "src/v1", files)
    put_tree(ctx, "src/v2", files)
    ob = Object(identifier=oid, **kw)
    prior = False
    if how == "update":
        Object(identifier="info:a").create(srcdir=ctx.path("src/v1"), metadata=vm(MD), objdir=ctx.path("obj"))
        prior = True
    before = ctx.snapshot()
    try:
        if how == "create":
            ob.create(srcdir=ctx.path("src/v1"), metadata=vm(md), objdir=ctx.path("obj"))
        elif how == "build":
            ob.build(srcdir=ctx.path("src"), versions_metadata={1: vm(md), 2: vm(MD)}, objdir=ctx.path("obj"))
        else:
            ob.add_version_with_content(objdir=ctx.path("obj"), srcdir=ctx.path("src/v2"), metadata=vm(md))
    except (ObjectException, NewVersionException, ocfl.InventoryException) as e:
        ctx.reach("refused")
        if ctx.exists("obj") and not prior:
            ctx.check(ctx.files("obj") == {}, "a refused request writes nothing")
        else:
            ctx.check(ctx.snapshot() == before, "a refused request changes nothing")
        ctx.observe("refused", str(e))
        return
    ctx.reach("written")
    inv = ctx.readjson("obj/inventory.json")
    lax = inv["digestAlgorithm"] not in ("sha512", "sha256")
    ctx.check(Object(lax_digests=lax).validate(objdir=ctx.path("obj"))[0], "the written object passes validation")
    ctx.check(inv["id"] == ("info:a" if prior else oid), "the identifier is the one given")
    if which == "norm":
        ctx.check(ctx.any([kw["content_path_normalization"] == x for x in (None, "uri", "md5")]), "only known content path normalisations are used")
    if which == "alg":
        ctx.check(inv["digestAlgorithm"] == kw["digest_algorithm"], "the digest algorithm is the one given")
    if which == "spec" and not prior:
        ctx.check(ctx.exists("obj/0=ocfl_object_" + kw["spec_version"]), "the specification version is the one given")
    if which == "cd" and not prior:
        ctx.check(inv.get("contentDirectory", "content") == kw["content_directory"], "the content directory is the one given")
    if which == "fixity" and not prior:
        ctx.check(list(inv["fixity"].keys()) == kw["fixity"], "the fixity type is the one given")
    check_metadata(ctx, inv["versions"]["v1" if how == "build" else inv["head"]], md, "the version")
