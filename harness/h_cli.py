"""The command line tools do what they are asked to do and exit with status 0 exactly then (C27)."""
import os

import ocfl
from ocfl.bagger import bag_extracted_version
from harness.lib import write_object, check_object, put_tree, digest, put_inventory
from harness.h_root import declare, layout_file, break_object

CREATED = "2020-01-02T03:04:05Z"


def shown(rel):
    """A path as it is in the output of run_script."""
    return "/s/" + rel


def run(ctx, script, *argv):
    """Run a script; it never ends with a traceback."""
    st, out = ctx.run_script(script, list(argv))
    ctx.check(ctx.script_exc is None, script + ": no traceback", exc=ctx.script_exc, argv=" ".join(argv))
    return st, out


def refused(ctx, st, before, what):
    ctx.check(st != 0, what + ": exit status is not 0")
    ctx.check(ctx.snapshot("") == before, what + ": nothing changes")


# ------------------------------------------------------------------ ocfl-validate.py
def bad_object(ctx, rel, tag, kinds):
    """An object with at most one defect; returns (valid, valid without digest checks, error code expected)."""
    kind = ctx.choice("defect " + tag, kinds)
    alg = "sha512"
    if kind == "warn":
        alg = "sha256"
    write_object(ctx, rel, [{"f": b"1"}, {"g/h": b"2"}], oid="info:" + tag, alg=alg)
    if kind not in ("none", "warn"):
        break_object(ctx, rel, kind, tag)
    return kind in ("none", "warn"), kind in ("none", "warn", "digest only"), kind


PATHS = ("object", "root", "inventory", "missing", "plain directory", "other declaration", "other file")


def validate(ctx, n=1, what=PATHS, kinds=("none", "warn", "content", "extra file", "no inventory", "digest only")):
    """Exit status 0 exactly if everything named is valid, and a verdict for each."""
    quiet, very = ctx.boolean("-q"), ctx.boolean("-Q")
    nodig = ctx.boolean("--no-check-digests")
    argv, lines, ok = [], [], True
    if quiet:
        argv.append("-q")
    if very:
        argv.append("--very-quiet")
    if nodig:
        argv.append("--no-check-digests")
    errors = warnings = 0
    maywarn = False
    for i in range(n):
        w = ctx.choice("path %d" % i, what)
        rel = "p%d" % i
        valid = False
        if w == "object":
            v, vn, kind = bad_object(ctx, rel, "o%d" % i, kinds)
            valid = vn if nodig else v
            errors += 0 if valid else 1
            warnings += 1 if kind == "warn" else 0
        elif w == "root":
            declare(ctx, rel)
            v, vn, kind = bad_object(ctx, rel + "/a/b", "o%d" % i, kinds)
            valid = vn if nodig else v
            maywarn = maywarn or kind == "warn"
            if ctx.boolean("stray %d" % i):
                ctx.put(rel + "/c/f", "x")
                valid = False
            errors += 0 if valid else 1
        elif w == "inventory":
            write_object(ctx, "o%d" % i, [{"f": b"1"}])
            inv = ctx.readjson("o%d/inventory.json" % i)
            bad = ctx.choice("inventory %d" % i, ("good", "no id", "head"))
            if bad == "no id":
                del inv["id"]
            elif bad == "head":
                inv["head"] = "v7"
            if n == 1:
                rel += ctx.choice("suffix", ("", ".", ".json"))
            ctx.putjson(rel, inv)
            valid = bad == "good"
            errors += 0 if valid else 1
        elif w == "plain directory":
            ctx.mkdir(rel)
        elif w == "other declaration":
            ctx.put(rel + "/0=" + ctx.choice("declaration %d" % i, ("other_1.0", "ocfl_x", "ocfl_object_")), "other_1.0\n")
        elif w == "other file":
            ctx.put(rel, ctx.str("text %d" % i, 0, 1, "{1x\u00e9"))
            errors += 1
        argv.append(ctx.path(rel))
        ok = ok and valid
        lines.append((w, rel, valid))
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-validate.py", *argv)
    ctx.check(ctx.snapshot("") == before, "validating changes nothing")
    ctx.check((st == 0) == ok, "exit status is 0 exactly if everything is valid")
    for w, rel, valid in lines:
        if w in ("object", "root", "inventory"):
            ctx.check((" " + shown(rel) + " is VALID" in out) == valid, "says VALID for exactly what is valid")
            ctx.check((" " + shown(rel) + " is INVALID" in out) == (not valid), "says INVALID for exactly what is not valid")
        else:
            ctx.check(shown(rel) in out, "names what cannot be validated")
            ctx.check(shown(rel) + " is VALID" not in out, "nothing else is called valid")
    if errors == 0 or very:
        ctx.check("[E" not in out, "no errors are shown")
    else:
        ctx.check("[E" in out, "errors are shown unless very quiet")
    if errors == 0 and warnings == 0 and not maywarn or quiet or very:
        ctx.check("[W" not in out, "no warnings are shown")
    elif warnings > 0:
        ctx.check("[W004]" in out, "warnings are shown unless quiet")


# ------------------------------------------------------------------ ocfl-object.py
def text_options(ctx, argv, alphabet, which=("message", "name", "address")):
    vals = {}
    for f in which:
        if ctx.boolean("--" + f):
            vals[f] = ctx.str(f, 0, 1, alphabet)
            argv.append("--" + f + "=" + vals[f])
    return vals


def create(ctx, alphabet=None, source=("dir", "bag")):
    """The object written is the one the library writes for the same options."""
    kw = {}
    created = ctx.choice("--created", (CREATED, "2020-01-01"))
    argv = ["create", "--created", created]
    oid = ctx.choice("id", (None, "text"))
    if oid is not None:
        oid = "info:" + ctx.str("id text", 0, 1, alphabet)
        argv += ["--id", oid]
    md = text_options(ctx, argv, alphabet if created == CREATED else "a", ("message", "name"))
    if "message" not in md and ctx.boolean("--address"):
        md["address"] = "mailto:a"
        argv += ["--address", "mailto:a"]
    for opt, key, values in (("--spec", "spec_version", ("1.0",)), ("--digest", "digest_algorithm", ("sha256", "bogus")), ("--norm", "content_path_normalization", ("md5",)),
                             ("--no-dedupe", "dedupe", (False,)), ("--fixity", "fixity", (["md5"],))):
        v = ctx.choice(opt, (None,) + values) if len(kw) == 0 else None
        if v is not None:
            kw[key] = v
            argv.append(opt)
            if v is not False:
                argv.append(v if isinstance(v, str) else v[0])
    files = {"a": b"1", "d/b": b"1"}
    src = ctx.choice("source", source)
    if src == "bag":
        put_tree(ctx, "src", files)
        m = ocfl.VersionMetadata(message="bag message", name="bag name", address="mailto:bag@example.org")
        bagid = ctx.choice("bag id", (None, "info:bag", "info:"))
        m.id = bagid
        bag_extracted_version(ctx.path("src"), m)
        argv += ["--srcbag", ctx.path("src")]
        md.setdefault("message", "bag message")
        md.setdefault("name", "bag name")
        if md["message"] == "":
            md["message"] = "bag message"
        if md["name"] == "":
            md["name"] = "bag name"
        md.setdefault("address", "mailto:bag@example.org")
        clash = oid is not None and bagid is not None and oid != bagid
        if oid is None:
            oid = bagid
    else:
        put_tree(ctx, "src", files)
        argv += ["--srcdir", ctx.path("src")]
        clash = False
    dry = ctx.boolean("no --objdir")
    if not dry:
        argv += ["--objdir", ctx.path("obj")]
        if ctx.boolean("exists"):
            ctx.put("obj/f", "x")
            clash = True
    m = ocfl.VersionMetadata(created=created, message=md.get("message"), name=md.get("name"), address=md.get("address"))
    full = dict(content_path_normalization=None)
    full.update(kw)
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-object.py", *argv)
    after = ctx.snapshot("")
    try:
        inv = ocfl.Object(identifier=oid, **full).create(srcdir=ctx.path("src/data" if src == "bag" else "src"), metadata=m, objdir=ctx.path("ref"))
    except (ocfl.ObjectException, ocfl.NewVersionException, ValueError):
        clash = True
    if clash:
        ctx.check(st != 0, "what the library refuses has exit status other than 0")
        ctx.check(after == before, "a refused request changes nothing")
        return
    ctx.check(st == 0, "success has exit status 0", out=out)
    if dry:
        ctx.check(after == before, "nothing is written without --objdir")
        ctx.check(out == "### Inventory for v1\n" + inv.as_json() + "\n", "the inventory is shown")
        return
    ctx.check(ctx.snapshot("obj") == ctx.snapshot("ref"), "the object is the one the library writes")
    for p in before:
        ctx.check(p in after and after[p] == before[p], "the source is unchanged")


def build(ctx):
    """Every version directory becomes a version, with the metadata given."""
    n = ctx.choice("versions", (1, 2))
    vs = [{"a": b"1"}, {"a": b"1", "b": b"2"}][:n]
    for i in range(n):
        put_tree(ctx, "src/v%d" % (i + 1), vs[i])
    argv = ["build", "--srcdir", ctx.path("src")]
    ok = True
    given = ctx.choice("--id", (True, False))
    if given:
        argv += ["--id", "info:a"]
    ok = ok and given
    meta = ctx.choice("--metadata", (None, "inventory", "missing", "not json", "too deep", "not an object", "no versions", "bad version"))
    mds = None
    if meta is not None:
        argv += ["--metadata", ctx.path("m.json")]
        ok = ok and meta == "inventory"
        if meta == "inventory":
            mds = [{"created": CREATED, "message": ctx.str("message", 0, 1), "name": "N", "address": "mailto:n@example.org"}, {"created": "2021-01-01T00:00:00Z", "message": "m2", "name": "O", "address": None}][:n]
            inv = {"versions": {}, "head": "v%d" % n}
            for i in range(n):
                inv["versions"]["v%d" % (i + 1)] = {"created": mds[i]["created"], "message": mds[i]["message"], "user": {"name": mds[i]["name"]}}
                if mds[i]["address"] is not None:
                    inv["versions"]["v%d" % (i + 1)]["user"]["address"] = mds[i]["address"]
            ctx.putjson("m.json", inv)
        elif meta == "not json":
            ctx.put("m.json", "{")
        elif meta == "too deep":
            ctx.put("m.json", "[" * 100000)
        elif meta == "not an object":
            ctx.putjson("m.json", ctx.choice("json", ([], "x", 1)))
        elif meta == "no versions":
            ctx.putjson("m.json", {"head": "v1"})
            ok = ok and given      # no metadata for any version is allowed
            mds = None
            ok = None
        elif meta == "bad version":
            ctx.putjson("m.json", {"versions": ctx.choice("versions value", ({"x": {}}, {"v1": 1}, [], "v1"))})
    dry = ctx.boolean("no --objdir")
    if not dry:
        argv += ["--objdir", ctx.path("obj")]
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-object.py", *argv)
    if ok is None:
        ctx.check(st != 0 or given, "an object without identifier is not built")
        return
    if not ok:
        refused(ctx, st, before, "build")
        return
    ctx.check(st == 0, "success has exit status 0", out=out)
    if dry:
        ctx.check(ctx.snapshot("") == before, "nothing is written without --objdir")
        ctx.check(not isinstance(out, str) or out.startswith("### Inventory for v%d\n" % n), "the inventory is shown")
    else:
        check_object(ctx, "obj", vs, oid="info:a", metadata=mds)


def update(ctx, alphabet=None):
    """A new version with the content and metadata given; everything else stays."""
    alg = ctx.choice("object algorithm", ("sha512", "sha256"))
    v1 = {"a": b"1", "d/b": b"1"}
    write_object(ctx, "obj", [v1], oid="info:a", alg=alg)
    created = ctx.choice("--created", (CREATED, "2020-01-01"))
    argv = ["update", "--objdir", ctx.path("obj"), "--created", created, "--digest", alg]
    md = text_options(ctx, argv, alphabet, ("message", "name"))
    if "message" not in md and ctx.boolean("--address"):
        md["address"] = "mailto:a"
        argv += ["--address", "mailto:a"]
    for k in ("message", "name", "address"):
        md.setdefault(k, None)
    md["created"] = created
    src = ctx.choice("source", ("dir", "bag", "none", "missing", "not a bag"))
    v2 = {"c": b"2", "a": ctx.sel("a", [b"1", b"3"])}
    ok = src in ("dir", "bag") and created == CREATED and (md["name"] is not None or md["address"] is None)
    if src == "dir":
        put_tree(ctx, "src", v2)
        argv += ["--srcdir", ctx.path("src")]
    elif src == "bag":
        put_tree(ctx, "src", v2)
        bag_extracted_version(ctx.path("src"), ocfl.VersionMetadata(message="bag"))
        argv += ["--srcbag", ctx.path("src")]
        md["message"] = md["message"] or "bag"
    elif src == "missing":
        argv += ["--srcdir", ctx.path("nowhere")]
    elif src == "not a bag":
        put_tree(ctx, "src", v2)
        argv += ["--srcbag", ctx.path("src")]
    fault = ctx.choice("object", ("good", "content", "missing")) if ok else "good"
    if fault == "content":
        ctx.remove("obj/v1/content/a")
    elif fault == "missing":
        ctx.remove("obj")
    ok = ok and fault == "good"
    before, old = ctx.snapshot(""), {} if fault == "missing" else ctx.snapshot("obj")
    st, out = run(ctx, "ocfl-object.py", *argv)
    if not ok:
        refused(ctx, st, before, "update")
        return
    ctx.check(st == 0, "success has exit status 0", out=out)
    ctx.check("Updated object info:a to v2" in out, "the new version is named")
    old_md = {"created": "2020-01-01T00:00:00Z", "message": "version 1", "name": "N", "address": "mailto:n@example.org"}
    check_object(ctx, "obj", [v1, v2], oid="info:a", alg=alg, metadata=[old_md, md])
    for p in old:
        if not p.startswith("inventory.json"):
            ctx.check(ctx.snapshot("obj")[p] == old[p], "earlier versions are unchanged")


def choices(ctx):
    """create, build and update with any combination of settings do what the library does with them."""
    argv, kw = [], {"content_path_normalization": None}
    if ctx.boolean("--no-forward-delta"):
        argv.append("--no-forward-delta")
        kw["forward_delta"] = False
    if ctx.boolean("--no-dedupe"):
        argv.append("--no-dedupe")
        kw["dedupe"] = False
    for opt, key, values in (("--digest", "digest_algorithm", (None, "sha256")), ("--norm", "content_path_normalization", (None, "uri", "md5"))):
        v = ctx.choice(opt, values)
        if v is not None:
            argv += [opt, v]
            kw[key] = v
    fixity = ctx.choice("--fixity", (None, ["md5"], ["md5", "sha1", "blake2b-256"], ["sha512", "md5"]))
    for a in fixity or ():
        argv += ["--fixity", a]
    kw["fixity"] = fixity
    v1 = {"a": b"1", ".b": b"1", "d/c": b"2"}
    v2 = {"a": b"1", "e": b"1", "f": b"2", "g h": b"3"}
    cmd = ctx.choice("command", ("update", "build", "create"))
    argv = [cmd] + argv
    if cmd == "build":
        put_tree(ctx, "src/v1", v1)
        put_tree(ctx, "src/v2", v2)
        ctx.putjson("m.json", {"head": "v2", "versions": {"v1": {"created": CREATED, "message": "m1"}, "v2": {"created": CREATED, "user": {"name": "N"}}}})
        argv += ["--metadata", ctx.path("m.json"), "--id", "info:a"]
        mds = {1: ocfl.VersionMetadata(created=CREATED, message="m1"), 2: ocfl.VersionMetadata(created=CREATED, name="N")}
        ocfl.Object(identifier="info:a", **kw).build(srcdir=ctx.path("src"), versions_metadata=mds, objdir=ctx.path("ref"))
    else:
        argv += ["--created", CREATED, "--message", "m"]
        md = ocfl.VersionMetadata(created=CREATED, message="m")
        put_tree(ctx, "src", v2)
        if cmd == "create":
            argv += ["--id", "info:a"]
            ocfl.Object(identifier="info:a", **kw).create(srcdir=ctx.path("src"), metadata=md, objdir=ctx.path("ref"))
        else:
            for rel in ("obj", "ref"):
                write_object(ctx, rel, [v1], oid="info:a", fixity=["md5"])
            ocfl.Object(**kw).add_version_with_content(objdir=ctx.path("ref"), srcdir=ctx.path("src"), metadata=md)
    st, out = run(ctx, "ocfl-object.py", *(argv + ["--srcdir", ctx.path("src"), "--objdir", ctx.path("obj")]))
    ctx.check(st == 0, "success has exit status 0", out=out)
    ctx.check(ctx.snapshot("obj") == ctx.snapshot("ref"), "the object is the one the library writes with these settings")


def extract(ctx, alphabet="ab/."):
    """The version or file asked for, in the place asked for."""
    v1, v2 = {"a": b"1", "d/b": b"1"}, {"d/b": b"1", "c": b"22"}
    write_object(ctx, "obj", [v1, v2], oid="info:a", alg=ctx.choice("alg", ("sha512", "sha256")))
    ver = ctx.choice("--objver", (None, "head", "v1", "v2", "v3", "x", ""))
    argv = ["extract", "--objdir", ctx.path("obj")]
    if ver is not None:
        argv += ["--objver", ver]
    files = {None: v2, "head": v2, "v1": v1, "v2": v2}.get(ver)
    head = "v1" if ver == "v1" else "v2"
    how = ctx.choice("destination", ("dir", "bag", "file", "file bag"))
    exists = ctx.boolean("exists")
    if exists:
        ctx.put("out/z", b"z")
    if how == "dir":
        argv += ["--dstdir", ctx.path("out")]
    elif how == "file":
        path = ctx.str("path", 1, 3, alphabet)
        argv += ["--dstdir", ctx.path("out"), "--logical-path", path]
    elif how == "bag":
        argv += ["--dstbag", ctx.path("out")]
        if ctx.boolean("--set-bagging-date"):
            argv.append("--set-bagging-date")
    else:
        argv += ["--dstbag", ctx.path("out"), "--logical-path", "d/b"]
    fault = ctx.choice("object", ("good", "missing", "not an object", "too deep"))
    if fault == "missing":
        ctx.remove("obj")
    elif fault == "not an object":
        ctx.remove("obj/inventory.json")
    elif fault == "too deep":
        ctx.put("obj/inventory.json", "[" * 100000)
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-object.py", *argv)
    ok = files is not None and fault == "good" and how != "file bag"
    if how == "file":
        ok = ok and path in files
        if not ok and not exists and ctx.isdir("out") and len(ctx.listdir("out")) == 0:
            ctx.remove("out")       # an empty destination directory may be left
        if exists and ok and st != 0:
            return
    elif exists:
        ok = False
    if not ok:
        refused(ctx, st, before, "extract")
        return
    ctx.check(st == 0, "success has exit status 0", out=out)
    ctx.check(head in out, "the version is named")
    after = ctx.snapshot("")
    for p in before:
        ctx.check(p in after and after[p] == before[p], "the object is unchanged")
    if how == "dir":
        ctx.check(ctx.files("out") == files, "exactly the version's files")
    elif how == "file":
        got = ctx.files("out")
        name = path.split("/")[-1]
        ctx.check(name in got and got[name] == files[path], "the file asked for")
        ctx.check(len(got) == (2 if exists and name != "z" else 1), "only the file asked for")
    else:
        ctx.check(ctx.files("out/data") == files, "exactly the version's files in the bag")
        m = ocfl.VersionMetadata()
        ocfl.bag_as_source(ctx.path("out"), m)
        ctx.check(m.id == "info:a" and m.message == "version " + head[1:] and m.name == "N" and m.address == "mailto:n@example.org", "metadata of the version")
        ctx.check("--set-bagging-date" not in argv or m.created == "2020-01-0%sT00:00:00Z" % head[1:], "bagging date")


def object_validate(ctx):
    """validate has exit status 0 exactly for a valid object; show shows the tree."""
    valid, vn, kind = bad_object(ctx, "obj", "a", ("none", "warn", "content", "sidecar", "extra file", "no inventory", "digest only"))
    cmd = ctx.choice("command", ("validate", "show"))
    if ctx.boolean("missing"):
        ctx.remove("obj")
        valid, kind = False, "missing"
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-object.py", cmd, *ctx.choice("options", ([], ["--digest", "sha256"], ["--spec-version", "1.0"], ["--skip", "x"], ["-v"])), "--objdir", ctx.path("obj"))
    ctx.check(ctx.snapshot("") == before, "nothing changes")
    if cmd == "validate":
        ctx.check((st == 0) == valid, "exit status 0 exactly for a valid object")
        ctx.check((shown("obj") + " is VALID" in out) == valid, "says VALID for exactly a valid object")
    elif kind == "missing":
        ctx.check(st != 0, "nothing to show")
    else:
        ctx.check(st == 0, "an object is shown")
        for name in ctx.listdir("obj"):
            ctx.check("\u2500 " + name + " " in out, "every entry of the object root is shown")
        if kind == "none":
            ctx.check("<---" not in out, "nothing is marked as odd in a valid object")
            ctx.check(out.count("content (1 files)") == 2, "the number of content files")
        elif kind == "extra file":
            ctx.check(out.count("<--- ???") == 1, "what does not belong there is marked")


BARS = "\u2502\u251c\u2514\u2500 "


def tree_lines(text):
    """(depth, name, note) for each line of a tree; the last entries at each level are marked as such."""
    out = []
    for line in text.split("\n"):
        k = 0
        while k < len(line) and line[k] in BARS:
            k += 1
        out.append((line[:k], line[k:]))
    return out


def show(ctx, alphabet="ab1."):
    """The tree shows exactly the entries of the object root and of its version directories, and how many files each has."""
    nv = ctx.choice("versions", (1, 2, 3))
    cd = ctx.choice("cd", (None, "stuff"))
    versions = [{"a": b"1", "d/b": b"2"}, {"c": b"3"}, {"c": b"3"}][:nv]
    write_object(ctx, "obj", versions, cd=cd)
    counts = {"v1": 2, "v2": 1, "v3": 0}
    odd = ctx.choice("odd", ("", "root file", "root dir", "version file", "version dir", "second sidecar", "version sidecar", "logs", "vfile", "vdir", "no version"))
    name = ctx.str("name", 1, 2, alphabet)
    ctx.assume(name not in (".", "..") and (odd in ("root file", "version file", "root dir", "version dir") or name == "a"))
    marked = None
    if odd == "root file":
        ctx.put("obj/" + name, b"x")
        marked = name
    elif odd == "root dir":
        ctx.put("obj/" + name + "/f", b"x")
        marked = name
    elif odd == "version file":
        ctx.put("obj/v1/" + name, b"x")
        marked = name
    elif odd == "version dir":
        ctx.put("obj/v1/" + name + "/f", b"x")
        marked = name
    elif odd == "second sidecar":
        ctx.put("obj/inventory.json.md5", b"x")
        marked = "inventory.json.sha512"
    elif odd == "version sidecar":
        ctx.put("obj/v1/inventory.json.md5", b"x")
        marked = "inventory.json.sha512"
    elif odd == "logs":
        ctx.put("obj/logs/a", b"x")
        marked = "logs"
    elif odd == "vfile":
        ctx.put("obj/v7", b"x")
    elif odd == "vdir":
        ctx.mkdir("obj/v7")
    elif odd == "no version":
        ctx.remove("obj/v1")
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-object.py", "show", "--objdir", ctx.path("obj"))
    ctx.check(st == 0, "an object is shown", out=out)
    ctx.check(ctx.snapshot("") == before, "nothing changes")
    want = []
    for e in sorted(ctx.listdir("obj")):
        want.append((0, e, None))
        if e[0] == "v" and ctx.isdir("obj/" + e):
            for x in sorted(ctx.listdir("obj/" + e)):
                want.append((1, x, counts[e] if x == (cd or "content") else None))
    lines = out.split("\n")
    k = 0
    while k < len(lines) and lines[k] != "[" + shown("obj") + "]":
        k += 1
    ctx.check(k < len(lines), "the object is named")
    got = tree_lines("\n".join(lines[k + 1:]))
    got = [g for g in got if g[1] != ""]
    ctx.check(len(got) == len(want), "every entry is shown once", out=out)
    for i in range(len(want)):
        depth, e, n = want[i]
        bars, rest = got[i]
        last = True
        for later in want[i + 1:]:
            if later[0] < depth:
                break
            if later[0] == depth:
                last = False
        ctx.check(len(bars) == 4 * (depth + 1), "entries are shown below their directory")
        ctx.check(("\u2514" in bars) == last, "the last entry of a directory is shown as the last")
        ctx.check(rest == e or rest.startswith(e + " "), "the entry's name is shown")
        note = rest[len(e):].strip(" ")
        if odd == "vfile" and e == "v7":
            continue    # how a file named like a version directory is marked is left open
        if n is not None:
            ctx.check(note == "(%d files)" % n, "the number of content files")
        elif e == marked and (odd not in ("second sidecar",) or depth == 0) and (odd != "version sidecar" or depth == 1 and i < 8):
            ctx.check(note.startswith("<---"), "what does not belong there is marked", out=out)
        else:
            ctx.check(note == "", "nothing else is marked", out=out)


# ------------------------------------------------------------------ ocfl-root.py
def where(ctx, argv, rel="r"):
    """Name the root by --root or $OCFL_ROOT, --root counting if there are both."""
    how = ctx.choice("root by", ("--root", "$OCFL_ROOT", "both"))
    if how == "both":
        os.environ["OCFL_ROOT"] = ctx.path("elsewhere")
    elif how == "$OCFL_ROOT":
        os.environ["OCFL_ROOT"] = ctx.path(rel)
        return argv
    return argv[:1] + ["--root", ctx.path(rel)] + argv[1:]


def root_run(ctx, *argv):
    try:
        return run(ctx, "ocfl-root.py", *where(ctx, list(argv)))
    finally:
        if "OCFL_ROOT" in os.environ:
            del os.environ["OCFL_ROOT"]


def root_create(ctx):
    """A storage root as asked for."""
    layout = ctx.choice("--layout", (None, "flat-direct", "0003-hash-and-id-n-tuple-storage-layout", "unknown"))
    spec = ctx.choice("--spec", (None, "1.0", "1.1", "1.2", "x"))
    par = ctx.choice("--layout-params", (None, '{"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 3}', "{", "[]", '{"tupleSize": -1}'))
    argv = ["create"]
    for opt, v in (("--layout", layout), ("--spec-version", spec), ("--layout-params", par)):
        if v is not None:
            argv += [opt, v]
    there = ctx.choice("there", ("nothing", "file", "root"))
    if there == "file":
        ctx.put("r/f", "x")
    elif there == "root":
        declare(ctx, "r")
    before = ctx.snapshot("")
    st, out = root_run(ctx, *argv)
    after = ctx.snapshot("")
    sub = {}
    ref = ocfl.StorageRoot(root=ctx.path("ref"), layout_name=layout) if layout != "unknown" else None
    ok = layout != "unknown" and there == "nothing"
    if ok:
        try:
            ref.initialize(spec_version="1.1" if spec is None else spec, layout_params=par)
        except ocfl.StorageRootException:
            ok = False
    if not ok:
        ctx.check(st != 0, "a refused request has exit status other than 0")
        ctx.check(after == before, "a refused request changes nothing")
        return
    ctx.check(st == 0, "success has exit status 0", out=out)
    ctx.check(ctx.snapshot("r") == ctx.snapshot("ref"), "the root is the one the library creates")
    ctx.check(ocfl.StorageRoot(root=ctx.path("r")).validate() is True, "a valid root")


def root_ops(ctx, hi=1, alphabet=None):
    """list, path and add with a symbolic identifier."""
    declare(ctx, "r")
    ln = ctx.choice("layout", ("nnnn-flat-quoted-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"))
    layout_file(ctx, ln)
    write_object(ctx, "first", [{"f": b"1"}], oid="info:first")
    ocfl.StorageRoot(root=ctx.path("r")).add(object_path=ctx.path("first"))
    oid = "info:" + ctx.str("id", 0, hi, alphabet)
    ref = ocfl.StorageRoot(root=ctx.path("r"))
    cmd = ctx.choice("command", ("list", "path", "path -q", "add", "add missing", "add none", "path none"))
    before = ctx.snapshot("")
    if cmd == "list":
        n = 1
        if oid != "info:first":
            write_object(ctx, "src", [{"f": b"1"}], oid=oid)
            ref.add(object_path=ctx.path("src"))
            n = 2
            before = ctx.snapshot("")
        st, out = root_run(ctx, "list")
        ctx.check(st == 0, "list succeeds")
        if n == 2:
            ctx.check(ref.object_path(oid) + " -- id=" + oid + "\n" in out, "every object is listed with its identifier")
        ctx.check(ref.object_path("info:first") + " -- id=info:first\n" in out, "every object is listed")
        ctx.check("Found %d OCFL Objects under root " % n in out, "the number of objects")
        ctx.check(ctx.snapshot("") == before, "listing changes nothing")
    elif cmd in ("path", "path -q"):
        st, out = root_run(ctx, "path", "--id", oid, *(["-q"] if cmd == "path -q" else []))
        ctx.check(st == 0, "path succeeds")
        ctx.check(ctx.snapshot("") == before, "asking for a path changes nothing")
        want = ref.object_path(oid)
        if cmd == "path":
            ctx.check(out.endswith(" is " + want + "\n"), "the path of the identifier")
        else:
            ctx.check(out == shown("r") + "/" + want + "\n", "just the full path")
    elif cmd == "path none":
        st, out = root_run(ctx, "path")
        refused(ctx, st, before, "path without identifier")
    elif cmd == "add none":
        st, out = root_run(ctx, "add")
        refused(ctx, st, before, "add without source")
    elif cmd == "add missing":
        st, out = root_run(ctx, "add", "--src", ctx.path("nowhere"))
        refused(ctx, st, before, "add of nothing")
    else:
        write_object(ctx, "src", [{"f": b"1"}], oid=oid)
        fault = ctx.choice("fault", ("none", "no inventory"))
        if fault != "none":
            break_object(ctx, "src", fault, "s")
        before = ctx.snapshot("")
        st, out = root_run(ctx, "add", "--src", ctx.path("src"))
        if fault != "none" or oid == "info:first":
            refused(ctx, st, before, "add")
            return
        ctx.check(st == 0, "success has exit status 0")
        path = ref.object_path(oid)
        ctx.check("Added object " + oid + " at path " + path + "\n" in out, "identifier and path are shown")
        ctx.check(ctx.snapshot("r/" + path) == ctx.snapshot("src"), "the object is added")


def root_objects(ctx):
    """show, validate-object and purge act on the object of the identifier, or fail."""
    declare(ctx, "r")
    layout_file(ctx, "nnnn-flat-quoted-storage-layout")
    valid, vn, kind = bad_object(ctx, "r/a", "a", ("none", "content", "digest only"))
    cmd = ctx.choice("command", ("show", "validate-object", "purge"))
    oid = ctx.choice("id", ("a", "b", None))
    ctx.cwd("")
    before = ctx.snapshot("")
    st, out = root_run(ctx, cmd, *(["-q"] if ctx.boolean("-q") else []), *([] if oid is None else ["--id", oid]))
    if oid is None or oid == "b":
        refused(ctx, st, before, cmd + " of nothing")
    elif cmd == "purge":
        ctx.check((st == 0) == (not ctx.exists("r/a")), "purge succeeds exactly if the object is gone")
        if st != 0:
            ctx.check(ctx.snapshot("") == before, "a refused purge changes nothing")
    elif cmd == "show":
        ctx.check(st == 0, "an object is shown")
        ctx.check(ctx.snapshot("") == before, "nothing changes")
    else:
        ctx.check((st == 0) == valid, "exit status 0 exactly for a valid object")
        ctx.check(ctx.snapshot("") == before, "nothing changes")


def root_validate(ctx):
    """Exit status 0 exactly if the root (and the objects, if asked) are valid."""
    declare(ctx, "r")
    valid, vn, kind = bad_object(ctx, "r/a/b", "b", ("none", "warn", "content", "digest only", "no inventory"))
    broken = ctx.choice("root", ("good", "stray file", "empty directory", "no declaration", "missing"))
    if broken == "stray file":
        ctx.put("r/c/f", "x")
    elif broken == "empty directory":
        ctx.mkdir("r/c")
    elif broken == "no declaration":
        ctx.remove("r/0=ocfl_1.1")
    elif broken == "missing":
        ctx.remove("r")
    objs, digs = ctx.boolean("--validate-objects"), ctx.boolean("--check-digests")
    extra = ctx.choice("invalid objects besides", (0, 3)) if broken == "good" else 0
    for i in range(extra):
        write_object(ctx, "r/x%d/y" % i, [{"f": b"1"}], oid="info:x%d" % i)
        ctx.remove("r/x%d/y/inventory.json" % i)
    valid, vn = valid and extra == 0, vn and extra == 0
    argv = ["validate"]
    if objs:
        argv.append("--validate-objects")
    if digs:
        argv.append("--check-digests")
    if ctx.boolean("-q"):
        argv.append("-q")
    m = ctx.choice("--max_errors", (None, "1", "2", "x"))
    if m is not None:
        argv += ["--max_errors", m]
    before = ctx.snapshot("")
    st, out = root_run(ctx, *argv)
    ctx.check(ctx.snapshot("") == before, "validating changes nothing")
    ok = broken == "good" and (not objs or (valid if digs else vn))
    if m == "x":
        ctx.check(st != 0, "a bad limit is refused")
        return
    ctx.check((st == 0) == ok, "exit status is 0 exactly if everything checked is valid")
    if objs and broken == "good":
        bad = extra + (0 if (kind in ("none", "warn") or kind == "digest only" and not digs) else 1)
        ctx.check("Objects checked: %d / %d are %s" % (bad if bad else extra + 1, extra + 1, "INVALID" if bad else "VALID") in out, "the number of objects that are not valid")
    if ok:
        ctx.check("is VALID" in out and "INVALID" not in out, "says VALID")
    elif broken not in ("no declaration", "missing"):
        ctx.check("Storage root " + shown("r") + " is INVALID" in out, "says INVALID")
    else:
        ctx.check("is VALID" not in out, "does not say VALID")


# ------------------------------------------------------------------ ocfl-sidecar.py
def sidecar(ctx, n=1):
    """Every inventory named gets a sidecar that matches; exit status 0 exactly then."""
    argv, ok, wrote = [], True, []
    dig = ctx.choice("--digest", (None, "sha256", "md5", "bogus"))
    if dig is not None:
        argv += ["--digest", dig]
    for i in range(n):
        rel = "p%d" % i
        kind = ctx.choice("path %d" % i, ("object", "inventory file", "invalid inventory", "too deep", "no inventory", "missing", "other file"))
        alg = ctx.choice("algorithm %d" % i, ("sha512", "sha256"))
        path = rel
        good = True
        if kind in ("object", "inventory file"):
            write_object(ctx, rel, [{"f": b"1"}], alg=alg)
            had = ctx.boolean("sidecar there %d" % i)
            if not had:
                ctx.remove(rel + "/inventory.json." + alg)
            if kind == "inventory file":
                path = rel + "/inventory.json"
        elif kind == "invalid inventory":
            ctx.put(rel + "/inventory.json", "{}")
        elif kind == "too deep":
            ctx.put(rel + "/inventory.json", "[" * 100000)
        elif kind == "no inventory":
            ctx.mkdir(rel)
            good = False
        elif kind == "other file":
            ctx.put(rel, "x")
            good = False
        else:
            good = False
        argv.append(ctx.path(path))
        if good:
            wrote.append((rel, dig or (alg if kind not in ("invalid inventory", "too deep") else "sha512")))
        ok = ok and good
    if dig == "bogus":
        ok, wrote = ok and n == 0, []
    before = ctx.snapshot("")
    st, out = run(ctx, "ocfl-sidecar.py", *argv)
    ctx.check((st == 0) == ok, "exit status 0 exactly if every sidecar is written")
    after = ctx.snapshot("")
    names = [rel + "/inventory.json." + a for rel, a in wrote]
    for rel, a in wrote:
        if dig is None and False:
            continue
        ctx.check(ctx.exists(rel + "/inventory.json." + a), "the sidecar is written")
        ctx.check(ctx.read(rel + "/inventory.json." + a).split() == [digest(a, ctx.read(rel + "/inventory.json")).encode("utf-8"), b"inventory.json"], "it holds the digest of the inventory")
        ctx.check(shown(rel) + "/inventory.json." + a + "\n" in out, "its name is shown")
    for p in after:
        if p not in names:
            ctx.check(p in before and after[p] == before[p], "nothing else changes")
    for p in before:
        ctx.check(p in after, "nothing is removed")


def usage(ctx):
    """--version and --help show something and succeed; no or a wrong command fails; nothing is done."""
    write_object(ctx, "obj", [{"f": b"1"}])
    before = ctx.snapshot("")
    script = ctx.choice("script", ("ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py"))
    arg = ctx.choice("argument", ("--version", "--bogus", "bogus", ""))
    if arg == "":
        ctx.assume(script != "ocfl-sidecar.py")
    argv = [] if arg == "" else [arg]
    st, out = run(ctx, script, *argv)
    if script == "ocfl-validate.py" and arg == "":
        ctx.check("nothing to do" in out, "says that there is nothing to do")
        ctx.check(ctx.snapshot("") == before, "nothing changes")
        return
    ctx.check((st == 0) == (arg == "--version"), "exit status 0 exactly for a proper request")
    if arg == "--version":
        ctx.check(out.startswith(script + " is part of ocfl-py version "), "the version is shown")
    ctx.check(ctx.snapshot("") == before, "nothing changes")


def relative(ctx):
    """Paths relative to the working directory."""
    write_object(ctx, "w/obj", [{"f": b"1"}], oid="info:a")
    script = ctx.choice("script", ("ocfl-sidecar.py", "ocfl-validate.py", "ocfl-object.py", "ocfl-root.py"))
    ok = True
    if script == "ocfl-sidecar.py":
        which = ctx.choice("path", (None, ".", "inventory.json", "./inventory.json", "../obj"))
        ctx.cwd("w/obj")
        argv = [] if which is None else [which]
        ctx.put("w/obj/inventory.json.sha512", "wrong")
    elif script == "ocfl-validate.py":
        which = ctx.choice("path", (".", "", "inventory.json", "../obj", "../obj/", "./."))
        ctx.cwd("w/obj")
        argv = [which]
    elif script == "ocfl-object.py":
        which = ctx.choice("path", (".", "obj", "./obj", "obj/"))
        ctx.cwd("w/obj" if which == "." else "w")
        argv = ["validate", "--objdir", which]
    else:
        which = ctx.choice("path", (".", "root", "./root/"))
        declare(ctx, "w/root")
        layout_file(ctx, "nnnn-flat-quoted-storage-layout", root="w/root")
        ctx.cwd("w/root" if which == "." else "w")
        argv = ["add", "--root", which, "--src", "../obj" if which == "." else "obj"]
    st, out = run(ctx, script, *argv)
    ctx.check(st == 0, "success has exit status 0", out=out)
    if script == "ocfl-sidecar.py":
        ctx.check(ctx.read("w/obj/inventory.json.sha512").split() == [digest("sha512", ctx.read("w/obj/inventory.json")).encode("utf-8"), b"inventory.json"], "the sidecar is right")
    elif script == "ocfl-root.py":
        ctx.check(ctx.snapshot("w/root/info%3Aa") == ctx.snapshot("w/obj"), "the object is added")
