"""Inventory: lookups, edits, copies, digest normalisation and serialisation (C11)."""
import io
import json

import ocfl
from ocfl.inventory import Inventory, InventoryException

CREATED = "2020-01-02T03:04:05Z"


def num(v):
    return int(v[1:])


def build(ctx, nd=2, alphabet="ab/", maxp=2, nv=2, hi=2):
    """An inventory with nd digests of up to maxp content paths and nv versions of arbitrary states over them."""
    digests = ["d%d" % i for i in range(nd)]
    manifest, paths = {}, []
    for d in digests:
        manifest[d] = []
        for j in range(ctx.choice("paths." + d, range(maxp + 1))):
            p = ctx.str("cp", 1, hi, alphabet)
            ctx.assume(p not in paths)
            paths.append(p)
            manifest[d].append(p)
    versions = {}
    for i in range(nv):
        state, used = {}, []
        for d in digests:
            k = ctx.choice("logical.%d.%s" % (i, d), range(maxp + 1))
            if k:
                state[d] = []
            for j in range(k):
                p = ctx.str("lp", 1, hi, alphabet)
                ctx.assume(p not in used)
                used.append(p)
                state[d].append(p)
        versions["v%d" % (i + 1)] = {"created": CREATED, "state": state}
    return {"id": "info:a", "head": "v%d" % nv, "manifest": manifest, "versions": versions}


def clone(x):
    if isinstance(x, dict):
        r = {}
        for k in x:
            r[k] = clone(x[k])
        return r
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def lookups(ctx, nd=2, maxp=2, hi=1, alphabet=None):
    """Manifest and digest lookups against the data."""
    data = build(ctx, nd=nd, maxp=maxp, nv=0, hi=hi, alphabet=alphabet)
    inv = Inventory(data)
    m = data["manifest"]
    n = 0
    content, listed = inv.content, inv.content_paths
    for d in m:
        ctx.check(inv.content_paths_for_digest(d) == m[d], "content paths of a digest")
        ctx.check(inv.content_path_for_digest(d) == (m[d][0] if len(m[d]) else None), "a content path of a digest is one of its paths")
        for p in m[d]:
            n += 1
            ctx.check(content[p] == d, "content maps every path to its digest")
            ctx.check(p in listed, "content_paths lists every path")
            ctx.check(inv.digest_for_content_path(p) == d, "digest of a content path")
    ctx.check(len(content) == n and len(listed) == n, "content lists nothing else")
    q = ctx.str("q", 0, hi, alphabet)
    if q not in content:
        ctx.check(inv.digest_for_content_path(q) is None, "no digest for an unknown content path")
    x = ctx.str("x", 0, 2, "d0123")
    if x not in m:
        ctx.check(inv.content_path_for_digest(x) is None and len(inv.content_paths_for_digest(x)) == 0, "no path for an unknown digest")


def state_lookups(ctx, nd=2, maxp=1, nv=2, hi=1, alphabet="abc"):
    """Logical path lookups in a version and over all versions."""
    data = build(ctx, nd=nd, maxp=maxp, nv=nv, hi=hi, alphabet=alphabet)
    before = clone(data)
    inv = Inventory(data)
    q = ctx.str("q", 1, hi, alphabet)
    found = None
    for i in range(nv):
        v = "v%d" % (i + 1)
        ver = inv.version(v)
        st = data["versions"][v]["state"]
        want = None
        n = 0
        for d in st:
            for p in st[d]:
                n += 1
                if p == q:
                    want = d
                ctx.check(p in ver.logical_paths, "logical_paths lists every path")
        ctx.check(len(ver.logical_paths) == n, "logical_paths lists nothing else")
        ctx.check(ver.digest_for_logical_path(q) == want, "digest of a logical path")
        cps = data["manifest"].get(want, []) if want is not None else []
        cp = ver.content_path_for_logical_path(q)
        if len(cps):
            ctx.check(cp in cps, "content path of a logical path holds its digest")
        else:
            ctx.check(cp is None, "no content path for an unknown logical path")
        ctx.check(ver.number == i + 1, "version number")
        if want is not None:
            found = (v, cp)
    ctx.check(inv.find_logical_path(q) == (found if found is not None else (None, None)), "find_logical_path gives the latest version with the path")
    ctx.check(inv.data == before, "lookups change nothing")


def many_versions(ctx, ns=(1, 2, 9, 10, 11, 12, 101), widths=(0, 4)):
    """Logical path lookups with any number of versions, listed in any order in the data."""
    n, w = ctx.choice("n", ns), ctx.choice("width", widths)
    names = ["v%0*d" % (w, i + 1) if w else "v%d" % (i + 1) for i in range(n)]
    data = {"head": names[-1], "manifest": {}, "versions": {}}
    how = ctx.choice("order", ("ascending", "descending", "as strings"))
    for i in range(n):
        data["manifest"]["d%d" % i] = [names[i] + "/content/f"]
    keys = names if how == "ascending" else list(reversed(names)) if how == "descending" else sorted(names)
    for v in keys:
        i = int(v[1:]) - 1
        data["versions"][v] = {"created": CREATED, "message": "m%d" % (i + 1), "state": {"d%d" % i: ["always", "f%d" % (i + 1)]}}
        if i < 10:
            data["versions"][v]["state"]["d0"] = data["versions"][v]["state"].get("d0", []) + ["early"]
    inv = Inventory(data)
    ctx.check(inv.version_directories == names, "versions in numeric order")
    ctx.check([v.number for v in inv.versions()] == list(range(1, n + 1)), "all versions in numeric order")
    ctx.check(inv.current_version.vdir == names[-1], "current version is the head")
    ctx.check(inv.find_logical_path("always") == (names[-1], names[-1] + "/content/f"), "find_logical_path gives the latest version with the path")
    last = min(n, 10)
    ctx.check(inv.find_logical_path("early") == (names[last - 1], names[0] + "/content/f"), "find_logical_path gives the latest version with the path")
    for i in range(n):
        ctx.check(inv.find_logical_path("f%d" % (i + 1)) == (names[i], names[i] + "/content/f"), "find_logical_path finds a path of one version only")
        ctx.check(inv.version(names[i]).message == "m%d" % (i + 1), "the metadata is that of the version")
    ctx.check(inv.find_logical_path("f%d" % (n + 1)) == (None, None), "unknown paths are not found")


def order(ctx, k=3, width=2):
    """Version directories in numeric order whatever the order in the data."""
    names = []
    data = {"head": None, "versions": {}}
    for i in range(k):
        v = "v" + ctx.str("v%d" % i, 1, width, "0129")
        ctx.assume(v != "v0" and v != "v00")
        for o in names:
            ctx.assume(num(o) != num(v))
        names.append(v)
        data["versions"][v] = {"created": CREATED, "state": {}}
        data["head"] = v
    inv = Inventory(data)
    dirs = inv.version_directories
    ctx.check(len(dirs) == k, "every version directory is listed")
    for i in range(k):
        ctx.check(dirs[i] in names, "only version directories are listed")
        if i:
            ctx.check(num(dirs[i - 1]) < num(dirs[i]), "version directories in numeric order")
    ctx.check(inv.version_numbers == [num(d) for d in dirs], "version numbers correspond")
    ctx.check([v.vdir for v in inv.versions()] == dirs, "versions() yields every version in order")
    ctx.check(inv.current_version.vdir == data["head"], "current version is the head")


def add_version(ctx, ns=(0, 1, 2, 9, 10, 99), widths=(0, 2, 3)):
    """Adding versions continues the numbering and changes nothing else."""
    n, w = ctx.choice("n", ns), ctx.choice("width", widths)
    ctx.assume(w == 0 or n < 10 ** (w - 1) or n == 0)
    data = {"manifest": {"d": ["v1/content/a"]}}
    if n:
        data["versions"] = {}
        for i in range(n, 0, -1):
            data["versions"]["v%0*d" % (w, i) if w else "v%d" % i] = {"created": CREATED, "message": "m%d" % i, "state": {"d": ["a"]}}
        data["head"] = "v%0*d" % (w, n) if w else "v%d" % n
    before = clone(data)
    inv = Inventory(data)
    kind = ctx.choice("metadata", ("none", "dict", "object"))
    s = ctx.str("message", 1, 1)
    md = None
    if kind == "dict":
        md = {"created": CREATED, "message": s}
    elif kind == "object":
        md = ocfl.VersionMetadata(created=CREATED, message=s)
    state = {"d": ["b"]} if ctx.boolean("state") else None
    if n and state is not None and ctx.boolean("state of the version before"):
        state = inv.version(data["head"]).state
    given = clone(md) if kind == "dict" else None
    want = {"created": CREATED, "message": s} if md is not None else {}
    if state is not None:
        want["state"] = clone(state)
    vdir = "v%d" % (n + 1) if ctx.boolean("explicit") else None
    if vdir is not None:
        ctx.assume(w == 0)
    fits = w == 0 or n + 1 < 10 ** (w - 1)
    try:
        ver = inv.add_version(vdir=vdir, metadata=md, state=state, zero_padded_width=w if w and n == 0 else None)
    except Exception as e:  # noqa
        ctx.check(not fits, "a version is refused only if its number does not fit the padding")
        ctx.check(isinstance(e, (InventoryException, ocfl.ObjectException)), "refused with a library error")
        ctx.check(inv.data == before, "a refused version changes nothing")
        return
    ctx.check(fits, "a version number that does not fit the padding is refused")
    name = "v%0*d" % (w, n + 1) if w else "v%d" % (n + 1)
    ctx.check(ver.vdir == name, "the next version directory in the same style")
    ctx.check(inv.head == name, "head is the new version")
    ctx.check(len(inv.versions_block) == n + 1, "one version more")
    for v in before.get("versions", {}):
        ctx.check(inv.versions_block[v] == before["versions"][v], "earlier versions are unchanged")
    ctx.check(inv.manifest == before["manifest"], "the manifest is unchanged")
    ctx.check(inv.versions_block[name] == want, "the new version has the metadata and state given, nothing else")
    ctx.check(ver.state == (state if state is not None else {}), "state of the new version")
    if state is not None:
        ver.add_file(digest="e", logical_path="zz")
        ver.state["d"].append("zy")
        ctx.check(inv.versions_block[name]["state"] == {"d": want["state"]["d"] + ["zy"], "e": ["zz"]}, "a file is added to the new version")
    if kind == "dict" and ctx.boolean("metadata used again") and (w == 0 or n + 2 < 10 ** (w - 1)):
        inv.add_version(metadata=md, state={"d": ["other"]}).user_name = "x"
        ctx.check(inv.head == ("v%0*d" % (w, n + 2) if w else "v%d" % (n + 2)), "head is the new version")
        ctx.check(inv.versions_block[name].get("state") == ({"d": want["state"]["d"] + ["zy"], "e": ["zz"]} if state is not None else None)
                  and "user" not in inv.versions_block[name], "a later version with the same metadata leaves this one alone")
        ctx.check(md == given, "the metadata passed is left alone")
    ctx.check(ver.message == (s if kind != "none" else None), "metadata of the new version")
    ctx.check(ver.created == (CREATED if kind != "none" else None), "metadata of the new version")
    # setters act on this version only
    t = ctx.str("name", 1, 1)
    ver.user_name = t
    ver.user_address = "mailto:" + t
    ver.message = t
    ver.created = "2021-01-01T00:00:00Z"
    again = inv.version(name)
    ctx.check(again.user_name == t and again.user_address == "mailto:" + t and again.message == t and
              again.created == "2021-01-01T00:00:00Z", "version properties read back as set")
    for v in before.get("versions", {}):
        ctx.check(inv.versions_block[v] == before["versions"][v], "setting properties leaves earlier versions alone")


def add_file(ctx, hi=2, alphabet="ab", maxp=1):
    """Adding a logical path: exact effect, or refused without effect."""
    data = build(ctx, nd=2, maxp=maxp, nv=1, hi=1, alphabet=alphabet)
    used = ctx.choice("used", (None, "v2/content/", "v2/stuff/"))
    lp = ctx.str("p", 1, hi, alphabet)
    cp = ctx.str("c", 1, hi, alphabet) if ctx.boolean("with content path") else None
    if used:
        data["manifest"]["d1"].append(used + (lp if cp is None else cp))
    if ctx.boolean("cd"):
        data["contentDirectory"] = "stuff"
    cdir = "v2/" + data.get("contentDirectory", "content") + "/"
    data["versions"]["v2"] = {"created": CREATED}
    if ctx.boolean("state"):
        data["versions"]["v2"]["state"] = clone(data["versions"]["v1"]["state"])
    data["head"] = "v2"
    if ctx.boolean("later version"):
        data["versions"]["v3"] = {"created": CREATED, "state": clone(data["versions"]["v1"]["state"])}
        data["head"] = "v3"
    before = clone(data)
    inv = Inventory(data)
    d = ctx.choice("digest", ("d0", "d1", "d9"))
    dedupe = ctx.boolean("dedupe")
    old = clone(data["versions"]["v2"].get("state", {}))
    present = False
    for x in old:
        if lp in old[x]:
            present = True
    had = before["manifest"].get(d, [])
    try:
        got = inv.version("v2").add_file(digest=d, logical_path=lp, content_path=cp, dedupe=dedupe)
    except InventoryException:
        ctx.check(present, "refused only if the logical path is in use")
        ctx.check(inv.data == before, "a refused addition changes nothing")
        return
    ctx.check(not present, "a logical path in use is refused")
    state = inv.version("v2").state
    ctx.check(state[d] == old.get(d, []) + [lp], "the logical path is added under its digest")
    for x in old:
        ctx.check(x == d or state[x] == old[x], "the rest of the state is unchanged")
    ctx.check(len(state) == len(old) + (0 if d in old else 1), "nothing else is added to the state")
    if len(had) and dedupe:
        ctx.check(got is None, "no new content for known content")
        ctx.check(inv.manifest == before["manifest"], "manifest unchanged for known content")
    else:
        ctx.check(got is not None and got.startswith(cdir), "the new content path is in the version's content directory")
        for x in before["manifest"]:
            ctx.check(got not in before["manifest"][x], "the new content path is not in use")
        want = cdir + (lp if cp is None else cp)
        free = True
        for x in before["manifest"]:
            if want in before["manifest"][x]:
                free = False
        if free:
            ctx.check(got == want, "the new content path is the one asked for when it is free")
        ctx.check(inv.manifest[d] == had + [got], "the content path is added under its digest")
        for x in before["manifest"]:
            ctx.check(x == d or inv.manifest[x] == before["manifest"][x], "the rest of the manifest is unchanged")
    for v in ("v1", "v3"):
        if v in before["versions"]:
            ctx.check(inv.versions_block[v] == before["versions"][v], "other versions are unchanged")
    ctx.check(inv.head == before["head"], "the head is unchanged")


def fixity_add(ctx, hi=2):
    """add_fixity_type and add_fixity_data: exact effect on the fixity block only."""
    data = build(ctx, nd=1, maxp=1, nv=1, hi=hi, alphabet="ab")
    before = clone(data)
    inv = Inventory(data)
    inv.add_fixity_type("md5")
    inv.add_fixity_type("sha1")
    want = {"md5": {}, "sha1": {}}
    for i in range(3):
        alg, d, p = ctx.choice("alg%d" % i, ("md5", "sha1")), ctx.choice("d%d" % i, ("aa", "bb")), ctx.str("p%d" % i, 1, 1, "abc")
        inv.add_fixity_data(alg, d, p)
        if d in want[alg]:
            want[alg][d].append(p)
        else:
            want[alg][d] = [p]
    ctx.check(inv.fixity == want, "exactly the added fixity data")
    ctx.check(inv.data["fixity"] == want, "fixity data is in the inventory")
    del inv.data["fixity"]
    ctx.check(inv.data == before, "the rest of the inventory is unchanged")


def manifest_add(ctx, hi=2):
    """add_file_to_manifest: exact effect, or refused for a path in use."""
    data = build(ctx, nd=2, maxp=2, nv=0, hi=hi, alphabet="ab")
    if ctx.boolean("empty"):
        data = {}
    before = clone(data)
    inv = Inventory(data)
    p, d = ctx.str("p", 1, hi, "ab"), ctx.choice("digest", ("d0", "d1", "d9"))
    used = False
    for x in before.get("manifest", {}):
        if p in before["manifest"][x]:
            used = True
    try:
        inv.add_file_to_manifest(digest=d, content_path=p)
    except InventoryException:
        ctx.check(used, "refused only if the content path is in use")
        ctx.check(inv.data == before, "a refused addition changes nothing")
        return
    ctx.check(not used, "a content path in use is refused")
    m = before.get("manifest", {})
    ctx.check(inv.manifest[d] == m.get(d, []) + [p], "the content path is added under its digest")
    for x in m:
        ctx.check(x == d or inv.manifest[x] == m[x], "the rest of the manifest is unchanged")
    ctx.check(len(inv.manifest) == len(m) + (0 if d in m else 1), "nothing else is added")


def delete(ctx, maxp=2, more=False):
    """delete_logical_path: exact effect, content of this version goes with its last reference."""
    data = build(ctx, nd=2, maxp=maxp, nv=2, hi=1, alphabet="ab" if more else "abc")
    old = data["versions"]["v1"]["state"]
    new = data["versions"]["v2"]["state"]
    data["manifest"] = {}
    for d in ("d0", "d1"):
        paths = []
        if d in old or ctx.boolean("unused " + d):
            paths.append("v1/content/" + d)
        if d in new and (d not in old or ctx.boolean("again " + d)):
            paths.append("v2/content/" + d)
            if ctx.boolean("twice " + d):
                paths.append("v2/content/" + d + "x")
        if not more and ctx.boolean("v20 " + d):
            paths.append("v20/content/" + d)
        if paths:
            data["manifest"][d] = paths
    if more and ctx.boolean("fixity"):
        data["fixity"] = {"md5": {"m": [], "n": ["other"]}, "sha1": {}}
        for d in data["manifest"]:
            data["fixity"]["md5"]["m" + d] = list(data["manifest"][d])
            data["fixity"]["md5"]["m"].append(data["manifest"][d][-1])
    if more and ctx.boolean("later version"):
        data["versions"]["v3"] = {"created": CREATED, "state": {}}
        data["head"] = "v3"
    before = clone(data)
    inv = Inventory(data)
    q = ctx.str("q", 1, 1, "abcd")
    want = None
    for d in new:
        if q in new[d]:
            want = d
    st = clone(new)
    try:
        got = inv.version("v2").delete_logical_path(q)
    except InventoryException:
        ctx.check(want is None, "refused only if the path does not exist")
        ctx.check(inv.data == before, "a refused deletion changes nothing")
        return
    ctx.check(want is not None and got == want, "the digest of the deleted path is returned")
    rest = [p for p in st[want] if p != q]
    after = inv.version("v2").state
    if len(rest):
        ctx.check(after[want] == rest, "only the deleted path is gone")
        ctx.check(inv.manifest == before["manifest"], "content still referenced is kept")
    else:
        ctx.check(want not in after, "a digest without paths is gone from the state")
        keep = [p for p in before["manifest"].get(want, []) if not p.startswith("v2/")]
        if keep:
            ctx.check(inv.manifest[want] == keep, "content of other versions is kept, unreferenced content of this version is gone")
        else:
            ctx.check(want not in inv.manifest, "unreferenced content of this version is gone")
    left = []
    for d in inv.manifest:
        left += inv.manifest[d]
    fix = {}
    for a in before.get("fixity", {}):
        fix[a] = {}
        for d in before["fixity"][a]:
            ps = [p for p in before["fixity"][a][d] if p in left or p == "other"]
            if ps or before["fixity"][a][d] == []:
                fix[a][d] = ps
    ctx.check(inv.fixity == fix, "fixity information goes with the content and only with it")
    for d in st:
        ctx.check(d == want or after[d] == st[d], "the rest of the state is unchanged")
    for d in before["manifest"]:
        ctx.check(d == want or inv.manifest[d] == before["manifest"][d], "the rest of the manifest is unchanged")
    ctx.check(inv.versions_block["v1"] == before["versions"]["v1"], "earlier versions are unchanged")


def copies(ctx):
    """An inventory made from data or from another inventory shares nothing with it."""
    data = build(ctx, nd=2, maxp=1, nv=2, hi=1, alphabet="ab")
    data["versions"]["v2"]["user"] = {"name": "n"}
    before = clone(data)
    src = data if ctx.choice("from", ("dict", "inventory")) == "dict" else Inventory(data)
    inv = Inventory(src)
    ctx.check(inv.data == before, "the copy equals the original")
    op = ctx.choice("op", ("manifest", "state", "version", "user", "id", "fixity", "delete"))
    if op == "manifest":
        inv.add_file_to_manifest(digest="d0", content_path="zz")
    elif op == "state":
        inv.version("v2").add_file(digest="d1", logical_path="zz", dedupe=False)
    elif op == "version":
        inv.add_version()
    elif op == "user":
        inv.version("v2").user_name = "z"
    elif op == "id":
        inv.id = "zz"
    elif op == "fixity":
        inv.add_fixity_type("md5")
    elif op == "delete":
        ps = inv.version("v2").logical_paths
        ctx.assume(len(ps) > 0)
        inv.version("v2").delete_logical_path(ps[0])
    ctx.check(inv.data != before, "the edit takes effect")
    ctx.check((src if isinstance(src, dict) else src.data) == before, "editing a copy leaves the original unchanged")


def normalize(ctx, alg="sha512", collide=False):
    """normalize_digests changes letter case of digests only, and loses no path."""
    a = "a1" * 2 + ctx.str("a", 2, 2, "abAB")
    b = "a1" * 2 + ctx.str("b", 2, 2, "abAB")
    ctx.assume(a != b)
    if not collide:
        ctx.assume(a.lower() != b.lower())
    sa, sb = a, b
    if ctx.boolean("state case"):
        sa, sb = a.upper(), b.lower()
        ctx.assume(sa != sb)
    more = ["z%d" % i for i in range(ctx.choice("more", (0, 1, 8)))]
    data = {"manifest": {a: ["p", "q"], b: ["r"] + more}, "fixity": {"md5": {a: ["p"]}},
            "versions": {"v1": {"state": {sa: ["p"], sb: ["s", "t"] + more}}, "v2": {}}}
    inv = Inventory(data)
    inv.normalize_digests(alg)
    for p, d in (("p", a), ("q", a), ("r", b)) + tuple((m, b) for m in more):
        ctx.check(inv.digest_for_content_path(p) == d.lower(), "every content path keeps its digest, in normal form")
    for p, d in (("p", sa), ("s", sb), ("t", sb)) + tuple((m, sb) for m in more):
        ctx.check(inv.version("v1").digest_for_logical_path(p) == d.lower(), "every logical path keeps its digest, in normal form")
    ctx.check(len(inv.content_paths) == 3 + len(more) and len(inv.version("v1").logical_paths) == 3 + len(more), "no path is added")
    ctx.check(inv.fixity == {"md5": {a: ["p"]}}, "fixity is unchanged")


def serialise(ctx, hi=2):
    """as_json, write_json and reading back give the same inventory."""
    data = build(ctx, nd=1, maxp=1, nv=1, hi=hi, alphabet=None)
    data["versions"]["v1"]["message"] = ctx.str("message", 0, hi)
    inv = Inventory(data)
    before = clone(data)
    ctx.check(json.loads(inv.as_json()) == before, "as_json gives the inventory")
    with open(ctx.path("inv.json"), "w", encoding="utf-8") as fh:
        inv.write_json(fh)
    ctx.check(ctx.readjson("inv.json") == before, "write_json writes the inventory")
    ctx.check(Inventory(filepath=ctx.path("inv.json")).data == before, "reading gives the inventory written")
    ctx.check(inv.data == before, "serialisation changes nothing")


def properties(ctx, hi=2):
    """Top level properties read back as set and absent ones are None or empty."""
    inv = Inventory()
    ctx.check(inv.id is None and inv.head is None and inv.digest_algorithm is None and inv.content_directory is None and
              inv.spec_version is None and len(inv.manifest) == 0 and len(inv.fixity) == 0 and len(inv.versions_block) == 0 and
              len(inv.version_directories) == 0 and len(inv.content) == 0 and len(inv.content_paths) == 0, "absent properties are None or empty")
    ctx.check(inv.content_directory_to_use == "content", "default content directory")
    ctx.check(inv.data == {}, "reading properties adds nothing")
    s = ctx.str("s", 1, hi)
    what = ctx.choice("what", ("id", "head", "digest_algorithm", "content_directory", "spec_version"))
    if what == "spec_version":
        s = ctx.choice("spec", ("1.0", "1.1"))
    setattr(inv, what, s)
    ctx.check(getattr(inv, what) == s, "property reads back as set")
    if what == "content_directory":
        ctx.check(inv.content_directory_to_use == s, "content directory to use")
    ctx.check(len(inv.data) == 1, "only that property is set")
