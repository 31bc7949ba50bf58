"""Reference reading of OCFL objects on disk, independent of the ocfl package (shared by the harnesses)."""
import hashlib

MD = {"created": "2020-01-02T03:04:05Z", "message": "a message", "name": "A. Nonymous", "address": "mailto:a@example.org"}


def digest(alg, data):
    if alg == "blake2b-512":
        return hashlib.blake2b(data).hexdigest()
    if alg.startswith("blake2b-"):
        return hashlib.blake2b(data, digest_size=int(alg[8:]) // 8).hexdigest()
    return hashlib.new(alg, data).hexdigest()


def vdir_key(v):
    return int(v[1:])


def check_sidecar(ctx, rel, alg, what):
    """rel/inventory.json has exactly one sidecar, for alg, that names the inventory and its digest."""
    names = [n for n in ctx.listdir(rel) if n.startswith("inventory.json.")]
    ctx.check(names == ["inventory.json." + alg], what + ": exactly one sidecar, named after the digest algorithm")
    words = ctx.read(rel + "/inventory.json." + alg).decode("utf-8").split()
    ctx.check(len(words) == 2, what + ": sidecar has a digest and a file name")
    ctx.check(words[1] == "inventory.json", what + ": sidecar names the inventory")
    ctx.check(words[0] == digest(alg, ctx.read(rel + "/inventory.json")), what + ": sidecar digest matches")


def state_of(inv, vdir):
    """logical path -> digest for one version of a parsed inventory."""
    out = {}
    state = inv["versions"][vdir]["state"]
    for d in state:
        for p in state[d]:
            out[p] = d
    return out


def check_state(ctx, rel, inv, vdir, want, alg, what):
    """The version's state is exactly `want` (logical path -> bytes), and its content is stored."""
    state = inv["versions"][vdir]["state"]
    n = 0
    for d in state:
        ctx.check(len(state[d]) > 0, what + ": no digest without paths")
        for p in state[d]:
            n += 1
            ctx.check(p in want, what + ": only the given logical paths")
            ctx.check(d == digest(alg, want[p]), what + ": logical path has the digest of its content")
        ctx.check(d in inv["manifest"], what + ": digest is in the manifest")
        ctx.check(len(inv["manifest"][d]) > 0, what + ": content is stored for every digest")
    ctx.check(n == len(want), what + ": every logical path is in the version state exactly once")


def check_object(ctx, rel, versions, oid=None, alg="sha512", spec="1.1", cd="content", algs=None, metadata=None, width=0, logs=None):
    """The directory rel holds exactly a well-formed OCFL object with these versions.

    versions: list of {logical path: bytes}; algs: digest algorithm of each version's own inventory
    (all alg when None); metadata: list of dicts or None per version."""
    n = len(versions)
    vdirs = ["v%0*d" % (width, i + 1) if width else "v%d" % (i + 1) for i in range(n)]
    algs = [alg] * n if algs is None else algs
    top = sorted(ctx.listdir(rel))
    ctx.check(top == sorted(["0=ocfl_object_" + spec, "inventory.json", "inventory.json." + alg] + vdirs),
              "object root holds the declaration, the inventory, its sidecar and the version directories")
    ctx.check(ctx.read(rel + "/0=ocfl_object_" + spec) == ("ocfl_object_" + spec + "\n").encode("utf-8"), "object declaration content")
    check_sidecar(ctx, rel, alg, "root")
    inv = ctx.readjson(rel + "/inventory.json")
    if oid is not None:
        ctx.check(inv["id"] == oid, "inventory id")
    ctx.check(inv["type"] == "https://ocfl.io/" + spec + "/spec/#inventory", "inventory type matches the declaration")
    ctx.check(inv["digestAlgorithm"] == alg, "inventory digest algorithm")
    ctx.check(inv.get("contentDirectory", "content") == cd, "content directory")
    ctx.check(inv["head"] == vdirs[-1], "head is the last version")
    ctx.check(sorted(inv["versions"].keys(), key=vdir_key) == vdirs, "exactly the expected versions")
    stored = {}
    for d in inv["manifest"]:
        for p in inv["manifest"][d]:
            ctx.check(p not in stored, "content path listed once")
            stored[p] = d
    seen = 0
    for i, v in enumerate(vdirs):
        check_state(ctx, rel, inv, v, versions[i], alg, v)
        if metadata is not None:
            check_metadata(ctx, inv["versions"][v], metadata[i], v)
        for name in ctx.listdir(rel + "/" + v):
            ctx.check(name in ("inventory.json", "inventory.json." + algs[i], cd), "nothing else in a version directory")
        if ctx.isdir(rel + "/" + v + "/" + cd):
            for p, data in ctx.files(rel + "/" + v + "/" + cd).items():
                cp = v + "/" + cd + "/" + p
                ctx.check(cp in stored, "every content file is in the manifest")
                ctx.check(stored[cp] == digest(alg, data), "content file has its manifest digest")
                seen += 1
        check_sidecar(ctx, rel + "/" + v, algs[i], v)
        vi = ctx.readjson(rel + "/" + v + "/inventory.json")
        ctx.check(vi["head"] == v, "version inventory head")
        ctx.check(vi["digestAlgorithm"] == algs[i], "version inventory digest algorithm")
        for k in range(i + 1):
            check_state(ctx, rel, vi, vdirs[k], versions[k], algs[i], "inventory of " + v)
        for d in vi["manifest"]:
            for p in vi["manifest"][d]:
                ctx.check(p in stored, "content of earlier inventories is kept")
    ctx.check(ctx.read(rel + "/" + vdirs[-1] + "/inventory.json") == ctx.read(rel + "/inventory.json"), "root inventory equals the head version's")
    ctx.check(seen == len(stored), "every manifest path exists")
    return inv


def check_metadata(ctx, block, md, what):
    if md is None:
        return
    if md.get("created"):
        ctx.check(block["created"] == md["created"], what + ": created recorded")
    else:
        ctx.check("created" in block, what + ": created always recorded")
    if md.get("message") is not None:
        ctx.check(block["message"] == md["message"], what + ": message recorded")
    else:
        ctx.check("message" not in block, what + ": no message invented")
    user = block.get("user", {})
    for k in ("name", "address"):
        if md.get(k) is not None:
            ctx.check(user[k] == md[k], what + ": user " + k + " recorded")
        else:
            ctx.check(k not in user, what + ": no user " + k + " invented")


def put_tree(ctx, base, files):
    ctx.mkdir(base)
    for p in files:
        ctx.put(base + "/" + p, files[p])


def write_object(ctx, rel, versions, oid="info:a", alg="sha512", spec="1.1", cd=None, width=0, versions_inv=True, fixity=None, upper=()):
    """Write a valid OCFL object by hand (forward delta, one copy of each content); returns the root inventory."""
    name = "content" if cd is None else cd
    inv = {"id": oid, "type": "https://ocfl.io/" + spec + "/spec/#inventory", "digestAlgorithm": alg, "head": None,
           "manifest": {}, "versions": {}}
    if cd is not None:
        inv["contentDirectory"] = cd
    if fixity:
        inv["fixity"] = {}
        for a in fixity:
            inv["fixity"][a] = {}
    ctx.put(rel + "/0=ocfl_object_" + spec, "ocfl_object_" + spec + "\n")
    for i, files in enumerate(versions):
        v = "v%0*d" % (width, i + 1) if width else "v%d" % (i + 1)
        state = {}
        for p in files:
            d = digest(alg, files[p])
            if i in upper and d not in inv["manifest"] or d.upper() in inv["manifest"]:
                d = d.upper()
            if d not in state:
                state[d] = []
            state[d].append(p)
            if d not in inv["manifest"]:
                cp = v + "/" + name + "/" + p
                inv["manifest"][d] = [cp]
                ctx.put(rel + "/" + cp, files[p])
                for a in fixity or ():
                    fd = digest(a, files[p])
                    if fd in inv["fixity"][a]:
                        inv["fixity"][a][fd].append(cp)
                    else:
                        inv["fixity"][a][fd] = [cp]
        inv["versions"][v] = {"created": "2020-%02d-%02dT00:00:00Z" % (i // 28 + 1, i % 28 + 1), "message": "version %d" % (i + 1),
                              "user": {"name": "N", "address": "mailto:n@example.org"}, "state": state}
        inv["head"] = v
        ctx.mkdir(rel + "/" + v)
        if versions_inv or i == len(versions) - 1:
            put_inventory(ctx, rel + "/" + v, inv, alg)
    put_inventory(ctx, rel, inv, alg)
    return inv


def put_inventory(ctx, rel, inv, alg):
    ctx.putjson(rel + "/inventory.json", inv)
    ctx.put(rel + "/inventory.json." + alg, digest(alg, ctx.read(rel + "/inventory.json")) + " inventory.json\n")
