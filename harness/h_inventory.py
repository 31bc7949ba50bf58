"""Inventory accessors (C11), InventoryValidator against an independent reading of the specification (C19, C22)."""
from ocfl.inventory_validator import InventoryValidator
from ocfl.validation_logger import ValidationLogger
from harness.h_util import ref_datetime

HEX = "0123456789abcdefABCDEF"
LENGTHS = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128, "blake2b-160": 40, "blake2b-256": 64, "blake2b-384": 96, "blake2b-512": 128}
DA, DB, DC = "a1" * 64, "b2" * 64, "c3" * 64
MA = "d4" * 16


# ------------------------------------------------------------------ the reference
def is_hex(d, n):
    if len(d) != n:
        return False
    for c in d:
        if c not in HEX:
            return False
    return True


def path_ok(p):
    if not isinstance(p, str):
        return False
    for e in p.split("/"):
        if e == "" or e == "." or e == "..":
            return False
    return True


def paths_conflict(paths):
    """A path occurs twice, or is also a directory of another."""
    for i in range(len(paths)):
        for j in range(len(paths)):
            if i < j and paths[i] == paths[j]:
                return True
            if i != j and paths[j].startswith(paths[i] + "/"):
                return True
    return False


def sequence_ok(versions):
    n = len(versions)
    if n == 0:
        return False
    ok = True
    for i in range(1, n + 1):
        if ("v%d" % i) not in versions:
            ok = False
            break
    if ok:
        return True
    for w in range(2, 11):
        if n < 10 ** (w - 1):
            ok = True
            for i in range(1, n + 1):
                if ("v%0*d" % (w, i)) not in versions:
                    ok = False
                    break
            if ok:
                return True
    return False


def vnum(v):
    return int(v[1:])


def created_ok(s):
    if not isinstance(s, str):
        return False
    r = ref_datetime(s)
    if r is None:
        return False
    return r[2] != "" and len(s) > 16 and s[16] == ":"


def ref_inventory(inv):
    """True / False: the inventory is valid per OCFL 1.0/1.1; None where the specification is silent."""
    unspec = False
    if not isinstance(inv, dict):
        return False
    for k in ("id", "type", "digestAlgorithm", "head", "manifest", "versions"):
        if k not in inv:
            return False
    if not isinstance(inv["id"], str) or inv["id"] == "":
        return False
    t = inv["type"]
    if t != "https://ocfl.io/1.0/spec/#inventory" and t != "https://ocfl.io/1.1/spec/#inventory":
        return False
    alg = inv["digestAlgorithm"]
    if alg != "sha512" and alg != "sha256":
        return False
    dlen = 128 if alg == "sha512" else 64
    cd = "content"
    if "contentDirectory" in inv:
        cd = inv["contentDirectory"]
        if not isinstance(cd, str) or "/" in cd or cd == "." or cd == "..":
            return False
        if cd == "":
            unspec = True
    versions = inv["versions"]
    if not isinstance(versions, dict) or not sequence_ok(versions):
        return False
    order = sorted(versions.keys(), key=vnum)
    if inv["head"] != order[-1]:
        return False
    manifest = inv["manifest"]
    if not isinstance(manifest, dict):
        return False
    seen, cpaths = [], []
    for d in manifest:
        if not is_hex(d, dlen) or not isinstance(manifest[d], list):
            return False
        if d.lower() in seen:
            return False
        seen.append(d.lower())
        if len(manifest[d]) == 0:
            unspec = True
        for p in manifest[d]:
            if not path_ok(p):
                return False
            parts = p.split("/")
            if len(parts) < 3 or parts[0] not in versions or parts[1] != cd:
                return False
            cpaths.append(p)
    if paths_conflict(cpaths):
        return False
    used = []
    for v in versions:
        block = versions[v]
        if not isinstance(block, dict) or "created" not in block or "state" not in block:
            return False
        if not created_ok(block["created"]):
            return False
        if "message" in block and not isinstance(block["message"], str):
            return False
        if "user" in block:
            u = block["user"]
            if not isinstance(u, dict) or "name" not in u or not isinstance(u["name"], str):
                return False
            if u["name"] == "":
                unspec = True
            if "address" in u and not isinstance(u["address"], str):
                return False
        state = block["state"]
        if not isinstance(state, dict):
            return False
        lpaths = []
        for d in state:
            if d not in manifest or not isinstance(state[d], list):
                return False
            if len(state[d]) == 0:
                unspec = True
            used.append(d)
            for p in state[d]:
                if not path_ok(p):
                    return False
                lpaths.append(p)
        if paths_conflict(lpaths):
            return False
    for d in manifest:
        if d not in used:
            if len(manifest[d]) > 0:
                return False
    if "fixity" in inv:
        fixity = inv["fixity"]
        if not isinstance(fixity, dict):
            return False
        for a in fixity:
            if a not in LENGTHS or not isinstance(fixity[a], dict):
                return False
            seen = []
            for d in fixity[a]:
                if not is_hex(d, LENGTHS[a]) or not isinstance(fixity[a][d], list) or d.lower() in seen:
                    return False
                seen.append(d.lower())
                for p in fixity[a][d]:
                    if not isinstance(p, str) or p not in cpaths:
                        return False
    return None if unspec else True


# ------------------------------------------------------------------ inputs
def base(alg="sha512", full=True):
    """A valid inventory with two versions and all optional parts."""
    n = 128 if alg == "sha512" else 64
    da, db = DA[:n], DB[:n]
    inv = {"id": "info:a", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg, "head": "v2",
           "manifest": {da: ["v1/content/a"], db: ["v2/content/d/b", "v2/content/c"]},
           "versions": {
               "v1": {"created": "2020-01-02T03:04:05Z", "message": "m", "user": {"name": "n", "address": "mailto:n@e.org"},
                      "state": {da: ["a"]}},
               "v2": {"created": "2020-01-03T03:04:05+01:00", "message": "m", "user": {"name": "n", "address": "mailto:n@e.org"},
                      "state": {da: ["a", "e/f"], db: ["d/b"]}}}}
    if full:
        inv["contentDirectory"] = "content"
        inv["fixity"] = {"md5": {MA: ["v1/content/a"]}}
    return inv


def nodes(tree, at=()):
    """All positions in a JSON tree, as tuples of keys and indices."""
    out = [at]
    if isinstance(tree, dict):
        for k in tree:
            out += nodes(tree[k], at + (k,))
    elif isinstance(tree, list):
        for i in range(len(tree)):
            out += nodes(tree[i], at + (i,))
    return out


def put_at(tree, at, value):
    if len(at) == 0:
        return value
    t = tree
    for k in at[:-1]:
        t = t[k]
    t[at[-1]] = value
    return tree


def get_at(tree, at):
    for k in at:
        tree = tree[k]
    return tree


def del_at(tree, at):
    t = tree
    for k in at[:-1]:
        t = t[k]
    del t[at[-1]]
    return tree


def values():
    return [None, True, 7, 1.5, "", "x", [], {}, ["x"], [None], [7], [[]], [{}], {"x": []}, {"x": None}, {"x": ["y"]}, {"created": 1, "state": 2}, "created", "state"]


def mutate(ctx, tree, tag):
    """Delete, replace or extend one position of the tree (all positions and all replacement shapes)."""
    all_nodes = nodes(tree)
    at = ctx.choice("at" + tag, all_nodes)
    op = ctx.choice("op" + tag, ("replace", "delete", "insert", "rename"))
    if op == "replace":
        return put_at(tree, at, ctx.choice("value" + tag, values()))
    if op == "delete":
        ctx.assume(len(at) > 0)
        return del_at(tree, at)
    node = get_at(tree, at)
    if op == "insert":
        ctx.assume(isinstance(node, (dict, list)))
        if isinstance(node, dict):
            keys = ["x", "v3", "v1", "v01", "", "sha1", "md5", DA, DC, DA.upper(), "a/b"]
            node[ctx.choice("key" + tag, keys)] = ctx.choice("value" + tag, values())
        else:
            node.append(ctx.choice("item" + tag, [None, 7, [], {}, "x", "a", "a/b", "v1/content/a", "v1/content/a/b", "v2/content/d", "v1/x/a", "v3/content/a"]))
        return tree
    ctx.assume(len(at) > 0)
    parent = get_at(tree, at[:-1])
    ctx.assume(isinstance(parent, dict))
    key = ctx.choice("key" + tag, ["x", "v3", "v01", "v02", "v0", "v1 ", "V1", "", "sha1", "sha512-spec-ex", DC, DA.upper(), DA + "0"])
    ctx.assume(key not in parent)
    del parent[at[-1]]
    parent[key] = node
    return tree


def described(ctx, log):
    """Every issue in the log has a description with all its parameters."""
    for m in log.messages:
        ctx.check(m.startswith("[") and "???" not in m, "issues are described with all their parameters", message=m)


def judge(ctx, inv, again=False):
    """Compare the verdict of InventoryValidator with the reference."""
    want = ref_inventory(inv)
    iv = InventoryValidator()
    got = iv.validate(inv)
    ctx.check(got is True or got is False, "the verdict is a boolean")
    ctx.check(got == (iv.log.num_errors == 0), "invalid exactly when an error is logged")
    if again:
        log = ValidationLogger(log_warnings=True)
        log.error("E001a", file="x")
        other = InventoryValidator(log=log, where="root")
        ctx.check(other.validate(inv) == got, "same verdict with a log that has entries")
        ctx.check(log.num_errors == iv.log.num_errors + 1, "same errors with a log that has entries")
        described(ctx, log)
    if want is None:
        ctx.reach("not specified")
    elif want:
        ctx.check(got, "a valid inventory is accepted", log=str(iv.log))
    else:
        ctx.check(not got, "an invalid inventory is refused")
    if want and got:
        ctx.check(iv.id == inv["id"], "identifier extracted")
        ctx.check(iv.head == inv["head"], "head extracted")
        ctx.check(iv.digest_algorithm == inv["digestAlgorithm"], "digest algorithm extracted")
        ctx.check("https://ocfl.io/" + iv.spec_version + "/spec/#inventory" == inv["type"], "specification version extracted")
        ctx.check(list(iv.all_versions) == sorted(inv["versions"].keys(), key=vnum), "versions extracted in order")


def structure(ctx, muts=1, alg=("sha512", "sha256"), full=(True, False)):
    """The base inventory with structural changes at arbitrary positions."""
    inv = base(ctx.choice("alg", alg), ctx.choice("full", full))
    for i in range(muts):
        inv = mutate(ctx, inv, str(i))
    judge(ctx, inv, again=True)


def strings(ctx, slot, lo=0, hi=0, alphabet=None, template="", free=(), edit=False):
    """The base inventory with an arbitrary string in one place."""
    inv = base(full=slot not in ("cd_unset",))
    s = ""
    if edit:        # up to hi characters put in, up to two taken out, anywhere
        i = ctx.choice("at", range(len(template) + 1))
        s = template[:i] + ctx.str("s", lo, hi, alphabet) + template[i + ctx.choice("drop", (0, 1, 2)):]
    else:
        for i, c in enumerate(template):
            s = s + (ctx.str("c%d" % i, 1, 1, alphabet) if i in free else c)
        if hi > 0 or template == "":
            s = s + ctx.str("s", lo, hi, alphabet)
    v1, v2 = inv["versions"]["v1"], inv["versions"]["v2"]
    if slot in ("id", "type", "digestAlgorithm", "head"):
        inv[slot] = s
    elif slot == "cd":
        inv["contentDirectory"] = s
        inv["manifest"] = {DA: ["v1/" + s + "/a"], DB: ["v2/" + s + "/b"]}
        inv["fixity"] = {}
    elif slot == "cd_empty":
        inv["contentDirectory"] = s
        inv["manifest"], inv["fixity"], v1["state"], v2["state"] = {}, {}, {}, {}
    elif slot == "cd_unset":
        inv["manifest"][DA] = ["v1/" + s + "/a"]
    elif slot == "mpath":
        inv["manifest"][DA] = [s]
        inv["fixity"] = {}
    elif slot == "mpath_c":
        inv["contentDirectory"] = "c"
        inv["manifest"] = {DA: ["v1/c/a"], DB: [s]}
        inv["fixity"] = {}
    elif slot == "mpath_v":
        inv["manifest"] = {DA: [s], DB: ["v2/content/b"]}
        inv["fixity"] = {}
    elif slot == "spath":
        v2["state"][DB] = [s]
    elif slot == "created":
        v1["created"] = s
    elif slot == "message":
        v1["message"] = s
    elif slot == "name":
        ctx.assume(s != "")
        v1["user"]["name"] = s
    elif slot == "address":
        v1["user"]["address"] = s
    elif slot == "fixity_path":
        inv["fixity"] = {"md5": {MA: [s]}}
    elif slot == "version":
        inv["versions"] = {"v1": v1, s: v2}
        inv["head"] = s if ctx.boolean("head") else "v2"
    judge(ctx, inv)


def two_versions(ctx, hi=3, alphabet="v0123"):
    """Arbitrary names for both versions, head one of them."""
    inv = base(full=False)
    a, b = "v" + ctx.str("a", 0, hi, "0123"), "v" + ctx.str("b", 0, hi, "0123")
    ctx.assume(a != b)
    inv["versions"] = {a: inv["versions"]["v1"], b: inv["versions"]["v2"]}
    inv["manifest"] = {DA: [a + "/content/a"], DB: [b + "/content/b"]}
    inv["head"] = ctx.choice("head", (a, b))
    judge(ctx, inv)


def many_versions(ctx, width, hi):
    """n versions named with a width, one of them renamed or missing."""
    n = ctx.int("n", 1, hi)
    n = ctx.concrete(n)
    fmt = "v%0" + str(width) + "d" if width else "v%d"
    inv = base(full=False)
    block = inv["versions"]["v1"]
    names = [fmt % i for i in range(1, n + 1)]
    odd = ctx.choice("odd", ("", "missing", "renamed", "extra"))
    k = ctx.choice("k", range(n)) if odd in ("missing", "renamed") else 0
    if odd == "missing":
        del names[k]
    elif odd == "renamed":
        names[k] = ctx.choice("new", ("v0", "v%d" % (k + 1), "v0%d" % (k + 1), "v00%d" % (k + 1), "v%d" % (n + 2), "w1"))
    elif odd == "extra":
        names.append(ctx.choice("new", ("v0", "v%d" % (n + 1), "v0%d" % (n + 1), "v1.", "v%d" % (n + 2))))
    ctx.assume(len(names) > 0)
    inv["versions"] = {}
    for v in names:
        inv["versions"][v] = {"created": "2020-01-02T03:04:05Z", "state": {DA: ["a"]}}
    ctx.assume(len(inv["versions"]) == len(names))
    inv["manifest"] = {DA: [names[0] + "/content/a"]}
    inv["head"] = names[-1] if len(names) < 2 or ctx.boolean("last") else names[-2]
    judge(ctx, inv)


def two_paths(ctx, where, lo, hi, alphabet="a/", third=False):
    """Two arbitrary paths in one state block or in the manifest: duplicates and file/directory conflicts."""
    inv = base(full=False)
    pre = ctx.choice("pre", ("", "x/y/", "x/y/z/w/v/"))
    p, q = pre + ctx.str("p", lo, hi, alphabet), pre + ctx.str("q", lo, hi, alphabet)
    split = ctx.boolean("split")
    if where == "state":
        inv["versions"]["v2"]["state"] = {DA: [p], DB: [q]} if split else {DA: [p, q], DB: ["z"]}
    else:
        p, q = "v1/content/" + p, ctx.choice("vq", ("v1/", "v2/")) + "content/" + q
        inv["manifest"] = {DA: [p], DB: [q]} if split else {DA: [p, q], DB: ["v1/content/z"]}
    judge(ctx, inv)


def states(ctx, n, m):
    """Which of m digests the manifest and the states of 1..n versions list."""
    n = ctx.choice("n", range(1, n + 1))
    ds = [DA, DB, DC][:m]
    inv = base(full=False)
    inv["manifest"] = {d: ["v1/content/f%d" % i] for i, d in enumerate(ds) if ctx.boolean("manifest %d" % i)}
    inv["versions"] = {}
    for k in range(1, n + 1):
        inv["versions"]["v%d" % k] = {"created": "2020-01-02T03:04:05Z",
                                      "state": {d: ["p%d" % i] for i, d in enumerate(ds) if ctx.boolean("v%d %d" % (k, i))}}
    inv["head"] = "v%d" % n
    judge(ctx, inv)


def fixity_odd(ctx):
    """A fixity block beside manifests of every form."""
    inv = base(full=False)
    kind = ctx.choice("manifest", ("full", "empty", "missing", "null", "list", "odd paths", "no paths"))
    inv["manifest"] = {"full": {DA: ["v1/content/a"]}, "empty": {}, "missing": {}, "null": None, "list": [], "odd paths": {DA: [7]}, "no paths": {DA: []}}[kind]
    if kind == "missing":
        del inv["manifest"]
    for v in inv["versions"]:
        inv["versions"][v]["state"] = {DA: ["a"]} if kind in ("full", "odd paths", "no paths") and ctx.boolean("used") else {}
    paths = []
    for i in range(ctx.choice("n", range(3))):
        paths.append(ctx.choice("p%d" % i, ("v1/content/a", "v1/content/b", "a", 7, None)))
    inv["fixity"] = {"md5": {MA: paths}}
    judge(ctx, inv)


def digests(ctx, where, alg="sha512", pos=0):
    """Arbitrary characters in digests: form, case, agreement between manifest and state, duplicates."""
    n = LENGTHS[alg] if where != "fixity" else 128
    inv = base("sha256" if alg == "sha256" else "sha512", full=False)
    da, db = DA[:n], DB[:n]
    c = ctx.str("c", 0, 2)
    x = da[:pos] + c + da[pos + 1:]
    if where == "manifest":
        inv["manifest"] = {x: ["v1/content/a"], db: ["v2/content/b"]}
        same = ctx.boolean("same")
        y = x if same else da[:pos] + ctx.str("y", 1, 1, HEX + "g") + da[pos + 1:]
        inv["versions"]["v1"]["state"] = {y: ["a"]}
        inv["versions"]["v2"]["state"] = {y: ["a"], db: ["b"]}
    elif where == "two":
        y = da[:pos] + ctx.str("y", 1, 1, HEX) + da[pos + 1:]
        ctx.assume(x != y)
        inv["manifest"] = {x: ["v1/content/a"], y: ["v2/content/b"]}
        inv["versions"]["v1"]["state"] = {x: ["a"]}
        inv["versions"]["v2"]["state"] = {x: ["a"], y: ["b"]}
    else:
        m = LENGTHS[alg]
        x = da[:m][:pos] + c + da[:m][pos + 1:]
        y = da[:m][:pos] + ctx.str("y", 1, 1, HEX) + da[:m][pos + 1:]
        ctx.assume(x != y)
        inv["fixity"] = {alg: {x: ["v1/content/a"], y: ["v2/content/c"]}}
    judge(ctx, inv)


def fixity_names(ctx, lo, hi):
    """Arbitrary names of fixity algorithms."""
    inv = base(full=False)
    a = ctx.choice("prefix", ("", "md", "sha", "sha1", "sha256", "sha512", "blake2b-", "blake2b-16", "blake2b-38")) + ctx.str("a", lo, hi)
    ctx.assume(a != "sha512-spec-ex" and a != "sha256-spec-ex" and a != "sha512/256")
    inv["fixity"] = {a: {DA[:ctx.choice("n", (32, 40, 64, 96, 128))]: ["v1/content/a"]}}
    judge(ctx, inv)
