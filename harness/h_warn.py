"""Warnings: every departure from a recommendation is reported exactly once and never changes the verdict (C29)."""
from ocfl.inventory_validator import InventoryValidator
from ocfl.storage_root import StorageRoot
from ocfl.validation_logger import ValidationLogger
from ocfl.validator import Validator
from harness.h_inventory import DA, DB, MA
from harness.lib import put_inventory, write_object

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
SCHEME = LETTERS + "0123456789+-."


def is_uri(s):
    """scheme ":" rest, with a scheme per RFC 3986."""
    k = s.find(":")
    if k < 1 or k + 1 >= len(s) or s[k + 1] == "\n":
        return False
    if s[0] not in LETTERS:
        return False
    for c in s[:k]:
        if c not in SCHEME:
            return False
    return True


def same_warnings(ctx, log, want):
    """The warnings in the log are exactly want (code -> how often)."""
    total = 0
    for code in sorted(want.keys()):
        total += want[code]
    ctx.check(log.num_warnings == total, "number of warnings", got=log.num_warnings, want=total)
    for code in sorted(want.keys()):
        n = 0
        for m in log.messages:
            if m.startswith("[" + code + "]"):
                n += 1
        ctx.check(n == want[code], "warned about " + code + " once per occurrence", got=n, want=want[code])
    for code in log.codes.keys():
        ctx.check(code in want and want[code] > 0, "no other warnings", code=code)


def inventory(ctx, widths=(0, 2, 4), lo=0, hi=3, alphabet=None, what="blocks"):
    """A valid inventory with two versions that departs from the recommendations in any way."""
    want = {"W001": 0, "W004": 0, "W005": 0, "W007a": 0, "W007b": 0, "W008": 0, "W009": 0}
    alg, width, oid = "sha512", 0, "info:a"
    addresses = ["mailto:n@e.org", "mailto:n@e.org"]
    msg, user, addr = ["m", "m"], [True, True], [True, True]
    name = "n"
    if what == "blocks":
        alg = ctx.choice("alg", ("sha512", "sha256"))
        width = ctx.choice("width", widths)
        for i in (0, 1):
            msg[i], user[i] = ctx.choice("message%d" % i, (None, "", "m")), ctx.boolean("user%d" % i)
            addr[i] = ctx.boolean("address%d" % i) if user[i] else True
    elif what == "id":
        oid = ctx.str("id", 1, hi, alphabet)
        if ctx.boolean("stem"):
            oid = ctx.choice("s", ("ab:", "a+", "1")) + oid
    elif what == "address":
        addresses[1] = ctx.choice("s", ("", "mailto:", "orcidid:", "x")) + ctx.str("address", lo, hi, alphabet)
    elif what == "texts":
        msg[0], name = ctx.str("message", lo, hi, alphabet), ctx.str("name", 1, hi, alphabet)
    n = 128 if alg == "sha512" else 64
    da, db = DA[:n], DB[:n]
    names = ["v%0*d" % (width, i + 1) if width else "v%d" % (i + 1) for i in (0, 1)]
    inv = {"id": oid, "type": "https://ocfl.io/" + ctx.choice("spec", ("1.0", "1.1")) + "/spec/#inventory", "digestAlgorithm": alg,
           "head": names[1], "manifest": {da: [names[0] + "/content/a"], db: [names[1] + "/content/b"]}, "versions": {}}
    if ctx.boolean("fixity"):
        inv["fixity"] = {"md5": {MA: [names[0] + "/content/a"]}}
    for i in (0, 1):
        block = {"created": "2020-01-02T03:04:05Z", "state": {da: ["a"]} if i == 0 else {da: ["a"], db: ["b"]}}
        if msg[i] is not None:
            block["message"] = msg[i]
        else:
            want["W007a"] += 1
        if user[i]:
            block["user"] = {"name": name}
            if addr[i]:
                block["user"]["address"] = addresses[i]
                if not is_uri(addresses[i]):
                    want["W009"] += 1
            else:
                want["W008"] += 1
        else:
            want["W007b"] += 1
        inv["versions"][names[i]] = block
    if alg == "sha256":
        want["W004"] = 1
    if width:
        want["W001"] = 1
    if not is_uri(oid):
        want["W005"] = 1
    iv = InventoryValidator(log=ValidationLogger(log_warnings=True), where="root")
    ctx.check(iv.validate(inv), "recommendations never make an inventory invalid", log=str(iv.log))
    ctx.check(iv.log.num_errors == 0, "no errors")
    same_warnings(ctx, iv.log, want)
    ctx.reach("valid")


def objects(ctx, hi=1):
    """A valid object with three versions that departs from the recommendations in its files or its earlier inventories."""
    versions = [{"a": b"x"}, {"a": b"x", "b": b"y"}, {"a": b"x"}]
    want = {"W002": 0, "W003": 0, "W010": 0, "W011": 0, "W013": 0, "W007a": 0}
    write_object(ctx, "obj", versions)
    vdirs = ["v1", "v2", "v3"]
    missing = []
    what = ctx.choice("what", ("inventories", "directories", "extensions", "metadata", "logs"))
    if what == "inventories":
        for v in vdirs:
            if ctx.boolean("without " + v):
                missing.append(v)
                ctx.remove("obj/" + v + "/inventory.json")
                ctx.remove("obj/" + v + "/inventory.json.sha512")
                want["W010"] += 1
        if "v3" in missing:
            ctx.mkdir("obj/v3")
        if ctx.boolean("empty content"):
            ctx.mkdir("obj/v3/content")
            want["W003"] += 1
    elif what == "directories":
        for v in vdirs:
            extra = ctx.choice("extra " + v, ("", "one", "two", "empty content"))
            if extra in ("one", "two"):
                name = ctx.choice("stem", ("", "content", "inventory", "v", "logs", "extensions")) + ctx.str("name", 0, hi) if v == "v1" else "x"
                ctx.assume(name not in ("", ".", "..", "content") and "/" not in name and "\0" not in name)
                ctx.put("obj/" + v + "/" + name + "/f", b"f")
                want["W002"] += 1
                if extra == "two":
                    ctx.mkdir("obj/" + v + "/" + "content2")
                    ctx.assume(name != "content2")
                    want["W002"] += 1
            elif extra == "empty content":
                ctx.assume(v == "v3")
                ctx.mkdir("obj/" + v + "/content")
                want["W003"] += 1
    elif what == "extensions":
        for name in ("0001-digest-algorithms", "0005-mutable-head"):
            if ctx.boolean(name):
                ctx.put("obj/extensions/" + name + "/x", b"x")
        if ctx.boolean("other"):
            name = ctx.choice("stem", ("", "000", "0005-mutable-hea", "0001-digest-algorithms")) + ctx.str("name", 0, hi)
            ctx.assume(name not in ("", ".", "..") and "/" not in name and "\0" not in name)
            ctx.assume(not ctx.exists("obj/extensions/" + name))
            ctx.mkdir("obj/extensions/" + name)
            if name not in ("0001-digest-algorithms", "0005-mutable-head"):
                want["W013"] += 1
        if ctx.boolean("unregistered"):
            ctx.put("obj/extensions/my-extension/x", b"x")
            want["W013"] += 1
    elif what == "metadata":
        root = ctx.readjson("obj/inventory.json")
        for i, v in enumerate(vdirs):
            for key in ("created", "message", "user"):
                if not ctx.boolean(v + " " + key):
                    continue
                if key == "created":
                    root["versions"][v][key] = "2021-01-01T00:00:00Z"
                elif key == "message":
                    how = ctx.choice("how", ("another", "empty", "missing", "missing from empty"))
                    if how == "missing from empty":
                        for w in ("v1", "v2")[i:]:
                            old = ctx.readjson("obj/" + w + "/inventory.json")
                            old["versions"][v][key] = ""
                            put_inventory(ctx, "obj/" + w, old, "sha512")
                    if how in ("another", "empty"):
                        root["versions"][v][key] = "another" if how == "another" else ""
                    else:
                        root["versions"][v].pop(key)
                        want["W007a"] += 1
                else:
                    root["versions"][v][key] = {"name": "other", "address": "mailto:n@example.org"}
                want["W011"] += 2 - i if i < 2 else 0     # the inventories of v1 and v2 that list this version
        put_inventory(ctx, "obj", root, "sha512")
        put_inventory(ctx, "obj/v3", root, "sha512")
    else:
        ctx.put("obj/logs/" + ctx.choice("log", ("a", "d/b")), b"log")
    for digests in (True, False):
        v = Validator(log_warnings=True, check_digests=digests)
        ctx.check(v.validate_object(ctx.path("obj")), "recommendations never make an object invalid", log=str(v))
        same_warnings(ctx, v.log, want)
    ctx.reach("valid")


REGISTERED = ("0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout",
              "0006-flat-omit-prefix-storage-layout", "0007-n-tuple-omit-prefix-storage-layout")


def root(ctx, hi=1):
    """A valid storage root with any directories in its extensions directory."""
    ctx.put("root/0=ocfl_1.1", "ocfl_1.1\n")
    if ctx.boolean("object"):
        write_object(ctx, "root/a", [{"a": b"x"}])
    want = 0
    for name in REGISTERED[:2]:   # later additions to the registry are left open
        if ctx.boolean(name):
            ctx.mkdir("root/extensions/" + name)
    if ctx.boolean("other"):
        name = ctx.choice("stem", ("", "000", "0002-flat-direct-storage-layout")) + ctx.str("name", 0, hi)
        ctx.assume(name not in ("", ".", "..") and "/" not in name and "\0" not in name and name not in REGISTERED)
        ctx.put("root/extensions/" + name + "/x", b"x")
        want += 1
    if ctx.boolean("unregistered"):
        ctx.mkdir("root/extensions/my-extension")
        want += 1
    sr = StorageRoot(root=ctx.path("root"))
    ctx.check(sr.validate(log_warnings=True), "recommendations never make a storage root invalid", log=str(sr.log))
    same_warnings(ctx, sr.log, {"W901": want})
    ctx.reach("valid")
