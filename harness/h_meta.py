"""Version metadata and BagIt bags as source and destination (C26)."""
import ocfl
from ocfl.bagger import bag_as_source, bag_extracted_version, BaggerError
from ocfl.inventory import Inventory, InventoryException
from ocfl.version_metadata import VersionMetadata
from ocfl.w3c_datetime import str_to_datetime
from harness.lib import digest

FIELDS = ("created", "message", "name", "address")


def block(ctx, tag, hi=1, alphabet=None, with_user=True):
    """A version block with any subset of the metadata; returns (block, expected values)."""
    b, want = {"state": {}}, {"created": None, "message": None, "name": None, "address": None}
    if ctx.boolean(tag + " created"):
        want["created"] = b["created"] = "2020-01-02T03:04:0%dZ" % (1 if tag == "v1" else 2)
    if ctx.boolean(tag + " message"):
        want["message"] = b["message"] = ctx.str(tag + ".message", 0, hi, alphabet)
    if with_user:
        user = {}
        if ctx.boolean(tag + " name"):
            want["name"] = user["name"] = ctx.str(tag + ".name", 0, hi, alphabet)
        if ctx.boolean(tag + " address"):
            want["address"] = user["address"] = ctx.str(tag + ".address", 0, hi, alphabet)
        if len(user) > 0 or ctx.boolean(tag + " empty user"):
            b["user"] = user
    return b, want


def from_inventory(ctx, hi=1):
    """Metadata of the version asked for, and of no other."""
    inv = {"id": ctx.str("id", 0, 1)}
    want = {}
    vb = {}
    for v in ("v1", "v2"):
        vb[v], want[v] = block(ctx, v, hi, with_user=v == "v2")
    has = ctx.choice("versions", ("both", "none", "absent"))
    if has != "absent":
        inv["versions"] = vb if has == "both" else {}
    head = ctx.choice("head", ("v2", "v1", None, "v3"))
    if head is not None:
        inv["head"] = head
    ask = ctx.choice("version", (None, "v1", "v2", "v3", "v", ""))
    pick = ask if ask is not None else head
    given = ctx.choice("given", (None, "as object"))
    raised = False
    try:
        m = VersionMetadata(inventory=Inventory(inv) if given else inv, version=ask)
    except InventoryException:
        raised = True
    ok = has == "both" and pick in ("v1", "v2")
    ctx.check(raised == (not ok), "refused exactly without such a version")
    if raised:
        return
    ctx.check(m.id == inv["id"], "object identifier")
    ctx.check(m.version == pick, "version")
    for f in FIELDS:
        got = getattr(m, f)
        ctx.check(got == want[pick][f] and (got is None) == (want[pick][f] is None), "the metadata of that version")
    d = m.as_dict()
    for k in ("message",):
        ctx.check((k in d) == (want[pick][k] is not None) and (k not in d or d[k] == want[pick][k]), "as_dict has exactly what is set")
    if want[pick]["created"] is not None:
        ctx.check(d["created"] == want[pick]["created"], "as_dict keeps the time")
    else:
        str_to_datetime(d["created"])
    user = {}
    for k in ("name", "address"):
        if want[pick][k] is not None:
            user[k] = want[pick][k]
    ctx.check(d.get("user", {}) == user, "as_dict has exactly the user data set")
    for k in d:
        ctx.check(k in ("created", "message", "user"), "as_dict has nothing else")


def survives(got, s):
    """A value as a bag can hold it: on one line."""
    if got is None:
        got = ""
    if len(s.splitlines()) <= 1 and not s.endswith("\n"):
        return got == s.strip()
    return "".join(got.split()) == "".join(s.split())


def bag_roundtrip(ctx, hi=2, alphabet=None, only=None):
    """A version saved as a bag and read back has the same content and metadata."""
    data = {"a": ctx.sel("da", [b"", b"x", b"\xff\x00"]), "d/b": b"yy"}
    for p in data:
        ctx.put("bag/" + p, data[p])
    vals = {}
    for f in ("id", "message", "name", "address"):
        kind = ctx.choice("has " + f, (None, "text")) if only is None or f == only else None
        vals[f] = None if kind is None else ctx.str(f, 0 if only is None or f != only else 0, hi if f == only else 1, alphabet)
        if f == "address" and kind is not None and ctx.boolean("mailto"):
            vals[f] = "mailto:" + vals[f]
    created, setdate = None, False
    if only is None:
        created = ctx.choice("created", (None, "2019-02-28T12:00:00Z", "2020-01-01T00:00:00.5+01:00"))
        setdate = ctx.boolean("set date")
    m = VersionMetadata(created=created, message=vals["message"], name=vals["name"], address=vals["address"])
    m.id = vals["id"]
    bag_extracted_version(ctx.path("bag"), m, set_bagging_date=setdate)
    ctx.check(ctx.files("bag/data") == data, "the bag holds exactly the content")
    before = ctx.snapshot("")
    m2 = VersionMetadata()
    src = bag_as_source(ctx.path("bag"), m2)
    ctx.check(src == ctx.path("bag/data"), "content directory of the bag")
    ctx.check(ctx.snapshot("") == before, "reading a bag changes nothing")
    for f in ("id", "message", "name"):
        got = getattr(m2, f)
        if vals[f] is None:
            ctx.check(got is None, "what was not set stays unset")
        else:
            ctx.check(survives(got, vals[f]), "the metadata survives")
    a = vals["address"]
    if a is None or not a.startswith("mailto:"):
        ctx.check(m2.address is None, "only an e-mail address goes into a bag")
    elif m2.address is None:
        ctx.check(survives(None, a[7:]), "the address survives")
    else:
        ctx.check(m2.address.startswith("mailto:") and survives(m2.address[7:], a[7:]), "the address survives")
    ctx.check(m2.created is not None and str_to_datetime(m2.created) >= 0, "the time is usable")
    if setdate and created is not None:
        ctx.check(m2.created == created[:10] + "T00:00:00Z", "the date survives if asked for")
    # values given take precedence
    given = ctx.choice("given", FIELDS + ("id",) if only is None else (only, "created"))
    m3 = VersionMetadata()
    value = "2001-01-01T01:01:01Z" if given == "created" else "given"
    setattr(m3, given, value)
    bag_as_source(ctx.path("bag"), m3)
    for f in FIELDS + ("id",):
        ctx.check(getattr(m3, f) == (value if f == given else getattr(m2, f)), "only what is not given is taken from the bag")


def hand_bag(ctx, info=None, base="bag"):
    files = {"data/a": b"x", "data/d/b": b"yy"}
    for p in files:
        ctx.put(base + "/" + p, files[p])
    ctx.put(base + "/manifest-sha512.txt", "".join(digest("sha512", files[p]) + "  " + p + "\n" for p in sorted(files)))
    ctx.put(base + "/bagit.txt", "BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n")
    if info is not None:
        ctx.put(base + "/bag-info.txt", info)


def bag_refused(ctx):
    """A bag that is not valid is refused with BaggerError and nothing changes."""
    hand_bag(ctx)
    what = ctx.choice("what", ("none", "changed", "missing", "extra", "extra directory", "no manifest", "no bagit.txt", "no data", "oxum", "not there", "file",
                               "digest", "unlisted", "extra tag"))
    if what == "changed":
        c = ctx.str("c", 1, 1)
        ctx.assume(c != "x")
        ctx.put("bag/data/a", c)
    elif what == "missing":
        ctx.remove("bag/data/d/b")
    elif what == "extra":
        ctx.put("bag/data/" + ctx.choice("dir", ("", "d/", "e/")) + ctx.str("n", 1, 1, "abc.") + "z", "x")
    elif what == "extra directory":
        ctx.mkdir("bag/data/e")
    elif what == "no manifest":
        ctx.remove("bag/manifest-sha512.txt")
    elif what == "no bagit.txt":
        ctx.remove("bag/bagit.txt")
    elif what == "no data":
        ctx.remove("bag/data")
    elif what == "oxum":
        ctx.put("bag/bag-info.txt", "Payload-Oxum: " + ctx.choice("oxum", ("3.1", "4.2", "x.2")) + "\n")
    elif what == "not there":
        ctx.remove("bag")
    elif what == "file":
        ctx.remove("bag")
        ctx.put("bag", "x")
    elif what == "digest":
        ctx.put("bag/manifest-sha512.txt", digest("sha512", b"x") + "  data/a\n" + digest("sha512", b"z") + "  data/d/b\n")
    elif what == "unlisted":
        ctx.put("bag/manifest-sha512.txt", digest("sha512", b"x") + "  data/a\n")
    elif what == "extra tag":
        ctx.put("bag/notes.txt", "x")
    before = ctx.snapshot("")
    m = VersionMetadata()
    raised = False
    try:
        bag_as_source(ctx.path("bag"), m)
    except BaggerError:
        raised = True
    ctx.check(raised == (what not in ("none", "extra directory", "extra tag")), "refused exactly if the bag is not valid")
    ctx.check(ctx.snapshot("") == before, "nothing changes")
    if raised:
        for f in FIELDS + ("id",):
            ctx.check(getattr(m, f) is None, "no metadata is taken from a refused bag")


TAGS = (("External-Identifier", "id"), ("External-Description", "message"), ("Contact-Name", "name"), ("Contact-Email", "address"), ("Bagging-Date", "created"))


def bag_tags(ctx, hi=2):
    """Whatever bag-info.txt holds, the metadata taken is usable."""
    tag, field = ctx.choice("tag", TAGS)
    n = ctx.choice("occurrences", (1, 2))
    value = ctx.choice("date", ("2020-01-02", "2020-13-02", "2020", "20200102", "")) if field == "created" else ctx.str("value", 0, hi, "ab: \t\u00e9")
    line = tag + ":" + ctx.choice("sep", (" ", "", "  ")) + value + "\n"
    hand_bag(ctx, line + ("" if n == 1 else tag + ": other\n"))
    m = VersionMetadata()
    try:
        bag_as_source(ctx.path("bag"), m)
    except BaggerError:
        ctx.check(field == "created" and value != "2020-01-02", "a valid bag with usable metadata is accepted")
        return
    got = getattr(m, field)
    for f in FIELDS + ("id",):
        v = getattr(m, f)
        ctx.check(v is None or isinstance(v, str), "metadata is text")
        if f != field:
            ctx.check(v is None, "no other value is set")
    if field == "created":
        if got is not None:
            str_to_datetime(got)
            ctx.check(value != "2020-01-02" or got == "2020-01-02T00:00:00Z", "the date of the bag")
    elif value.strip() != "":
        ctx.check(got == ("mailto:" if field == "address" else "") + value.strip(), "the (first) value of the tag")
