"""Harnesses: digests, version directory names, Namaste, datetimes, validation log, file helpers (C05-C10)."""
import re
import hashlib
import ocfl.digest
from ocfl.digest import file_digest, string_digest, normalized_digest, digest_regex
from ocfl.inventory_validator import InventoryValidator
from ocfl.object_utils import (parse_version_directory, next_version_directory, first_version_directory, find_path_type,
                               make_unused_filepath, remove_first_directory, ObjectException)
from ocfl.namaste import Namaste, find_namastes, get_namaste, NamasteException
from ocfl.w3c_datetime import str_to_datetime, datetime_to_str
from ocfl.validation_logger import ValidationLogger
from ocfl.fsw import (fsw_openfs, fsw_copyfile, fsw_copydir, fsw_files_identical, fsw_walk, fsw_walk_files,
                      fsw_listdir_names, fsw_opendir_as_fs, fsw_readtext, FswException)
import ocfl.fsw

HEXLOWER = "0123456789abcdef"
HEXANY = HEXLOWER + "ABCDEF"
LENGTHS = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32,
           "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}


def is_hex(ctx, c, chars=HEXANY):
    return ctx.any([ctx.eq(c, h) for h in chars])


# ------------------------------------------------------------------ C05
def key_inventory(alg, digest, fixity_alg=None):
    good = "a" * LENGTHS[alg]
    inv = {"id": "info:a", "type": "https://ocfl.io/1.1/spec/#inventory", "digestAlgorithm": alg, "head": "v1",
           "manifest": {good: ["v1/content/a"]},
           "versions": {"v1": {"created": "2020-01-01T00:00:00Z", "message": "m",
                               "user": {"name": "n", "address": "mailto:a@b.c"}, "state": {good: ["a"]}}}}
    if fixity_alg is None:
        inv["manifest"] = {digest: ["v1/content/a"]}
        inv["versions"]["v1"]["state"] = {digest: ["a"]}
    else:
        inv["fixity"] = {fixity_alg: {digest: ["v1/content/a"]}}
    return inv


def digest_key(ctx, alg, where, length, free):
    """A digest string is accepted in an inventory iff it is hexadecimal of exactly the algorithm's length."""
    d = ""
    conds = []
    for i in range(length):
        if i in free or (i - length) in free:
            c = ctx.str("c%d" % i, 1)
            conds.append(is_hex(ctx, c))
            d = d + c
        else:
            d = d + HEXLOWER[i % 16]
    conds.append(length == LENGTHS[alg])
    wellformed = ctx.all(conds)
    lax = where == "lax"
    iv = InventoryValidator(lax_digests=lax)
    if where == "fixity":
        ok = iv.validate(key_inventory("sha512", d, alg))
    else:
        ok = iv.validate(key_inventory(alg, d))
    ctx.observe("ok", ok)
    if ok:
        ctx.check(wellformed, "an accepted digest is hexadecimal of the right length")
    else:
        ctx.check(ctx.no(wellformed), "a well-formed digest is accepted")


def digest_normal(ctx, alg, k):
    """Normalisation: idempotent, case-insensitive, and nothing else is identified."""
    n = LENGTHS[alg]
    a, b = "", ""
    for i in range(k):
        a = a + ctx.str("a%d" % i, 1, 1, HEXANY)
        b = b + ctx.str("b%d" % i, 1, 1, HEXANY)
    pad = "0" * (n - k)
    a, b = a + pad, b + pad
    na, nb = normalized_digest(a, alg), normalized_digest(b, alg)
    ctx.observe("na", na)
    ctx.check(normalized_digest(na, alg) == na, "normalisation is idempotent")
    ctx.check(ctx.all([is_hex(ctx, c, HEXLOWER) for c in na[:k]]), "normal form is lower-case hexadecimal")
    same = ctx.all([ctx.eq(lower_hex(ctx, x), lower_hex(ctx, y)) for x, y in zip(a[:k], b[:k])])
    if na == nb:
        ctx.check(same, "digests with the same normal form differ in case only")
    else:
        ctx.check(ctx.no(same), "digests that differ in case only have the same normal form")


def lower_hex(ctx, c):
    for u, l in zip("ABCDEF", "abcdef"):
        if c == u:
            return l
    return c


def ref_hash(alg, data):
    if alg == "sha512-spec-ex":
        h = hashlib.sha512(data).hexdigest()
        return h[:15] + "..." + h[-3:]
    if alg == "sha256-spec-ex":
        h = hashlib.sha256(data).hexdigest()
        return h[:6] + "..." + h[-3:]
    if alg.startswith("blake2b"):
        return hashlib.blake2b(data, digest_size=int(alg[8:]) // 8).hexdigest()
    return hashlib.new(alg, data).hexdigest()


ALGS = ["sha512", "sha256", "sha1", "md5", "blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160",
        "sha512-spec-ex", "sha256-spec-ex"]


def digest_file(ctx, buf, lo, hi):
    """file_digest hashes exactly the file's bytes, however many read() calls that takes."""
    alg = ctx.choice("alg", ALGS)
    n = ctx.choice("n", range(lo, hi + 1))
    data = b""
    for i in range(n):
        data = data + ctx.sel("b%d" % i, [b"\x00", b"a", b"\n", b"\r", b"\xff"])
    small_buffers(buf)
    ctx.put("d/f", data)
    fs = fsw_openfs(ctx.path("d"))
    d = file_digest("f", alg, fs=fs)
    ctx.check(d == ref_hash(alg, data), "file digest equals the digest of the whole content")
    ctx.check(normalized_digest(d, alg) == d, "file digests are in normal form")
    ctx.check(re.match(digest_regex(alg), d) is not None, "file digests match the pattern of their algorithm")


def digest_bytes(ctx):
    """Every byte of the file counts, whatever its value and whatever the content looks like."""
    alg = ctx.choice("alg", ("sha512", "md5", "blake2b-160"))
    pre = ctx.choice("pre", (b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff\x00", b"\x1f\x8b\x08", b"#!", b" \n"))
    post = ctx.choice("post", (b"", b"\n", b"\r\n", b"\x1a", b"\x00", b"\n\n"))
    b = ctx.sel("byte", [bytes([i]) for i in range(256)])
    ctx.put("d/f", pre + b + post)
    d = file_digest("f", alg, fs=fsw_openfs(ctx.path("d")))
    ctx.check(d == ref_hash(alg, pre + b + post), "file digest equals the digest of the whole content")
    ctx.check(file_digest(ctx.path("d/f"), alg) == d, "same for a local path")


def long_files(ctx):
    """Files of more than a thousand buffers: copied, compared and hashed to the last byte."""
    small_buffers(16)
    n = 16 * 1100 + ctx.choice("rest", (0, 1))
    at = ctx.choice("at", (0, 16 * 1024, n - 1))
    data = b"a" * at + ctx.sel("byte", [b"a", b"b"]) + b"a" * (n - at - 1)
    ctx.put("src/f", data)
    ctx.put("src/g", b"a" * n)
    fs = fsw_openfs(ctx.path("src"))
    what = ctx.choice("what", ("copy", "identical", "digest"))
    if what == "copy":
        fsw_copyfile(fs, "f", fs, "h")
        ctx.check(ctx.read("src/h") == data, "copy has exactly the source's bytes")
    elif what == "identical":
        ctx.check(fsw_files_identical(fs, "f", "g") == (data == b"a" * n), "identical iff equal bytes")
    else:
        ctx.check(file_digest("f", "sha512", fs=fs) == hashlib.sha512(data).hexdigest(), "file digest equals the digest of the whole content")


def small_buffers(n):
    """Shrink the read buffers (no effect on a tree without them)."""
    if n is None:
        return
    if hasattr(ocfl.digest, "BUFSIZE"):
        ocfl.digest.BUFSIZE = n
    if hasattr(ocfl.fsw, "BUFLEN"):
        ocfl.fsw.BUFLEN = n


def digest_big(ctx):
    """Contents around the real buffer sizes that differ in one byte at either end or at a buffer boundary."""
    n = ctx.choice("n", (65535, 65536, 65537, 131072, 131073))
    at = ctx.choice("at", (0, 65535, 65536, n - 1))
    if at >= n:
        return
    base = b"a" * at
    data = base + ctx.sel("byte", [b"a", b"b", b"\n"]) + b"a" * (n - at - 1)
    ctx.put("d/f", data)
    d = file_digest("f", "sha512", fs=fsw_openfs(ctx.path("d")))
    ctx.check(d == hashlib.sha512(data).hexdigest(), "file digest equals the digest of the whole content")


def digest_unknown(ctx):
    """Unknown digest types are refused with ValueError, never computed."""
    alg = ctx.str("alg", 0, 3)
    ctx.put("d/f", b"x")
    fs = fsw_openfs(ctx.path("d"))
    for fn in (lambda: file_digest("f", alg, fs=fs), lambda: digest_regex(alg), lambda: string_digest("x", alg)):
        r = None
        try:
            r = fn()
        except ValueError:
            r = "ValueError"
        ctx.check(r == "ValueError" or alg == "md5", "unknown digest type refused")


# ------------------------------------------------------------------ C06
DIG = "0123456789"


def digit_val(c):
    for i in range(10):
        if c == DIG[i]:
            return i
    return None


def ref_parse_vdir(s):
    """Version number for a well-formed version directory name, else None."""
    if len(s) < 2 or len(s) > 6 or s[0] != "v":
        return None
    n = 0
    for c in s[1:]:
        v = digit_val(c)
        if v is None:
            return None
        n = n * 10 + v
    return n if n > 0 else None


def vdir_parse(ctx, lo, hi, alphabet=None, first=""):
    s = first + ctx.str("s", lo, hi, alphabet)
    try:
        n = parse_version_directory(s)
    except ObjectException:
        n = None
    ctx.observe("n", n)
    r = ref_parse_vdir(s)
    if r is None:
        ctx.check(n is None, "malformed version directory name is refused")
    else:
        ctx.check(n is not None, "well-formed version directory name is accepted")
        ctx.check(n == r, "version number is the decimal value")


def vdir_next(ctx, lo, hi, alphabet=None, first=""):
    """The next directory parses to the next number, keeps the padding convention, or the overflow is refused."""
    s = first + ctx.str("s", lo, hi, alphabet)
    try:
        t = next_version_directory(s)
    except ObjectException:
        t = None
    ctx.observe("t", t)
    r = ref_parse_vdir(s)
    if r is None:
        if len(s) > 1 and s[0] == "v" and all(digit_val(c) is not None for c in s[1:]):
            return      # v0, v00, longer than five digits: not specified
        ctx.check(t is None, "no next directory for a malformed name")
        return
    padded = s[1] == "0"
    if padded and r + 1 >= 10 ** (len(s) - 2):
        ctx.check(t is None, "overflow of a zero-padded name is refused")
        return
    ctx.check(t is not None, "well-formed name has a next directory")
    exp = str(r + 1)
    if padded:
        exp = "0" * (len(s) - 1 - len(exp)) + exp
    ctx.check(t == "v" + exp, "next directory is the next number in the same convention")


def vdir_first(ctx):
    w = ctx.int("w", -1, 8)
    if ctx.boolean("none"):
        ctx.check(first_version_directory(None) == "v1", "unpadded first directory")
        return
    try:
        d = first_version_directory(w)
    except ObjectException:
        d = None
    if w < 2 or w > 5:
        ctx.check(d is None, "widths out of range are refused")
    else:
        ctx.check(d == "v" + "0" * (w - 1) + "1", "padded first directory")
        ctx.check(parse_version_directory(d) == 1, "first directory parses to 1")


def unused_path(ctx, k):
    """make_unused_filepath returns a path that is not in use, and the path itself when that is free."""
    base = ctx.str("base", 0, 2, "a_2")
    used = []
    for i in range(ctx.choice("fill", (0, 9, 30))):
        used.append(base + "__%d" % (i + 1))
    for i in range(ctx.choice("k", range(k + 1))):
        suf = ctx.choice("suf%d" % i, ("", "__1", "__2", "__3", "__4", "__5", "x", None))
        used.append("b/other%d" % i if suf is None else base + suf)
    if ctx.boolean("as_set"):
        used = set(used)
    r = make_unused_filepath(base, used)
    ctx.check(not any(r == u for u in used), "result is unused")
    ctx.check(r.startswith(base), "result extends the requested path")
    if not any(base == u for u in used):
        ctx.check(r == base, "unused path is returned unchanged")


def strip_first(ctx, lo, hi):
    """remove_first_directory drops exactly the first component of a path."""
    path = ctx.str("path", lo, hi, "ab/.")
    ctx.assume(not path.startswith("//"))   # POSIX leaves the meaning of two leading slashes open
    parts = [e for e in path.split("/") if e != ""]
    if not path.startswith("/"):
        parts = parts[1:]
    ctx.check(remove_first_directory(path) == "/".join(parts), "the first component is removed")


# ------------------------------------------------------------------ C07 Namaste
def namaste_roundtrip(ctx, lo, hi, alphabet=None, fixed=""):
    """A written declaration is found again with the same tvalue and its content is accepted."""
    content = fixed + ctx.str("content", lo, hi, alphabet)
    ctx.mkdir("d")
    fs = fsw_openfs(ctx.path("d"))
    d = ctx.choice("d", (0, 1))
    nam = Namaste(d, content)
    tv = nam.tvalue
    ctx.observe("tvalue", tv)
    ctx.check(len(tv) <= 40, "tvalue is at most 40 characters")
    ctx.check(not any(c in "/ \n\t\r\\\x00" for c in tv), "tvalue is a safe file name part")
    if tv == "":
        return
    via_dir = ctx.boolean("via_dir")
    if via_dir:
        nam.write(dir=ctx.path("d"))
    else:
        nam.write(fsw=fs)
    found = find_namastes(d, fsw=fs)
    ctx.check(len(found) == 1, "exactly the written declaration is found")
    ctx.check(found[0].tvalue == tv, "tvalue read back")
    ctx.check(found[0].filename == str(d) + "=" + tv, "file name is tag=tvalue")
    ctx.check(len(find_namastes(1 - d, fsw=fs)) == 0, "no declaration with another tag is found")
    ctx.check(found[0].content_ok(fsw=fs), "content of a written declaration is accepted")
    ctx.check(get_namaste(d, ctx.path("d")).content_ok(dir=ctx.path("d")), "same through the os interface")


def namaste_content(ctx, lo, hi, alphabet=None):
    """Content of a declaration file is accepted iff it maps to the tvalue of the file name."""
    tv = "ocfl_object_1.0"
    k = ctx.choice("keep", range(0, len(tv) + 1))
    content = tv[:k] + ctx.str("x", lo, hi, alphabet) + tv[k + ctx.choice("drop", (0, 1)):]
    ctx.put("d/0=" + tv, content)
    fs = fsw_openfs(ctx.path("d"))
    ok = find_namastes(0, fsw=fs)[0].content_ok(fsw=fs)
    ctx.observe("ok", ok)
    if ok:
        ctx.check(len(content.strip()) == len(tv), "accepted content has the declared length")
        for a, b in zip(content.strip(), tv):
            ctx.check(a == b or b == "_", "accepted content spells the tvalue")
    else:
        ctx.check(content.strip() != tv, "content equal to the tvalue is accepted")


def path_type(ctx, lo, hi, alphabet=None):
    """find_path_type: root / object / file exactly by the 0= declaration."""
    kind = ctx.choice("kind", ("object", "root", "neither", "file", "missing", "nodecl"))
    tail = ctx.str("v", lo, hi, alphabet)
    ctx.assume(ctx.all([ctx.no(ctx.any([ctx.eq(c, x) for x in "/\0"])) for c in tail]))
    if kind == "file":
        ctx.put("d/x", b"hello")
        ctx.check(find_path_type(ctx.path("d/x")) == "file", "file")
        return
    if kind == "missing":
        ctx.mkdir("d")
        r = find_path_type(ctx.path("d/x"))
        ctx.check(r not in ("file", "root", "object"), "missing path is neither")
        return
    if kind == "nodecl":
        ctx.put("d/1=ocfl_1.0", b"ocfl_1.0\n")
        r = find_path_type(ctx.path("d"))
        ctx.check(r not in ("file", "root", "object"), "directory without declaration is neither")
        return
    pre = {"object": "ocfl_object_", "root": "ocfl_", "neither": "x_"}[kind]
    ctx.put("d/0=" + pre + "1.0" + tail, b"x\n")
    r = find_path_type(ctx.path("d"))
    good = all(digit_val(c) is not None for c in tail) and kind != "neither"
    ctx.observe("r", r)
    if good:
        ctx.check(r == kind, "declaration determines the type")
    else:
        ctx.check(r not in ("file", "root", "object"), "no type without an exact declaration name")


def path_type_others(ctx, hi, alphabet=None):
    """Other entries beside the declaration do not change what a directory is taken for."""
    kind = ctx.choice("kind", ("object", "root", "none"))
    decl = {"object": "0=ocfl_object_1.1", "root": "0=ocfl_1.0", "none": None}[kind]
    if decl is not None:
        ctx.put("d/" + decl, b"x\n")
    n = ctx.choice("n", (0, 15))
    stem = ctx.choice("stem", ("a", "z", "ocfl_", "ocfl_object_"))
    for i in range(n):
        ctx.put("d/0=" + stem + "x%02d" % i, b"x\n")
    name = ctx.choice("name", ("0", "0x", "00=ocfl_1.0", "1=ocfl_object_1.0", "=", "inventory.json", "")) + ctx.str("tail", 0, hi, alphabet)
    ctx.assume(ctx.no(ctx.any([ctx.eq(name, x) for x in ("", ".", "..")])))
    ctx.assume(ctx.no(ctx.eq(name[:2], "0=")))
    if ctx.boolean("file"):
        ctx.put("d/" + name, b"x")
    else:
        ctx.mkdir("d/" + name)
    r = find_path_type(ctx.path("d"))
    if kind == "none":
        ctx.check(r not in ("file", "root", "object"), "no type without a declaration")
    else:
        ctx.check(r == kind, "declaration determines the type")
    ctx.check(len(find_namastes(0, dir=ctx.path("d"), limit=100)) == n + (kind != "none"), "every declaration of the tag is found, nothing else")


# ------------------------------------------------------------------ C08 W3C datetimes
DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def num(s):
    n = 0
    for c in s:
        v = digit_val(c)
        if v is None:
            return None
        n = n * 10 + v
    return n


def days_from_civil(y, m, d):
    """Days since 1970-01-01 (proleptic Gregorian)."""
    days = 365 * (y - 1970) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 - 477
    for i in range(m - 1):
        days = days + DIM[i]
    if m > 2 and leap(y):
        days = days + 1
    return days + d - 1


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def ref_datetime(s):
    """(seconds without zone, fraction text, zone) for a W3C datetime, else None."""
    n = len(s)
    if n < 4:
        return None
    y, mo, d, h, mi, sec = num(s[:4]), 1, 1, 0, 0, 0
    frac, zone = "", ""
    if y is None or y == 0:
        return None
    i = 4
    if i < n:
        if s[i] != "-" or n < 7:
            return None
        mo = num(s[5:7])
        i = 7
        if mo is None or mo < 1 or mo > 12:
            return None
        if i < n:
            if s[i] != "-" or n < 10:
                return None
            d = num(s[8:10])
            i = 10
            if d is None or d < 1 or d > (29 if mo == 2 and leap(y) else DIM[mo - 1]):
                return None
            if i < n:
                if s[i] != "T" or n < 16 or s[13] != ":":
                    return None
                h, mi = num(s[11:13]), num(s[14:16])
                if h is None or mi is None or h > 23 or mi > 59:
                    return None
                i = 16
                if i < n and s[i] == ":":
                    if n < 19:
                        return None
                    sec = num(s[17:19])
                    if sec is None or sec > 59:
                        return None
                    i = 19
                    if i < n and s[i] == ".":
                        j = i + 1
                        while j < n and digit_val(s[j]) is not None:
                            j = j + 1
                        if j == i + 1:
                            return None
                        frac = s[i:j]
                        i = j
                zone = s[i:]
                if zone != "" and zone != "Z":
                    if len(zone) != 6 or zone[3] != ":" or (zone[0] != "+" and zone[0] != "-"):
                        return None
                    zh, zm = num(zone[1:3]), num(zone[4:6])
                    if zh is None or zm is None or zh > 23 or zm > 59:
                        return None
    return (days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + sec, frac, zone)


def datetime_parse(ctx, template, free, extra=0):
    """str_to_datetime accepts exactly the W3C datetimes and yields the right instant."""
    s = ""
    for i, c in enumerate(template):
        s = s + (ctx.str("c%d" % i, 1) if i in free else c)
    s = s + ctx.str("tail", 0, extra)
    ref = ref_datetime(s)
    try:
        t = str_to_datetime(s)
    except ValueError:
        t = None
    ctx.observe("t", t)
    if ref is None:
        ctx.check(t is None, "a string that is not a W3C datetime is refused")
        return
    ctx.check(t is not None, "a W3C datetime is accepted")
    secs, frac, zone = ref
    known = ()
    if zone != "" and zone != "Z":
        offset = num(zone[1:3]) * 3600 + num(zone[4:6]) * 60
        secs, other = (secs + offset, secs - offset) if zone[0] == "-" else (secs - offset, secs + offset)
        known = (("offset-sign", ctx.all([t >= other, t <= other + (frac != "")])),)
    if frac == "":
        ctx.check(t == secs, "value is the instant named", known=known)
    else:
        ctx.check(ctx.all([t >= secs, t <= secs + 1]), "value is the instant named, to a second", known=known)


def datetime_short(ctx, lo, hi):
    """Arbitrary short strings: refused unless W3C datetimes."""
    s = ctx.str("s", lo, hi)
    ref = ref_datetime(s)
    try:
        t = str_to_datetime(s)
    except ValueError:
        t = None
    ctx.check((t is None) == (ref is None), "short string accepted iff a W3C datetime")


def datetime_roundtrip(ctx, template, free):
    """datetime_to_str(str_to_datetime(s)) == s for whole-second Z strings."""
    s = ""
    for i, c in enumerate(template):
        s = s + (ctx.str("c%d" % i, 1, 1, DIG) if i in free else c)
    if ref_datetime(s) is None:
        return
    t = ctx.concrete(str_to_datetime(s))
    ctx.check(datetime_to_str(None) is None, "no time gives no timestamp")
    ctx.check(str_to_datetime(datetime_to_str()) > 0 and ref_datetime(datetime_to_str()) is not None, "the current time is formatted")
    ctx.check(datetime_to_str(t, no_fractions=True) == s, "round trip")
    ctx.check(datetime_to_str(t + 0.75, no_fractions=True) == s, "fractions are dropped")
    ctx.check(datetime_to_str(t) == s, "a whole second is formatted without a fraction")
    ctx.check(datetime_to_str(t + 0.25) == s[:-1] + ".250000Z", "a fraction is formatted with six digits")
    ctx.check(str_to_datetime(datetime_to_str(t)) >= t and str_to_datetime(datetime_to_str(t)) < t + 0.001,
              "round trip with fractions")


# ------------------------------------------------------------------ C09 validation log
def logger(ctx, k):
    """Counts every issue, never raises, keeps every message it is asked to keep."""
    lw, le = ctx.boolean("log_warnings"), ctx.boolean("log_errors")
    lang = ctx.choice("lang", ("en", "xx", ""))
    log = ValidationLogger(log_warnings=lw, log_errors=le, lang=lang, spec_version=ctx.choice("sv", ("1.0", "1.1")))
    ne = nw = kept = 0
    prefix = "%" if lw else " "
    for i in range(k):
        err = ctx.boolean("err%d" % i)
        code = ctx.choice("code%d" % i, ("E001a", "E050f", "W004", "E092a", "E999", "zzz", "", "E07"))
        val = ctx.str("val%d" % i, 0, 2, "%sd(){}\n\u20ac")
        args = {"where": "root", "file": val, "digest": val, "content_path": val, "version": val}
        if ctx.boolean("noargs%d" % i):
            args = {}
        if err:
            log.error(code, **args)
            ne += 1
            kept += le
        else:
            log.warning(code, **args)
            nw += 1
            kept += lw
        ctx.check(code in log.codes, "every issue is recorded by code")
        m = log.codes[code]
        ctx.check(code in m, "message names its code")
        ctx.check(not ((err and le) or (not err and lw)) or m in log.messages, "message kept")
    ctx.check(log.num_errors == ne, "errors counted")
    ctx.check(log.num_warnings == nw, "warnings counted")
    ctx.check(len(log.messages) == kept, "messages kept exactly when asked for")
    st = log.status_str(prefix=prefix)
    ctx.check(str(log) == log.status_str(), "str() is the status")
    for m in log.messages:
        ctx.check((prefix + m) in st, "status shows every kept message")


def log_repeated(ctx):
    """The status has one line for each message kept, also for messages that are the same."""
    log = ValidationLogger(log_warnings=True)
    n = ctx.choice("n", (0, 1, 2, 3, 12))
    files = [ctx.sel("file%d" % i, ["f", "g", " "]) for i in (0, 1)]
    for i in range(n):
        if ctx.boolean("err") if i == 0 else i % 2:
            log.error(ctx.choice("code", ("E001a", "zzz")), file=files[i % 2])
        else:
            log.warning("W004", digest=files[i % 2])
    prefix = ctx.choice("prefix", ("", " ", "%s: "))
    st = log.status_str(prefix=prefix)
    want = sorted(log.messages)
    ctx.check(len(want) == n, "every message is kept")
    ctx.check(st == "\n".join([prefix + m for m in want]), "status is one line for every message kept")
    ctx.check(str(log) == "\n".join(want), "str() is the status")


def log_texts(ctx):
    """The text shown is that of the language asked for, else the English one, else that of the first language; parameters are filled in order."""
    texts = {}
    for lang in ("de", "en", "cy"):
        if ctx.boolean(lang):
            texts[lang] = lang + " %s and %s"
    code = ctx.choice("code", ("E001", "W199", "W901a", "x"))
    entry = {"description": texts}
    with_params = ctx.boolean("params")
    if with_params:
        entry["params"] = ["file", "where"]
    table = {code: entry, "E002": {"params": []}}
    lang = ctx.choice("lang", ("en", "de", "fr"))
    sv = ctx.choice("sv", ("1.0", "1.1"))
    log = ValidationLogger(log_warnings=True, lang=lang, validation_codes=table, spec_version=sv)
    a, b = ctx.str("a", 0, 2), ctx.str("b", 0, 1)
    if ctx.boolean("long"):
        b = "b" * 1000 + b
    args = {"file": a, "where": b, "other": "o"}
    missing = ctx.choice("missing", (None, "file", "where"))
    if missing is not None:
        del args[missing]
    if ctx.boolean("err"):
        log.error(code, **args)
    else:
        log.warning(code, **args)
    m = log.codes[code]
    ctx.check(log.messages == [m], "message kept")
    if lang in texts:
        start = lang
    elif "en" in texts:
        start = "en"
    elif "cy" in texts:
        start = "cy"
    elif "de" in texts:
        start = "de"
    else:
        start = None
    link = " (see https://ocfl.io/" + sv + "/spec/#" + code[:4] + ")" if code in ("E001", "W199") else ""
    if start is None:
        ctx.check(m.startswith("[" + code + "] ") and m.endswith(link) and len(m) > len(code) + 3 + len(link), "an issue without a text is described")
    elif with_params and missing is None:
        ctx.check(m == "[" + code + "] " + start + " " + a + " and " + b + link, "text, parameters and link")
    else:
        ctx.check(m.startswith("[" + code + "] " + start + " ") and m.endswith(link), "text and link")
    log.error("E002")
    log.error("E003", file=a)
    ctx.check(log.num_errors + log.num_warnings == 3 and len(log.messages) == 3, "issues without a description are counted and kept")
    ctx.check("E002" in log.codes["E002"] and "E003" in log.codes["E003"], "issues without a description name their code")
    plain = ValidationLogger()
    plain.error("E001a", file="f")
    ctx.check("f" in plain.codes["E001a"] and plain.codes["E001a"].startswith("[E001a] OCFL"), "a table of its own is not used by other logs")


# ------------------------------------------------------------------ C10 file helpers
NAMES = ("a", "b", "a.b", "0=x", " ")


def bytes_sel(ctx, name, n):
    data = b""
    for i in range(n):
        data = data + ctx.sel("%s%d" % (name, i), [b"a", b"b", b"\x00", b"\xff"])
    return data


def fsw_copy(ctx, buf, hi):
    small_buffers(buf)
    data = bytes_sel(ctx, "b", ctx.choice("n", range(0, hi + 1)))
    ctx.put("src/f", data)
    ctx.mkdir("dst")
    if ctx.boolean("existing"):
        ctx.put("dst/g", b"something longer than the source")
    fsw_copyfile(fsw_openfs(ctx.path("src")), "f", fsw_openfs(ctx.path("dst")), "g")
    ctx.check(ctx.read("dst/g") == data, "copy has exactly the source's bytes")
    ctx.check(ctx.read("src/f") == data, "source unchanged")


def fsw_text(ctx, hi):
    """fsw_readtext returns the text of a file, through a file system or from the local one."""
    t = ctx.str("text", 0, hi)
    ctx.put("d/sub/f", t.encode("utf-8"))
    ctx.put("d/f", b"other")
    where = ctx.choice("where", ("local", "fs", "dirfs"))
    if where == "local":
        got = fsw_readtext(ctx.path("d/sub/f"))
    elif where == "fs":
        got = fsw_readtext("sub/f", fs=fsw_openfs(ctx.path("d")))
    else:
        got = fsw_readtext("f", fs=fsw_opendir_as_fs(fsw_openfs(ctx.path("d")), "sub"))
    ctx.check(got == t.replace("\r\n", "\n").replace("\r", "\n"), "the text of the file")


def fsw_copy_big(ctx):
    n = ctx.choice("n", (262143, 262144, 262145, 524289))
    at = ctx.choice("at", (0, 262143, 262144, n - 1))
    if at >= n:
        return
    data = b"a" * at + ctx.sel("byte", [b"a", b"b"]) + b"a" * (n - at - 1)
    ctx.put("src/f", data)
    ctx.put("src/g", b"a" * n)
    fs = fsw_openfs(ctx.path("src"))
    fsw_copyfile(fs, "f", fs, "h")
    ctx.check(ctx.read("src/h") == data, "copy has exactly the source's bytes")
    same = fsw_files_identical(fs, "f", "g")
    ctx.check(same == (data == b"a" * n), "identical iff equal bytes")


def fsw_identical(ctx, buf, hi):
    small_buffers(buf)
    a = bytes_sel(ctx, "a", ctx.choice("na", range(0, hi + 1)))
    b = bytes_sel(ctx, "b", ctx.choice("nb", range(0, hi + 1)))
    ctx.put("d/f", a)
    ctx.put("d/g", b)
    r = fsw_files_identical(fsw_openfs(ctx.path("d")), "f", "g")
    if r:
        ctx.check(a == b, "files reported identical have equal bytes")
    else:
        ctx.check(a != b, "files reported different differ")


def random_tree(ctx, base, nf, alphabet="ab", dots=False):
    """A tree of up to nf files below base, with symbolic contents; returns {path: content}."""
    want = {}
    shapes = (("f",), ("f", "d/f"), ("d/f", "d/e/f"), ("d/f", "e/f", "g"), ("d/e/f", "d/g", "e/h/i/j"))
    if dots:        # file and directory names of any 1..3 characters of the alphabet
        f, d = ctx.str("fn", 1, 3, alphabet), ctx.str("dn", 1, 3, alphabet)
        ctx.assume(ctx.no(ctx.any([ctx.eq(x, y) for x in (f, d) for y in (".", "..")])))
        shapes = ((f,), (d + "/f",), ("d/" + d + "/" + f, "d/g"))
    for i, p in enumerate(ctx.choice("shape", shapes)):
        name = p + ("" if dots else ctx.str("n%d" % i, 0, 1, alphabet))
        data = b"data%d" % i if dots else ctx.sel("c%d" % i, [b"", b"x", b"yy", b"\x00\xff"])
        want[ctx.concrete(name)] = data
        ctx.put(base + "/" + ctx.concrete(name), data)
    return want


def fsw_copydir_all(ctx, alphabet="ab", dots=False):
    """fsw_copydir copies every file with its content and nothing else; refuses an existing destination."""
    want = random_tree(ctx, "src", 3, alphabet, dots)
    ctx.listing_order(ctx.boolean("rev"))
    ctx.mkdir("out")
    src_path = ctx.choice("srcp", ("/", ""))
    dst = ctx.choice("dst", ("x", "x/y"))
    existing = ctx.boolean("existing")
    if existing:
        ctx.put("out/" + dst + "/keep", b"k")
    before = ctx.snapshot("src")
    raised = False
    try:
        fsw_copydir(fsw_openfs(ctx.path("src")), src_path, fsw_openfs(ctx.path("out")), dst)
    except FswException:
        raised = True
    ctx.check(ctx.snapshot("src") == before, "source unchanged")
    ctx.check(raised == existing, "refused exactly when the destination exists")
    if existing:
        ctx.check(ctx.files("out") == {dst + "/keep": b"k"}, "existing destination untouched")
        return
    got = ctx.files("out/" + dst)
    ctx.check(len(got) == len(want), "same number of files")
    for p in want:
        ctx.check(p in got, "every file copied")
        ctx.check(got[p] == want[p], "content copied")


def fsw_walk_all(ctx, alphabet="ab", dots=False):
    """fsw_walk_files lists exactly the files; fsw_walk visits every directory once with its entries."""
    want = random_tree(ctx, "src", 3, alphabet, dots)
    ctx.listing_order(ctx.boolean("rev"))
    if ctx.boolean("empty"):
        ctx.mkdir("src/zz")
    fs = fsw_openfs(ctx.path("src"))
    got = fsw_walk_files(fs)
    ctx.check(sorted(got) == sorted(want.keys()), "walk lists exactly the files")
    seen = []
    for dirpath, dirs, files in fsw_walk(fs):
        seen.append(dirpath.strip("/"))
        rel = dirpath.strip("/")
        names = sorted(ctx.listdir("src/" + rel if rel else "src"))
        ctx.check(sorted(dirs + files) == names, "entries of each directory")
        ctx.check(sorted(fsw_listdir_names(fs, rel)) == names, "listdir names")
        for f in files:
            ctx.check(ctx.isfile("src/" + (rel + "/" if rel else "") + f), "files are files")
        for d in dirs:
            ctx.check(ctx.isdir("src/" + (rel + "/" if rel else "") + d), "dirs are directories")
    ctx.check(sorted(seen) == sorted([""] + ctx.dirs("src")), "every directory visited once")
    if ctx.isdir("src/d"):
        sub = fsw_walk_files(fs, ctx.choice("sub", ("d", "/d")))
        ctx.check(sorted(sub) == sorted(p[2:] for p in want if p.startswith("d/")), "walk of a subdirectory")
        sub = fsw_opendir_as_fs(fs, "d")
        ctx.check(sorted(fsw_walk_files(sub)) == sorted(p[2:] for p in want if p.startswith("d/")), "sub-filesystem")
