"""Which harness jobs decide which property, per tier."""
from symex.explore import Job
from symex.core import ALPHA

NAMECHARS = "".join(c for c in ALPHA if c not in "/\0")   # any character a file name may contain

ASCII = "".join(map(chr, range(128)))

COMMON_ASSUMPTIONS = [
    "Strings range over an alphabet of 145 characters: all of ASCII plus 17 non-ASCII characters chosen to cover "
    "Unicode digits, letters, white space, line separators, case-folding oddities, BOM and an astral character.",
    "File system: a tree of directories and regular files with POSIX semantics (no symbolic links, permissions or concurrent writers); "
    "fsspec's LocalFileSystem/DirFileSystem and posixpath are transcriptions executed symbolically, validated by replay.",
    "Hash functions are collision-free on the contents of one path (exact digests for concrete data and single-variable data).",
]

PROPERTIES = {}
_JOBS = {}


def prop(pid, assumptions=(), budget=None, level="model_checking", traces=None):
    PROPERTIES[pid] = dict(assumptions=list(assumptions), level=level)
    if budget:
        PROPERTIES[pid]["budget"] = budget
    if traces:
        PROPERTIES[pid]["traces"] = traces
    _JOBS[pid] = []


def job(pid, mod, fn, bounds="", tier="both", name=None, **params):
    """tier: 'both', 'quick' or 'thorough'."""
    n = name or (fn + ("(" + ",".join("%s=%s" % (k, v if not isinstance(v, str) else ascii(v)[1:-1] if len(v) < 60 else "CHARS%d" % len(v))
                                       for k, v in params.items()) + ")" if params else ""))
    _JOBS[pid].append((tier, Job(mod, fn, params, n, bounds)))


def jobs(pid, tier):
    return [j for t, j in _JOBS[pid] if t in ("both", tier)]


# ---------------------------------------------------------------- C01 layout path safety
prop("C01")
for lay in ("0002", "flat-quoted", "nnnn-tuple-tree", "0003"):
    job("C01", "h_layout", "path_safe", "identifiers of 0..3 arbitrary characters", layout=lay, lo=0, hi=3)
    job("C01", "h_layout", "path_safe", "identifiers of 4..5 characters", tier="thorough", layout=lay, lo=4, hi=5)
for size in (3, 4, 5, 6):
    job("C01", "h_layout", "path_safe", "identifiers of 0..6 characters from a path-relevant alphabet", layout="nnnn-tuple-tree",
        lo=0, hi=6, size=size, alphabet="a./:,=^\u20ac")
job("C01", "h_layout", "path_safe", "no tuples", layout="0003", lo=0, hi=3, size=0, n=0, alg="md5")
job("C01", "h_layout", "uuid_safe", "8 arbitrary characters and a 0..2 character tail", prefix="urn:uuid:",
    free=[0, 3, 8, 9, 23, 24, 34, 35])
job("C01", "h_layout", "uuid_arbitrary", "0..3 arbitrary characters after a prefix", lo=0, hi=3)

job("C01", "h_layout", "strip_root", "paths and roots of 0..4 characters of a path-relevant alphabet", lo=0, hi=4)
# ---------------------------------------------------------------- C02 injectivity and non-nesting
prop("C02")
for lay in ("0002", "flat-quoted", "0003", "nnnn-tuple-tree"):
    for la in range(1, 4):
        for lb in range(1, la + 1):
            job("C02", "h_layout", "injective", "identifiers of %d and %d arbitrary characters" % (la, lb), layout=lay, la=la, lb=lb,
                tier="thorough" if lb == 3 and lay != "0002" else "both")
    job("C02", "h_layout", "injective", "identifiers of 3 characters each", tier="quick", layout=lay, la=3, lb=3, alphabet="aA0-./%=+ \u00e9\u20ac")
job("C02", "h_layout", "injective", "", layout="nnnn-tuple-tree", la=5, lb=2, alphabet="ab/^")
UUID35 = "6ba7b810-9dad-11d1-80b4-00c04fd430c"
for la, lb, alph in ((1, 1, None), (2, 1, "0aA-"), (2, 2, "0aA-")):
    job("C02", "h_layout", "injective", "identifiers that differ after 35 characters of a uuid", layout="nnnn-uuid-quadtree", la=la, lb=lb,
        alphabet=alph, fixed=UUID35 if lb == 1 else UUID35[:-1], prefix="")
for lay in ("flat-quoted", "nnnn-tuple-tree", "0003", "0002"):
    for la, lb, pad, tail in ((1, 1, 300, 0), (1, 1, 0, 300), (2, 1, 0, 300), (2, 1, 300, 0)):
        job("C02", "h_layout", "injective", "identifiers of more than 300 characters that differ at the start or end", layout=lay, la=la, lb=lb,
            pad=pad, tail=tail, alphabet="ab/.^ A")
for lay in ("base", "0002", "flat-quoted", "nnnn-uuid-quadtree"):
    job("C02", "h_layout", "roundtrip_encode", "identifiers of 0..3 arbitrary characters", layout=lay, lo=0, hi=3)
job("C02", "h_layout", "roundtrip_encode", "identifiers of 0..2 arbitrary characters but DEL, which the pairtree package does not decode",
    layout="nnnn-tuple-tree", lo=0, hi=2, tier="thorough", alphabet="".join(c for c in ALPHA if c != "\x7f"))
job("C02", "h_layout", "roundtrip_encode", "identifiers of 0..1 arbitrary characters but DEL",
    layout="nnnn-tuple-tree", lo=0, hi=1, tier="quick", alphabet="".join(c for c in ALPHA if c != "\x7f"))
job("C02", "h_layout", "roundtrip_encode", "identifiers of 3..4 characters", layout="nnnn-tuple-tree", lo=3, hi=4, alphabet="a^/=6,")
# ---------------------------------------------------------------- C03
prop("C03")
job("C03", "h_layout", "conforms_0003", "", lo=1, hi=3)
for pad in (97, 98, 99, 100):
    job("C03", "h_layout", "conforms_0003", "", lo=1, hi=2, pad=pad)
# ---------------------------------------------------------------- C04 layout configuration
prop("C04")
job("C04", "h_layout", "config_0003", "sizes -1..34, odd values", lo=-1, hi=34)
job("C04", "h_layout", "config_0003", "sizes -1..34, odd values, extension name optional", lo=-1, hi=34, require=False)
for lay in ("0002", "flat-quoted", "nnnn-tuple-tree", "nnnn-uuid-quadtree"):
    for req in (True, False):
        job("C04", "h_layout", "config_other", "sizes 0..8 / prefixes of 0..2 characters / odd values", name="config_other(%s,%s)" % (lay, req),
            lay=lay, lo=0, hi=8, require=req)
for lay in ("0002", "0003", "nnnn-tuple-tree", "nnnn-uuid-quadtree"):
    job("C04", "h_layout", "config_notdict", "", lay=lay)
job("C04", "h_layout", "registry", "documented names, any other name of 0..4 characters", lo=0, hi=4)
for lay in ("0002", "0003", "flat-quoted", "nnnn-tuple-tree", "nnnn-uuid-quadtree"):
    job("C04", "h_layout", "config_roundtrip", "identifier of 1..2 arbitrary characters", lay=lay, lo=1, hi=2)
job("C04", "h_layout", "base_layout", "names and identifiers of 0..2 arbitrary characters")
# ---------------------------------------------------------------- C05 digests
prop("C05")
for alg, n in (("sha512", 128), ("sha256", 64)):
    for where in ("manifest", "lax"):
        for d in (-1, 0, 1, 2):
            job("C05", "h_util", "digest_key", "digest of %d characters, 2 free" % (n + d), alg=alg, where=where, length=n + d, free=(0, -1))
for alg, n in (("sha512", 128), ("sha256", 64), ("sha1", 40), ("md5", 32), ("blake2b-512", 128), ("blake2b-384", 96),
               ("blake2b-256", 64), ("blake2b-160", 40)):
    for d in (-1, 0, 1):
        job("C05", "h_util", "digest_key", "digest of %d characters, 2 free" % (n + d), alg=alg, where="fixity", length=n + d, free=(7, -1))
    job("C05", "h_util", "digest_normal", "digest pairs with 2 free characters each", alg=alg, k=2)
job("C05", "h_util", "digest_file", "0..4 free bytes, read buffer 2", buf=2, lo=0, hi=4)
job("C05", "h_util", "digest_file", "0..3 free bytes, read buffer 1", buf=1, lo=0, hi=3)
job("C05", "h_util", "digest_bytes", "any byte between 7 starts and 6 ends")
job("C05", "h_util", "long_files", "1100 buffers of 16 bytes")
job("C05", "h_util", "digest_big", "65535..131073 bytes around the real buffer size")
job("C05", "h_util", "digest_unknown", "digest type names of 0..3 characters")
# ---------------------------------------------------------------- C06 version directory names
prop("C06")
job("C06", "h_util", "vdir_parse", "any string of 0..4 characters", lo=0, hi=4)
job("C06", "h_util", "vdir_parse", "v and 0..7 characters", lo=0, hi=7, first="v", alphabet="0189\n\u0661 ")
job("C06", "h_util", "vdir_next", "any string of 0..4 characters", lo=0, hi=4)
job("C06", "h_util", "vdir_next", "v and 0..4 characters of 0, 1, 8, 9", lo=0, hi=4, first="v", alphabet="0189")
job("C06", "h_util", "vdir_next", "v and 5 characters of 0, 1, 8, 9", tier="thorough", lo=5, hi=5, first="v", alphabet="0189")
job("C06", "h_util", "vdir_first", "widths -1..8")
job("C06", "h_util", "unused_path", "up to 4 used paths", k=4)
job("C06", "h_util", "strip_first", "paths of 0..5 characters of a path-relevant alphabet", lo=0, hi=5)
# ---------------------------------------------------------------- C07 Namaste
prop("C07")
job("C07", "h_util", "namaste_roundtrip", "content of 0..2 arbitrary characters", lo=0, hi=2)
job("C07", "h_util", "namaste_roundtrip", "content of 38..42 characters", lo=1, hi=2, fixed="a" * 38)
job("C07", "h_util", "namaste_content", "one arbitrary insertion or replacement", lo=0, hi=1)
job("C07", "h_util", "path_type", "0..2 arbitrary characters after the version", lo=0, hi=2)
job("C07", "h_util", "path_type_others", "up to 15 other declarations and one entry of any name of a stem and 0..1 arbitrary characters", hi=1, alphabet=NAMECHARS)
job("C07", "h_validate", "declaration", "object declarations with one arbitrary change of their text")
job("C07", "h_root", "root_content", "storage root declarations with one arbitrary change of their text")
# ---------------------------------------------------------------- C08 datetimes
prop("C08")
T = "2019-02-28T23:59:59Z"
for free in ((0, 2, 3), (5, 6), (8, 9), (4, 7), (11, 12), (14, 15), (17, 18), (10, 13), (16, 19)):
    job("C08", "h_util", "datetime_parse", "", template=T, free=free, extra=1)
job("C08", "h_util", "datetime_parse", "", template="2019-02-28T23:00:00Z", free=(11, 12), extra=0)
job("C08", "h_util", "datetime_parse", "", template="2019-02-28T23:00Z", free=(11, 12), extra=0)
job("C08", "h_util", "datetime_parse", "", template="2019-02-28T23:59:59-03:30", free=(20, 21, 23, 24), extra=0)
job("C08", "h_util", "datetime_parse", "", template="2020-02-29T23:59:59Z", free=(2, 3, 9), extra=0)
job("C08", "h_util", "datetime_parse", "", template="1900-02-29T00:00:00Z", free=(0, 1, 6), extra=0)
for free in ((19, 20), (20, 21), (21, 22), (22, 23), (23, 24)):
    job("C08", "h_util", "datetime_parse", "", template="2019-02-28T23:59:59+10:30", free=free, extra=1)
job("C08", "h_util", "datetime_parse", "", template="2019-02-28T23:59:59.12Z", free=(19, 20, 22), extra=1)
job("C08", "h_util", "datetime_parse", "", template="2019-02-28T23:59", free=(15,), extra=2)
job("C08", "h_util", "datetime_parse", "", template="2019-02-28", free=(9,), extra=2)
job("C08", "h_util", "datetime_parse", "", template="2019-02", free=(6,), extra=2)
job("C08", "h_util", "datetime_short", "", lo=0, hi=4)
for free in ((2, 3), (5, 6), (8, 9), (11, 12), (14, 15), (17, 18)):
    job("C08", "h_util", "datetime_roundtrip", "", template="2019-02-28T23:59:59Z", free=free)
# ---------------------------------------------------------------- C09 validation log
prop("C09")
job("C09", "h_util", "logger", "2 issues", k=2)
job("C09", "h_util", "log_repeated", "0..12 issues")
job("C09", "h_util", "log_texts", "parameters of 0..2 arbitrary characters")
# ---------------------------------------------------------------- C10 file helpers
prop("C10")
job("C10", "h_util", "fsw_copy", "0..4 free bytes, buffer 2", buf=2, hi=4)
job("C10", "h_util", "long_files", "1100 buffers of 16 bytes")
job("C10", "h_util", "fsw_copy_big", "around the real buffer size")
job("C10", "h_util", "fsw_text", "texts of 0..2 arbitrary characters", hi=2)
job("C10", "h_util", "fsw_identical", "0..3 free bytes each, buffer 2", buf=2, hi=3)
job("C10", "h_util", "fsw_copydir_all", "trees of 1..3 files")
job("C10", "h_util", "fsw_walk_all", "trees of 1..3 files")
for fn in ("fsw_copydir_all", "fsw_walk_all"):
    job("C10", "h_util", fn, "file and directory names of 1..3 characters of a path-relevant alphabet", dots=True, alphabet=".d~")
# ---------------------------------------------------------------- C13 written objects are valid and exact
prop("C13")
job("C13", "h_object", "write_valid", "", how="create", n=1, names=["a", "d/b"], free=["spec", "alg", "cd", "norm"], metafree=False)
for how in ("build", "update"):
    job("C13", "h_object", "write_valid", "fixity types", how=how, n=2, names=["a", "b"], free=["dedupe", "fixity"], small=True)
job("C13", "h_object", "normalization", "file names of one stem and one arbitrary character", stems=[("", ""), (".", ""), ("", "."), ("d/", ""), (".d/", "x"), ("", "/.x"), ("%", "%41")],
    alphabet=NAMECHARS.replace(".", ""))
job("C13", "h_object", "write_valid", "", how="create", n=1, names=["a", "b", "c"], free=["dedupe"], metafree=True)
job("C13", "h_object", "write_valid", "", how="build", n=2, names=["a", "b"], free=["dedupe", "delta"])
for how in ("build", "update"):
    job("C13", "h_object", "write_valid", "all combinations of metadata", how=how, n=2, names=[""], alphabet="a", norm="uri", free=[], metafree=True, small=True, optional=False)
job("C13", "h_object", "write_valid", "", how="build", n=2, names=["a"], free=["spec", "alg", "cd", "norm"])
for norm in ("uri", "md5", None):
    job("C13", "h_object", "write_valid", "file names with any one character", how="build", n=2, names=["", "dd/"], norm=norm,
        free=[], optional=False, small=True, alphabet=NAMECHARS.replace(".", ""))
job("C13", "h_object", "write_valid", "file names starting or ending with any one character", how="update", n=2, names=["a", "."], free=[], optional=False, small=True, alphabet=NAMECHARS)
job("C13", "h_object", "write_valid", "", how="update", n=2, names=["a", "b"], free=["dedupe", "delta"])
job("C13", "h_object", "write_valid", "", how="update", n=2, names=["a"], free=["spec", "alg", "cd", "norm"])
# ---------------------------------------------------------------- C12 editing a new version
prop("C12")
job("C12", "h_object", "edits", "up to 2 operations", k=2, base=["m", "n"])
job("C12", "h_object", "edits", "up to 2 operations on an object with fixity information", k=2, base=["m"], fixity=["md5"])
job("C12", "h_object", "edits", "up to 2 operations on files that share their content", k=2, base=["m", "n", "A", "B/c"], contents=["x"])
job("C12", "h_object", "edits", "up to 2 operations after adding a file twice without deduplication", k=2, base=["m"], dedupe=False, pre=["p", "q"])
job("C12", "h_object", "edits", "up to 3 operations", k=3, base=[], first=True)
for where, lo, hi in (("logical", 0, 4), ("content", 0, 3), ("content2", 0, 4), ("src", 1, 4), ("rename", 0, 4)):
    job("C12", "h_object", "edit_paths", "paths of %d..%d characters from a path-relevant alphabet" % (lo, hi), where=where, lo=lo, hi=hi,
        alphabet="ab/.d" if where != "src" else "st/.")
# ---------------------------------------------------------------- C14 extraction
prop("C14")
job("C14", "h_object", "extract", "2 versions of up to 2 files", n=2, names=["a", "d/b"])
job("C14", "h_object", "extract", "names that differ by a final period or share directories", n=1, names=["a.", "a", ".a", "d/b/c", "d/e", "d/b/f/g"], optional=False)
job("C14", "h_object", "extract", "3 versions of up to 1 file, padded version directories", n=3, names=["a"], width=3)
job("C14", "h_object", "extract", "uppercase digests", n=2, names=["a", "d/b"], upper=[0, 1], alg="sha256", cd="stuff")
job("C14", "h_object", "extract", "file names with any one character", n=1, names=["", "dd/"], alphabet=NAMECHARS.replace(".", ""))
job("C14", "h_object", "extract", "objects written by build", n=2, names=["a", "b"], how="build", free=["dedupe", "delta"])
job("C14", "h_object", "extract", "objects written by create and update", n=2, names=["a"], how="update", free=["norm", "spec", "alg"])
job("C14", "h_object", "many_versions", "9..12 versions")
job("C14", "h_object", "lax", "every digest algorithm")
# ---------------------------------------------------------------- C17 extraction containment
prop("C17")
job("C17", "h_object", "extract_refuse", "version names of up to 3 characters")
job("C17", "h_object", "extract_file", "logical paths of up to 3 characters", hi=3, alphabet="abd/.")
PATHY = "a/.v1\n\\"
for where, lo, hi, prefix in (("logical", 0, 5, ""), ("logical2", 0, 4, ""), ("content", 0, 4, ""), ("content", 0, 5, "v1/content/"),
                              ("content", 0, 4, "v1/"), ("cd", 0, 4, ""), ("vdir", 0, 4, "")):
    job("C17", "h_object", "extract_hostile", "paths of %d..%d characters from a path-relevant alphabet" % (lo, hi), where=where, lo=lo, hi=hi,
        prefix=prefix, alphabet=PATHY)
# ---------------------------------------------------------------- C30 settings changes
prop("C30")
job("C30", "h_object", "update_settings", "", algs=[["sha512", "sha512"], ["sha256", "sha512"], ["sha512", "sha256"], ["sha256", "sha256"]],
    fixities=[[], ["md5"], ["md5", "sha1"]])
job("C30", "h_object", "different_copies", "")
job("C30", "h_object", "build_dirs", "", k=1)
job("C30", "h_object", "refuse_existing", "")
job("C30", "h_object", "no_difference", "")
for n, width in ((8, 0), (9, 0), (10, 0), (9, 3)):
    job("C30", "h_object", "no_difference", "", n=n, width=width)
job("C30", "h_object", "update_shared", "")
# ---------------------------------------------------------------- C15 history
prop("C15")
job("C15", "h_fault", "history", "", n=1, algs=[["sha512", "sha512"], ["sha256", "sha256"]])
job("C15", "h_fault", "history", "", n=1, algs=[["sha512", "sha256"], ["sha256", "sha512"]], spec="1.1")
job("C15", "h_fault", "history", "", n=2, upper=[0], extras=True, spec="1.1")
job("C15", "h_fault", "history", "", n=2, width=2, cd="stuff", spec="1.1")
job("C15", "h_fault", "history", "", n=2, width=5, extras=True, spec="1.1")
for n in (9, 10, 11):
    job("C15", "h_fault", "history", "", n=n, spec="1.0", how=["content", "edit"])
job("C15", "h_object", "update_invalid", "12 kinds of defect")
job("C15", "h_object", "spec_lower", "")
job("C15", "h_fault", "overflow", "", width=2)
job("C15", "h_fault", "read_only", "")
# ---------------------------------------------------------------- C16 crashes
prop("C16")
job("C16", "h_fault", "update_fault", "crash at every file-system step", kind="crash")
job("C16", "h_fault", "update_fault", "crash at every file-system step", kind="crash", n=2, how=["content"])
job("C16", "h_fault", "update_fault", "crash at every file-system step", kind="crash", algs=[["sha256", "sha512"]], how=["content"])
for how in ("create", "build"):
    job("C16", "h_fault", "create_fault", "crash at every file-system step", kind="crash", how=how)
job("C16", "h_fault", "root_fault", "crash at every file-system step", kind="crash")
# ---------------------------------------------------------------- C28 I/O errors
prop("C28")
job("C28", "h_fault", "update_fault", "an I/O error at every file-system step", kind="eio")
job("C28", "h_fault", "update_fault", "an I/O error at every file-system step", kind="eio", algs=[["sha256", "sha512"]], how=["content"])
for how in ("create", "build"):
    job("C28", "h_fault", "create_fault", "an I/O error at every file-system step", kind="eio", how=how)
job("C28", "h_fault", "extract_fault", "an I/O error at every file-system step", kind="eio")
job("C28", "h_fault", "root_fault", "an I/O error at every file-system step", kind="eio")
# ---------------------------------------------------------------- C19 inventory validator against a reference
prop("C19")
job("C19", "h_inventory", "structure", "one structural change at any position of an inventory with two versions")
job("C19", "h_inventory", "structure", "two structural changes", tier="thorough", muts=2, alg=["sha512"], full=[True])
for slot, lo, hi in (("id", 0, 2), ("head", 0, 3), ("digestAlgorithm", 0, 2), ("message", 0, 2), ("name", 1, 2), ("address", 0, 2)):
    job("C19", "h_inventory", "strings", "%d..%d arbitrary characters" % (lo, hi), slot=slot, lo=lo, hi=hi)
for t, free in (("https://ocfl.io/1.1/spec/#inventory", [0, 12, 16, 17, 18, 34]), ("https://ocfl.io/1.0/spec/#inventory", [4, 18, 19])):
    job("C19", "h_inventory", "strings", "arbitrary characters at the stated positions", slot="type", template=t, free=free, hi=1)
job("C19", "h_inventory", "strings", "", slot="digestAlgorithm", template="sha512", free=[0, 3, 4, 5], hi=1)
job("C19", "h_inventory", "strings", "1..3 arbitrary characters", slot="cd", lo=1, hi=3)
job("C19", "h_inventory", "strings", "", slot="cd_unset", template="content", free=[0, 6], hi=1)
job("C19", "h_inventory", "strings", "0..4 arbitrary characters", slot="mpath", lo=0, hi=4)
job("C19", "h_inventory", "strings", "0..7 characters from a path-relevant alphabet", slot="mpath_c", lo=0, hi=7, alphabet="v1/c.a")
job("C19", "h_inventory", "strings", "v1/c/ and 0..4 arbitrary characters", slot="mpath_c", template="v1/c/", lo=0, hi=4)
job("C19", "h_inventory", "strings", "version directory of a content path", slot="mpath_c", template="v1/c/a", free=[0, 1, 2, 4])
job("C19", "h_inventory", "strings", "0..5 arbitrary characters", slot="spath", lo=0, hi=5)
job("C19", "h_inventory", "strings", "0..2 arbitrary characters", slot="version", lo=0, hi=3, alphabet="v0123 \u0661\n")
for free in ([0, 10], [4, 19], [5, 6], [8, 9], [11, 12], [16, 17]):
    job("C19", "h_inventory", "strings", "two arbitrary positions", slot="created", template="2020-01-02T03:04:05Z", free=free)
job("C19", "h_inventory", "strings", "", slot="created", template="2020-01-02T03:04:05", lo=0, hi=6, alphabet="Z+-:02")
job("C19", "h_inventory", "strings", "", slot="created", template="2020-01-02T03:04", lo=0, hi=6, alphabet="Z+-:02")
for slot, t in (("type", "https://ocfl.io/1.1/spec/#inventory"), ("created", "2020-01-02T03:04:05Z"), ("created", "2020-01-02T03:04:05.67+01:30"),
                ("cd", "content"), ("cd_unset", "content"), ("mpath_v", "v1/content/a/b"), ("spath", "a/b/c"), ("fixity_path", "v1/content/a"),
                ("head", "v2"), ("version", "v2"), ("digestAlgorithm", "sha256")):
    job("C19", "h_inventory", "strings", "0..1 arbitrary characters in place of 0..2 anywhere", name="edited(%s,%s)" % (slot, t), slot=slot, template=t, edit=True, lo=0, hi=1)
job("C19", "h_inventory", "strings", "an inventory without content", slot="cd_empty", lo=0, hi=4, alphabet="a./ ")
job("C19", "h_inventory", "states", "manifest and states of 1..3 versions with any of 2 digests", n=3, m=2)
job("C19", "h_inventory", "states", "manifest and states of 1..4 versions with any of 3 digests", tier="thorough", n=4, m=3)
job("C19", "h_inventory", "fixity_odd", "")
job("C19", "h_inventory", "two_versions", "")
for width, hi in ((0, 12), (2, 11), (3, 4), (4, 3), (5, 2), (6, 2), (7, 2), (8, 2), (9, 2), (10, 3)):
    job("C19", "h_inventory", "many_versions", "1..%d versions" % hi, width=width, hi=hi)
for where in ("state", "manifest"):
    job("C19", "h_inventory", "two_paths", "two paths of 1..5 characters of a and /", where=where, lo=1, hi=5)
    job("C19", "h_inventory", "two_paths", "two paths of 1..2 characters", where=where, lo=1, hi=2, alphabet="aA./ \\\u00e9")
for alg in ("sha512", "sha256"):
    for where in ("manifest", "two"):
        for pos in (0, 63):
            job("C19", "h_inventory", "digests", "", where=where, alg=alg, pos=pos)
for alg in ("md5", "sha1", "sha256", "sha512", "blake2b-160", "blake2b-256", "blake2b-384", "blake2b-512"):
    job("C19", "h_inventory", "digests", "", where="fixity", alg=alg, pos=31)
job("C19", "h_inventory", "strings", "", slot="fixity_path", template="v1/content/a", free=[1, 10, 11], hi=1)
job("C19", "h_inventory", "fixity_names", "", lo=0, hi=1)
# ---------------------------------------------------------------- C18 corruption is detected
prop("C18")
job("C18", "h_validate", "valid_samples", "ten shapes of valid objects")
job("C18", "h_validate", "corrupt_file", "every file of ten object shapes; 1..2 arbitrary characters replaced, added or removed")
job("C18", "h_validate", "flip_content", "content of 1 arbitrary character against any other", n=1)
job("C18", "h_validate", "flip_content", "content of 4 ASCII characters against any other", n=4, alphabet=ASCII)
job("C18", "h_validate", "declaration", "")
for kind in ("file", "dir", "tree"):
    job("C18", "h_validate", "extra_entry", "any name of a known stem and 0..1 arbitrary characters", kind=kind, hi=1)
    job("C18", "h_validate", "extra_entry", "any name of a known stem and 0..2 arbitrary characters", tier="thorough", kind=kind, hi=2)
job("C18", "h_validate", "moved", "")
# ---------------------------------------------------------------- C20 tampered histories
prop("C20")
for alg in ("sha512", "sha256"):
    job("C20", "h_validate", "history", "", alg_prior=alg)
    job("C20", "h_validate", "tamper", "", alg_prior=alg)
    job("C20", "h_validate", "rewritten_content", "", alg_prior=alg)
    job("C20", "h_validate", "content_paths", "", alg_prior=alg)
    job("C20", "h_validate", "fixity_claims", "", alg_prior=alg)
    job("C20", "h_validate", "duplicates", "", alg_prior=alg)
job("C20", "h_validate", "fixity_many", "8 algorithms, 3 files")
job("C20", "h_validate", "settings", "three versions")
# ---------------------------------------------------------------- C21 independence of options
prop("C21")
job("C21", "h_validate", "log_options", "")
job("C21", "h_validate", "reuse", "every pair of 25 kinds of objects")
job("C21", "h_validate", "no_digests", "")
job("C21", "h_validate", "listing", "")
# ---------------------------------------------------------------- C22 totality
prop("C22")
job("C22", "h_inventory", "structure", "one structural change at any position of an inventory with two versions")
job("C22", "h_validate", "total_bytes", "")
for where in ("root", "prior"):
    job("C22", "h_validate", "total_json", "one structural change at any position", where=where, lax=[False, True])
    job("C22", "h_validate", "total_json", "two structural changes", tier="thorough", where=where, muts=2)
job("C22", "h_validate", "total_paths", "")
# ---------------------------------------------------------------- C25 sidecars
prop("C25")
for where in ("sep", "name", "head", "tail", "path"):
    job("C25", "h_validate", "sidecar_text", "", where=where)
job("C25", "h_validate", "sidecar_digest", "")
job("C25", "h_validate", "sidecar_lax", "")
# ---------------------------------------------------------------- C11 inventory edits
prop("C11")
job("C11", "h_invedit", "lookups", "2 digests of up to 2 paths of 1 arbitrary character")
job("C11", "h_invedit", "state_lookups", "2 versions of up to 2 logical paths", nv=2)
job("C11", "h_invedit", "many_versions", "1..101 versions")
job("C11", "h_invedit", "order", "3 versions named v and 1..2 digits")
job("C11", "h_invedit", "add_version", "up to 99 versions, padding 2 and 3")
job("C11", "h_invedit", "add_file", "")
job("C11", "h_invedit", "manifest_add", "")
job("C11", "h_invedit", "fixity_add", "3 additions")
job("C11", "h_invedit", "delete", "")
job("C11", "h_invedit", "delete", "with fixity, from a version that is not the last", maxp=1, more=True)
job("C11", "h_invedit", "copies", "")
for collide in (False, True):
    job("C11", "h_invedit", "normalize", "digests with 2 free characters", collide=collide)
job("C11", "h_invedit", "serialise", "paths and messages of up to 2 arbitrary characters")
job("C11", "h_invedit", "properties", "values of 1..2 arbitrary characters")
# ---------------------------------------------------------------- C23 storage roots
prop("C23")
job("C23", "h_root", "listing", "up to 3 objects at depths 1..3, directory names of one arbitrary character", alphabet=NAMECHARS.replace(".", ""), spec=["1.1"])
job("C23", "h_root", "listing", "", alphabet="a.", hi=2, listing_order=True, defects=["none", "nested empty directory", "file beside objects"])
job("C23", "h_root", "special_names", "names of a known stem and 0..1 arbitrary characters", alphabet=NAMECHARS.replace(".", ""))
job("C23", "h_root", "object_declaration", "any declaration name of a known stem and 0..1 arbitrary characters")
job("C23", "h_root", "object_inventories", "")
job("C23", "h_root", "validate_objects", "")
job("C23", "h_root", "max_errors", "")
job("C23", "h_root", "add", "identifiers of 1..2 arbitrary characters")
job("C23", "h_root", "add", "identifiers of a path-relevant alphabet", layouts=["nnnn-tuple-tree-layout"], lo=3, hi=4, alphabet="a/:.")
job("C23", "h_root", "add", "uuids", layouts=["nnnn-uuid-quadtree"], prefix="urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c", alphabet="0aA-", lo=0, hi=1)
job("C23", "h_root", "add_refused", "")
# ---------------------------------------------------------------- C24 creating and opening storage roots
prop("C24")
job("C24", "h_root", "root_declaration", "any declaration name of a known stem and 0..2 arbitrary characters")
job("C24", "h_root", "root_content", "")
job("C24", "h_root", "layout_shapes", "")
job("C24", "h_root", "reopen", "an instance used before and opened again, every pair of layouts")
job("C24", "h_root", "initialize", "")
job("C24", "h_root", "missing_root", "")
# ---------------------------------------------------------------- C26 version metadata and bags
prop("C26")
job("C26", "h_meta", "from_inventory", "values of 0..1 arbitrary characters")
for f in ("id", "message", "name", "address"):
    job("C26", "h_meta", "bag_roundtrip", "one value of 0..2 arbitrary characters", only=f)
job("C26", "h_meta", "bag_roundtrip", "every combination of values", alphabet="a:", hi=1)
job("C26", "h_meta", "bag_refused", "")
job("C26", "h_meta", "bag_tags", "")
# ---------------------------------------------------------------- C27 command line tools
prop("C27")
job("C27", "h_cli", "usage", "")
job("C27", "h_cli", "validate", "one path")
job("C27", "h_cli", "validate", "two paths", n=2, kinds=("none", "warn", "content"))
job("C27", "h_cli", "validate", "three paths", n=3, what=("object", "inventory", "missing"), kinds=("none", "content"))
job("C27", "h_cli", "create", "")
job("C27", "h_cli", "build", "")
job("C27", "h_cli", "update", "")
job("C27", "h_cli", "choices", "every combination of settings")
job("C27", "h_cli", "extract", "logical paths of 1..3 characters")
job("C27", "h_cli", "object_validate", "")
job("C27", "h_cli", "show", "entries with names of 1..2 characters")
job("C27", "h_cli", "root_create", "")
job("C27", "h_cli", "root_ops", "identifiers with one arbitrary character")
job("C27", "h_cli", "root_objects", "")
job("C27", "h_cli", "root_validate", "")
job("C27", "h_cli", "relative", "")
job("C27", "h_cli", "sidecar", "one path")
job("C27", "h_cli", "sidecar", "two paths", n=2)
for how in ("create", "build", "update"):
    for which in ("cd", "spec", "alg", "fixity", "id", "created", "user", "norm"):
        if how == "update" and which in ("cd", "spec", "id"):
            continue   # taken from the object
        job("C13", "h_object", "settings", "values of 0..2 arbitrary characters after known stems", which=which, how=how, hi=1 if which in ("user", "alg", "fixity") else 2,
            alphabet="a:\n" if which == "user" else None)
# ---------------------------------------------------------------- C29 warnings
prop("C29")
job("C29", "h_warn", "inventory", "every combination of recommended parts in two versions", what="blocks")
job("C29", "h_warn", "inventory", "identifiers of 1..3 arbitrary characters, also after a stem", what="id")
job("C29", "h_warn", "inventory", "addresses of 0..2 arbitrary characters after a stem", what="address", hi=2)
job("C29", "h_warn", "inventory", "messages of 0..2 and user names of 1..2 arbitrary characters", what="texts", hi=2)
job("C29", "h_warn", "objects", "three versions; names of 0..1 arbitrary characters after a stem")
job("C29", "h_warn", "root", "names of 0..1 arbitrary characters after a stem")
