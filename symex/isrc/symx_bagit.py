"""bagit 1.8.1 over the model file system: make_bag, Bag and is_valid (transcribed; validated by replay against the real library)."""
import os
import re
import hashlib

CHECKSUM_ALGOS = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_256", "sha3_512", "blake2b", "blake2s")


class BagError(Exception):
    pass


class BagValidationError(BagError):
    def __init__(self, message, details=None):
        super().__init__()
        self.message = message
        self.details = details or []

    def __str__(self):
        return self.message


def _lines(path):
    with open(path, "r", encoding="utf-8") as fh:
        text = fh.read()
    if text.startswith("\ufeff"):
        text = text[1:]
    return [x + "\n" for x in text.split("\n")]


def _parse_tags(path):
    out = []
    name = value = None
    for line in _lines(path):
        if line.isspace():
            continue
        if line[0].isspace() and value is not None:
            value = value + line
        else:
            if name:
                out.append((name, value.strip()))
            if ":" not in line:
                raise BagValidationError("contains invalid tag")
            parts = line.strip().split(":", 1)
            name, value = parts[0].strip(), parts[1]
    if name:
        out.append((name, value.strip()))
    return out


def _load_tag_file(path):
    tags = {}
    for name, value in _parse_tags(path):
        if name not in tags:
            tags[name] = value
        elif not isinstance(tags[name], list):
            tags[name] = [tags[name], value]
        else:
            tags[name].append(value)
    return tags


def _hash(path, alg):
    with open(path, "rb") as fh:
        return hashlib.new(alg, fh.read()).hexdigest()


def _walk(top):
    for d, dirs, files in os.walk(top):
        files.sort()
        dirs.sort()
        for f in files:
            yield os.path.join(d, f)


def _encode(s):
    return s.replace("\r", "%0D").replace("\n", "%0A")


def _decode(s):
    return s.replace("%0D", "\r").replace("%0A", "\n")


def make_bag(bag_dir, bag_info=None, processes=1, checksums=None, checksum=None, encoding="utf-8"):
    bag_dir = os.path.abspath(bag_dir)
    if not os.path.isdir(bag_dir):
        raise RuntimeError("Bag directory %s does not exist" % bag_dir)
    if checksums is None:
        checksums = ["sha256", "sha512"]
    if bag_info is None:
        bag_info = {}
    names = list(os.listdir(bag_dir))
    os.mkdir(bag_dir + "/tmpbagdata")
    for f in names:
        os.rename(bag_dir + "/" + f, bag_dir + "/tmpbagdata/" + f)
    os.rename(bag_dir + "/tmpbagdata", bag_dir + "/data")
    total = count = 0
    for alg in checksums:
        lines = []
        total = count = 0
        for p in _walk(bag_dir + "/data"):
            lines.append("%s  %s\n" % (_hash(p, alg), _encode(p[len(bag_dir) + 1:])))
            total = total + os.path.getsize(p)
            count = count + 1
        if count:
            with open(bag_dir + "/manifest-%s.txt" % alg, "w", encoding="utf-8") as fh:
                fh.write("".join(lines))
        else:
            with open(bag_dir + "/manifest-%s.txt" % alg, "w", encoding="utf-8") as fh:
                fh.write("")
    with open(bag_dir + "/bagit.txt", "w", encoding="utf-8") as fh:
        fh.write("BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n")
    if "Bagging-Date" not in bag_info:
        bag_info["Bagging-Date"] = "2023-11-14"
    if "Bag-Software-Agent" not in bag_info:
        bag_info["Bag-Software-Agent"] = "bagit.py v1.8.1 <https://github.com/LibraryOfCongress/bagit-python>"
    bag_info["Payload-Oxum"] = "%s.%s" % (total, count)
    text = ""
    for h in sorted(bag_info.keys()):
        values = bag_info[h]
        if not isinstance(values, list):
            values = [values]
        for v in values:
            text = text + "%s: %s\n" % (h, v.replace("\n", "").replace("\r", ""))
    with open(bag_dir + "/bag-info.txt", "w", encoding="utf-8") as fh:
        fh.write(text)
    for alg in checksums:
        lines = ["%s %s\n" % (_hash(bag_dir + "/" + f, alg), f)
                 for f in ("bagit.txt", "bag-info.txt", "manifest-%s.txt" % alg)]
        with open(bag_dir + "/tagmanifest-%s.txt" % alg, "w", encoding="utf-8") as fh:
            fh.write("".join(lines))
    return Bag(bag_dir)


class Bag(object):
    def __init__(self, path=None):
        self.info = {}
        self.tags = {}
        self.entries = {}
        self.algorithms = []
        self.path = os.path.abspath(path)
        if path:
            if path[-1] == "/":
                self.path = path[:-1]
            self._open()

    def __str__(self):
        return self.path

    def _open(self):
        f = os.path.join(self.path, "bagit.txt")
        if not os.path.isfile(f):
            raise BagError("Expected bagit.txt does not exist: %s" % f)
        self.tags = _load_tag_file(f)
        if "BagIt-Version" not in self.tags or "Tag-File-Character-Encoding" not in self.tags:
            raise BagError("Missing required tag in bagit.txt")
        if self.tags["BagIt-Version"] not in ("0.96", "0.97", "1.0"):
            raise BagError("Unsupported bag version")
        f = os.path.join(self.path, "bag-info.txt")
        if os.path.exists(f):
            self.info = _load_tag_file(f)
        for kind in ("manifest-", "tagmanifest-"):
            for alg in CHECKSUM_ALGOS:
                f = os.path.join(self.path, kind + alg + ".txt")
                if not os.path.isfile(f):
                    continue
                if alg not in self.algorithms:
                    self.algorithms.append(alg)
                for line in _lines(f):
                    line = line.strip()
                    if line == "" or line.startswith("#"):
                        continue
                    entry = line.split(None, 1)
                    if len(entry) != 2:
                        continue
                    p = _decode(os.path.normpath(entry[1].lstrip("*")))
                    if p.startswith("/") or p.startswith("~") or p.startswith("../") or p == "..":
                        raise BagError("unsafe path in manifest")
                    e = self.entries.setdefault(p, {})
                    if alg in e and e[alg] != entry[0]:
                        raise BagError("listed several times")
                    e[alg] = entry[0]

    def is_valid(self, fast=False, completeness_only=False):
        try:
            return self.validate()
        except BagError:
            return False

    def validate(self, processes=1, fast=False, completeness_only=False):
        if not os.path.isdir(self.path + "/data"):
            raise BagValidationError("no data directory")
        if not any(os.path.isfile(self.path + "/manifest-%s.txt" % a) for a in CHECKSUM_ALGOS):
            raise BagValidationError("No manifest files found")
        present = [p[len(self.path) + 1:] for p in _walk(self.path + "/data")]
        oxum = self.info.get("Payload-Oxum")
        if oxum is not None:
            if isinstance(oxum, list):
                oxum = oxum[0]
            if "." not in oxum:
                raise ValueError("not enough values to unpack (expected 2, got 1)")
            b, n = oxum.split(".", 1)
            if not b.isdigit() or not n.isdigit():
                raise BagError("Malformed Payload-Oxum value")
            size = sum(os.path.getsize(self.path + "/" + p) for p in present)
            if int(n) != len(present) or int(b) != size:
                raise BagValidationError("Payload-Oxum validation failed")
        for p in self.entries:
            if not os.path.isfile(self.path + "/" + p):
                raise BagValidationError("missing file")
        algs = [a for a in CHECKSUM_ALGOS if os.path.isfile(self.path + "/manifest-%s.txt" % a)]
        for p in present:
            if p not in self.entries:
                raise BagValidationError("unexpected file")
            for a in algs:
                if a not in self.entries[p]:
                    raise BagValidationError("file missing from a manifest")
        for p in self.entries:
            for a in self.entries[p]:
                if self.entries[p][a].lower() != _hash(self.path + "/" + p, a):
                    raise BagValidationError("checksum mismatch")
        return True
