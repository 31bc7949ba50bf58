From 063d6bbcd6ebe9d612811a60c72ae8778739099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 01/82] fix: refuse identifiers . and .. in the flat-quoted
 layout

---
 ocfl/layout_nnnn_flat_quoted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..8736b95 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,13 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Blank, "." and ".." are not allowed because they would
+            not be quoted and do not name a directory within the root
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From 059066931adb41646dfebb05ca4acc3b1a3144f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 02/82] fix: refuse a blank identifier in the 0003 layout

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..ce039c6 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -183,7 +183,13 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
             then it is tuncated at 100 characters and then "-" and the digest
             appended (so it would be 165 chars with sha256).
         6. The encapsulation directory name is joined to the end of the path.
+
+        Raises:
+            LayoutException: if the identifier is blank as there would then be
+                no encapsulation directory
         """
+        if identifier == "":
+            raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return _id_to_path(identifier=identifier,
                            digest_algorithm=self.digest_algorithm,
                            tuple_size=self.tuple_size,
-- 
2.43.0


From 21bf0314b10df4d591b42cfdadf8832925ccf34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 03/82] fix: uuid-quadtree layout accepts only ASCII hex uuids
 and raises LayoutException

---
 ocfl/layout_nnnn_uuid_quadtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..6f1e440 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+        match = re.fullmatch(r"""([0-9a-f]{4})([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})\-([0-9a-f]{4})([0-9a-f]{4})([0-9a-f]{4})""", identifier)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From 1f2e120251e2afab26d55c4fab0c81321243bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 04/82] fix: W3C datetimes with non-ASCII digits or a trailing
 newline are refused

---
 ocfl/w3c_datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..3fdf3fc 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context="datetime"):
     if s == "":
         raise ValueError("Attempt to set empty %s" % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.fullmatch(r"\d\d\d\d(\-\d\d(\-\d\d)?)?", s, re.ASCII)
     if m is not None:
         if m.group(1) is None:
             s += "-01-01"
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.fullmatch(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -101,8 +101,8 @@ def str_to_datetime(s, context="datetime"):
     # Seems that one should be able to handle timezone offset
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
-    m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+    m = re.fullmatch(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
+                     r"(\d\d):(\d\d))?", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From 19652f995386176657f2344854b4e06058f6509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 05/82] fix: version directory names with non-ASCII digits or a
 trailing newline are refused

---
 ocfl/object_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..91310c8 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -51,7 +51,7 @@ def next_version_directory(vdir):
     Raises an ObjectExtension if the format of version cannot be understood
     or if there is overflow of a zero-padded form.
     """
-    m = re.match(r"""v((\d)\d*)$""", vdir)
+    m = re.fullmatch(r"""v((\d)\d*)""", vdir, re.ASCII)
     if not m:
         raise ObjectException("Bad version directory '%s'" % vdir)
     next_n = int(m.group(1)) + 1
@@ -164,7 +164,7 @@ def parse_version_directory(dirname):
 
     Returns the integer version number from this version directory name.
     """
-    m = re.match(r"""v(\d{1,5})$""", dirname)
+    m = re.fullmatch(r"""v(\d{1,5})""", dirname, re.ASCII)
     if not m:
         raise ObjectException("Bad version directory name: %s" % (dirname))
     v = int(m.group(1))
-- 
2.43.0


From f5de82325cc39a88a4d6fc70bd9707e59e024e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 06/82] fix: find_path_type recognizes only exact OCFL
 declaration names

---
 ocfl/object_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index 91310c8..a7d7daf 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -150,7 +150,7 @@ def find_path_type(path):
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
     # multiple declarations this will be caught later
     for namaste in namastes:
-        m = re.match(r"""ocfl(_object)?_(\d+\.\d+)$""", namaste.tvalue)
+        m = re.fullmatch(r"""ocfl(_object)?_(\d+\.\d+)""", namaste.tvalue, re.ASCII)
         if m:
             return "root" if m.group(1) is None else "object"
     return "unrecognized 0= declaration file or files (first is %s)" % (namastes[0].tvalue)
-- 
2.43.0


From bcecf678ae814ab820189b6a0d59a5badf8efc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 07/82] fix: digests with a trailing newline are reported by
 the inventory validator

---
 ocfl/inventory_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..ff1a5a4 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -276,7 +276,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -328,7 +328,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -471,7 +471,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From 4bafd8cbd9cfe1da6a43b00d688f499b15b4e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 08/82] fix: check all elements of content paths that contain a
 newline

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index ff1a5a4..2d85b0b 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -554,7 +554,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From c31d26177866016c93e7508bc163e125b3ab6253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 09/82] fix: inventory type must be exactly a conformance
 declaration URI

---
 ocfl/inventory.py           | 2 +-
 ocfl/inventory_validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..fec7a14 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -140,7 +140,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
     def spec_version(self):
         """Get specification version from the conformance declaration."""
         decl = self.data.get("type", "")
-        m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", decl)
+        m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", decl)
         if m:
             return m.group(1)
         return None
diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 2d85b0b..9836947 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -135,7 +135,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
-- 
2.43.0


From d5e13706a587f51a558724414a48602357335331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 10/82] fix: only exact object declaration names mark an object
 when walking a storage root

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..fab5c5d 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -321,7 +321,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
-- 
2.43.0


From 338ac86d9a9e68459898d1338fd33bbd0261ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 11/82] fix: layouts without parameters accept a config.json
 and configs must be JSON objects

---
 ocfl/layout.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..6456a79 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -196,6 +196,8 @@ class Layout:
         Finally, the check_full_config method is called to check anything that
         might required all of the configuration to be known.
         """
+        if not isinstance(config, dict):
+            raise LayoutException("Storage root extension config is not a JSON object")
         # Check the extensionName if required and/or specified
         if "extensionName" not in config:
             if require_extension_name:
@@ -203,8 +205,9 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
-            method(config.get(key))
+        if self.PARAMS is not None:
+            for key, method in self.PARAMS.items():
+                method(config.get(key))
         # Finally, check full config
         self.check_full_config()
 
-- 
2.43.0


From 04d91d4a5772e068af1b2156ab8377b4be37ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 12/82] fix: layout parameters that must be integers are not
 JSON booleans

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 4 ++--
 ocfl/layout_nnnn_tuple_tree.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index ce039c6..de52249 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -110,7 +110,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if isinstance(value, bool) or not isinstance(value, int) or value < 0 or value > 32:
             raise LayoutException("tupleSize parameter must be aninteger between 0 and 32 inclusive")
         self.tuple_size = value
 
@@ -134,7 +134,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("numberOfTuples parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if isinstance(value, bool) or not isinstance(value, int) or value < 0 or value > 32:
             raise LayoutException("numberOfTuples parameter must be aninteger between 0 and 32 inclusive")
         self.number_of_tuples = value
 
diff --git a/ocfl/layout_nnnn_tuple_tree.py b/ocfl/layout_nnnn_tuple_tree.py
index 1b26994..98f205e 100644
--- a/ocfl/layout_nnnn_tuple_tree.py
+++ b/ocfl/layout_nnnn_tuple_tree.py
@@ -57,7 +57,7 @@ class Layout_NNNN_Tuple_Tree(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 2 or value > 6:
+        if isinstance(value, bool) or not isinstance(value, int) or value < 2 or value > 6:
             raise LayoutException("tupleSize parameter must be an integer between 2 and 6 inclusive")
         self.tuple_size = value
 
-- 
2.43.0


From 503dade189ddc043f3f8f8bb8fc0f2e812fdbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 13/82] fix: storage roots created with the tuple tree layout
 can be opened again

---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From cb97d0c1d52959893887529ae27999bec7f073e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 14/82] fix: validation reports a bad layout configuration
 instead of raising

---
 ocfl/data/validation-errors.json | 6 ++++++
 ocfl/storage_root.py             | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..9dd2ab2 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -542,6 +542,12 @@
       "en": "OCFL Storage Root %s Storage root %s has layout file doesn't have required extension and description string entries"
     }
   },
+  "E070d": {
+    "params": ["root", "message"],
+    "description": {
+      "en": "OCFL Storage Root %s has a bad layout configuration (%s)"
+    }
+  },
   "E071": {
     "params": ["root", "layout_name"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index fab5c5d..8c79ead 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -16,6 +16,7 @@ from .validator import Validator
 from .validation_logger import ValidationLogger
 
 # Specific layouts
+from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
@@ -264,7 +265,10 @@ class StorageRoot():
             else:
                 logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
-            self.layout.read_layout_params(root_fs=self.root_fs)
+            try:
+                self.layout.read_layout_params(root_fs=self.root_fs)
+            except LayoutException as e:
+                raise StorageRootException("E070d", root=self.root, message=str(e))
         # Other files are allowed...
         return True
 
-- 
2.43.0


From 4d8e32e5e0fc0e392fce9d76d51011111c92518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 15/82] fix: object_path on a storage root without a layout
 raises StorageRootException

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 8c79ead..7f76849 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -173,6 +173,8 @@ class StorageRoot():
         if self.layout is None:
             self.open_root_fs()
             self.check_root_structure()
+        if self.layout is None:
+            raise StorageRootException("Storage root %s has no layout so object paths cannot be determined" % (self.root))
         return self.layout.identifier_to_path(identifier)
 
     def initialize(self, spec_version=None, layout_params=None):
-- 
2.43.0


From ce007e3cbb79a2f10d27c1b1ef4c9cef522e3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 16/82] fix: initialize uses the specification version given to
 the StorageRoot constructor

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 7f76849..861884d 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -100,8 +100,8 @@ class StorageRoot():
         Sets self.spec_version to spec_version if given and good,
         otherwise to the default.
         """
-        if spec_version is None and self.spec_version is None:
-            spec_version = default
+        if spec_version is None:
+            spec_version = default if self.spec_version is None else self.spec_version
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From 5c14a3422828c6721a566d32b32216847959ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 17/82] fix: a first version with no content has a state block

---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..93029b2 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -140,7 +140,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From 2eced1de13c374c8c26032afd0d16d1a0c9a5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 18/82] fix: new versions keep the object's specification
 version so that inventory and declaration agree

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..dd8ba2a 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -305,6 +305,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -506,6 +507,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=inventory.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From 1c1fb6c6cbedb736795055c2fb81ce707cb43646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:40 +0000
Subject: [PATCH 19/82] fix: validation reports a root inventory type that does
 not match the object declaration

---
 ocfl/validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..31654c3 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -162,6 +162,10 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
+            if inv_validator.spec_version != self.spec_version:
+                # Inventory type must accord with the object declaration
+                self.log.error("E038a", where="root", got=inventory["type"],
+                               expected="https://ocfl.io/" + self.spec_version + "/spec/#inventory")
             inventory_is_valid = self.log.num_errors == 0
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
-- 
2.43.0


From 472d89091f69261d4c56796870fdd585145637ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 20/82] fix: adding the same source file twice to a new version
 without dedupe copies both content files

---
 ocfl/new_version.py | 4 ++--
 ocfl/object.py      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 93029b2..e9faa50 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
diff --git a/ocfl/object.py b/ocfl/object.py
index dd8ba2a..d117046 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -318,7 +318,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -368,7 +368,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -533,7 +533,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 3a8b1329625847f17afc26298a8c661a404631f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 21/82] fix: deleting a file just added to a new version leaves
 no manifest entry or content file

---
 ocfl/inventory.py   | 5 ++++-
 ocfl/new_version.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index fec7a14..d75f024 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -792,7 +792,10 @@ class Version():
                         for cpath in self.inv.manifest[digest]:
                             if not cpath.startswith(self.vdir + "/"):
                                 cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
+                        if cpaths:
+                            self.inv.manifest[digest] = cpaths
+                        else:
+                            del self.inv.manifest[digest]
                     # FIXME - Also adjust fixity!
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index e9faa50..fdf42ee 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -364,6 +364,11 @@ class NewVersion():
             inventory.current_version.delete_logical_path(logical_path)
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
+        # Do not copy content that is no longer in the manifest
+        content_paths = inventory.content_paths
+        for content_path in list(self.files_to_copy):
+            if content_path not in content_paths:
+                del self.files_to_copy[content_path]
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
-- 
2.43.0


From d9319b1d5fe5742422f9b75bf30c588ec97ab80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 22/82] fix: renaming a file keeps its content in the new
 version

---
 ocfl/new_version.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index fdf42ee..5761416 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -384,14 +384,13 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
-            raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        # Change the path in place, the content and its manifest entry stay as they are
+        for logical_paths in inventory.current_version.state.values():
+            if old_logical_path in logical_paths:
+                logical_paths.remove(old_logical_path)
+                logical_paths.append(new_logical_path)
+                return
+        raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
-- 
2.43.0


From 8632dba27bb5fb15080fbc856cbaa7c70abc693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 23/82] fix: adding to or renaming in a new version refuses
 invalid and conflicting paths

---
 ocfl/new_version.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 5761416..9ff1d5c 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -21,6 +21,27 @@ class NewVersionException(Exception):
     """Exception class for NewVersion objects."""
 
 
+def _path_problem(path, existing_paths):
+    """Reason path cannot be added alongside existing_paths.
+
+    Arguments:
+        path (str): logical path or content path
+        existing_paths (list): paths of the same kind already present
+
+    Returns:
+        str: description of the problem, or None if the path is OK. Path
+            elements must not be empty, "." or "..", and no path may be
+            used both as a file and as a directory
+    """
+    for element in path.split("/"):
+        if element in ("", ".", ".."):
+            return "must not have empty, . or .. path elements"
+    for existing in existing_paths:
+        if existing.startswith(path + "/") or path.startswith(existing + "/"):
+            return "conflicts with existing path %s" % existing
+    return None
+
+
 class NewVersion():
     """Class to represent a new version to be added to an Object."""
 
@@ -315,10 +336,16 @@ class NewVersion():
         elif content_path in inventory.content_paths:
             raise NewVersionException("Bad content path %s, already exists!"
                                       % (content_path))
+        problem = _path_problem(content_path, inventory.content_paths)
+        if problem:
+            raise NewVersionException("Bad content path %s, %s" % (content_path, problem))
         logging.debug("add(%s %s %s)", src_path, content_path, logical_path)
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        problem = _path_problem(logical_path, inventory.current_version.logical_paths)
+        if problem:
+            raise NewVersionException("Bad logical path %s, %s" % (logical_path, problem))
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -384,6 +411,9 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
+        problem = _path_problem(new_logical_path, [path for path in inventory.current_version.logical_paths if path != old_logical_path])
+        if problem:
+            raise NewVersionException("Cannot rename to logical path %s, %s" % (new_logical_path, problem))
         # Change the path in place, the content and its manifest entry stay as they are
         for logical_paths in inventory.current_version.state.values():
             if old_logical_path in logical_paths:
-- 
2.43.0


From a66b32d88d24aab70ed57520679ff0bceddbebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 24/82] fix: extract_file refuses to overwrite an existing file

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index d117046..3fa77a8 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -776,6 +776,8 @@ class Object():  # pylint: disable=too-many-public-methods
             existing_file = manifest[digest][0]  # First entry with the digest, there could be > 1
             for logical_file in logical_files:
                 if logical_file == logical_path:
+                    if dst_fs.exists(basename):
+                        raise ObjectException("Destination file %s already exists in %s" % (basename, dstdir))
                     logging.debug("Copying %s -> %s", digest, basename)
                     fsw_copyfile(self.obj_fs, existing_file, dst_fs, basename)
                     copied = True
-- 
2.43.0


From 1a05b0bcc4ff907c4a4ab898d9ad33016e2f5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 25/82] fix: inventory sidecars use the digest algorithm of the
 inventory written

---
 ocfl/object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3fa77a8..bbf147f 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -250,8 +250,12 @@ class Object():  # pylint: disable=too-many-public-methods
         if inventory is not None:
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        # The inventory determines the digest algorithm if it has one
+        digest_algorithm = self.digest_algorithm
+        if inventory is not None and inventory.digest_algorithm is not None:
+            digest_algorithm = inventory.digest_algorithm
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From 05b8e039234c8c897dc95f6f2a1d67897eac9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 26/82] fix: a new version without srcdir keeps the content and
 changes only metadata and settings

---
 ocfl/new_version.py | 5 +++--
 ocfl/object.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 9ff1d5c..4ca406c 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -51,7 +51,7 @@ class NewVersion():
         Arguments:
             srcdir (str): source directory name for files that will be added
                 to this new version. May be a fsw filesystem specification.
-                Default is "."
+                Default is ".". If None then no files can be added
 
         The default constructor is not expected to be used directly, see
         NewVersion.first_version(...) and NewVersion.next_version(..) for the
@@ -67,7 +67,8 @@ class NewVersion():
         # Additional state needed for final commit
         self.old_digest_algorithm = None
         self.files_to_copy = {}  # dict: content_path -> src_path
-        self.src_fs = fsw_openfs(self.srcdir)
+        if self.srcdir is not None:
+            self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
     def first_version(cls, *,
diff --git a/ocfl/object.py b/ocfl/object.py
index bbf147f..c509007 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -403,7 +403,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
@@ -430,7 +430,8 @@ class Object():  # pylint: disable=too-many-public-methods
                 contains the object to be update. The default is None in which
                 case the object is assumed to be at the filesystem root of the
                 currently open object filesystem.
-            srcdir (str): the source directory
+            srcdir (str or None): the source directory, may be None if no files
+                will be added
             digest_algorithm (str or None): the digest algorithm used for content addressing
                 within the new version of this object. Default None which means use
                 same digest algorithm as the last version
-- 
2.43.0


From 6a09d1e43ff26f50a0439eba6eb02175c699615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 27/82] fix: create and build refuse a destination that already
 exists and is not empty

---
 ocfl/object.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index c509007..1d7bab7 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -141,6 +141,20 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def create_obj_fs(self, objdir):
+        """Open an fs filesystem for a new object at objdir.
+
+        Arguments:
+            objdir (str): as for open_obj_fs
+
+        Raises:
+            ocfl.ObjectException: on failure to open filesystem, or if there
+                is already something at objdir
+        """
+        self.open_obj_fs(objdir, create=True)
+        if len(fsw_listdir_names(self.obj_fs, "")) > 0:
+            raise ObjectException("Destination '%s' already exists and is not empty" % (objdir))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -290,7 +304,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
+            self.create_obj_fs(objdir)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -366,7 +380,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self.create_obj_fs(objdir)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
-- 
2.43.0


From 6e92c8a5b26a84bdd1198f643a6a41b93fc5ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 28/82] fix: build names version directories consistently and
 refuses a source with no versions

---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 1d7bab7..4072d0c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -217,6 +217,8 @@ class Object():  # pylint: disable=too-many-public-methods
                 # Ignore directories that are not valid version dirs
                 pass
         # Do we have a valid sequence of versions?
+        if len(versions) == 0:
+            raise ObjectException("No version directories found in source directory")
         n = 1
         for vn in sorted(versions.keys()):
             if vn != n:
@@ -310,7 +312,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = None
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -334,7 +336,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From 8987c3c8c27b3a6e794f0e86e4f3f8dfb52ad937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 29/82] fix: ocfl-sidecar uses the digest algorithm of the
 inventory

---
 ocfl-sidecar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 1d6e4ed..6327389 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -46,7 +46,7 @@ def create_sidecar(args, directory):
             obj.digest_algorithm = args.digest
         else:  # Read inventory in the hope of setting digest_algoritm
             try:
-                obj.parse_inventory()
+                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
             except ocfl.ObjectException as e:
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
-- 
2.43.0


From 26fa2ffb5d2f727da8d799447e40b8b79db60c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:07 +0000
Subject: [PATCH 30/82] fix: sha512-spec-ex digests match their own digest
 pattern

---
 ocfl/digest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/digest.py b/ocfl/digest.py
index 2e99656..0c829a6 100755
--- a/ocfl/digest.py
+++ b/ocfl/digest.py
@@ -100,7 +100,7 @@ DIGEST_REGEXES = {
     "blake2b-384": r"""^[0-9a-fA-F]{96}$""",
     "blake2b-256": r"""^[0-9a-fA-F]{64}$""",
     "blake2b-160": r"""^[0-9a-fA-F]{40}$""",
-    "sha512-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$""",
+    "sha512-spec-ex": r"""^[0-9a-f]{15}\.\.\.[0-9a-f]{3}$""",
     "sha256-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$"""
 }
 
-- 
2.43.0


From d15de2ea5ff9aaf82075c39fc07a063c55691905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 31/82] fix: versions written without metadata have the
 required created time

---
 ocfl/object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4072d0c..daf658d 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -366,6 +366,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        if metadata is None:
+            metadata = VersionMetadata()  # will give created, which is required
         nv = NewVersion.first_version(srcdir=srcdir,
                                       identifier=self.id,
                                       spec_version=self.spec_version,
@@ -462,6 +464,8 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.NewVersion: object where the new version will be built before
             finally be added with write_new_version()
         """
+        if metadata is None:
+            metadata = VersionMetadata()  # will give created, which is required
         # Check the current object
         self.open_obj_fs(objdir)
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-- 
2.43.0


From ed05d6386b37df4ee517ee86c4d1a645f810e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 32/82] fix: the old root sidecar is kept until the new version
 is complete

---
 ocfl/object.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index daf658d..ce1d346 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -551,10 +551,6 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -563,6 +559,11 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm, only now
+        # that everything else is in place so that an interrupted update leaves it
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From 5d822895511ce8a2e0e23a5ac6eb33cf6e575e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:15 +0000
Subject: [PATCH 33/82] fix: states of a version are compared by normalized
 digest

---
 ocfl/inventory_validator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 9836947..5689edc 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -589,8 +589,11 @@ class InventoryValidator():
         here provide more detailed diagnostics in the case that the digest
         algorithm is the same across versions being compared.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        # Digests are compared in normalized form, case may differ
+        self_state = {normalized_digest(digest, self.digest_algorithm): files
+                      for digest, files in self.inventory["versions"][version]["state"].items()}
+        prior_state = {normalized_digest(digest, self.digest_algorithm): files
+                       for digest, files in prior.inventory["versions"][version]["state"].items()}
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From f8f1e24bc59ea98c5ce093e580aa9fbd372ba280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:28 +0000
Subject: [PATCH 34/82] fix: InventoryValidator reports malformed structures
 instead of raising

---
 ocfl/inventory_validator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 5689edc..1a1651b 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -114,6 +114,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="inventory is not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
@@ -147,7 +150,7 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
-        elif self.lax_digests:
+        elif self.lax_digests and isinstance(inventory["digestAlgorithm"], str):
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
             self._warning("W004")
@@ -290,6 +293,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E042a", path=file)
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -344,7 +350,7 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if not isinstance(file, str) or manifest_files is None or file not in manifest_files:
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -417,6 +423,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E048", version=v)  # No version block
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -477,11 +486,13 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E052", version=version, path=path)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-                    if digest not in unnormalized_digests:
+                    if unnormalized_digests is not None and digest not in unnormalized_digests:
                         # Exact string value must match, not just normalized
                         self._error("E050f", version=version, digest=digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
-- 
2.43.0


From dd4e5fb1401f4521df5e93850357833bbe7ad3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 35/82] fix: paths used as both file and directory are detected
 at every depth

---
 ocfl/inventory_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 1a1651b..38438b8 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _all_directories(directories):
+    """Get set of the given directories and all of their parent directories."""
+    all_directories = set()
+    for directory in directories:
+        while directory and directory not in all_directories:
+            all_directories.add(directory)
+            directory = directory.rpartition("/")[0]
+    return all_directories
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -300,7 +310,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _all_directories(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -498,7 +508,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _all_directories(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
-- 
2.43.0


From 9dae41489aae6047edda563e0cff2317244e83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 36/82] fix: Validator reports unreadable or malformed files
 instead of raising

---
 ocfl/validator.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 31654c3..c970742 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -161,7 +161,9 @@ class Validator():
             self.log.error("E063")
             return False
         try:
+            num_errors = self.log.num_errors
             inventory, inv_validator = self.validate_inventory(inv_file)
+            root_inventory_is_valid = self.log.num_errors == num_errors
             if inv_validator.spec_version != self.spec_version:
                 # Inventory type must accord with the object declaration
                 self.log.error("E038a", where="root", got=inventory["type"],
@@ -177,7 +179,7 @@ class Validator():
             # Object root
             self.validate_object_root(all_versions, already_checked=[namaste.filename for namaste in namastes])
             # Version inventory files
-            (prior_manifest_digests, prior_fixity_digests) = self.validate_version_inventories(all_versions)
+            (prior_manifest_digests, prior_fixity_digests) = self.validate_version_inventories(all_versions, root_inventory_is_valid)
             if inventory_is_valid:
                 # Object content
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
@@ -206,10 +208,10 @@ class Validator():
         try:
             with self.obj_fs.open(inv_file, "r") as fh:
                 inventory = json.load(fh)
-        except FileNotFoundError:
+        except OSError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (ValueError, RecursionError) as e:  # bad JSON or bad encoding
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
@@ -242,7 +244,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != digest_recorded:
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (ValueError, OSError) as e:
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
@@ -297,7 +299,7 @@ class Validator():
             else:
                 self.log.error("E067", entry=name)
 
-    def validate_version_inventories(self, version_dirs):
+    def validate_version_inventories(self, version_dirs, root_inventory_is_valid=True):
         """Each version SHOULD have an inventory up to that point.
 
         Also keep a record of any content digests different from those in the root inventory
@@ -305,6 +307,9 @@ class Validator():
 
         version_dirs is an array of version directory names and is assumed to be in
         version sequence (1, 2, 3...).
+
+        root_inventory_is_valid is False if there were errors in the root inventory
+        so that versions inventories cannot be compared with it.
         """
         prior_manifest_digests = {}  # file -> algorithm -> digest -> [versions]
         prior_fixity_digests = {}  # file -> algorithm -> digest -> [versions]
@@ -337,12 +342,14 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                num_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == num_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
                 self.inventory_digest_files[version_dir] = "inventory.json." + digest_algorithm
-                if self.id and "id" in version_inventory:
+                if self.id and inv_validator.id:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
                 if first_version:
@@ -360,6 +367,9 @@ class Validator():
                     first_version_content_directory_set = False  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
+                if not version_inventory_is_valid:
+                    # Cannot rely on the structure to make further checks
+                    version_inventory = {}
                 if "manifest" in version_inventory:
                     # Check that all files listed in prior inventories are in manifest
                     not_seen = set(prior_manifest_digests.keys())
@@ -382,7 +392,7 @@ class Validator():
                                 prior_manifest_digests[filepath][digest_algorithm][digest] = []
                             prior_manifest_digests[filepath][digest_algorithm][digest].append(version_dir)
                 # Is this inventory an appropriate prior version of the object root inventory?
-                if self.root_inv_validator is not None:
+                if version_inventory_is_valid and root_inventory_is_valid:
                     self.root_inv_validator.validate_as_prior_version(inv_validator)
                 # Fixity blocks are independent in each version. Record all values and the versions
                 # they occur in for later checks against content
-- 
2.43.0


From fce516936faf92219af722422d65ac7976042d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 37/82] fix: declarations that are not readable text are
 reported as invalid

---
 ocfl/namaste.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..474b63b 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,13 +122,16 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (OSError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
                 raise NamasteException("Namaste file %s does not exist!" % (filepath))
-            with open(filepath, "r", encoding="utf-8") as fh:
-                content = fh.read()
+            try:
+                with open(filepath, "r", encoding="utf-8") as fh:
+                    content = fh.read()
+            except UnicodeDecodeError:
+                raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
 
-- 
2.43.0


From 9cf2175de6042fbd19d502f3fd1c4408218203d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 38/82] fix: a file in place of the content directory is an
 error

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index c970742..dd50a3f 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -433,7 +433,7 @@ class Validator():
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-                    elif entry == self.content_directory:
+                    elif entry == self.content_directory and self.obj_fs.isdir(entrypath):
                         # Check content_directory
                         content_path = os.path.join(version_dir, self.content_directory)
                         num_content_files_in_version = 0
-- 
2.43.0


From b252fe92f58b7589ca52281dcaa1c4bd69b4822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 39/82] fix: a Validator used for several objects judges each
 on its own

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index dd50a3f..d003df5 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        start_errors = self.log.num_errors  # log may have records of other objects
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -168,7 +169,7 @@ class Validator():
                 # Inventory type must accord with the object declaration
                 self.log.error("E038a", where="root", got=inventory["type"],
                                expected="https://ocfl.io/" + self.spec_version + "/spec/#inventory")
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == start_errors
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
@@ -185,7 +186,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == start_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
-- 
2.43.0


From e5faa9ef6b362390d2a5242b5acedea4165b3dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:46 +0000
Subject: [PATCH 40/82] fix: registered extension directories in an object are
 recognized

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index d003df5..1df0c01 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -293,7 +293,7 @@ class Validator():
         extensions.
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
-            name = entry["name"]
+            name = os.path.basename(entry["name"])
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
-- 
2.43.0


From 848130bbd34276e96226545f2a84bb460bf550d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 41/82] fix: sidecars for digest algorithms with a hyphen in
 their name are checked

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 1df0c01..4009c15 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -237,7 +237,7 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
-- 
2.43.0


From 809594bc825025073d21e84ea90f21a3780d8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 42/82] fix: contentDirectory is compared with the first
 version only (E019)

---
 ocfl/validator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 4009c15..88febcc 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -317,7 +317,7 @@ class Validator():
         if len(version_dirs) == 0:
             return prior_manifest_digests, prior_fixity_digests
         first_version = version_dirs[0]
-        first_version_content_directory_set = False
+        first_version_content_directory_set = None  # unknown until we have seen first version
         last_version = version_dirs[-1]
         prev_version_dir = "NONE"  # will be set for first directory with inventory
         prev_spec_version = "1.0"  # lowest version
@@ -353,19 +353,19 @@ class Validator():
                 if self.id and inv_validator.id:
                     if version_inventory["id"] != self.id:
                         self.log.error("E037b", where=version_dir, root_id=self.id, version_id=version_inventory["id"])
-                if first_version:
+                if version_dir == first_version:
                     first_version_content_directory_set = inv_validator.content_directory_set
                     if not first_version_content_directory_set and self.content_directory_set:
                         self.log.error("E019", where="root")
-                        first_version_content_directory_set = False  # report E019 just once
-                elif not first_version_content_directory_set and inv_validator.content_directory_set:
+                        first_version_content_directory_set = None  # report E019 just once
+                elif first_version_content_directory_set is False and inv_validator.content_directory_set:
                     # E019 is a rather odd and specific error condition: that if
                     # the contentDirectory is set for any version it must be set
                     # the first version. It isn't clear that this is very usefully
                     # different from E020 that picks up inconsistency between ant
                     # two versions.
                     self.log.error("E019", where=version_dir)
-                    first_version_content_directory_set = False  # report E019 just once
+                    first_version_content_directory_set = None  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
                 if not version_inventory_is_valid:
-- 
2.43.0


From 05d00eec059b3e868fa0d5ac5c8f10a8c16fab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 43/82] fix: only spaces and tabs may separate digest and name
 in a sidecar

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 88febcc..79a4d0e 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -529,7 +529,7 @@ class Validator():
         with fsw_openfile(inv_digest_file, "r", fs=self.obj_fs) as fh:
             line = fh.readline()
             # we ignore any following lines, could raise exception
-        m = re.match(r"""(\w+)\s+(\S+)\s*$""", line)
+        m = re.match(r"""(\w+)[ \t]+(\S+)\s*$""", line)
         if not m:
             raise ValueError("Bad inventory digest file %s, wrong format" % (inv_digest_file))
         if m.group(2) != INVENTORY_FILENAME:
-- 
2.43.0


From d1cdb8f8effb2a8c86c9d2b46e4ded2d09f2a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:46 +0000
Subject: [PATCH 44/82] fix: unsupported digest algorithms with lax digests are
 reported or skipped instead of raising

---
 ocfl/validator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 79a4d0e..78d3fa1 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -475,7 +475,11 @@ class Validator():
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
                         if self.check_digests:
-                            content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            try:
+                                content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
+                            except ValueError:  # lax_digests allows unsupported algorithms
+                                self.log.error("E026a", where="root", digest=self.digest_algorithm)
+                                return
                             if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
                                 self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
                             known_digests = {self.digest_algorithm: content_digest}
@@ -509,7 +513,10 @@ class Validator():
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
                 else:
-                    content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    try:
+                        content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    except ValueError:  # lax_digests allows unsupported algorithms, cannot check
+                        continue
                     known_digests[digest_algorithm] = content_digest
                 for digest in additional_digests[filepath][digest_algorithm]:
                     if content_digest != normalized_digest(digest, digest_type=digest_algorithm):
-- 
2.43.0


From 46bab3c502e40e80b97cdfd98c0649e8cf6db986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:14 +0000
Subject: [PATCH 45/82] fix: Inventory deep copies data given as a dict, as
 documented

---
 ocfl/inventory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index d75f024..4eebc82 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -132,7 +132,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
         elif isinstance(data, Inventory):
             self.data = copy.deepcopy(data.data)
         elif isinstance(data, dict):
-            self.data = data
+            self.data = copy.deepcopy(data)
         else:
             raise InventoryException("Bad data type supplied to Inventory() creator, " + str(type(data)))
 
-- 
2.43.0


From 3e85fd0bc85d1e1c8d4c42d87668bb98a9ae9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:14 +0000
Subject: [PATCH 46/82] fix: normalize_digests merges entries whose digests
 differ only in case instead of losing one

---
 ocfl/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 4eebc82..ffbfba6 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -554,7 +554,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
             if digest != norm_digest:
                 from_to[digest] = norm_digest
         for (digest, norm_digest) in from_to.items():
-            manifest[norm_digest] = manifest.pop(digest)
+            manifest[norm_digest] = manifest.get(norm_digest, []) + manifest.pop(digest)
         for v in self.versions():
             state = v.state
             from_to = {}
@@ -563,7 +563,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
                 if digest != norm_digest:
                     from_to[digest] = norm_digest
             for (digest, norm_digest) in from_to.items():
-                state[norm_digest] = state.pop(digest)
+                state[norm_digest] = state.get(norm_digest, []) + state.pop(digest)
 
 
 class Version():
-- 
2.43.0


From e474bd4a85fb22f0da700a96cafe1720b514ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:14 +0000
Subject: [PATCH 47/82] fix: fsw_openfile and fsw_readtext accept absolute
 local paths

---
 ocfl/fsw.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..b4dc7ed 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -49,6 +49,22 @@ def _fsw_or_local(fs):
     return DirFileSystem(os.getcwd(), LocalFileSystem()) if fs is None else fs
 
 
+def _fsw_or_local_file(fs, filepath):
+    """Filesystem and path within it for a file that may be on the local filesystem.
+
+    Arguments:
+        fs (AbstractFileSystem): a filesystem instance else None
+        filepath (str): file path on fs. If fs is None then the path may be
+            either absolute or relative to the current working directory
+
+    Returns:
+        tuple: of (filesystem instance, path on that filesystem)
+    """
+    if fs is None:
+        return LocalFileSystem(), os.path.join(os.getcwd(), filepath)
+    return fs, filepath
+
+
 def _fsw_s3_urlparse(url_path):
     """S3 specific parsing of URL style parameters.
 
@@ -303,7 +319,7 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
-    fs = _fsw_or_local(fs)
+    fs, filepath = _fsw_or_local_file(fs, filepath)
     return fs.open(filepath, mode, **kwargs)
 
 
@@ -318,7 +334,7 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
+    fs, filepath = _fsw_or_local_file(fs, filepath)
     with fs.open(filepath, "r") as fh:
         text = fh.read()
     return text
-- 
2.43.0


From 148e1179216ab22f7171e0a61f5bf95c4a0fcdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:30 +0000
Subject: [PATCH 48/82] fix: unreadable root inventories raise ObjectException
 instead of assorted errors that abort storage root listings

---
 ocfl/object.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index ce1d346..eb04ece 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -823,9 +823,19 @@ class Object():  # pylint: disable=too-many-public-methods
 
         Returns:
             ocfl.Inventory: new Inventory object for the parsed inventory.
+
+        Raises:
+            ocfl.ObjectException: if the inventory cannot be read and parsed, or
+                is not valid
         """
-        with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
-            inventory = Inventory(json.load(fh))
+        try:
+            with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
+                data = json.load(fh)
+        except (OSError, ValueError) as e:
+            raise ObjectException("Failed to read root inventory (%s)" % (e))
+        if not isinstance(data, dict):
+            raise ObjectException("Root inventory is not a JSON object")
+        inventory = Inventory(data)
         # Validate
         iv = InventoryValidator()
         if not iv.validate(inventory=inventory.data):
-- 
2.43.0


From e1954134e462a4197aee12646d204a81eb7672eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 49/82] fix: StorageRoot.validate returns False when an object
 is invalid, as documented

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 861884d..5918fcc 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -459,7 +459,7 @@ class StorageRoot():
             return False
         self.log.spec_version = self.spec_version
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
-        if self.num_traversal_errors > 0:
+        if self.num_traversal_errors > 0 or self.good_objects < self.num_objects:
             valid = False
         return valid
 
-- 
2.43.0


From 0e6f67cf2a67318addd3af41130aeec27df9c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:36 +0000
Subject: [PATCH 50/82] fix: StorageRoot.validate does not count the errors of
 earlier validations

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 5918fcc..43e2f0e 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -449,6 +449,8 @@ class StorageRoot():
             - self.log: ValidationLogger object with any traversal errors
         """
         valid = True
+        self.num_traversal_errors = 0
+        self.num_objects, self.good_objects, self.errors = 0, 0, []
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
         self.open_root_fs()
         try:
-- 
2.43.0


From 07f7cb72b1a5e9dcf48457fe28dfe45967032e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 51/82] fix: listing a storage root with an unregistered
 extension directory raised AttributeError

---
 ocfl/storage_root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 43e2f0e..9907d2b 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -357,7 +357,10 @@ class StorageRoot():
             name = entry["name"]
             if entry["type"] == "directory":
                 if os.path.relpath(name, "extensions") not in self.registered_extensions:
-                    self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
+                    if self.log is None:
+                        logging.warning("Unregistered extension directory %s", name)
+                    else:
+                        self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
 
-- 
2.43.0


From 6d59a3d6466d7f4cd25149902abd12bf02821f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 52/82] fix: a storage root of another specification version is
 reported as E069d with its parameters

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 9907d2b..cac458b 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -250,7 +250,7 @@ class StorageRoot():
             raise StorageRootException("E069c", root=self.root,
                                        namaste_file=namastes[0].filename)
         if self.spec_version is not None and self.spec_version != spec_version:
-            raise StorageRootException("E069c", root=self.root,
+            raise StorageRootException("E069d", root=self.root,
                                        declared_spec_version=spec_version,
                                        expected_spec_version=self.spec_version)
         self.spec_version = spec_version
-- 
2.43.0


From 24a1aed27f23ff000362096ad3f22135ae1abfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 53/82] fix: the layout declared by a storage root is used even
 if another layout was asked for earlier

---
 ocfl/storage_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index cac458b..d398618 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -260,6 +260,7 @@ class StorageRoot():
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
             self.layout_name, self.layout_description = self.parse_layout_file()
+            self._layout = None  # Any layout set earlier gives way to the one declared
             if not layout_is_supported(self.layout_name):
                 raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
             if self.layout.NAME == self.layout_name:
-- 
2.43.0


From 7a1682f985b2268e204a8e413882f5fb5cf190e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 54/82] fix: a storage root with more than ten declaration
 files is reported as E069b

---
 ocfl/storage_root.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index d398618..0f95147 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -9,7 +9,7 @@ import os.path
 import re
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
-from .namaste import find_namastes, Namaste
+from .namaste import find_namastes, Namaste, NamasteException
 from .object import Object
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
@@ -236,7 +236,10 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        try:
+            namastes = find_namastes(0, fsw=self.root_fs)
+        except NamasteException:  # Far too many
+            raise StorageRootException("E069b", root=self.root)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
-- 
2.43.0


From 82e3c2d0b42ea5d709501acdb3d15cae6baaa743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 55/82] fix: storage root operations report unusable layouts,
 parameters, identifiers and locations as StorageRootException, as documented

---
 ocfl/storage_root.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 0f95147..cdd46d9 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -136,6 +136,8 @@ class StorageRoot():
         if the layout is not set.
         """
         if not self._layout and self.layout_name is not None:
+            if not layout_is_supported(self.layout_name):
+                raise StorageRootException("Unknown layout name (%s)" % (self.layout_name))
             self._layout = get_layout(self.layout_name)
         return self._layout
 
@@ -175,7 +177,10 @@ class StorageRoot():
             self.check_root_structure()
         if self.layout is None:
             raise StorageRootException("Storage root %s has no layout so object paths cannot be determined" % (self.root))
-        return self.layout.identifier_to_path(identifier)
+        try:
+            return self.layout.identifier_to_path(identifier)
+        except LayoutException as e:
+            raise StorageRootException("No object path for identifier %s (%s)" % (identifier, str(e)))
 
     def initialize(self, spec_version=None, layout_params=None):
         """Create and initialize a new OCFL Storage Root.
@@ -196,11 +201,17 @@ class StorageRoot():
                 config = json.loads(layout_params)
             except Exception as e:
                 raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
-            self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
+            try:
+                self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
+            except LayoutException as e:
+                raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
         self.check_spec_version(spec_version=spec_version)
         # Now create the storage root
         (parent, root_dir) = os.path.split(self.root)
-        parent_fs = fsw_openfs(parent)
+        try:
+            parent_fs = fsw_openfs(parent)
+        except FileNotFoundError as e:
+            raise StorageRootException("Failed to open parent directory of OCFL storage root %s (%s)" % (self.root, str(e)))
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
         parent_fs.makedir(root_dir)
-- 
2.43.0


From 65adc3ad6a0f30f5b1118e1377549c03736741c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:44 +0000
Subject: [PATCH 56/82] fix: conformance declarations must hold exactly the
 declared name and a newline (E007, E069e)

---
 ocfl/namaste.py      | 15 +++++++++++++--
 ocfl/storage_root.py |  4 ++--
 ocfl/validator.py    |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 474b63b..27a512b 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -22,7 +22,17 @@ def content_to_tvalue(content):
     return re.sub(r"""[^\w\.\-:]""", "_", content[:40])
 
 
-def find_namastes(d, dir="", fsw=None, limit=10):
+def declaration_to_tvalue(content):
+    """Tvalue exactly as given in the content of an OCFL conformance declaration.
+
+    Unlike Namaste files in general, the content of OCFL conformance
+    declarations must be exactly the tvalue followed by a newline. Returns
+    None for content not ending in a newline.
+    """
+    return content[:-1] if content.endswith("\n") else None
+
+
+def find_namastes(d, dir="", fsw=None, limit=10, tr_func=content_to_tvalue):
     """Find NAMASTE files with tag d in dir, return list of Namaste objects.
 
     Arguments:
@@ -30,6 +40,7 @@ def find_namastes(d, dir="", fsw=None, limit=10):
         dir (str): directory to look in
         fsw (None or AbstractFileSystem): filesystem to use if not None
         limit (int): limit sets a limit on the number of Namaste objects returned
+        tr_func (function): used to derive a tvalue from content
 
     Returns:
         list: of Namaste object values sorted by filename to ensure consistent behaviour when
@@ -49,7 +60,7 @@ def find_namastes(d, dir="", fsw=None, limit=10):
     filenames = [f for f in filenames if f.startswith(prefix)]
     if len(filenames) > limit:
         raise NamasteException("Found too many Namaste files with tag %s in %s" % (d, dir))
-    return [Namaste(d, tvalue=filename[len(prefix):]) for filename in sorted(filenames)]
+    return [Namaste(d, tvalue=filename[len(prefix):], tr_func=tr_func) for filename in sorted(filenames)]
 
 
 def get_namaste(d, dir):
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index cdd46d9..9020cb9 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -9,7 +9,7 @@ import os.path
 import re
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
-from .namaste import find_namastes, Namaste, NamasteException
+from .namaste import declaration_to_tvalue, find_namastes, Namaste, NamasteException
 from .object import Object
 from .fsw import fsw_openfs, fsw_walk, fsw_opendir_as_fs, fsw_copydir
 from .validator import Validator
@@ -248,7 +248,7 @@ class StorageRoot():
         """
         # Storage root declaration
         try:
-            namastes = find_namastes(0, fsw=self.root_fs)
+            namastes = find_namastes(0, fsw=self.root_fs, tr_func=declaration_to_tvalue)
         except NamasteException:  # Far too many
             raise StorageRootException("E069b", root=self.root)
         if len(namastes) == 0:
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 78d3fa1..af97439 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -17,7 +17,7 @@ from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest, normalized_digest
 from .inventory_validator import InventoryValidator
-from .namaste import find_namastes
+from .namaste import declaration_to_tvalue, find_namastes
 from .fsw import fsw_openfs, fsw_walk, fsw_openfile, fsw_files_identical
 from .validation_logger import ValidationLogger
 
@@ -131,7 +131,7 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
+        namastes = find_namastes(0, fsw=self.obj_fs, tr_func=declaration_to_tvalue)
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-- 
2.43.0


From d76a701d386675dc0e6604d178f62eb6407077bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 57/82] fix: more than ten declaration files are reported as
 errors instead of raising NamasteException

---
 ocfl/object_utils.py | 3 ++-
 ocfl/validator.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index a7d7daf..5c6938c 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -2,6 +2,7 @@
 """Utility functions to support the OCFL Object library."""
 import os.path
 import re
+import sys
 
 from ._version import __version__
 from .namaste import find_namastes
@@ -144,7 +145,7 @@ def find_path_type(path):
         if fsw.isdir(filename):
             return "directory that could not be opened as a filesystem, this should not happen"  # pragma: no cover
         return "file"
-    namastes = find_namastes(0, fsw=fsw)
+    namastes = find_namastes(0, fsw=fsw, limit=sys.maxsize)
     if len(namastes) == 0:
         return "no 0= declaration file"
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
diff --git a/ocfl/validator.py b/ocfl/validator.py
index af97439..f094ff1 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -12,6 +12,7 @@ should enable application beyond the operating system filesystem.
 import json
 import os.path
 import re
+import sys
 
 from .constants import INVENTORY_FILENAME, SPEC_VERSIONS_SUPPORTED, \
     DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
@@ -131,7 +132,7 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs, tr_func=declaration_to_tvalue)
+        namastes = find_namastes(0, fsw=self.obj_fs, limit=sys.maxsize, tr_func=declaration_to_tvalue)
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-- 
2.43.0


From b1d47720ef5ff18db7a2182a9b8714719f182f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 58/82] fix: objects of a later specification version than the
 storage root are an error (E081)

---
 ocfl/data/validation-errors.json | 6 ++++++
 ocfl/storage_root.py             | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 9dd2ab2..7017a1f 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -566,6 +566,12 @@
        "en": "OCFL storage root hierarchy contains an empty directory: %s"
     }
   },
+  "E081": {
+    "params": ["path", "version", "root_version"],
+    "description": {
+       "en": "OCFL Storage Root hierarchy includes object at %s with specification version %s, later than the version %s of the storage root"
+    }
+  },
   "E086": {
     "params": ["entry"],
     "description": {
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 9020cb9..9afc040 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -344,6 +344,9 @@ class StorageRoot():
                     declaration = zero_eqs[0]
                     match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
+                        if self.spec_version is not None and match.group(1) > self.spec_version:
+                            self.traversal_error("E081", path=dirpath, version=match.group(1),
+                                                 root_version=self.spec_version)
                         yield dirpath.lstrip("/")
                     elif match:
                         self.traversal_error("E004a", path=dirpath, version=match.group(1))
@@ -426,8 +429,6 @@ class StorageRoot():
                 validator = Validator(check_digests=check_digests,
                                       lax_digests=self.lax_digests,
                                       log_warnings=log_warnings)
-                # FIXME - Should check that all objest are not higher spec
-                # version that storage root https://ocfl.io/1.1/spec/#E081
                 if validator.validate_object(fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)):
                     good_objects += 1
                 else:
-- 
2.43.0


From 1cbe748dc5462d2c1d02d94c630152e9f2c1a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:18 +0000
Subject: [PATCH 59/82] fix: objects are not added at reserved paths, inside
 other objects, or to roots of an earlier specification version

---
 ocfl/storage_root.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 9afc040..f16b81b 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -7,6 +7,7 @@ import json
 import logging
 import os.path
 import re
+import sys
 
 from .constants import DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .namaste import declaration_to_tvalue, find_namastes, Namaste, NamasteException
@@ -484,6 +485,26 @@ class StorageRoot():
             valid = False
         return valid
 
+    def check_add_path(self, path):
+        """Check that an object at path would fit in the storage hierarchy.
+
+        Arguments:
+            path (str): proposed object path relative to the storage root
+
+        Raises:
+            StorageRootException: if path is reserved for other use in the
+                storage root, or is inside an existing object
+        """
+        dirs = path.split("/")
+        if dirs[0] in ("extensions", self.layout_file) or dirs[0].startswith("0="):
+            raise StorageRootException("Add object failed because destination path %s is reserved in the storage root" % (path))
+        for n in range(1, len(dirs)):
+            parent = "/".join(dirs[:n])
+            if not self.root_fs.isdir(parent):
+                break
+            if find_namastes(0, parent, fsw=self.root_fs, limit=sys.maxsize):
+                raise StorageRootException("Add object failed because destination path %s is inside the object at %s" % (path, parent))
+
     def add(self, object_path):
         """Add pre-constructed object from object_path.
 
@@ -504,6 +525,9 @@ class StorageRoot():
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
+        self.check_add_path(path)
+        if inventory.spec_version is not None and inventory.spec_version > self.spec_version:
+            raise StorageRootException("Add object failed because specification version %s of the object is later than %s of the storage root" % (inventory.spec_version, self.spec_version))
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
-- 
2.43.0


From 7c0eeeea5e3021bcf7e7c3a25d2cea7ea3f4b9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:33 +0000
Subject: [PATCH 60/82] fix: sources that are not Bagit bags at all are
 reported with BaggerError as documented

---
 ocfl/bagger.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 94b7bb6..69f949d 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -20,7 +20,7 @@ import logging
 import bagit
 
 
-class BaggerError(Exception):
+class BaggerError(bagit.BagError):
     """Exception class for conditions that should abort with message."""
 
 
@@ -46,8 +46,12 @@ def bag_as_source(srcbag, metadata):
     """
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
-    bag = bagit.Bag(srcbag)
-    if not bag.is_valid():
+    try:
+        bag = bagit.Bag(srcbag)
+        valid = bag.is_valid()
+    except (bagit.BagError, OSError, ValueError) as e:
+        raise BaggerError("Source at %s cannot be read as a Bagit bag (%s)" % (srcbag, e)) from e
+    if not valid:
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
     # Local arguments override but otherwise take metadata from bag-info.txt
     if not metadata.id and "External-Identifier" in bag.info:
-- 
2.43.0


From aef0172ad863021d0b6b45d79b6f549a0250b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 61/82] fix: repeated tags and malformed dates in bag-info.txt
 do not end up in version metadata

---
 ocfl/bagger.py | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 69f949d..f032863 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -19,11 +19,25 @@ import os.path
 import logging
 import bagit
 
+from .w3c_datetime import str_to_datetime
+
 
 class BaggerError(bagit.BagError):
     """Exception class for conditions that should abort with message."""
 
 
+def _first_value(bag, tag):
+    """First value of tag in the metadata of bag, None if there is none.
+
+    Tags may be repeated in bag-info.txt in which case bagit gives a list of
+    the values.
+    """
+    value = bag.info.get(tag)
+    if isinstance(value, list):
+        value = value[0]
+    return value or None
+
+
 def bag_as_source(srcbag, metadata):
     """Validate and read metadata from srcbag as input.
 
@@ -54,16 +68,26 @@ def bag_as_source(srcbag, metadata):
     if not valid:
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
     # Local arguments override but otherwise take metadata from bag-info.txt
-    if not metadata.id and "External-Identifier" in bag.info:
-        metadata.id = bag.info["External-Identifier"]
-    if not metadata.created and "Bagging-Date" in bag.info:
-        metadata.created = bag.info["Bagging-Date"] + "T00:00:00Z"  # FIXME - timezone fudge
-    if not metadata.message and "External-Description" in bag.info:
-        metadata.message = bag.info["External-Description"]
-    if not metadata.name and "Contact-Name" in bag.info:
-        metadata.name = bag.info["Contact-Name"]
-    if not metadata.address and "Contact-Email" in bag.info:
-        metadata.address = "mailto:" + bag.info["Contact-Email"]
+    value = _first_value(bag, "External-Identifier")
+    if not metadata.id and value:
+        metadata.id = value
+    value = _first_value(bag, "Bagging-Date")
+    if not metadata.created and value:
+        created = value + "T00:00:00Z"  # FIXME - timezone fudge
+        try:
+            str_to_datetime(created)
+            metadata.created = created
+        except ValueError:
+            logging.warning("Ignoring Bagging-Date %s of %s which is not a date", value, srcbag)
+    value = _first_value(bag, "External-Description")
+    if not metadata.message and value:
+        metadata.message = value
+    value = _first_value(bag, "Contact-Name")
+    if not metadata.name and value:
+        metadata.name = value
+    value = _first_value(bag, "Contact-Email")
+    if not metadata.address and value:
+        metadata.address = "mailto:" + value
     return os.path.join(srcbag, "data")
 
 
-- 
2.43.0


From c3e8965cbcdf18147b236e271ebba3ae2ddf86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:17 +0000
Subject: [PATCH 62/82] fix: a version without creation time can be extracted
 as a bag with the Bagging-Date to be set

---
 ocfl/bagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index f032863..2a94662 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -113,7 +113,7 @@ def bag_extracted_version(dst, metadata, set_bagging_date=False):
         tags["Contact-Name"] = metadata.name
     if metadata.address and metadata.address.startswith("mailto:"):
         tags["Contact-Email"] = metadata.address[7:]
-    if set_bagging_date:
+    if set_bagging_date and metadata.created:
         # metadata.created is a well-formed datatime string, take portion before T
         tags["Bagging-Date"] = metadata.created.split("T")[0]
     # Avoid default noisy output from bagit
-- 
2.43.0


From ffc2539b04bb1338439f661db1145c4504c0088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:56 +0000
Subject: [PATCH 63/82] fix: metadata with line separators does not break
 bag-info.txt of an extracted bag

---
 ocfl/bagger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 2a94662..aa8ecf2 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -116,6 +116,9 @@ def bag_extracted_version(dst, metadata, set_bagging_date=False):
     if set_bagging_date and metadata.created:
         # metadata.created is a well-formed datatime string, take portion before T
         tags["Bagging-Date"] = metadata.created.split("T")[0]
+    # Tag values are on one line, bagit itself takes care of CR and LF only
+    for tag, value in tags.items():
+        tags[tag] = " ".join(value.splitlines())
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
     bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
-- 
2.43.0


From f88d818697ac30fa3a5c9ed4d9563f1f13829a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 64/82] fix: validate commands exit with a status other than 0
 for invalid objects and storage roots

---
 ocfl-object.py | 3 ++-
 ocfl-root.py   | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..9ad7160 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -191,7 +191,8 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        if not validate_object(obj, objdir=args.objdir):
+            sys.exit(1)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..b6ffe0b 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", type=int, default=100,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
@@ -107,6 +107,9 @@ def validate(store, args):
       validate_objects - True to validate each object in tree
       check_digests - True to check all digests for each object
       max_error - Maximum number of error to show
+
+    Returns True if the storage root, and the objects if they were checked,
+    are valid, False otherwise.
     """
     valid = store.validate(log_warnings=not args.quiet,
                            validate_objects=args.validate_objects,
@@ -128,6 +131,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -157,7 +161,8 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        if not validate(store, args):
+            sys.exit(1)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
-- 
2.43.0


From 7c3c635c3ae99f8deece9aeb957e6c722aa0a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:24 +0000
Subject: [PATCH 65/82] fix: ocfl-root.py show and validate-object act on the
 object in the storage root, purge fails instead of doing nothing

---
 ocfl-root.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index b6ffe0b..bf590d2 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -7,7 +7,7 @@ import sys
 
 import ocfl  # pylint: disable=import-self; this isn"t actually self import
 from ocfl.command_line_utils import add_version_arg, add_verbosity_args, \
-    check_version_arg, check_verbosity_args
+    check_version_arg, check_verbosity_args, validate_object
 from ocfl.constants import DEFAULT_SPEC_VERSION
 
 
@@ -88,6 +88,7 @@ def parse_arguments():
                              help="identifier of object")
 
     validate_object_parser = subparsers.add_parser("validate-object", help="Validate an OCFL object")
+    add_common_args(validate_object_parser)
     validate_object_parser.add_argument("--id", default=None,
                                         help="identifier of object")
 
@@ -169,8 +170,8 @@ def do_store_operation(args):
         (identifier, path) = store.add(object_path=args.src)
         print("Added object %s at path %s" % (identifier, path))
     elif args.cmd == "purge":
-        logging.error("purge not implemented")
-    elif args.cmd in ("show", "path", "validate_object"):
+        raise ocfl.StorageRootException("purge not implemented")
+    elif args.cmd in ("show", "path", "validate-object"):
         if not args.id:
             raise ocfl.StorageRootException("Must specify id to act on an object in the store")
         objdir = store.object_path(args.id)
@@ -181,13 +182,14 @@ def do_store_operation(args):
             else:
                 print("Path to %s inside root %s is %s" % (args.id, store.root, objdir))
         else:
-            obj = ocfl.Object(identifier=args.id)
+            obj = ocfl.Object(identifier=args.id, lax_digests=args.lax_digests)
+            objpath = os.path.join(store.root, objdir)
             if args.cmd == "show":
-                logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
-            else:
-                logging.error("validate not implemented")
+                logging.warning("Object tree\n%s", obj.tree(objdir=objpath))
+            elif not validate_object(obj, objpath, log_warnings=not args.quiet):
+                sys.exit(1)
     else:
-        logging.error("Unrecognized command!")
+        raise ocfl.StorageRootException("Unrecognized command!")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b2ee4e0c3e363d1a1cb3174aed52541f6be90ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:44 +0000
Subject: [PATCH 66/82] fix: ocfl-sidecar.py exits with a status other than 0
 if a sidecar is not written

---
 ocfl-sidecar.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 6327389..23c2f3b 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -3,6 +3,7 @@
 import argparse
 import logging
 import os.path
+import sys
 
 import ocfl
 from ocfl.command_line_utils import add_version_arg, check_version_arg, add_verbosity_args, check_verbosity_args
@@ -36,38 +37,53 @@ def parse_arguments():
 
 
 def create_sidecar(args, directory):
-    """Create sidecar for inventory in dir."""
+    """Create sidecar for inventory in dir.
+
+    Returns True if the sidecar was written, False otherwise.
+    """
     inventory_path = os.path.join(directory, ocfl.INVENTORY_FILENAME)
     if not os.path.isfile(inventory_path):
         logging.error("Ignoring path %s because there is no inventory file %s.", directory, inventory_path)
-    else:
-        obj = ocfl.Object(path=directory)
-        if args.digest is not None:
-            obj.digest_algorithm = args.digest
-        else:  # Read inventory in the hope of setting digest_algoritm
-            try:
-                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
-            except ocfl.ObjectException as e:
-                logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
+        return False
+    obj = ocfl.Object(path=directory)
+    if args.digest is not None:
+        obj.digest_algorithm = args.digest
+    else:  # Read inventory in the hope of setting digest_algoritm
+        try:
+            obj.digest_algorithm = obj.parse_inventory().digest_algorithm
+        except ocfl.ObjectException as e:
+            logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
+    try:
         sidecar = obj.write_inventory_sidecar()
-        print("Written sidecar file %s" % (os.path.join(directory, sidecar)))
+    except (ocfl.ObjectException, OSError, ValueError) as e:
+        logging.error("Failed to write sidecar for inventory in directory %s (%s)", directory, e)
+        return False
+    print("Written sidecar file %s" % (os.path.join(directory, sidecar)))
+    return True
 
 
 def main():
-    """Run from command line."""
+    """Run from command line.
+
+    Returns True if all sidecars were written, False otherwise.
+    """
     args = parse_arguments()
     paths = ["."] if len(args.path) == 0 else args.path
+    ok = True
     for path in paths:
         logging.debug("Looking at path %s", path)
         if os.path.isdir(path):
-            create_sidecar(args, path)
+            ok = create_sidecar(args, path) and ok
         else:
             (directory, filename) = os.path.split(path)
             if filename == ocfl.INVENTORY_FILENAME:
-                create_sidecar(args, directory)
+                ok = create_sidecar(args, directory) and ok
             else:
                 logging.error("Ignoring path %s with filename that is not inventory.json", filename)
+                ok = False
+    return ok
 
 
 if __name__ == "__main__":
-    main()
+    if not main():
+        sys.exit(1)
-- 
2.43.0


From d6a85a8fa65c10c6f3ff448b32230897e813b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:31 +0000
Subject: [PATCH 67/82] fix: ocfl-object.py and ocfl-root.py report unusable
 bags, metadata files and other input instead of ending with a traceback

---
 ocfl-object.py | 23 ++++++++++++++++++-----
 ocfl-root.py   |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 9ad7160..a5afb17 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -127,6 +127,21 @@ def print_inventory(inventory):
     print(inventory.as_json())
 
 
+def read_versions_metadata(filepath):
+    """Read metadata for each version from the inventory format file at filepath.
+
+    Returns dict of VersionMetadata objects with integer version number as key.
+    """
+    versions_metadata = {}
+    try:
+        inv = ocfl.Inventory(filepath=filepath)
+        for version in inv.versions():
+            versions_metadata[version.number] = ocfl.VersionMetadata(inventory=inv, version=version.vdir)
+    except (OSError, ValueError, TypeError, AttributeError, ocfl.InventoryException, ocfl.ObjectException) as e:
+        raise FatalError("Failed to read version metadata from %s (%s)" % (filepath, e)) from e
+    return versions_metadata
+
+
 def do_object_operation(args):
     """Implement object operations in a way that can be reused by ocfl-root.py."""
     obj = ocfl.Object(identifier=args.id,
@@ -164,9 +179,7 @@ def do_object_operation(args):
         # inventory
         versions_metadata = {}
         if args.metadata is not None:
-            inv = ocfl.Inventory(filepath=args.metadata)
-            for version in inv.versions():
-                versions_metadata[version.number] = ocfl.VersionMetadata(inventory=inv, version=version.vdir)
+            versions_metadata = read_versions_metadata(args.metadata)
         # Build the object
         inventory = obj.build(srcdir=args.srcdir,
                               versions_metadata=versions_metadata,
@@ -215,13 +228,13 @@ def do_object_operation(args):
                 ocfl.bag_extracted_version(dst, metadata, set_bagging_date=args.set_bagging_date)
                 print("Extracted content for %s saved as Bagit bag in %s" % (metadata.version, dst))
     else:
-        logging.error("Unrecognized command!")
+        raise FatalError("Unrecognized command!")
 
 
 if __name__ == "__main__":
     try:
         aargs = parse_arguments()
         do_object_operation(aargs)
-    except (FatalError, ocfl.ObjectException) as e:
+    except (FatalError, ocfl.ObjectException, ocfl.NewVersionException, ocfl.BaggerError, OSError, ValueError) as e:
         logging.error(str(e))
         sys.exit(1)
diff --git a/ocfl-root.py b/ocfl-root.py
index bf590d2..71b2f16 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -196,6 +196,6 @@ if __name__ == "__main__":
     try:
         aargs = parse_arguments()
         do_store_operation(aargs)
-    except (ocfl.StorageRootException, ocfl.ObjectException) as e:
+    except (ocfl.StorageRootException, ocfl.ObjectException, OSError, ValueError) as e:
         logging.error(str(e))
         sys.exit(1)
-- 
2.43.0


From 2eed5ed4d0bc45c124d5565dd0b5e5866599a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:00 +0000
Subject: [PATCH 68/82] fix: ocfl-validate.py shows errors and the verdict for
 storage roots

---
 ocfl-validate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl-validate.py b/ocfl-validate.py
index cb055b9..aed30d0 100755
--- a/ocfl-validate.py
+++ b/ocfl-validate.py
@@ -74,9 +74,17 @@ def do_validation(args):
             logging.debug("Validating OCFL Storage Root at %s", path)
             store = ocfl.StorageRoot(root=path,
                                      lax_digests=args.lax_digests)
-            if store.validate(log_warnings=log_warnings,
-                              log_errors=log_errors,
-                              check_digests=not args.no_check_digests):
+            passed = store.validate(log_warnings=log_warnings,
+                                    log_errors=log_errors,
+                                    check_digests=not args.no_check_digests)
+            if log_errors:
+                for (dirpath, messages) in store.errors:
+                    print("%s\n%s" % (dirpath, messages))
+            messages = str(store.log)
+            if messages != "":
+                print(messages)
+            print("OCFL Storage Root at %s is %s" % (path, "VALID" if passed else "INVALID"))
+            if passed:
                 num_good += 1
         elif path_type == "file":
             logging.debug("Validating separate OCFL Inventory at %s", path)
-- 
2.43.0


From bb52594237fe1bf8fba86b58348406f4458a87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 69/82] fix: settings and metadata that would give an invalid
 object are refused before anything is written

---
 ocfl/new_version.py | 28 ++++++++++++++++++++++++++--
 ocfl/object.py      | 23 ++++++++++++++++++++++-
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 4ca406c..81c69e1 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -10,8 +10,8 @@ import logging
 import os.path
 from urllib.parse import quote as urlquote
 
-from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION
-from .digest import file_digest
+from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION, INVENTORY_FILENAME
+from .digest import file_digest, digest_regex
 from .inventory import Inventory, InventoryException
 from .object_utils import make_unused_filepath
 from .fsw import fsw_openfs, fsw_walk_files
@@ -42,6 +42,24 @@ def _path_problem(path, existing_paths):
     return None
 
 
+def check_digest_types(digest_algorithm, fixity):
+    """Check that digest types are supported.
+
+    Arguments:
+        digest_algorithm (str or None): digest algorithm
+        fixity (list of str or None): list of fixity digest types
+
+    Raises:
+        NewVersionException: if any digest type is not supported
+    """
+    for digest_type in [digest_algorithm] + list(fixity or []):
+        if digest_type is not None:
+            try:
+                digest_regex(digest_type)
+            except ValueError:
+                raise NewVersionException("Unsupported digest type '%s'" % (digest_type))
+
+
 class NewVersion():
     """Class to represent a new version to be added to an Object."""
 
@@ -149,6 +167,12 @@ class NewVersion():
           }
         }
         """
+        check_digest_types(digest_algorithm, fixity)
+        if content_directory is not None and (
+                content_directory in ("", ".", "..", INVENTORY_FILENAME)
+                or content_directory.startswith(INVENTORY_FILENAME + ".")
+                or "/" in content_directory or "\0" in content_directory):
+            raise NewVersionException("Bad content directory name '%s'" % (content_directory))
         self = cls(srcdir=srcdir)
         inventory = Inventory()
         self.inventory = inventory
diff --git a/ocfl/object.py b/ocfl/object.py
index eb04ece..ee3b28c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -16,7 +16,7 @@ from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT
 from .digest import file_digest
 from .inventory import Inventory
 from .inventory_validator import InventoryValidator
-from .new_version import NewVersion
+from .new_version import NewVersion, check_digest_types
 from .object_utils import parse_version_directory, ObjectException
 from .fsw import fsw_openfs, fsw_copyfile, fsw_listdir_names, fsw_opendir_as_fs, FswException
 from .namaste import Namaste
@@ -155,6 +155,23 @@ class Object():  # pylint: disable=too-many-public-methods
         if len(fsw_listdir_names(self.obj_fs, "")) > 0:
             raise ObjectException("Destination '%s' already exists and is not empty" % (objdir))
 
+    def check_new_inventory(self, inventory):
+        """Check that an inventory to be written is valid.
+
+        Any supported digest algorithm is accepted here, also those not
+        allowed by the specification.
+
+        Arguments:
+            inventory (ocfl.Inventory): inventory about to be written
+
+        Raises:
+            ocfl.ObjectException: if the inventory is not valid
+        """
+        validator = InventoryValidator(lax_digests=True, where="new")
+        if not validator.validate(inventory.data):
+            raise ObjectException("Refusing to write an invalid inventory (%s)"
+                                  % ("; ".join(message.split(" (see ")[0] for message in validator.log.messages)))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -334,6 +351,7 @@ class Object():  # pylint: disable=too-many-public-methods
             # Add content, everything in srcdir
             nv.add_from_srcdir()
             inventory = nv.inventory
+            self.check_new_inventory(inventory)
             num_versions += 1
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, inventory.head)
@@ -380,6 +398,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Add content, everything in srcdir
         nv.add_from_srcdir()
         inventory = nv.inventory
+        self.check_new_inventory(inventory)
         # If objdir is not set then don't write anything, just return inventory
         if objdir is None:
             return inventory
@@ -478,6 +497,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # as part of the Object class because it requires access to all
         # current object content files for potential recaclculation of digests
         old_digest_algorithm = inventory.digest_algorithm
+        check_digest_types(digest_algorithm, fixity)
         if digest_algorithm is None:
             digest_algorithm = old_digest_algorithm
         elif digest_algorithm != old_digest_algorithm:
@@ -551,6 +571,7 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        self.check_new_inventory(inventory)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-- 
2.43.0


From bd5b0e679b8bac9dd52a6a96d31b0ce0a424101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:27 +0000
Subject: [PATCH 70/82] fix: the error table describes E011 and E092, which the
 inventory validator reports

---
 ocfl/data/validation-errors.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 7017a1f..82cac0e 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -94,6 +94,12 @@
        "en": "OCFL Object %s inventory versions block includes an out-of-sequence version"
     }
   },
+  "E011": {
+    "params": ["where"],
+    "description": {
+       "en": "OCFL Object %s inventory versions block includes a version that violates the zero-padding of version numbers"
+    }
+  },
   "E015": {
     "params": ["where", "entry"],
     "description": {
@@ -599,6 +605,12 @@
        "en": "OCFL Object %s inventory manifest file list for digest %s is not a JSON array"
     }
   },
+  "E092": {
+    "params": ["where", "digest"],
+    "description": {
+       "en": "OCFL Object %s inventory manifest value for digest %s is not a JSON array"
+    }
+  },
   "E092a": {
     "params": ["where", "digest_algorithm", "digest", "content_path", "content_digest"],
     "description": {
-- 
2.43.0


From d34956f4ee7ac9b70ceef5a6516996b96fbcac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:56 +0000
Subject: [PATCH 71/82] fix: ids and user addresses are recognised as URIs by
 any valid scheme and only ASCII schemes

---
 ocfl/inventory_validator.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 38438b8..21941f4 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -61,6 +61,15 @@ def _all_directories(directories):
     return all_directories
 
 
+def _looks_like_uri(string):
+    """Return True if string has the form of a URI with a scheme.
+
+    URI syntax https://www.rfc-editor.org/rfc/rfc3986.html#section-3.1 :
+    scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
+    """
+    return re.match(r"""[a-z][a-z\d\+\-\.]*:.+""", string, re.IGNORECASE | re.ASCII) is not None
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -132,9 +141,7 @@ class InventoryValidator():
             if not isinstance(iid, str) or iid == "":
                 self._error("E037a")
             else:
-                # URI syntax https://www.rfc-editor.org/rfc/rfc3986.html#section-3.1 :
-                # scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
-                if not re.match(r"""[a-z][a-z\d\+\-\.]*:.+""", iid, re.IGNORECASE):
+                if not _looks_like_uri(iid):
                     self._warning("W005", id=iid)
                 self.id = iid
         else:
@@ -471,7 +478,7 @@ class InventoryValidator():
                         self._warning("W008", version=v)
                     elif not isinstance(user["address"], str):
                         self._error("E054c", version=v)
-                    elif not re.match(r"""\w{3,6}:""", user["address"]):
+                    elif not _looks_like_uri(user["address"]):
                         self._warning("W009", version=v)
         return digests_used
 
-- 
2.43.0


From fceb7045f1c9c08aceded15310fe7932e3ed3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:00 +0000
Subject: [PATCH 72/82] fix: Layout.strip_root compares whole path components
 and never returns a path outside the root

---
 ocfl/layout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 6456a79..6f02ab2 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -94,8 +94,10 @@ class Layout:
                 root cannot be stripped from it
         """
         root = root.rstrip(os.sep)  # ditch any trailing path separator
-        if os.path.commonprefix((path, root)) == root:
-            return os.path.relpath(path, start=root)
+        if root == "" or path == root or path.startswith(root + os.sep):
+            rpath = os.path.normpath(path[len(root):].lstrip(os.sep))
+            if rpath.split(os.sep)[0] != os.pardir:
+                return rpath
         raise LayoutException("Path %s is not in root %s" % (path, root))
 
     def is_valid(self, identifier):  # pylint: disable=unused-argument
-- 
2.43.0


From 80ac6d00350bab3513487e9931d69f1996a83311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:00 +0000
Subject: [PATCH 73/82] fix: the object tree marks further inventory sidecars
 of a version directory

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index ee3b28c..9de0eec 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -639,7 +639,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     elif v_entry.startswith(INVENTORY_FILENAME + "."):
                         if seen_v_sidecar:
                             v_note += "<--- multiple inventory digests?"
-                            seen_v_sidecar = True
+                        seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
                         for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
-- 
2.43.0


From ddfcc9dfa21f521c97da0d075ebd84dbeeba68a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:11 +0000
Subject: [PATCH 74/82] fix: deleting a logical path removes fixity information
 of content files that go with it

---
 ocfl/inventory.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index ffbfba6..9d695ca 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -536,6 +536,20 @@ class Inventory():  # pylint: disable=too-many-public-methods
         else:
             fixities[digest].append(filepath)
 
+    def remove_fixity_data(self, filepaths):
+        """Remove fixity information for content files that have been removed.
+
+        Arguments:
+            filepaths: list of content paths no longer in the manifest
+        """
+        for fixity_type in self.fixity.values():
+            for digest in list(fixity_type):
+                paths = [path for path in fixity_type[digest] if path not in filepaths]
+                if paths:
+                    fixity_type[digest] = paths
+                elif fixity_type[digest]:
+                    del fixity_type[digest]
+
     def normalize_digests(self, digest_algorithm=None):
         """Normalize the digests used in manifest and state.
 
@@ -788,14 +802,16 @@ class Version():
                     # No more references from this version, delete manifest
                     # entries in this verion
                     if digest in self.inv.manifest:
-                        cpaths = []
+                        cpaths, removed = [], []
                         for cpath in self.inv.manifest[digest]:
-                            if not cpath.startswith(self.vdir + "/"):
+                            if cpath.startswith(self.vdir + "/"):
+                                removed.append(cpath)
+                            else:
                                 cpaths.append(cpath)
                         if cpaths:
                             self.inv.manifest[digest] = cpaths
                         else:
                             del self.inv.manifest[digest]
-                    # FIXME - Also adjust fixity!
+                        self.inv.remove_fixity_data(removed)
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
-- 
2.43.0


From 24c4df0797495ab7adb64f0984dbd7e62cf401f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:03 +0000
Subject: [PATCH 75/82] fix: fixity digests of the types asked for are recorded
 for all content

---
 ocfl/new_version.py | 21 ++++++++++++++++++++-
 ocfl/object.py      |  4 +++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 81c69e1..32f66d4 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -11,7 +11,7 @@ import os.path
 from urllib.parse import quote as urlquote
 
 from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION, INVENTORY_FILENAME
-from .digest import file_digest, digest_regex
+from .digest import file_digest, digest_regex, normalized_digest
 from .inventory import Inventory, InventoryException
 from .object_utils import make_unused_filepath
 from .fsw import fsw_openfs, fsw_walk_files
@@ -396,6 +396,25 @@ class NewVersion():
             # Yes, we copy this file in...
             self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
+            for fixity_type in inventory.fixity:
+                self._add_fixity(fixity_type, src_path, content_path)
+
+    def _add_fixity(self, fixity_type, src_path, content_path):
+        """Add fixity information for a file that will be copied into the object.
+
+        Arguments:
+            fixity_type (str): fixity type that is present in the inventory
+            src_path (str): path of the content within the source directory
+            content_path (str): full content path within the object
+        """
+        try:
+            digest = file_digest(src_path, fixity_type, fs=self.src_fs)
+        except ValueError:
+            return  # lax_digests allows fixity types that cannot be calculated
+        for known_digest in self.inventory.fixity[fixity_type]:
+            if normalized_digest(known_digest, fixity_type) == digest:
+                digest = known_digest
+        self.inventory.add_fixity_data(fixity_type, digest, content_path)
 
     def delete(self, logical_path):
         """Delete a logical path from this new version.
diff --git a/ocfl/object.py b/ocfl/object.py
index 9de0eec..632bf52 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -522,7 +522,9 @@ class Object():  # pylint: disable=too-many-public-methods
                 for digest in old_fixity.difference(fixity):
                     inventory.fixity.pop(digest)
                 for digest in fixity.difference(old_fixity):
-                    logging.info("FIXME - need to add fixity with digest %s", digest)
+                    inventory.add_fixity_type(digest)
+                    for path in inventory.content_paths:
+                        inventory.add_fixity_data(digest, file_digest(path, digest, fs=self.obj_fs), path)
         if fixity != old_fixity:
             logging.info("New version will have %s instead of %s fixity",
                          ",".join(sorted(fixity)), ",".join(sorted(old_fixity)))
-- 
2.43.0


From 98d10fb8ee8af3cefe91a21479eec0b86fe379fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:27 +0000
Subject: [PATCH 76/82] fix: a failed sanity check of duplicate content raises
 ObjectException

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 632bf52..38434ef 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -541,7 +541,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From f034b16562e9f792af464a4c58200bdd901baba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:55 +0000
Subject: [PATCH 77/82] fix: the message about a missing version block names
 the version

---
 ocfl/version_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/version_metadata.py b/ocfl/version_metadata.py
index 7e62197..dfc1fd3 100644
--- a/ocfl/version_metadata.py
+++ b/ocfl/version_metadata.py
@@ -64,7 +64,7 @@ class VersionMetadata():
             version = inv["head"]
         # Now find version metadata
         if version not in inv["versions"]:
-            raise InventoryException("No version block for %s in inventory")
+            raise InventoryException("No version block for %s in inventory" % (version))
         inv_version = inv["versions"][version]
         self.version = version
         if "created" in inv_version:
-- 
2.43.0


From a3187f8d6da1049d3a760d73a5a4e03c6f34bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:18 +0000
Subject: [PATCH 78/82] fix: errors of a fixity block name the algorithm of
 that block

---
 ocfl/inventory_validator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 21941f4..151253e 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -340,14 +340,14 @@ class InventoryValidator():
                     regex = digest_regex(digest_algorithm)
                 except ValueError:
                     if not self.lax_digests:
-                        self._error("E056b", algorithm=self.digest_algorithm)
+                        self._error("E056b", algorithm=digest_algorithm)
                         continue
                     # Match anything
                     regex = r"""^.*$"""
                     known_digest = False
                 fixity_algoritm_block = fixity[digest_algorithm]
                 if not isinstance(fixity_algoritm_block, dict):
-                    self._error("E057a", algorithm=self.digest_algorithm)
+                    self._error("E057a", algorithm=digest_algorithm)
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-- 
2.43.0


From e234039efbeb73d462b49bb98298cccf7b4fe04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:45 +0000
Subject: [PATCH 79/82] fix: lax_digests applies wherever an inventory is read

---
 ocfl/object.py       | 2 +-
 ocfl/storage_root.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 38434ef..5da9c46 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -860,7 +860,7 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Root inventory is not a JSON object")
         inventory = Inventory(data)
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index f16b81b..48203ed 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -399,7 +399,7 @@ class StorageRoot():
         for dirpath in self.object_paths():
             obj_fs = fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)
             # Parse inventory to extract id
-            identifier = Object(obj_fs=obj_fs).id_from_inventory()
+            identifier = Object(obj_fs=obj_fs, lax_digests=self.lax_digests).id_from_inventory()
             self.num_objects += 1
             yield (dirpath, identifier)
             # FIXME - maybe do some more stuff in here
@@ -520,7 +520,7 @@ class StorageRoot():
         self.open_root_fs()
         self.check_root_structure()
         # Sanity check
-        o = Object(path=object_path)
+        o = Object(path=object_path, lax_digests=self.lax_digests)
         inventory = o.parse_inventory()
         identifier = inventory.id
         # Now copy
-- 
2.43.0


From 7bfb8ef507f1c7d9a28363a852f031e5fb747a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:28 +0000
Subject: [PATCH 80/82] fix: adding a version with a digest algorithm that
 cannot be calculated is refused

---
 ocfl/object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 5da9c46..5594b9b 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -497,10 +497,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # as part of the Object class because it requires access to all
         # current object content files for potential recaclculation of digests
         old_digest_algorithm = inventory.digest_algorithm
-        check_digest_types(digest_algorithm, fixity)
         if digest_algorithm is None:
             digest_algorithm = old_digest_algorithm
-        elif digest_algorithm != old_digest_algorithm:
+        check_digest_types(digest_algorithm, fixity)
+        if digest_algorithm != old_digest_algorithm:
             logging.info("New version with use %s instead of %s digestAlgorithm",
                          digest_algorithm, old_digest_algorithm)
             inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From 4a8d9963a0855c2d2cc44033ae216ac25a84d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:23 +0000
Subject: [PATCH 81/82] fix: do not share metadata and state passed to
 Inventory.add_version with later edits

---
 ocfl/inventory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 9d695ca..ab07b28 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -411,11 +411,13 @@ class Inventory():  # pylint: disable=too-many-public-methods
         if metadata is None:
             self.data["versions"][vdir] = {}
         elif isinstance(metadata, dict):
-            self.data["versions"][vdir] = metadata
+            self.data["versions"][vdir] = copy.deepcopy(metadata)
         else:
             self.data["versions"][vdir] = metadata.as_dict()
         if state is not None:
-            self.data["versions"][vdir]["state"] = state
+            # Copy so that later edits do not change data shared with the caller
+            # which might include the state of another version
+            self.data["versions"][vdir]["state"] = copy.deepcopy(state)
         # Update head to point to the newly added version
         self.head = vdir
         return self.version(vdir)
-- 
2.43.0


From 4facafccca14e958f898c193c9a8919f8f170c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:10:29 +0000
Subject: [PATCH 82/82] fix: JSON nested too deeply is reported like other JSON
 that cannot be read

---
 ocfl-object.py | 2 +-
 ocfl/object.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index a5afb17..c2839bc 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -137,7 +137,7 @@ def read_versions_metadata(filepath):
         inv = ocfl.Inventory(filepath=filepath)
         for version in inv.versions():
             versions_metadata[version.number] = ocfl.VersionMetadata(inventory=inv, version=version.vdir)
-    except (OSError, ValueError, TypeError, AttributeError, ocfl.InventoryException, ocfl.ObjectException) as e:
+    except (OSError, ValueError, TypeError, AttributeError, RecursionError, ocfl.InventoryException, ocfl.ObjectException) as e:
         raise FatalError("Failed to read version metadata from %s (%s)" % (filepath, e)) from e
     return versions_metadata
 
diff --git a/ocfl/object.py b/ocfl/object.py
index 5594b9b..346bbc1 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -854,7 +854,7 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
                 data = json.load(fh)
-        except (OSError, ValueError) as e:
+        except (OSError, ValueError, RecursionError) as e:
             raise ObjectException("Failed to read root inventory (%s)" % (e))
         if not isinstance(data, dict):
             raise ObjectException("Root inventory is not a JSON object")
-- 
2.43.0

