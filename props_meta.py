"""Titles, statements and anchors of the properties; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""

P = {}


def p(pid, title, statement, over, text, why, files, mech, note, observe=()):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe))


p("C01", "Storage layouts keep every object path inside the storage root",
  "For every identifier, each storage layout either returns a relative, non-empty path whose elements are never empty, '.' or '..', "
  "or refuses the identifier with a layout error; it raises nothing else and no identifier maps to the storage root itself or outside it. Stripping the root from a path gives exactly the path within the root, or is refused with a layout error for a path not inside it.",
  ["inputs", "configurations"], "all identifier strings and all accepted layout parameters",
  "The tests map a few dozen hand-picked identifiers; containment must hold for every string a depositor can choose.",
  ["ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py",
   "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/layout.py"],
  [("identifier_to_path of each layout", "ocfl/layout_*.py"), ("percent and caret encodings", "ocfl/layout.py, ocfl/layout_0003_hash_and_id_n_tuple.py")],
  "All identifiers up to the stated lengths over a 145-character alphabet.")
p("C02", "Distinct identifiers never share or nest object paths in a storage layout",
  "For every pair of different identifiers a storage layout accepts, their object paths differ and neither lies inside the other, "
  "so that no two objects can overwrite or contain each other. Where a layout encodes identifiers, the encoded form decodes to the identifier again.",
  ["inputs", "configurations"], "all pairs of identifiers, for every layout",
  "A relation over pairs of strings; tests only compare single expected values.",
  ["ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py"],
  [("injective encodings and fixed-length tuple splitting", "ocfl/layout_*.py")],
  "All pairs of identifiers of up to 3 characters; hash collisions excluded by assumption. One recorded finding.")
p("C03", "The hash-and-id layout computes exactly the path its specification defines",
  "For every non-blank identifier the 0003 hash-and-id layout returns the digest of the UTF-8 identifier cut into tuples of the configured size and number, "
  "followed by the percent-encoded identifier, truncated to 100 characters plus '-' and the digest when it is longer than that.",
  ["inputs", "configurations"], "all identifiers around every length boundary and all supported parameters",
  "The tests check the specification's handful of examples; the encoding and truncation boundary must be right for every identifier.",
  ["ocfl/layout_0003_hash_and_id_n_tuple.py"], [("id_to_hash tuples, percent encoding and truncation", "ocfl/layout_0003_hash_and_id_n_tuple.py")],
  "Differential check against an independent implementation of the extension's algorithm.")
p("C04", "Layout configurations are accepted exactly when valid and survive a round trip",
  "A layout accepts exactly the configurations its extension allows (types, ranges, required extension name) and refuses every other JSON value with a layout error; "
  "each documented layout name (and no other) yields its layout, and registered names are those of the layouts. A storage root created with a layout and parameters uses the same layout and parameters when it is opened again.",
  ["inputs", "configurations"], "all JSON configuration values for every layout",
  "Tests try a few bad values per parameter; acceptance must be decided for every type and boundary.",
  ["ocfl/layout.py", "ocfl/layout_registry.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_tuple_tree.py",
   "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/storage_root.py"],
  [("check_and_set_layout_params and check_* functions", "ocfl/layout*.py"), ("get_layout", "ocfl/layout_registry.py")],
  "Parameters are symbolic integers and strings within stated ranges and every kind of JSON value.")
p("C05", "Digests are computed over all bytes and digest strings are recognised exactly",
  "The digest of a file is the named algorithm applied to all of its bytes, whatever their number, and unknown algorithms are refused. "
  "A digest string is accepted exactly if it has the algorithm's length and hexadecimal alphabet, and two digest strings compare equal after normalisation exactly when they differ at most in letter case.",
  ["inputs"], "all file contents and digest strings",
  "Tests digest a few small files and strings; buffer boundaries and near-miss digests are not sampled.",
  ["ocfl/digest.py", "ocfl/inventory_validator.py"], [("_file_digest read loop, digest_regex, normalized_digest", "ocfl/digest.py")],
  "File contents up to the stated lengths with the read buffer shrunk, plus sizes around the real buffer size.")
p("C06", "Version directory names are parsed and generated exactly per specification",
  "A string is accepted as a version directory name exactly if it is 'v' and a positive ASCII decimal number, possibly zero padded, and its number is that value; the next name is the number plus one in the same padding, or refused if it no longer fits. "
  "A file path made to avoid a set of used paths is never one of them, and the first directory of a path is what precedes its first separator.",
  ["inputs"], "all strings",
  "Tests list a few names; non-ASCII digits, trailing newlines and padding overflow are not sampled.",
  ["ocfl/object_utils.py"], [("parse_version_directory, next_version_directory, make_unused_filepath", "ocfl/object_utils.py")],
  "All strings up to the stated lengths.")
p("C07", "Declaration files are written, read and recognised exactly",
  "A declaration written for a type and version is found and accepted again and only a file whose content is the declared name and a newline is accepted as correct; "
  "a path is classified as an object or storage root exactly by an exact declaration file name of that kind, and as unknown otherwise.",
  ["inputs"], "all declaration contents and names, all directory listings within bounds",
  "Tests use a few fixture declarations; near-miss names and contents are not sampled.",
  ["ocfl/namaste.py", "ocfl/object_utils.py"], [("Namaste class and find_namastes", "ocfl/namaste.py"), ("find_path_type", "ocfl/object_utils.py")],
  "Contents and names with symbolic characters at the ends.")
p("C08", "Version timestamps are accepted exactly when they are W3C datetimes",
  "A timestamp is accepted exactly if it is a W3C datetime (RFC3339 with seconds and zone where required by OCFL) denoting a real calendar date, time and offset, "
  "and a time formatted by the library parses back to the same time.",
  ["inputs"], "all strings that differ from valid timestamps in the stated positions, and all short strings",
  "Tests list about forty strings; leap years, ranges and odd digits need every value.",
  ["ocfl/w3c_datetime.py"], [("str_to_datetime and datetime_to_str", "ocfl/w3c_datetime.py")],
  "Timestamps with pairs of symbolic positions against an independent parser.")
p("C09", "The validation log counts and reports every issue exactly once",
  "Every error and warning given to a validation log is counted; each is shown exactly once if its kind is enabled, with its code, "
  "the text of the requested language (or the English text if there is none) and its parameters filled in; an unknown code or missing parameter never loses the issue or raises. The log can be rendered at any time without losing or repeating entries, and every code the validators report has its description and all the parameters it needs.",
  ["inputs", "histories"], "all sequences of issues within bounds, all codes, languages and switches",
  "Tests check a few messages; the combination of switches, languages, codes and parameters is not sampled.",
  ["ocfl/validation_logger.py", "ocfl/data/validation_codes.json"], [("ValidationLogger", "ocfl/validation_logger.py")],
  "Every code of the shipped table, symbolic switches and sequences of two issues.")
p("C10", "File helpers copy, compare and walk trees byte-exactly and completely",
  "Copying a file or directory reproduces exactly the source's files and bytes and leaves the source and everything outside the destination unchanged; "
  "two files compare identical exactly when their bytes are equal; a walk reports every file exactly once, and text is read back as it was written.",
  ["inputs", "configurations"], "all file contents and tree shapes within bounds",
  "Tests copy two fixtures; content lengths around buffer sizes and tree shapes are not sampled.",
  ["ocfl/fsw.py"], [("fsw_copyfile, fsw_copydir, fsw_files_identical, fsw_walk_files", "ocfl/fsw.py")],
  "Symbolic bytes with the buffer shrunk; trees of up to 3 files.")
p("C12", "Editing a new version applies each operation exactly or refuses it unchanged",
  "Adding, deleting and renaming files in a new version each change the version's logical state exactly as asked, or are refused without changing anything when the path is invalid, conflicts, does not exist or is already used. "
  "After any sequence of edits the object written is valid, its state is the one the edits describe, every content file is referenced and every reference has its file.",
  ["histories", "inputs"], "all sequences of edit operations within bounds and all path strings within bounds",
  "Tests run a handful of fixed edit sequences; interactions between edits, deduplication and forward deltas need all sequences.",
  ["ocfl/new_version.py", "ocfl/inventory.py", "ocfl/object.py"],
  [("NewVersion.add/delete/rename", "ocfl/new_version.py"), ("Version state mutators", "ocfl/inventory.py"), ("write_new_version", "ocfl/object.py")],
  "Sequences of up to 2 or 3 symbolic operations; paths of up to 4 characters from a path-relevant alphabet.")
p("C13", "Every object written is valid OCFL and holds exactly the given content",
  "Every object created, built or updated passes validation, contains exactly one correct copy of each distinct content per deduplication and forward-delta settings, "
  "and records exactly the given logical files, digests, identifier, specification version and version metadata; "
  "settings and metadata that cannot give a valid object are refused and nothing is written.",
  ["inputs", "configurations"], "all file names, content coincidences, metadata and settings within bounds",
  "Tests compare a few fixture objects; combinations of settings, content coincidences and file names are not sampled.",
  ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py"],
  [("create, build, add_version_with_content", "ocfl/object.py"), ("NewVersion", "ocfl/new_version.py")],
  "Objects of up to 2 versions and 3 files; the oracle is an independent OCFL checker and the library's own validator..")
p("C14", "Extracting any version returns exactly what was put into it",
  "Extracting any version of a valid object, however written, produces exactly the logical files of that version with their original bytes and nothing else, "
  "leaves the object unchanged, and returns that version's metadata; 'head' is the latest version. "
  "Objects with digests beyond those of the specification can be read, extracted and updated exactly if lax digests are asked for.",
  ["inputs", "configurations", "histories"], "all objects and versions within bounds",
  "Tests extract three fixtures; shared content, padded versions, digest case and odd names are not sampled.",
  ["ocfl/object.py", "ocfl/version_metadata.py"], [("extract", "ocfl/object.py")],
  "Objects of up to 3 versions and 2 files, and of 9 to 12 versions, written by an independent writer or by the library.")
p("C17", "Extraction stays inside its destination and never overwrites files",
  "Extraction creates files only inside the destination directory and nowhere else, whatever the inventory says, and never changes an existing file; "
  "unknown versions, unknown logical paths and non-empty destinations are refused with an error and change nothing.",
  ["inputs"], "all inventories with hostile paths, version names and logical paths within bounds",
  "Tests use well-formed fixtures only; containment must hold for every path string.",
  ["ocfl/object.py", "ocfl/inventory_validator.py"], [("extract, extract_file, parse_inventory validation", "ocfl/object.py, ocfl/inventory_validator.py")],
  "Hostile strings of up to 5 characters over a path-relevant alphabet in each path of the inventory.")
p("C30", "Updates honour changed settings, source versions and existing destinations",
  "An update may change digest algorithm or fixity types: the result is valid with correct digests (fixity digests of every type asked for and every content file included) and all earlier content and version directories untouched; an update without a source directory keeps the content, and one asked to stop when nothing changed writes nothing exactly then. "
  "Building uses exactly the version directories 1..n of the source and refuses gaps; creating or building over an existing non-empty destination is refused and changes nothing.",
  ["configurations", "inputs"], "all combinations of settings, source directory names and destinations within bounds",
  "Tests use one digest change and well-numbered sources; the combinations are not sampled.",
  ["ocfl/object.py", "ocfl/new_version.py"], [("start_new_version, add_version_with_content, build, create", "ocfl/object.py")],
  "Two-version objects over all combinations of the stated settings.")
p("C15", "Adding a version never changes what earlier versions hold",
  "Adding a version changes no existing file except the root inventory and its sidecar, keeps the recorded state, content and metadata of all earlier versions, "
  "and continues the version numbering in the object's own style; when the numbering cannot continue it is refused and nothing changes. Operations that only read change no file.",
  ["histories", "inputs"], "all objects and updates within bounds",
  "Tests add one version to a few fixtures; numbering styles, digest case, v9 to v10 and all kinds of update are not sampled.",
  ["ocfl/object.py", "ocfl/new_version.py", "ocfl/inventory.py", "ocfl/object_utils.py"],
  [("start_new_version, write_new_version, add_version_with_content", "ocfl/object.py"), ("next_version_directory", "ocfl/object_utils.py")],
  "Objects of 1, 2, 9, 10 and 11 versions, padded and not; three kinds of update; eight reading operations.")
p("C16", "An interrupted operation never damages earlier versions or passes as complete",
  "If the process stops at any file-system step of creating, building, updating or adding an object, files of earlier versions keep their bytes, the root inventory and its sidecar stay as they were "
  "until the new version directory is complete, and what is left passes validation only if it is exactly the old or exactly the complete new object.",
  ["crash points", "inputs"], "a crash at every file-system step of each operation, with partial writes",
  "Tests never interrupt an operation.",
  ["ocfl/object.py", "ocfl/storage_root.py", "ocfl/fsw.py"], [("write_new_version, create, build", "ocfl/object.py"), ("add, initialize", "ocfl/storage_root.py")],
  "The crash step is a symbolic variable; writes may be cut after any prefix the model distinguishes.")
p("C18", "Any single corruption of a valid object is detected",
  "A valid object stops validating after any single change, deletion, addition, renaming or exchange of files or directories that OCFL does not leave to the user "
  "(white space in the declaration, the logs directory and extension directories are left free), and still validates after changes to those.",
  ["inputs", "faults"], "all changes of any file, entry name and position within bounds",
  "Tests use about sixty broken fixtures; the position, name and kind of damage are not sampled.",
  ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/namaste.py"], [("Validator.validate_object", "ocfl/validator.py")],
  "Ten object shapes; every file and directory; arbitrary names and texts of up to 2 characters added to known stems.")
p("C19", "Inventories are accepted exactly when the OCFL specification allows them",
  "The inventory validator accepts an inventory exactly when it satisfies the rules of the OCFL specification for its structure, identifiers, paths, digests, versions, timestamps and fixity, "
  "and extracts its identifier, version list, head, digest algorithm and specification version correctly.",
  ["inputs"], "all single structural changes and all strings within bounds in every field",
  "Tests run about sixty hand-made inventories; near-miss strings, path conflicts and wrong types in every position are not sampled.",
  ["ocfl/inventory_validator.py", "ocfl/w3c_datetime.py", "ocfl/digest.py"], [("InventoryValidator.validate", "ocfl/inventory_validator.py")],
  "Differential check against an independent reference over symbolic inventories; places where the specification is silent are not judged.")
p("C20", "A tampered version history is detected even with matching sidecars",
  "If the inventories of an object's versions, all with correct sidecars, contradict each other or the content (identifier, state, content, digests, fixity digests, content directory, specification version or version list of an earlier version), "
  "validation fails, whatever digest algorithms the versions use; differences in version metadata only are warned about.",
  ["inputs", "histories"], "all single re-signed alterations within bounds of root and earlier inventories",
  "Tests have a few fixtures with inconsistent inventories.",
  ["ocfl/validator.py", "ocfl/inventory_validator.py"], [("validate_version_inventories", "ocfl/validator.py"), ("validate_as_prior_version", "ocfl/inventory_validator.py")],
  "Objects of 2 and 3 versions with equal and different digest algorithms.")
p("C21", "The verdict does not depend on what is shown or checked before",
  "The verdict, codes and counts of a validation do not depend on which kinds of message are logged, the language, the order of directory listings, or earlier use of the same validator; "
  "without digest checks no valid object is refused and everything but digests is still checked.",
  ["configurations", "histories"], "all combinations of options and defects within bounds",
  "Tests validate with one set of options.",
  ["ocfl/validator.py", "ocfl/validation_logger.py", "ocfl/object.py"], [("Validator.validate_object", "ocfl/validator.py"), ("Object.validate", "ocfl/object.py")],
  "Four object shapes with eleven defects, all switches.")
p("C22", "Validation always gives a verdict",
  "Validating any directory, whatever bytes or JSON its inventories, sidecars and declarations hold, returns a verdict and never raises; it is invalid exactly when an error is logged.",
  ["inputs"], "all single structural changes of inventories and all short contents within bounds",
  "Tests use only well-formed damage.",
  ["ocfl/validator.py", "ocfl/inventory_validator.py", "ocfl/namaste.py", "ocfl/object.py"], [("Validator.validate_object", "ocfl/validator.py"), ("InventoryValidator.validate", "ocfl/inventory_validator.py")],
  "Any position of root and earlier inventories replaced by any of 19 JSON shapes; files of up to 2 arbitrary characters.")
p("C25", "Inventory sidecars are accepted exactly when they match",
  "A sidecar is accepted exactly when it is named for the inventory's digest algorithm and holds the inventory's digest, spaces or tabs, and the name inventory.json; every inventory directory is checked, with every supported digest algorithm.",
  ["inputs"], "all near-miss sidecar texts within bounds in every inventory directory",
  "Tests use three broken sidecars.",
  ["ocfl/validator.py", "ocfl/object.py"], [("validate_inventory_digest", "ocfl/validator.py"), ("write_inventory_and_sidecar", "ocfl/object.py")],
  "Arbitrary separators, prefixes, suffixes and name changes of up to 2 characters.")
p("C28", "A failed write is never reported as success",
  "If any single file-system operation of creating, building, updating, extracting or adding fails, the operation reports it, existing content and the source stay unchanged, and nothing incomplete passes validation.",
  ["faults", "inputs"], "an error at every file-system step of each operation",
  "Tests never make a write fail.",
  ["ocfl/object.py", "ocfl/storage_root.py", "ocfl/fsw.py"], [("write_new_version, create, build, extract", "ocfl/object.py"), ("add, initialize", "ocfl/storage_root.py")],
  "The failing step is a symbolic variable.")
p("C11", "Editing an inventory in memory keeps it consistent",
  "Adding, copying, deleting and looking up logical and content paths, adding versions, copying an inventory, making one \"as if version\" and normalising digests have exactly the documented effect: manifest, states and fixity stay in agreement, nothing unrelated changes, the caller's data is not shared, and a refused operation changes nothing.",
  ["inputs", "histories"], "all sequences of editing operations and all paths within bounds",
  "Tests apply a handful of single operations to one inventory.",
  ["ocfl/inventory.py"], [("Inventory and VersionInventory", "ocfl/inventory.py")],
  "Inventories with symbolic states and digests against an independent model of each operation.")
p("C23", "Storage roots list, add and validate exactly the objects in them",
  "Listing shows exactly the objects of the hierarchy with their identifiers; validation is true exactly if the hierarchy and every object checked are valid, with correct counts and recorded errors; an added object appears byte for byte at the path of its identifier and nothing else changes; what cannot be added is refused and changes nothing.",
  ["inputs", "histories"], "all hierarchies, object defects, identifiers and layouts within bounds",
  "Tests use one or two prepared roots.",
  ["ocfl/storage_root.py", "ocfl/layout.py", "ocfl/layout_registry.py"], [("StorageRoot.list_objects, validate and add", "ocfl/storage_root.py"), ("layouts", "ocfl/layout.py")],
  "Hierarchies with symbolic names, defects at several levels and symbolic identifiers.")
p("C24", "Storage roots are created and opened exactly as declared",
  "A new storage root holds exactly the declaration, layout file and layout configuration asked for and is valid; a directory is accepted as a storage root exactly if it has one correct declaration of a supported (and the expected) version and, if present, a layout file naming a known layout with a valid configuration; unusable requests are refused and change nothing.",
  ["inputs"], "all declarations, layout files and initialisation requests within bounds",
  "Tests use a few prepared declarations and layouts.",
  ["ocfl/storage_root.py", "ocfl/namaste.py", "ocfl/layout.py"], [("StorageRoot.initialize and check_root_structure", "ocfl/storage_root.py"), ("parse_layout_file", "ocfl/storage_root.py")],
  "Symbolic declaration names, contents, layout names and parameters.")
p("C26", "Version metadata and Bagit bags carry over exactly what they say",
  "Version metadata taken from an inventory is that of the version asked for and no other. A version extracted as a bag is a valid bag of exactly its content whose metadata, read back as a source, "
  "is that of the version; only values not given are taken from a bag; a source that is not a valid bag is refused with BaggerError and nothing is taken from it; whatever bag-info.txt holds, the metadata taken is usable text.",
  ["inputs"], "all metadata values, bag damage and bag-info texts within bounds",
  "Tests use three prepared bags.",
  ["ocfl/bagger.py", "ocfl/version_metadata.py"], [("bag_as_source and bag_extracted_version", "ocfl/bagger.py"), ("VersionMetadata.from_inventory and as_dict", "ocfl/version_metadata.py")],
  "bagit itself is a transcription of the installed version executed symbolically; replay uses the real one.")
p("C27", "Command line tools do what is asked and exit with status 0 exactly then",
  "The command line tools write exactly what the library writes for the same options, show verdicts, inventories, listings and paths that are true, exit with status 0 exactly if what was asked for was done "
  "(or everything validated is valid), never end with a traceback, and change nothing when they refuse.",
  ["inputs", "configurations"], "all combinations of commands, options, paths and defects within bounds",
  "Tests look for a message in the output of a few runs and never at the exit status.",
  ["ocfl-object.py", "ocfl-root.py", "ocfl-validate.py", "ocfl-sidecar.py", "ocfl/command_line_utils.py"],
  [("do_object_operation", "ocfl-object.py"), ("do_store_operation", "ocfl-root.py"), ("do_validation", "ocfl-validate.py"), ("create_sidecar", "ocfl-sidecar.py")],
  "The scripts and argparse itself are executed symbolically; option values are symbolic text.")
p("C29", "Every departure from a recommendation is warned about exactly once",
  "Validating an object or storage root warns about each departure from a recommendation of the specification (zero-padded version names, digest algorithm sha256, missing message or user, identifier or user address "
  "that is not a URI, missing user address, differing algorithms or inventories of earlier versions, unregistered extensions, unexpected content of extension or version directories) exactly once per occurrence and about nothing else; "
  "warnings never change the verdict.",
  ["inputs", "configurations"], "all combinations of departures, identifiers and addresses within bounds",
  "Tests use one fixture per warning, and never count them.",
  ["ocfl/inventory_validator.py", "ocfl/validator.py", "ocfl/storage_root.py"], [("warnings W001 to W013 and W901", "ocfl/inventory_validator.py, ocfl/validator.py")],
  "Codes W001-W011 and W013 in objects, W901 in storage roots; registered extensions other than those of the layouts are left open.")
NOT_APPLICABLE = {}
