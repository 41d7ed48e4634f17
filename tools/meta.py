"""Property metadata (source of properties.jsonl and MANIFEST.json)."""

META = []
NA = []
NOTE = ("TLC checks the specification's invariants in every state within the stated bounds; every behaviour it emits and random larger "
        "histories are executed against the real code and TLC decides that what was observed is what the specification allows. "
        "Assurance is bounded by the emitted behaviours and the random histories; trusts TLC and the rendering of histories to inputs.")


def P(id, title, statement, over, forall, tests, files, mech, note=""):
    META.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech,
                     note=(NOTE + " " + note).strip()))


PARS = "edk2toollib/uefi/edk2/parsers/"

P("C01", "Conditional directives select exactly the active lines",
  "For every nesting of !if, !ifdef, !ifndef, !elseif, !else and !endif in a platform (DSC) or flash (FDF) description, a line takes effect "
  "if and only if every enclosing chain selected the branch it stands in, where a chain selects its first branch whose condition is true "
  "and the !else branch only when no condition was. Directives, definitions, includes and sections in inactive branches have no effect at all, "
  "and an !else or !endif without an open chain, or a condition that cannot be evaluated, is refused rather than guessed.",
  ["programs", "inputs"], "all programs of directives, defines and text lines, at any nesting depth",
  "The tests sample a handful of hand-written nestings of depth one or two; the property quantifies over every chain shape and branch outcome.",
  [PARS + "base_parser.py", PARS + "dsc_parser.py", PARS + "fdf_parser.py"],
  [("conditional stack", "base_parser.py ProcessConditional/PushConditional/PopConditional/InActiveCode"),
   ("two pass line loop", "dsc_parser.py ParseFile, fdf_parser.py ParseFile")])
P("C02", "Conditional expressions evaluate by their grammar",
  "Every conditional expression built from literals (TRUE/FALSE, decimal and hexadecimal numbers, words, quoted strings), macros, parentheses "
  "and the operators ==/EQ, !=/NE, <, <=, >, >=, IN, NOT/!, AND/&&, OR/|| evaluates to the value its grammar and operator precedence give it, "
  "whatever its spelling, casing or white space. An undefined macro counts as not set, numbers compare by value and strings by text, and a "
  "malformed expression raises an error instead of selecting a branch.",
  ["inputs", "programs"], "all expressions over the operator set and literal forms, of any depth",
  "The tests list individual expressions; precedence and associativity faults need particular operator combinations and operand kinds.",
  [PARS + "base_parser.py"], [("tokenizer and infix to postfix conversion", "base_parser.py EvaluateConditional, _FindOperators, _ConvertToList"),
                              ("comparison", "base_parser.py ComputeOperation")])
P("C03", "Macros and PCD values are substituted as defined at that point",
  "In every line that takes effect, each $(NAME) of a defined name is replaced by that name's value: what the caller supplied, else the most recent active definition of the file (in a DSC of its first "
  "reading, in an FDF those of [Defines] and of the section the line stands in), also inside values naming other macros. Truth values become upper case, a self reference empty, and an undefined macro stays as "
  "written in text but counts as 0 in a condition. PCD names in !if and !elseif conditions are replaced by the PCD's most recent value.",
  ["programs", "histories"], "all sequences of definitions, redefinitions, sections and uses",
  "Tests use one or two definitions; the value at a line depends on the whole history of definitions, branches and sections before it.",
  [PARS + "base_parser.py", PARS + "dsc_parser.py", PARS + "fdf_parser.py"],
  [("substitution", "base_parser.py ReplaceVariables, dsc_parser.py ReplacePcds"), ("definition pass", "dsc_parser.py __ProcessDefines, fdf_parser.py InDefinesSection")])
P("C04", "Included files read as if their lines stood in place of the include",
  "Parsing a description whose lines are spread over !include files at any depth gives the same result as parsing the one file with every active "
  "include replaced by the included lines: same order, same conditional state, same definitions. Relative include paths are found next to the including "
  "file, in the workspace or in a package path, an include inside an inactive branch is never opened, and all files used are reported. The parser finds any other file asked of it the same way, and the expanded lines, written to a file and read again, say the same.",
  ["programs", "configurations"], "all trees of include files, with conditionals and definitions crossing file borders",
  "Tests use single-level includes; path context, conditional state and definitions crossing several files are not sampled.",
  [PARS + "base_parser.py", PARS + "dsc_parser.py", PARS + "fdf_parser.py"],
  [("recursive line processing", "dsc_parser.py __ProcessMore/__ProcessDefines, fdf_parser.py InsertLinesFromFile"), ("path lookup", "base_parser.py FindPath")])
P("C05", "A platform description is reported completely and in its scopes",
  "For every platform description, each module, library instance, component override (including NULL libraries) and PCD it states is reported exactly as stated: "
  "components once per architecture of their section (all platform architectures for common), overrides attached only to the component whose braces "
  "they stand in, and every library class scope holding all its instances, each once, the most recent first. "
  "Section and class names match in any letter case, a section header may list several scopes, and absolute paths are reported relative to the workspace. The x64 and ia32 modules are also reported with the file that names them (an included one, perhaps) and the line in it; braces and file names inside a quoted text mean nothing.",
  ["programs"], "all sequences of section headers, components, braces, overrides and library lines",
  "The tests parse small fixed files; losing an instance or leaking an override needs particular orders of sections, repeats and scopes.",
  [PARS + "dsc_parser.py"], [("scoped library table", "dsc_parser.py _parse_libraries"), ("components and overrides", "dsc_parser.py _parse_components, _build_library_override_dictionary"),
                             ("line processing", "dsc_parser.py __ParseLine")])
P("C06", "Each module gets the library instances its platform description selects",
  "In the parsed build database every module built for a requested architecture is linked, directly and transitively, to exactly one instance per library class it "
  "names for that architecture: the component's own override, else the most recent instance supporting the module type in the most specific of the scopes "
  "architecture and module type, common and module type, architecture, common. NULL libraries of the component and of those scopes are linked to the module itself, "
  "every instance appears once per component and architecture with its own sources and links, and image volumes link to the modules built.",
  ["configurations", "programs"], "all platform descriptions, library dependency graphs (also cyclic and shared), overrides and architectures",
  "The tests use a few single-class examples; scope precedence, module type filters, cycles and instances shared by several classes only matter in combination.",
  ["edk2toollib/database/tables/instanced_inf_table.py", "edk2toollib/database/tables/instanced_fv_table.py", PARS + "inf_parser.py", PARS + "dsc_parser.py"],
  [("scope search", "instanced_inf_table.py _lib_to_instance/_reduce_lib_instances/_get_null_lib_instances"),
   ("link closure", "instanced_inf_table.py _parse_inf_recursively, _insert_db_rows"), ("per architecture lists", "inf_parser.py get_libraries/get_sources")])
P("C07", "Module and package files report their entries section by section",
  "For every module (INF) or package (DEC) file, each section's entries are reported completely, in order and nowhere else: defines with the last value, packages, "
  "library classes, protocols, PPIs, GUIDs with their parsed value, PCDs with token space, default, type and id (structured PCDs without the lines in their braces), sources, binaries and include paths. "
  "Asked for a set of architectures, a module's libraries and sources are exactly those of its common sections and of the sections of these architectures; "
  "anything after | that is not part of the name, comments and section name case never change the result, and a module supports the phases its library class line lists, or all if none or BASE.",
  ["programs"], "all sequences of sections (with several architectures), entries, macros and comments",
  "The tests use one small file per feature; entries attributed to a wrong section or architecture need particular orders of headers.",
  [PARS + "inf_parser.py", PARS + "dec_parser.py"], [("section tracking", "inf_parser.py ParseFile, dec_parser.py _Parse"), ("PCD declaration", "dec_parser.py PcdDeclarationEntry._parse")])
P("C08", "Flash descriptions report volumes, files and sections as stated",
  "For every flash description (FDF), each firmware volume is reported with exactly its INF entries in order, and each of its files with its type and all values of its sections (also inside "
  "guided sections) in order, also when a volume is continued under a later header or a header names several volumes; flash devices and global defines are reported. "
  "Rule, capsule and payload sections contribute nothing to volumes.",
  ["programs"], "all sequences of section headers, INF lines, FILE blocks with nested sections, and defines",
  "The tests parse two fixed files; losing or misattributing an entry needs particular nestings and repeated headers.",
  [PARS + "fdf_parser.py"], [("line loop and brace counting", "fdf_parser.py ParseFile, GetNextLine")])
P("C09", "Comments end a line only outside quotes",
  "In every description file line, the text from the first # outside quotes on is a comment and nothing else is removed but surrounding blanks: single and double quotes close with their own "
  "kind and a backslash makes the following character ordinary. target.txt reports the last value of every key, split at the first = of lines that have one left.",
  ["inputs"], "all lines over letters, blanks, quotes, backslashes, # and =",
  "Tests check a dozen lines; quote and escape states combine.",
  [PARS + "base_parser.py", PARS + "targettxt_parser.py"], [("comment scanner", "base_parser.py StripComment"), ("key value lines", "targettxt_parser.py ParseFile")])
P("C10", "GUID spellings convert without loss and malformed ones are refused",
  "Every GUID converts between C structure format, registry format and UUID objects to the same 128-bit value whatever the letter case, 0x/0X prefix, spacing or omitted leading zeros, and the "
  "canonical spellings read back to that value. A string that is not entirely a GUID in one of the formats converts to nothing (empty string or none), never to another GUID.",
  ["inputs"], "all 128-bit values, all spellings of them, and near misses",
  "Tests use a few GUIDs; missing digits, zero fields and trailing text occur only for particular values.",
  [PARS + "guid_parser.py", PARS + "base_parser.py"], [("format regexes and conversion", "guid_parser.py GuidParser"), ("DSC guid", "base_parser.py ParseGuid")])
P("C11", "Workspace relative and absolute paths translate into each other",
  "For every workspace, package path list and tree of files: the constructor resolves each package path against the workspace, else the current directory, keeps their order and refuses (or drops, if asked) missing ones; "
  "an absolute path below any of them becomes the path relative to the innermost package path holding it, else to the workspace, and nothing for a path outside; a relative path becomes the "
  "existing path below the workspace, else below the first package path that has it, and nothing if none has it. Slash direction and splitting into parts never matter.",
  ["configurations", "inputs"], "all workspace and package path placements (nested, overlapping, missing) and paths",
  "Tests use a handful of layouts; the wrong root is chosen only for particular nestings, orders and name prefixes.",
  ["edk2toollib/uefi/edk2/path_utilities.py"], [("construction", "Edk2Path.__init__"), ("translation", "GetEdk2RelativePathFromAbsolutePath, GetAbsolutePathOnThisSystemFromEdk2RelativePath")])
P("C12", "A file's package and modules are those of its nearest directory that has one",
  "For every path in the workspace or a package path, the containing package is the name of the nearest enclosing directory below the root that holds a DEC file, and the containing modules are the INF files of the nearest "
  "enclosing directory that has any, below the outermost root (an INF file is its own module); nothing is found for paths outside of all roots, the search always ends, and paths that no longer exist are searched from where they were.",
  ["configurations", "inputs"], "all trees of packages, modules and nested roots, and all existing and missing paths",
  "Tests use one tree; nested roots, root directories themselves and missing directories combine.",
  ["edk2toollib/uefi/edk2/path_utilities.py"], [("upward search", "GetContainingPackage, GetContainingModules"), ("outermost roots", "GetContainingModules maximum_root_paths")])
P("C13", "The GUID search visits exactly the files gitignore rules leave",
  "For every folder tree and list of gitignore lines, the GUID search reports for each DEC and INF file that is not ignored exactly the GUIDs, protocols, PPIs and package or module GUID it declares, upper case, and nothing for "
  "any other file. Ignoring follows the documented gitignore syntax: the last matching pattern decides, ! re-includes, a slash anchors, a trailing slash means folders, ** spans folders, and what is "
  "inside an ignored folder stays ignored, blanks at the end do not count unless escaped. The same lines in an ignore file, for its own folder or one given, match the same paths. No list of lines makes the search fail.",
  ["inputs", "configurations"], "all folder trees and lists of ignore lines",
  "The upstream tests use fixed patterns; precedence of negation, anchoring, character classes and spaces interact.",
  ["edk2toollib/gitignore_parser.py", "edk2toollib/uefi/edk2/guid_list.py"], [("rule parsing", "gitignore_parser.py rule_from_pattern"), ("last match", "gitignore_parser.py handle_negation"), ("walk", "guid_list.py guidlist_from_filesystem")])
P("C14", "The workspace database records each parse once and never half",
  "Over every history of workspace edits, table registrations, parses and reopenings of the database file: each INF, source, package and repository appears exactly once with what its file states, "
  "sources already known get their current line counts and license, parsing again changes nothing but adds one environment (id, commit, all values), modules and volumes of each parse "
  "stay apart by environment with their package and repository (workspace or submodule), nothing below Build is read, and a table that fails leaves none of its rows and keeps those before it.",
  ["histories", "crash points"], "all histories of edits, registrations, parses and reopenings",
  "Tests parse once or twice with one table; duplicates, stale rows and partial writes need several tables and parses.",
  ["edk2toollib/database/edk2_db.py", "edk2toollib/database/__init__.py", "edk2toollib/database/tables/inf_table.py", "edk2toollib/database/tables/source_table.py",
   "edk2toollib/database/tables/package_table.py", "edk2toollib/database/tables/environment_table.py"],
  [("session and parse loop", "edk2_db.py Edk2DB.session, parse"), ("existing rows", "inf_table.py, source_table.py, package_table.py parse")])
AV = "edk2toollib/uefi/authenticated_variables_structure_support.py"
P("C15", "Signature lists keep sizes and entries; their canonical form loses nothing",
  "Over every history of building, merging, sorting, encoding and decoding: the declared sizes of an EFI signature list agree with its entries, an addition or merge that does not fit is refused, sorting is stable by data and "
  "removes only repeated data (kept: the first; removed: the others, in order). Encoding then decoding gives back the list, and bytes whose sizes do not add up are refused. The canonical database "
  "is one sorted SHA256 list and then the certificates in order, without repetitions; it and the duplicates hold together exactly the original entries, and computing it leaves the original as it was. An entry made from content or read from any place of a stream holds exactly that owner and data (for SHA256, the hash of the rest of the stream) and its size follows. The former names of calls and attributes answer the same.",
  ["histories", "inputs"], "all histories of list operations and all byte strings",
  "Tests compare a few prepared lists; size bookkeeping and aliasing break only in particular orders of operations.",
  [AV], [("list building", "EfiSignatureList.AddSignatureHeader, AddSignatureData, MergeSignatureList, SortBySignatureDataValue"), ("parsing", "EfiSignatureList.decode, EfiSignatureDatabase.decode"),
         ("canonical form", "EfiSignatureDatabase.get_canonical_and_dupes")])
P("C16", "Authenticated variables read back and are signed over the right bytes",
  "EFI_TIME, WIN_CERTIFICATE (GUID and PKCS1 kinds) and EFI_VARIABLE_AUTHENTICATION_2 decode to what was encoded and encode to the bytes decoded; impossible dates and certificates whose revision, type, GUID or length is wrong "
  "are refused; length fields follow the data however often it is replaced. The digest of a variable is its name in UTF-16, namespace GUID, attributes, time and current payload; the finished variable "
  "is time, certificate and payload with a signature that verifies over exactly that digest. Attribute names and bits convert both ways. Objects are read from wherever the stream stands, and the former names of calls and attributes answer the same.",
  ["inputs", "histories"], "all byte strings, variables, payload replacements and attribute sets",
  "Tests hold a few recorded variables; truncations, single damaged bytes and payload replacement are not among them.",
  [AV, "edk2toollib/uefi/wincert.py", "edk2toollib/uefi/uefi_multi_phase.py"],
  [("certificates", "wincert.py WinCertUefiGuid, WinCertPkcs1, WinCert.factory"), ("variables", "EfiVariableAuthentication2, EfiVariableAuthentication2Builder"), ("attributes", "uefi_multi_phase.py EfiVariableAttributes")])
P("C17", "A variable store in a ROM image is read and written back exactly",
  "Opening a variable store reports exactly the variables from its start up to the first place without a variable header, never anything beyond the store, and refuses an image whose volume or store identity, size or state is wrong. "
  "After any history of adding, changing, removing, writing and reopening, the written image holds the listed variables in order, each padded to four bytes, followed by FFh up to the end of the store; no byte outside the variable "
  "area changes, reopening gives back the same list, and a list that does not fit is refused with the image as it was.",
  ["histories", "inputs"], "all images and all histories of additions, changes, removals, writes and reopenings",
  "Tests read and write one prepared store; padding, full stores, shrinking lists and damaged headers are not among them.",
  ["edk2toollib/uefi/pi_firmware_volume.py", "edk2toollib/uefi/edk2/variablestore_manulipulations.py", "edk2toollib/uefi/edk2/variable_format.py"],
  [("store", "variablestore_manulipulations.py VariableStore.__init__, flush_to_file"), ("variables", "variable_format.py VariableHeader, AuthenticatedVariableHeader")])
P("C18", "Capsules decode to what they hold at every level, and re-encode exactly",
  "Each capsule structure (UEFI capsule, FMP capsule, capsule image, image authentication, payload header) decodes to exactly the fields and nested parts encoded and encodes back to the same bytes, with every size and offset following its content; "
  "whatever is too short, misidentified or has sizes or offsets that do not add up is refused. An object that decoded something before holds nothing of it after decoding again, and signed images are recognized exactly by their certificate.",
  ["inputs", "histories"], "all nestings of drivers, images, certificates and payloads, all byte strings and orders of decoding",
  "Tests use minimal structures of one level; several drivers and images, extended headers, reuse and truncation combine.",
  ["edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", "edk2toollib/uefi/edk2/fmp_payload_header.py"],
  [("offset list and items", "fmp_capsule_header.py FmpCapsuleHeaderClass"), ("certificate", "fmp_auth_header.py FmpAuthHeaderClass"), ("headers", "uefi_capsule_header.py, fmp_payload_header.py")])
P("C19", "Firmware and variable policies are read and written without loss",
  "Over every history of adding rules, device policies and targets, writing and reading: a firmware policy holds each distinct rule once in order of addition, its bytes are header, rules and a value table whose offsets lead to "
  "each rule's names and value, and reading it, by bytes or by stream offsets, gives the same policy; shared or permuted table entries are followed, and unknown formats and truncated data refused. A variable policy entry decodes "
  "to its sizes, attributes, lock and name, returns exactly the bytes behind it, keeps nothing of an earlier decode, and is refused if its sizes do not add up.",
  ["histories", "inputs"], "all histories of policy changes and all byte strings",
  "Tests use one manufactured policy; repeated rules, shared table entries, surrogate pairs, reuse and truncation are not among them.",
  ["edk2toollib/windows/policy/firmware_policy.py", "edk2toollib/uefi/edk2/variable_policy.py"],
  [("rules and value table", "firmware_policy.py FirmwarePolicy, Rule, PolicyValue, PolicyString"), ("entries", "variable_policy.py VariablePolicyEntry.decode, VariableLockOnVarStatePolicy.decode")])
P("C20", "TPM policies, command streams and codes are exact in every composition",
  "For every tree of policies the digest is the one TPM 2.0 computes: conjunctions extend from zeros in order, a disjunction of at most eight hashes its branches' digests, and trees with unknown commands, "
  "impossible localities or non-policies are refused. After any history of adding and changing elements a command's bytes and stated size agree. The simulator is powered on once and "
  "sent exactly locality, size and command, and the whole answer is returned however it arrives, an incomplete one refused. Command names and codes convert both ways; response codes decode per class.",
  ["inputs", "histories", "schedules"], "all policy trees, histories of a command, answers and their splits into packets, and codes",
  "Tests compute a few policies and never talk to a simulator; nesting, changed elements and packet splits are not among them.",
  ["edk2toollib/tpm/tpm2_policy_calc.py", "edk2toollib/tpm/tpm2_stream.py", "edk2toollib/tpm/tpm2_simulator.py", "edk2toollib/tpm/tpm2_defs.py"],
  [("policies", "tpm2_policy_calc.py PolicyTreeOr, PolicyTreeAnd, PolicyLocality"), ("streams", "tpm2_stream.py Tpm2CommandStream"), ("simulator", "tpm2_simulator.py TpmSimulator.send_data"), ("codes", "tpm2_defs.py CommandCode, ResponseCode")])
P("C21", "IVRS and DMAR tables are read, built, reported and written exactly",
  "Over every history of reading tables and adding structures and device entries: an IVRS table's bytes are its structures in order with length and checksum following, reading them gives the same table and keeps nothing of an earlier one, "
  "and tables whose checksum, lengths, types or ranges do not add up are refused. A DMAR table is decoded to its structures, scopes and paths, every reserved region is looked up among those expected, and damaged "
  "lengths are refused and never loop. The XML of both is well formed and it and the text dump state the values of the bytes.",
  ["inputs", "histories"], "all tables of structures and entries, all byte strings and histories of additions",
  "Tests decode one prepared table; checksums after additions, damaged lengths and reuse combine.",
  ["edk2toollib/acpi/ivrs_parser.py", "edk2toollib/acpi/dmar_parser.py"],
  [("IVRS", "ivrs_parser.py IVRS_TABLE.Decode, addIVHDEntry, updateACPISum, IVHD_STRUCT.Decode"), ("entries", "ivrs_parser.py DEVICE_TABLE_ENTRY.Factory"), ("DMAR", "dmar_parser.py DMARTable")])
P("C22", "Commands and scripts run as asked, never hang, and trees are removed",
  "RunCmd and RunPythonScript start exactly the command or script named (a relative script: in the current directory, else first on PATH) with the given parameters, directory and environment, and return its return code or raise if asked. Under every "
  "interleaving with the command, capturing or not, they never hang; stream, file and log get the output in order, up to what cannot be decoded, which raises. RemoveTree removes a tree if each entry gives way within its retries, else raises, and "
  "touches nothing links lead to. The signing helpers pass signtool exactly its arguments.",
  ["schedules", "faults", "inputs"], "all commands, outputs, interleavings with the reader, failures to remove an entry and paths",
  "Tests run one short command and remove plain trees; full pipes, undecodable bytes, spaces in paths, retries and links are not among them.",
  ["edk2toollib/utility_functions.py"],
  [("commands", "utility_functions.py RunCmd, reader, PropagatingThread"), ("scripts", "utility_functions.py RunPythonScript"), ("trees", "utility_functions.py RemoveTree"), ("signing", "utility_functions.py DetachedSignWithSignTool, CatalogSignWithSignTool")])
P("C23", "Dumps and C arrays state the bytes; versions, classes and hosts are told apart",
  "Hex dumps and C arrays written from any data, with every option, parse back to exactly the bytes (an array: what its stream has left), with offsets, aligned ASCII columns and the array length matching them; PrintByteList prints the same dump. Version comparison is the "
  "numeric order of the dotted parts, where missing parts count as zero. Of the classes of a module that derive from a base, the one deriving from all others is located, ambiguity raises, and none gives None. Host information follows the machine's name, and unknown hosts raise.",
  ["inputs"], "all byte strings and options, pairs of versions, class hierarchies and machine names",
  "Tests print a few dumps and compare a few versions; row boundaries, missing parts and deep hierarchies are sampled at one point each.",
  ["edk2toollib/utility_functions.py"],
  [("dumps", "utility_functions.py hexdump, PrintByteList, export_c_type_array"), ("versions", "utility_functions.py version_compare"), ("classes", "utility_functions.py locate_class_in_module, import_module_by_file_name"), ("host", "utility_functions.py GetHostInfo")])
P("C24", "Log handlers and test reports keep every message",
  "Over every history of records, level changes and reads, a string, file or colour handler holds, for each record that passes its filter and level, one whole line with the record's level and message in order, also when threads log at once; colours are added or stripped exactly "
  "as configured (on a Windows console shown by its attributes) and the record is handed on unchanged. A JUnit report is well-formed XML stating each suite's counts and each test's single result, the time it took to that result, messages and output for any text; setting a result twice and writing a test without result raise.",
  ["histories", "schedules", "inputs"], "all histories of records, handlers and reports, interleavings of threads and texts",
  "Tests log a few plain lines and write one report; control sequences, markup, seeking, threads and repeated results combine.",
  ["edk2toollib/log/ansi_handler.py", "edk2toollib/log/string_handler.py", "edk2toollib/log/file_handler.py", "edk2toollib/log/junit_report_format.py"],
  [("colours", "ansi_handler.py ColoredFormatter, ColoredStreamHandler"), ("handlers", "string_handler.py StringStreamHandler, file_handler.py FileHandler"), ("reports", "junit_report_format.py JunitTestReport, JunitReportTestSuite, JunitReportTestCase")])

P("C25", "Firmware structures, variables and BMP images decode and encode exactly",
  "Over every input and history, loading a firmware volume, file, fault tolerant write, variable store or variable header yields each field at its place and width, refuses short input and wrong signatures, leaves the stream where it was and keeps nothing of an earlier load; encoding gives the same bytes. "
  "Variables with names and data are sized, padded to four bytes and written exactly. A BMP image is read only if its sizes, offset and colour map fit the stream and is then written byte for byte. Variable attributes convert between numbers and short and long names, and status codes to their UEFI names, for every value.",
  ["inputs", "histories"], "all byte strings, names, data, attribute sets, status values and orders of loading and changing",
  "Tests load a handful of well-formed structures once; boundary sizes, object reuse, signedness, odd names and truncation combine.",
  ["edk2toollib/uefi/pi_firmware_volume.py", "edk2toollib/uefi/pi_firmware_file.py", "edk2toollib/uefi/edk2/ftw_working_block_format.py", "edk2toollib/uefi/edk2/variable_format.py", "edk2toollib/uefi/bmp_object.py", "edk2toollib/uefi/uefi_multi_phase.py", "edk2toollib/uefi/status_codes.py"],
  [("volumes and files", "pi_firmware_volume.py, pi_firmware_file.py load_from_file, serialize"), ("write blocks", "ftw_working_block_format.py"), ("variables", "variable_format.py VariableStoreHeader, VariableHeader, AuthenticatedVariableHeader"), ("images", "bmp_object.py BmpObject.PopulateFromFileStream, Write"), ("attributes and codes", "uefi_multi_phase.py EfiVariableAttributes; status_codes.py UefiStatusCode")])

P("C26", "UEFI device paths are split into nodes and shown exactly",
  "Over every byte string of complete device path nodes, DevicePathFactory.from_binary returns one object per node, in order, each keeping type, subtype, length and data of its node; the next node begins exactly where the length of the one before says. Known kinds are shown (str, as JSON) with every field at its documented place, width, byte order and signedness, "
  "other subtypes as 'Unimplemented!' and other types as 'NOT_FOUND!' with their data in base64. A node whose stated length is less than its header of four bytes, or a path that ends inside a header, raises and yields nothing.",
  ["inputs"], "all byte strings of device path nodes of every kind, field value and length",
  "Tests decode one node of some kinds; unknown kinds, boundary field values, bad lengths and long paths combine.",
  ["edk2toollib/uefi/device_path.py"],
  [("splitting", "device_path.py DevicePathFactory.from_binary, EfiDevicePathProtocol.decode"), ("kinds", "device_path.py DEVICE_PATH_SUBTYPES and the classes it names")])

P("C27", "DSC objects keep what was added last, once each, and are written in full",
  "Over every history of additions and assignments, the sets of a DSC object hold each thing once (definitions by name, SKUs unique by id and by name, library classes regardless of case and NULL ones by INF, PCDs by full name, options by all but data), the last added counting, and refuse kinds that do not belong, wrong section types and sections that exist. "
  "Sections differ when architecture (COMMON and DEFAULT alike), module type, code base, PCD type, SKU or store differ; equal things have equal hashes. DscTranslator writes every item of every section exactly once under its header, components with all their subsections, options with = or ==.",
  ["histories", "inputs"], "all histories of additions and assignments to DSC objects, over all items and section types",
  "Tests add one or two items and never write an object; clashes, spellings, scopes and whole files combine.",
  ["edk2toollib/uefi/edk2/build_objects/dsc.py", "edk2toollib/uefi/edk2/build_objects/dsc_translator.py"],
  [("restricted sets and maps", "dsc.py dsc_set.add, dsc_dict.__setitem__, __missing__"), ("identity", "dsc.py __eq__ and __hash__ of the items and section types"), ("file", "dsc_translator.py DscTranslator.dsc_to_file")])

P("C28", "Windows capsule INF and catalog files are complete and refuse bad values",
  "Over every history of settings and firmware, the INF generators refuse names, tags, file names and keys with a character not allowed, too few or too many version fields, bad GUIDs, architectures, dates and OS versions and numbers outside 32 bits, keeping the last good value, and write a file whose every section appears once with every accepted value in its place: one GUID in braces, "
  "numbers in hex, every firmware (the last for a tag) with its sections, files, strings, and rollback policy where asked. Every section, string and source file referred to exists. The catalog generator knows its architectures and OS names in any case, runs the found tool once with exactly its arguments in the folder given and raises unless it ends with 0 and the catalog exists.",
  ["histories", "inputs"], "all histories of settings, firmware, source files and strings over all texts, numbers, dates and GUIDs",
  "Tests compare two whole files and a few refusals; limits, several firmwares, replaced tags and GUID spellings combine.",
  ["edk2toollib/windows/capsule/inf_generator.py", "edk2toollib/windows/capsule/inf_generator2.py", "edk2toollib/windows/capsule/cat_generator.py"],
  [("one firmware", "inf_generator.py InfGenerator"), ("several", "inf_generator2.py InfFile, InfFirmware, InfFirmwareSections, InfStrings, InfSourceFiles"), ("catalog", "cat_generator.py CatGenerator")])

P("C29", "Build reports and override lines are read in full",
  "For every build report in the layout EDK2 writes, BasicParse yields platform name, DSC and output path and for each module summary (the last for a GUID) its name, GUID, type, INF path, also when wrapped, DEPEX from the INF, every PCD by token space and name with its whole value whatever characters it holds, and every library by class, NULL ones numbered, as an EDK2 path where a root holds it; "
  "default values, offsets and other sections add nothing. A module listed in flash has the volume that lists it last, protected words are replaced first, and lookup by INF path ignores case. An INF's override lines give version 1, path, hash and time each in order with line numbers; a malformed or missing one raises ValueError.",
  ["inputs"], "all reports of modules, sections, values and flash regions; all INF texts with override lines",
  "No test reads a build report and a few read one or two override lines; values, sections, wrapping and roots combine.",
  ["edk2toollib/uefi/edk2/parsers/buildreport_parser.py", "edk2toollib/uefi/edk2/parsers/override_parser.py"],
  [("report", "buildreport_parser.py BuildReport.BasicParse, FindComponentByInfPath, _ParseFdRegionForModules"), ("module", "buildreport_parser.py ModuleSummary.Parse"), ("override lines", "override_parser.py OverrideParser")])

P("C30", "Visual Studio and SDK tools are located as asked, from verified programs only",
  "On Windows, GetVsWherePath gives the library's own vswhere.exe, else the first on PATH, else downloads; a download that fails, breaks off or has another hash leaves no file and gives None. Elsewhere it raises. FindAllWithVsWhere and FindWithVsWhere run it once with exactly the product and version "
  "range asked, give its lines in order, None without any, and raise on unknown versions or failure. QueryVcVariables runs the first vcvarsall.bat of them with the architecture and tool version and gives exactly the asked variables, any case, less one trailing separator, or raises. FindToolInWinSdk "
  "gives, in whatever order directories are listed, a tool for this host's architecture: of the SDK in use, else of the highest version (last number ignored); without variables, from the default kits; None without one.",
  ["inputs", "faults", "histories"], "all hosts, PATHs, download faults, outputs of vswhere and vcvarsall, SDK trees in every listing order",
  "These tests are skipped off Windows, and there see one machine; faults, listing orders, versions and hosts combine.",
  ["edk2toollib/windows/locate_tools.py"],
  [("vswhere", "locate_tools.py GetVsWherePath, _DownloadVsWhere"), ("products", "locate_tools.py FindAllWithVsWhere, FindWithVsWhere"), ("variables", "locate_tools.py QueryVcVariables"), ("SDK tools", "locate_tools.py FindToolInWinSdk, _CompareWindowVersions, _CheckArchOfMatch")])

P("C31", "UEFI variables are read, listed, set and deleted exactly",
  "Over every history on Linux (efivarfs), GetUefiVar gives (0, exactly the data) of the variable with that name (NULs at its end dropped) and GUID, logging attributes other than 7, or (0xCB, None) if absent. GetUefiAllVarNames packs each variable once: size, GUID bytes, UTF-16 name (dashes and all), and "
  "raises on a file that is none. SetUefiVar with data makes one single write of the attributes (7 unless given, 32 bits) and all data; with None it deletes, returning nonzero if the variable existed, else 0. The immutable flag is cleared first, for exactly this path whatever characters are in the "
  "name. Bad attributes or data, and a protected variable whose flag stays, raise and change nothing; no other variable is ever touched. On Windows the firmware call that belongs to the request (with attributes: the Ex one) is made with exactly this name, {GUID} and data, and its answer, data, packed names or error are handed on; a refusal raises nothing and returns 0 from SetUefiVar.",
  ["histories", "inputs", "faults"], "all histories of get, list, set and delete over all names, GUIDs, attributes and data, protected and not",
  "No test exercises this module; names with shell characters, protection, big data and histories combine.",
  ["edk2toollib/os/uefivariablesupport.py"],
  [("read", "uefivariablesupport.py UefiVariable.GetUefiVar"), ("list", "uefivariablesupport.py UefiVariable.GetUefiAllVarNames"), ("set and delete", "uefivariablesupport.py UefiVariable.SetUefiVar")])

P("C32", "Printed descriptions state exactly what was decoded",
  "Printing a decoded structure (signature entry, list, database, time, certificate, authenticated variable, FMP payload, authentication, image, capsule, UEFI capsule, firmware policy, variable policy, BMP) states every field once, in the order of the layout, with the value its bytes hold: sizes, GUIDs, "
  "numbers, names, every data byte under its offset, flags exactly when set, nested structures in place; a device policy's bits are named. Compact and full text, old and new spellings, a given stream and standard output state the same, and nothing goes to the console when a stream is given. "
  "Every structure that decodes prints; printing changes nothing and can be repeated.",
  ["inputs"], "all structures of all kinds that decode, nested and of all sizes, in every way of printing",
  "Tests call the print functions without looking at the text; a field taken from elsewhere, a byte lost at a line end or a type that raises shows only in the text.",
  ["edk2toollib/uefi/authenticated_variables_structure_support.py", "edk2toollib/uefi/wincert.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py",
   "edk2toollib/uefi/edk2/fmp_payload_header.py", "edk2toollib/windows/policy/firmware_policy.py", "edk2toollib/uefi/edk2/variable_policy.py", "edk2toollib/uefi/bmp_object.py"],
  [("signatures and times", "authenticated_variables_structure_support.py print"), ("certificates", "wincert.py print, dump_info"), ("capsules", "DumpInfo of the capsule classes"), ("policies", "firmware_policy.py Print, variable_policy.py __str__"), ("images", "bmp_object.py Print")])
