"""How each property is decided (text of DESIGN.md section 3)."""
HOW = {
"C01": """`Preproc.tla` is the line machine: a conditional stack of [active, taken, else seen], the definition environment, the include stack.  `PreprocMC` enumerates every
sequence of 6 (thorough: 7) directives over !if true/false/undefined, !ifdef, !ifndef, !elseif, !else, !endif and text up to depth 3; `MachineIsDeclarative` proves the stack machine equal to the
declarative reading (a position is active iff in every open chain the current branch is the first true one), `DepthAgrees` its nesting.  Behaviours are written as DSC and FDF files and parsed; observed is
the list of surviving lines, or the refusal.  Random programs go to 40 lines and depth 6.""",
"C02": """`Expr.tla` gives the grammar as a recursive descent evaluator with explicit `err` and `any` results.  `ExprMC` enumerates every token string up to a length over three alphabets (boolean, comparison,
ordering) and checks that the evaluator and an independent precedence climbing definition agree; every string is evaluated by the code in random spelling (words or symbols, 0x or decimal, casing, blanks, quotes).
Random expressions have up to 25 tokens.  Oracle: `Eval`.""",
"C03": """The definition environment of `Preproc.tla` with `Expand` (recursive, right-to-left scopes: file over caller).  `MacroMC` enumerates every program of definitions, redefinitions, sections and uses of two macros
and two PCDs.  Histories with redefinitions in inactive branches, in included files, in FDF sections, PCD values used in conditions; observed are the lines after replacement and the branch taken.""",
"C04": """`IncludeMC` enumerates every placement of two included files over the including directory, workspace and a package path and every position of the include among conditionals, with the invariant
that the include stack machine emits exactly the textual inlining (`Inlined`).  Traces: parsed lines, plus the reported source files.  Random trees go to depth 4 with definitions and conditionals that
cross file borders.""",
"C05": """`DscContent.tla` is a line machine (section scopes, open braces, subsection); `DscContentMC` enumerates every description of 5 (6) lines over 12 line shapes with invariants about completeness per scope, locality of
overrides, one component per architecture.  Observed: Components, LibraryClass scopes, overrides, PCDs of the parser; order of instances matters.""",
"C06": """`InstancedInf.tla` defines the scope search and the transitive closure as a least fixed point.  `InstancedInfMC` runs the closure as a work list in every visiting order over every placement of a class in the four
scopes and checks that the result does not depend on the order and obeys the scope order.  Traces: the database rows (instanced_inf, junctions, instanced_fv) of the real `Edk2DB.parse` of a generated workspace with up to 14
modules, cycles, overrides, NULL libraries, several architectures.  Where two admissible classes name one instance, every choice is allowed.""",
"C07": """`ModuleFiles.tla`: line machine for INF and DEC; `ModuleFilesMC` enumerates every module file of 4 (5) lines and package file of 5 (6) lines; invariants: counts add up, more architectures never report less.  Observed: all public
attributes of both parsers and the scoped getters for several architecture sets.""",
"C08": """`FdfContent.tla`: section and block nesting; every description of 5 (6) lines over 14 shapes (FILE, SECTION, GUIDED, braces, INF, DEFINE, headers with several names).  Observed: FVs, FDs, Dict of the parser.""",
"C09": """`Comment.tla`: scanner automaton, compared in the model with a declarative reading of quoting on every line of 5 (6) characters over 7 characters (`PrefixOf`, `FirstHash`, `Idempotent`); all of these and random longer lines
go through `StripComment` and a target.txt file.""",
"C10": """`Guid.tla`: both spellings as recognizers and as writers; `GuidMC` spells values field by field with every choice of case, prefix, leading zero and spacing; random values include the all zero and all one ones, and near misses with
characters removed, inserted, appended.  Observed: all seven conversions.""",
"C11": """`Paths.tla`: paths as sequences of names; `PathsMC` enumerates every placement of workspace, package paths (nested, equal, missing, overlapping) and files in a small tree, checks round trip and innermost choice, and asks every path in
both directions against a real directory tree.""",
"C12": """Same model as C11 with DEC/INF files: nearest enclosing directory with a DEC / INF below the root, including vanished paths, nested roots and INF files themselves; `Nearest`, `PkgHasDec`; a search that does not end is caught by the watchdog.""",
"C13": """`Gitignore.tla` defines matching of a single name (`*`, `?`, classes), of a path (anchoring, `**`), of a list of lines (last match, negation, folders) and the walk; `GitignoreMC` types every line of 3 (4) characters.
Traces: the real `guidlist_from_filesystem` over generated trees, and the matcher alone.""",
"C14": """`EdkDb.tla`: the database as sets of rows; `EdkDbMC` enumerates every history of 5 (6) edits, registrations, parses, failing tables and reopenings (24 000 states) with invariants unique paths, nothing lost, one environment per parse, idempotence.
Replayed against real git workspaces (submodules, several packages) and a database file; crash points are tables that raise after adding rows with and without flush.""",
"C15": """`SigList.tla`: lists as [type, declared size, header size, entry size, entries]; `SigListMC` enumerates every order of 6 (7) header, entry, merge, sort steps over two lists (30 000 states) with size and loss invariants and
`RoundTrip` through the byte layout.  Traces: objects after each step including bytes, decode of damaged bytes, canonical form and duplicates and that the original is unchanged.""",
"C16": """`AuthVar.tla`: byte layout of EFI_TIME, WIN_CERTIFICATE, EFI_VARIABLE_AUTHENTICATION_2, the digest input; `AuthVarMC` cuts and damages variables at every header byte.  Real signing with a generated key; the signature is verified with an independent
verifier in the harness (`cryptography`) over the bytes the specification names.""",
"C17": """`VarStore.tla`: an image is bytes around a store; `VarStoreMC` enumerates every history of 5 (6) additions, changes, removals, writes and reopenings with room for two or three variables (`ReadBack`, `Outside`, `Opens`).  Whole images are compared byte by byte.""",
"C18": """`Capsule.tla`: five nested structures each with encoder and decoder; `CapsuleMC` enumerates nestings, every cut and every damaged byte (`RoundTrip`, `Stable`, `Cuts`).  Objects are reused for several decodes in the histories.""",
"C19": """`Policy.tla`: rules with an offset table; `PolicyMC`: every short order of additions, every cut and damaged byte; reading follows offsets so shared and permuted tables are generated too.""",
"C20": """`Tpm.tla`: digests as uninterpreted-but-injective terms in the model (`Injective`), computed by the harness for comparison over the term the specification writes; command streams; the simulator exchange as a small protocol whose answers
are split in every way (schedules); code tables written out from the TPM 2.0 documents.""",
"C21": """`Acpi.tla`: IVRS reader, writer and reports, DMAR reader; `AcpiMC` enumerates tables of up to two structures with every length or type byte changed.  The XML is parsed again and compared as a tree.""",
"C22": """`Process.tla`/`ProcessMC.tla`: command, pipe with a bounded buffer, reader thread and caller as processes; TLC explores every interleaving (`Ends` under fairness: the call returns; `InOrder`, `AsSpecified`: what is delivered is the output in order up to what cannot be decoded; `Stuck`:
no deadlock) and every configuration is replayed with a real child whose output fills the pipe, is undecodable or ends early.  Where scripts are found, RemoveTree's retries (with stand-ins for `os.remove`/`os.unlink` that fail as the history says) and the
arguments signtool receives are operators of the same module checked on traces.""",
"C23": """`Util.tla`: the text of a dump, an array, the order of versions, the most specific class, the host; `UtilMC` enumerates pairs of versions (`Antisym`, `Transitive`, `ZeroTail`: a total order), all small class hierarchies and data of every length up to the bound with every option.""",
"C24": """`Log.tla`: handlers as texts with positions, formatting, stripping of control sequences as a scanner, reports as records; `LogMC` enumerates every short history of records, seeks and reads (`Kept`, `Same`, `Clear`), of reports (`Counts`, `Once`) and
every interleaving of threads that take the handler's lock (`Whole`, `Merged`).  Reports are parsed back as XML; threads log into a stream that yields after every write.  A Windows console is a state [fore, back, light bits] driven by the colour codes of the text (`Paint`); the real module is loaded against stand-ins for the calls of kernel32 and every character is recorded with the attribute it was written with (`Shown`: one attribute per character, what was bright stays so; `Settled`: after each formatted record the colours are the console's own again).""",
"C25": """`Firmware.tla`: every structure as a sequence of fields of given widths, variables as fields, UTF-16 code units and data, images as header, colour map, padding and pixels, attribute and status tables; `FirmwareMC` enumerates short histories of
loads (good, misplaced, wrongly signed, short) and changes for every structure (`PlainRound`), variables of every small shape (`VarRound`, `VarAligned`), images around each limit (`BmpRound`, `NewRound`), every attribute set (`AttrRound`) and every status
code.  Fields are compared as raw bytes, so 64-bit and signed values are exact.""",
"C26": """`DevicePath.tla`: a walk over the bytes (header, length, data), a table of kinds and for each kind its fields as places and widths; `DevicePathMC` enumerates every short path over nodes of every kind with right and wrong lengths.  The JSON
the nodes print is parsed and compared field by field (numbers as eight bytes, names as code units).  `StaticIpAddress` of IPv4 nodes is read wrongly for byte 0; the tests pin that, so it is a recorded finding.""",
"C27": """`DscObject.tla`: items and sections as tuples, the key things are known by, restricted sets and maps as functions, the file as sections of blocks; `DscObjectMC` enumerates every short history of additions and assignments on each part (`Unique`, `Sections`,
`Kinds`, `Latest`, `LatestIn`: what was added stays until the same thing is added again; `Written`, `OneHeader`).  Traces: acceptance, contents, equality and hashes of items, sections and objects, and the translated file read back into sections and lines.""",
"C28": """`InfFile.tla`: a file as a set of sections (header, lines), acceptance of every kind of value, numbers as hex digits beyond TLC's integers, dates; `InfFileMC` enumerates every short history of firmware, source files and settings, good and bad, and checks that
the file the specification writes holds together (`Closed`: what is referred to is there; `All`: every firmware once; `Numbers`, `Dates` against arithmetic).  The files of the code are read into sections and compared; inf2cat is a script that records its arguments and folder.""",
"C29": """`BuildReport.tla`: regions, a module summary as a line machine (section, token space, open value), flash as volumes and offsets, override lines as fields; `BuildReportMC` enumerates every short PCD section, library section, flash region and order of sections made
of the block shapes BaseTools writes and checks that the machine finds what the blocks say (`Pcds`, `Libs`, `Flashed`, `Apart`), and override lines right and wrong in every part.  Random reports have several modules, regions and roots; paths are under the directory of the case.""",
"C30": """`LocateTools.tla`: the machine as data (host, PATH, what vswhere, vcvarsall and the network answer, the trees that hold a tool) and the functions as operators on it; the state is whether the library's own vswhere is there. `LocateToolsMC` searches trees in every listing order keeping the best so far (invariant `Found`: the result does not depend on the order), explores histories of vswhere under every download fault (`Kept`: only a good download is ever kept), and every end of a query (`Ends`). Each behaviour and random worlds run against the real module with the host, the programs, the network and the listing order replaced by stand-ins; what was run, with which options, is compared too. The separator is that of Windows.""",
"C31": """`EfiVars.tla`: efivarfs as a state machine (a set of variables with attributes, data and immutable flag; what one write does: set, append, delete, refuse) and the library's calls on top of it. `EfiVarsMC` explores every short history (invariants: what was set last is read back, a protected variable survives when the flag cannot be cleared, one value per variable); each is replayed with reads and listings in between, together with random histories over odd names, against the real module on a stand-in efivarfs in the scratch directory that follows the same rules, counts every raw write as one SetVariable and never runs a command: the shell line is taken apart as a shell would. The packed list of names is decoded by the specification.  A quarter of the histories (and half of the model's) run on a Windows host: the module is loaded against stand-ins for kernel32, ntdll and the privilege calls that keep the same set of variables, need the privilege, and answer with the error codes Windows documents.""",
"C32": """`Describe.tla`: what the printed description of a structure states, as an ordered sequence of facts (label and value), derived from its bytes through the layouts of `AuthVar.tla`, `Capsule.tla`, `Policy.tla` and `Firmware.tla`. `DescribeMC` takes one or more structures of every kind, every cut and every damaged byte (invariants: whole structures are described, the bytes of signature lists, certificates, headers and times come back from what is stated, the days of the week follow each other). The harness decodes the bytes with the real classes, prints them in every way (compact or not, former names, a stream or standard output, which is captured at the file descriptor) and reads the text back line by line into facts; an unknown or additional line, or one at another place, becomes a fact the specification does not have. `DescribeTrace` compares. The text of PKCS #7 certificates is pyasn1's own and is only located in the output. Quick about 13 s, thorough about 2 minutes.""",
}
FALSE = []
# planted bugs that the checks do not catch
OPEN = [
    ("C13-deep", "a file eight folders below its package: the trees of that area are at most a few folders deep"),
    ("C18-large", "a capsule payload of more than 64 KiB"),
    ("C24-long", "a failure message of more than 8 KiB"),
    ("C24-many", "a suite of more than a hundred tests"),
    ("C28-many", "an INF file of more than ten firmware files"),
]

MISSED = [
 ("C03-pcd-latest", "preproc histories with several assignments of a PCD before its use"),
 ("C04-reported", "includes after the last section and includes of already included files"),
 ("C08-rule-file", "rule, capsule and payload sections named like volumes"),
 ("C10-uuid-zero", "special values (all zero, all one, one bit) among the random GUIDs"),
 ("C12-dir-inf", "directories named like INF files next to the asked path"),
 ("C14-build, C14-rollback", "failing tables that did not flush before raising; directories whose name begins with Build"),
 ("C29-words-once, C29-wrapped-inf, C29-override-date", "protected words twice in a line, INF paths with dots wrapped anywhere, repeated override lines"),
 ("C30-version-text", "SDK versions with numbers of different lengths"),
 ("C02-wide", "numbers wider than 32 and 64 bits (the specification counts in digits to the base 10000, as TLC's own integers end at 2^31)"),
 ("C03-many, C04-deep, C15-many, C17-many, C19-many, C21-many, C22-long-line, C23-far, C26-long", "large inputs in these areas: lines with a hundred macros, includes 33 deep, lists, stores, policies, tables and paths of many entries, lines of output beyond 64 KiB, dumps beyond 4 KiB"),
 ("C01-undone", "section headers inside of four to twelve nested conditionals"),
 ("C12-remembered, C11-late-cwd", "the tree edited between two questions; the process elsewhere after the construction"),
 ("C13-line-cache", "files of one directory written anew under the same name (all cases of an area share a directory)"),
 ("C10-blank-brace", "DSC lines with blanks and comments around braces"),
 ("C04-find-order, C04-resume", "descriptions outside of the workspace, packages anywhere, included files of one name in nested folders"),
 ("C06-kept-scope", "components sections with a module type in their header"),
 ("C12-file-parent", "paths below what is a file now"),
 ("C31-win-value", "data with zero bytes on a Windows host (stand-in for the firmware calls)"),
 ("C19-rule-eq", "rules that differ in one field or letter case only"),
]
