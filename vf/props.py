"""Which areas decide which property."""

PROPS = {}


def p(pid, areas, *assumptions):
    PROPS[pid] = {"areas": areas if isinstance(areas, list) else [areas], "assumptions": list(assumptions)}


p("C01", "preproc", "conditional directives one per line, at most one !else per chain")
p("C02", "preproc", "ordering operators compare literal numbers; AND/OR/NOT operands are truth values (anything else is unpromised)")
p("C03", "preproc", "conditions on values that still hold references to undefined macros are not decided")
p("C04", "preproc", "no recursive includes")
p("C05", "dsc_content", "component braces open on the component's line; the architectures of the platform are declared")
p("C06", "instanced", "a module is listed at most once per architecture; the files named exist")
p("C07", "modfiles", "a macro is defined once and before its uses")
p("C08", "fdf_content", "file names are unique in a volume; a header naming several volumes holds no FILE blocks")
p("C09", "comments")
p("C10", "guids")
p("C11", "paths", "no symbolic links and no .. in the paths asked for; paths are compared case sensitively (Linux)")
p("C12", "paths", "no symbolic links and no .. in the paths asked for; no directories named like .inf or .dec files")
p("C13", "gitignore", "no doubled slashes and no ** next to other characters in patterns; a pattern ending in / that also names a file is not decided for that file")
p("C14", "edkdb", "INF files are added but not changed or removed between parses; package names are unique; no two files with one package path relative name")
p("C15", "siglist", "certificates that are merged into the canonical form come one per list, as the class documents; entries are SHA256 digests or X509 certificates")
p("C16", "authvar", "the fields of EFI_TIME beyond the second are zero where a round trip is demanded; a payload is signed once and not replaced between signing and finalizing")
p("C17", "varstore", "the sizes stated by variables of an image lie inside the store; names end with NUL and do not begin with a byte order mark")
p("C18", "capsule", "items of an FMP capsule are not empty and lie in order behind the list of offsets; flags beyond the documented ones are zero")
p("C19", "policy", "names of variable policies do not begin with NUL or a byte order mark; policies with reserved arrays or unknown value types are read but not written")
p("C20", "tpm", "localities are listed at most once each or repeated without effect; a simulator that stops in the middle of an answer closes the connection")
p("C21", "acpi", "identifiers of ACPI devices are of the three documented kinds; reports are read back for tables whose texts are letters, digits and spaces")
p("C22", "process", "commands and scripts are named without quotes or dollar signs inside their names; parameters are quoted by the caller; a script found only in the working directory asked for is not decided")
p("C23", "util", "versions are numbers separated by dots; the dump of no data is not decided; classes located are those defined in the module")
p("C24", "log", "what stands in a report for characters XML cannot carry, and white space inside its attributes, are not decided; filters do not replace records; the console of Windows is a stand-in, colour codes for all attributes at once (0, 1) are not decided there")
p("C25", "firmware", "names that begin with a byte order mark or do not end with a NUL, variables cut short, and BMP images with headers longer than 40 bytes are not decided (what is read of them is written again)")
p("C26", "devpath", "nodes whose data is longer or shorter than their type needs, nodes cut short and broken UTF-16 are not decided; fields are those the library documents (the NVMe node follows its documented layout)")
p("C27", "dscobject", "the order of items in a set, of macros and their uses, the equality of objects whose sections were made in another order, and HII attributes without a default value are not decided")
p("C28", "inffile", "empty names, characters beyond ASCII in names, quotes and line breaks in strings, versions with empty parts, and files left behind by firmware that was replaced or refused are not decided")
p("C29", "report", "reports are laid out as the BuildReport.py of EDK2 BaseTools writes them; each INF path names at most one module of a report", "override paths without .. parts")
p("C30", "locate", "host and programs are stand-ins (no Windows here); version and architecture directories are whole components of a path; keys of the environment differ in more than case")
p("C31", "efivars", "efivarfs and the calls of Windows are stand-ins that behave as documented; files cut short and attributes efivarfs does not know, and on Windows bad data or attributes, are not decided", "Windows is a host made of stand-ins")
p("C32", "describe", "printed strings have no line breaks; certificates that pyasn1 cannot decode and structures left undecided by C15, C16, C18, C19, C21 are not decided", "the text of a PKCS #7 certificate is pyasn1's")
