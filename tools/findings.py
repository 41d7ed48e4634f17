"""Rewrites known_findings.json: FINDINGS (recorded) and the fix: commits of /repo (repaired). Run by hand."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    {"property": "C13", "area": "gitignore", "case": "folder re-included",
     "what": "ignore lines 'a/', '!a/': files below the re-included folder a stay ignored (a pattern for folders also matches each path below the folder)"},
    {"property": "C13", "area": "gitignore", "case": "folder pattern hits file",
     "what": "ignore line 'a.inf/': a file (not folder) of that name is ignored"},
    {"property": "C26", "area": "devpath", "case": "IPv4 address that is not static",
     "what": "IPv4 node with StaticIpAddress byte 0: shown as StaticIpAddress true (the byte is compared as bytes with a string)"},
]
# start of the commit's subject -> property
FIXED = {
    "fix: do not take the !else branch": "C01", "fix: accept NOT as the right": "C02", "fix: a doubled NOT": "C02",
    "fix: give inverted comparison": "C02", "fix: make FDF defines usable": "C03", "fix: resolve paths after a DSC": "C04",
    "fix: replace PCDs in !elseif": "C03", "fix: replace the reference at hand": "C03", "fix: strip the indentation": "C09", "fix: keep the other instances": "C05",
    "fix: do not report PCDs of inactive": "C05", "fix: match arch specific library": "C06", "fix: link library instances that": "C06",
    "fix: keep fields after |": "C07", "fix: do not report the opening brace": "C07", "fix: report a flash device": "C08",
    "fix: do not accept text after": "C10", "fix: accept the 0X prefix": "C10", "fix: check the registry format": "C10",
    "fix: do not fail on several levels": "C12", "fix: do not search for modules": "C12",
    "fix: accept the gitignore patterns": "C13", "fix: a negated gitignore": "C13", "fix: apply ! patterns": "C13", "fix: ignore trailing spaces": "C13",
    "fix: decode signature lists without": "C15", "fix: take the signature size when": "C15", "fix: compute the canonical signature": "C15",
    "fix: find duplicate certificates": "C15", "fix: refuse x509 signatures": "C15", "fix: replace an earlier payload": "C16",
    "fix: refuse a truncated certificate": "C16", "fix: refuse PKCS1 certificates": "C16",
    "fix: do not read variables past": "C17", "fix: do not write variables past": "C17",
    "fix: refuse capsule and payload": "C18", "fix: keep the extended part": "C18", "fix: forget nested capsule": "C18",
    "fix: recognize signed images": "C18", "fix: do not count the items": "C18",
    "fix: accept policy strings": "C19", "fix: do not add a rule": "C19", "fix: refuse variable policies": "C19", "fix: forget the name": "C19", "fix: read policy structures": "C19",
    "fix: make the TPM simulator": "C20", "fix: wait for all of a TPM": "C20", "fix: state the size of a TPM": "C20",
    "fix: refuse DMAR structures": "C21", "fix: write DMAR and IVRS": "C21", "fix: label select entries": "C21", "fix: dump the memory block": "C21", "fix: forget the previous content when an IVRS": "C21",
    "fix: do not wait forever for a command whose output is not": "C22", "fix: do not wait forever for a command whose output cannot": "C22", "fix: find python scripts": "C22", "fix: quote the pfx": "C22",
    "fix: align the ascii": "C23", "fix: locate the most specific": "C23", "fix: accept outfs": "C23",
    "fix: do not change the mode of what links": "C22", "fix: write well-formed test reports": "C24", "fix: restore a record": "C24",
    "fix: write the padding of BMP": "C25", "fix: create BMP images": "C25", "fix: refuse BMP images": "C25", "fix: forget the previous color map": "C25", "fix: print BMP color maps": "C25",
    "fix: forget the previous type when a variable": "C25", "fix: read the relative offset of FTW": "C25",
    "fix: PCCARD device path": "C26", "fix: device path nodes of an unknown": "C26", "fix: a device path node shorter": "C26",
    "fix: make the sections of a DSC object": "C27", "fix: do not take different DSC sections": "C27", "fix: keep DSC PCD sections": "C27", "fix: give equal library classes": "C27", "fix: replace every SKU": "C27",
    "fix: separate the scope of DSC build": "C27", "fix: write replacing DSC": "C27", "fix: write the libraries and default": "C27",
    "fix: refuse INF names that end": "C28", "fix: refuse INF names, tags": "C28", "fix: accept INF firmware tags": "C28", "fix: refuse negative versions in INF": "C28", "fix: refuse firmware versions": "C28",
    "fix: write ESRT GUIDs without": "C28", "fix: write ESRT GUIDs of several": "C28", "fix: do not write the blanks around a target OS": "C28",
    "fix: keep the token space": "C29", "fix: read build report PCDs with a colon": "C29", "fix: read build report PCDs with a brace": "C29", "fix: find components when": "C29", "fix: parse override lines": "C29", "fix: keep target.txt values": "C09",
    "fix: FindToolInWinSdk": "C30", "fix: a download of vswhere": "C30",
    "fix: quote the path of a UEFI": "C31", "fix: clear the immutable": "C31", "fix: refuse bad attributes and data before": "C31",
    "fix: keep DEFINE and = in FDF": "C03", "fix: keep DEFINE in INF": "C07", "fix: do not drop INF and DEC": "C07",
    "fix: do not attribute packages": "C14", "fix: record license and total": "C14",
    "fix: braces and INF names inside the text": "C05", "fix: blanks inside the section headers of an FDF": "C08", "fix: braces inside the texts of an FDF": "C08",
    "fix: the keywords of an FDF may": "C08", "fix: read the sections of an INF": "C07", "fix: read the sections of a DEC": "C07", "fix: read the sections of a DSC": "C05",
    "fix: tabs separate the parts": "C02", "fix: a quoted text may directly": "C02",
    "fix: blanks inside the section headers of an INF": "C07", "fix: a source file named like": "C07", "fix: brackets inside a DSC line": "C05",
    "fix: print the data of a PKCS1": "C32", "fix: print firmware policies whose": "C32",
    "fix: name override and NULL": "C06", "fix: components below [Components.common": "C06",
    "fix: find the package of a path below": "C12",
    "fix: list the GUIDs of packages in upper": "C13", "fix: read FDF files with a thousand": "C01", "fix: a tab may stand between a component": "C05",
}


def main():
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
    fixed = []
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        pid = [v for k, v in FIXED.items() if s.startswith(k)]
        assert len(pid) == 1, s
        fixed.append(f"fixed: property={pid[0]} {h} {s[5:]}")
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
        f.write("\n")


main()
