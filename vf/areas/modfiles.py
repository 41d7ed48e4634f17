"""C07: what module (INF) and package (DEC) files declare, and the GUIDs collected from them."""

import os
import random

from vf import spell

TRACE = ("ModuleFilesTrace", "ModuleFilesTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True
REQUIRED_CLASSES = {"*": ["inf", "dec", "macro", "multi-arch", "structured", "quoted", "class"]}
NAMES = {"defines": "Defines", "packages": "Packages", "libraryclasses": "LibraryClasses", "protocols": "Protocols", "ppis": "Ppis", "guids": "Guids",
         "pcds": "Pcd", "sources": "Sources", "binaries": "Binaries", "includes": "Includes"}


def models(tier, pid):
    n = 4 if tier == "quick" else 5
    return [{"module": "ModuleFilesMC", "cfg": "ModuleFilesMC.cfg", "consts": {"MaxLen": n, "FT": '"inf"'}, "min_behaviours": 300,
             "limit": 2500 if tier == "quick" else None, "what": f"every module file of {n} lines over 10 line shapes"},
            {"module": "ModuleFilesMC", "cfg": "ModuleFilesMC.cfg", "consts": {"MaxLen": n + 1, "FT": '"dec"'}, "min_behaviours": 300,
             "limit": 2500 if tier == "quick" else None, "what": f"every package file of {n + 1} lines over 13 line shapes"}]


def from_model(doc, m, pid):
    ft = m["consts"]["FT"].strip('"')
    return [{"ft": ft, "lines": doc, "asks": [["X64"], ["ia32"], ["X64", "IA32"], []], "seed": len(doc)}]


G = ["00000001-0002-0003-0405-060708090a0b", "d3b36f2c-d551-11d4-9a46-0090273fc14d", "0a66cd45-0078-0753-0e93-0d58b2af09c4", "ffffffff-ffff-ffff-ffff-ffffffffffff"]


def gen(rng, tier, pid):
    return [(inf_case if rng.random() < 0.5 else dec_case)(rng) for _ in range(600 if tier == "quick" else 15000)]


def archs(r, kd):
    if kd in ("defines",):
        return [""]
    return r.choice([[""], [""], ["X64"], ["common"], ["IA32"], ["x64", "AARCH64"], ["IA32", "X64"], ["", "X64"]])


def stray(r):
    """Lines before the first section belong to none."""
    return [r.choice([{"k": "def", "n": "PACKAGE_NAME", "v": "Stray"}, {"k": "def", "n": "BASE_NAME", "v": "Stray"}, {"k": "entry", "m": "", "v": "stray/a.c"}]) for _ in range(r.choice([0, 0, 0, 0, 1, 2]))]


def inf_case(r):
    lines = []
    macros = r.choice([["DIR0", "DIR1"], ["DIR0", "DIR1"], ["MY_DEFINE", "DEFINE_DIR"], ["DIR0", "REDEFINED"]])
    free = list(macros)
    kinds = ["packages", "libraryclasses", "libraryclasses", "protocols", "ppis", "guids", "pcds", "sources", "sources", "binaries", "other", "defines"]
    lines += stray(r)
    if r.random() < 0.8:
        lines.append({"k": "section", "kind": "defines", "archs": [""]})
    ent = {"packages": ["MdePkg/MdePkg.dec", "P/P.dec"], "libraryclasses": ["LibA", "DebugLib", "BaseLib"], "protocols": ["gEfiAProtocolGuid"],
           "ppis": ["gPpiA", "gPpiB"], "guids": ["gGuidA"], "pcds": ["gTs.PcdA", "gTs.PcdB"], "sources": ["a.c", "X64/b.nasm", "../c.c", "a.h", "DEFINES.c", "DEFINE_A/b.h", "Resources.c", "Sources.d/x.c"],
           "binaries": ["PE32|x.efi", "ACPI|t.aml"], "other": ["junk", "a = b = c", "TRUE"]}
    cur = "defines" if lines and lines[-1]["k"] == "section" else "none"
    for _ in range(r.randint(2, 14)):
        x = r.random()
        if x < 0.3 or cur == "none":
            cur = r.choice(kinds)
            lines.append({"k": "section", "kind": cur, "archs": archs(r, cur)})
        elif x < 0.36 and free:
            lines.append({"k": "macro", "n": free.pop(0), "v": r.choice(["Sub/Dir", "X", "X", "DEFINES/x", "Inc/MY_DEFINE", "a=b/c"])})
        elif cur == "defines":
            if r.random() < 0.25:
                lines.append({"k": "class", "c": r.choice(["LibA", "LibB"]),
                              "phases": r.choice([[], ["BASE"], ["base"], ["PEIM"], ["SEC", "DXE_CORE", "UEFI_DRIVER"]])})
            else:
                lines.append({"k": "def", "n": r.choice(["BASE_NAME", "FILE_GUID", "MODULE_TYPE", "VERSION_STRING"]),
                              "v": r.choice(["Name", G[1], "0x0001001B", "1.0", "a = b", "x==y", "DEFINE_A"])})
        else:
            v = r.choice(ent[cur])
            m = r.choice(macros + ["NODEF"]) if cur in ("sources", "packages") and r.random() < 0.2 else ""
            # a macro is used after it is defined, or never defined
            if m and m in free:
                m = ""
            lines.append({"k": "entry", "m": m, "v": ("/" if m else "") + (v.split("|")[0] if cur != "binaries" else v.split("|")[0])})
    return {"ft": "inf", "lines": lines, "asks": [["X64"], ["IA32"], ["aarch64"], ["X64", "IA32"], []], "seed": r.randrange(10**6)}


def dec_case(r):
    lines = stray(r)
    cur = "none"
    inpcd = False
    for _ in range(r.randint(3, 16)):
        x = r.random()
        if inpcd:
            if r.random() < 0.5:
                lines.append({"k": "inner", "v": r.choice(["<HeaderFiles>", "Include/x.h", "<Packages>", "P/P.dec"])})
                continue
            lines.append({"k": "close"})
            inpcd = False
            continue
        if x < 0.3 or cur == "none":
            cur = r.choice(["defines", "includes", "libraryclasses", "guids", "guids", "protocols", "ppis", "pcds", "pcds", "other"])
            lines.append({"k": "section", "kind": cur, "archs": archs(r, cur)})
        elif cur == "defines":
            lines.append({"k": "def", "n": r.choice(["PACKAGE_NAME", "PACKAGE_GUID", "PACKAGE_VERSION"]), "v": r.choice(["PkgA", "PkgB", G[1], "0.1", "a=b", "=0.1=", "x = y"])})
        elif cur == "includes":
            lines.append({"k": "entry", "m": "", "v": r.choice(["Include", "Test/Mock/Include", "Include/Industry"])})
        elif cur == "libraryclasses":
            lines.append({"k": "lib", "n": r.choice(["LibA", "LibB"]), "p": r.choice(["Include/LibA.h", "Include/Library/B.h"])})
        elif cur in ("guids", "protocols", "ppis"):
            lines.append({"k": "guid", "n": r.choice(["gA", "gEfiBGuid", "gCProtocol"]), "g": r.choice(G)})
        elif cur == "pcds":
            y = r.random()
            d = r.choice(["TRUE", "0x10", '"a|b"', 'L"x # y"', "'c|d'", "{0x1, 0x2}", '""', "0", '"it\'s"', '"a|b\'c"', 'L"[Guids]"', '"{"', '"}"', '"a = b.c"'])
            if y < 0.2:
                lines.append({"k": "field", "ts": "gTs", "n": r.choice(["PcdS.Field", "PcdS.Field", "PcdS.Arr[2].F", "PcdS.In.Field"]), "d": d})
            else:
                lines.append({"k": "pcd", "ts": r.choice(["gTs", "gOtherTokenSpaceGuid"]), "n": r.choice(["PcdA", "PcdB"]), "d": d,
                              "t": r.choice(["UINT8", "VOID*", "BOOLEAN"]), "id": r.choice(["0x00000001", "0x7"]), "open": y < 0.4})
                inpcd = y < 0.4
        else:
            lines.append({"k": "entry", "m": "", "v": "junk|x"})
    if inpcd:
        lines.append({"k": "close"})
    return {"ft": "dec", "lines": lines, "asks": [], "seed": r.randrange(10**6)}


def cform(g):
    h = g.replace("-", "")
    b = [h[0:8], h[8:12], h[12:16]] + [h[i:i + 2] for i in range(16, 32, 2)]
    return "{0x%s, 0x%s, 0x%s, {%s}}" % (b[0], b[1], b[2], ", ".join("0x" + x for x in b[3:]))


def render(case):
    r = random.Random(case["seed"])
    out = []
    kind = "none"
    n = 0
    for ln in case["lines"]:
        k = ln["k"]
        n += 1
        if k == "section":
            kind = ln["kind"]
            if kind == "other":
                s = r.choice(["[BuildOptions]", "[Depex]", '[UserExtensions.TianoCore."a.uni"]'])
            else:
                nm = NAMES[kind]
                if kind == "pcds":
                    nm = r.choice(["Pcd", "FixedPcd", "FeaturePcd", "PatchPcd"] if case["ft"] == "inf" else ["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamic, PcdsDynamicEx"])
                nm = r.choice([nm, nm, nm.upper(), nm.lower()])
                s = r.choice(["[", "[", "[", "[ "]) + r.choice([", ", ",", " , "]).join(nm + ("." + a if a else "") for a in ln["archs"]) + r.choice(["]", "]", "]", " ]"])
        elif k == "def":
            s = ln["n"] + r.choice(["=", " = ", "   = "]) + ln["v"]
        elif k == "class":
            s = "LIBRARY_CLASS = " + ln["c"] + (r.choice(["|", " | "]) + " ".join(ln["phases"]) if ln["phases"] else r.choice(["", "|"]))
        elif k == "macro":
            s = "DEFINE " + ln["n"] + r.choice([" = ", "="]) + ln["v"]
        elif k == "entry":
            s = ("$(" + ln["m"] + ")" if ln["m"] else "") + ln["v"]
            if case["ft"] == "inf" and kind in ("sources", "libraryclasses", "pcds", "binaries", "guids"):
                s += r.choice(["", "", "", "|MSFT", " | GCC", "|gTs.PcdFlag"])
        elif k == "lib":
            s = ln["n"] + r.choice(["|", " | "]) + ln["p"]
        elif k == "guid":
            g = r.choice([ln["g"], ln["g"].upper(), cform(ln["g"]), cform(ln["g"].upper()), "{" + ln["g"] + "}"])
            s = ln["n"] + r.choice([" = ", "="]) + g
        elif k == "pcd":
            s = ln["ts"] + "." + r.choice(["|", " | "]).join([ln["n"], ln["d"], ln["t"], ln["id"]]) + (r.choice([" {", "{", "|{"]) if ln["open"] else "")
        elif k == "field":
            s = ln["ts"] + "." + r.choice(["|", " | "]).join([ln["n"], ln["d"]])
        elif k == "inner":
            s = "  " + ln["v"]
        else:
            s = "}"
        s = r.choice(["", "  ", "\t"]) + s + r.choice(["", "", "  ", "  # [Sources] x | y = z", "## note"])
        out.append(s)
        if r.random() < 0.1:
            out.append(r.choice(["", "# [Guids]", "   ", "  ## = |"]))
    return out


def run(case, d):
    from edk2toollib.uefi.edk2.parsers import inf_parser
    from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser
    from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    text = "\n".join(render(case)) + "\n"
    ev = {"k": "start", "ft": case["ft"], "lines": case["lines"], "asks": case["asks"]}
    # the file asked for by its whole path, or by its path in the workspace or in a folder of packages (where others of that name lie beside)
    how = ["abs", "abs", "ws", "pkg"][case["seed"] // 2 % 4]
    path = d + {"abs": "/f.", "ws": "/ws/P/f.", "pkg": "/pk2/P/f."}[how] + case["ft"]
    for x in ("/ws/P", "/pk1/P/P", "/pk2/P"):
        os.makedirs(d + x)
    with open(d + "/pk1/P/P/f." + case["ft"], "w") as f:
        f.write("[Defines]\n  BASE_NAME = Decoy\n  PACKAGE_NAME = Decoy\n")
    if how == "ws":
        with open(d + "/pk2/P/f." + case["ft"], "w") as f:
            f.write("[Defines]\n  BASE_NAME = Decoy\n  PACKAGE_NAME = Decoy\n")
    with open(path, "w", newline=spell.ends(text)) as f:
        f.write(text)
    where = path if how == "abs" else "P/f." + case["ft"]
    edk2path = Edk2Path(d + "/ws", [d + "/pk1", d + "/pk2"])
    pairs = lambda dct: [{"key": k, "v": v} for k, v in dct.items() if k != "LIBRARY_CLASS"]
    try:
        if case["ft"] == "inf":
            q = InfParser()
            q.SetEdk2Path(edk2path)
            q.ParseFile(where)
            ph = list(q.SupportedPhases)
            o = {"st": "ok", "dict": pairs(q.Dict), "class": q.LibraryClass, "phases": ["all"] if ph == list(inf_parser.AllPhases) else ph,
                 "lists": {"packages": q.PackagesUsed, "libraryclasses": q.LibrariesUsed, "protocols": q.ProtocolsUsed, "ppis": q.PpisUsed,
                           "guids": q.GuidsUsed, "pcds": q.PcdsUsed, "sources": q.Sources, "binaries": q.Binaries},
                 "libs": [q.get_libraries(a) for a in case["asks"]], "srcs": [q.get_sources(a) for a in case["asks"]]}
        else:
            q = DecParser()
            q.SetEdk2Path(edk2path)
            if case["seed"] % 2:
                q.ParseFile(where)
            else:
                with open(path) as f:
                    q.ParseStream(f)
            gl = lambda x: [[e.name, str(e.guid), e.package_name or ""] for e in x]
            o = {"st": "ok", "dict": pairs(q.Dict),
                 "lists": {"libraryclasses": [[e.name, e.path, e.package_name or ""] for e in q.LibraryClasses], "protocols": gl(q.Protocols), "ppis": gl(q.PPIs),
                           "guids": gl(q.Guids), "includes": q.IncludePaths,
                           "pcds": [[e.token_space_name, e.name, e.default_value, e.type, e.id, e.package_name or ""] for e in q.Pcds]}}
        if not q.Parsed:
            o["st"] = "not parsed"
        ev["obs"] = o
    except Exception as e:
        ev["obs"] = {"st": "raise", "what": repr(e)[:200]}
    return [ev]


def classify(case, events):
    t = {case["ft"]}
    for ln in case["lines"]:
        if ln["k"] == "section" and len(ln["archs"]) > 1:
            t.add("multi-arch")
        if ln["k"] == "entry" and ln["m"]:
            t.add("macro")
        if ln["k"] == "pcd" and ln["open"]:
            t.add("structured")
        if ln["k"] in ("pcd", "field") and ln["d"][:1] in "\"'L":
            t.add("quoted")
        if ln["k"] == "class":
            t.add("class")
    return t
