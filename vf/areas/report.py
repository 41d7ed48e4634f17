"""C29: build reports and override lines (uefi/edk2/parsers)."""

import os

from vf import spell

TRACE = ("BuildReportTrace", "BuildReportTrace.cfg")
CASE_SECONDS = 30
SAME_DIR = True
REQUIRED_CLASSES = ["modules", "same guid", "flash", "unlisted", "found", "not found", "protected words", "null libraries", "wrapped path", "array", "colon in value", "depex", "overrides", "refused override"]
W = 118
RS, RE, SS, SE, SEP = ">" + "=" * W + "<", "<" + "=" * W + ">", ">" + "-" * W + "<", "<" + "-" * W + ">", "-" * 120
HEAD = ["Platform Summary", "Platform Name:        Plat", "Platform DSC Path:    /R/ws/P/P.dsc", "Architectures:        X64", "Output Path:          /R/ws/Build/P", "Build Environment:    Linux: x", ""]


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "BuildReportMC", "cfg": "BuildReportMC.cfg", "consts": {"MaxBlocks": 3 if q else 4}, "min_behaviours": 3000, "limit": 1500 if q else 15000,
             "what": "every short PCD section, library section and flash region, every order of the sections of a module, override lines right and wrong in every part"}]


def summary(name, guid, inf, typ, body):
    h = ["Module Summary", f"Module Name:          {name}", "Module Arch:          X64", f"Module INF Path:      {inf}", f"File GUID:            {guid}", "Size:                 0x2A00 (10.50K)", "Build Time Stamp:     2024-01-02 03:04:05"]
    if typ:
        h.append(f"Driver Type:          {typ}")
    return [RS, *h, "=" * 120, *body, RE, ""]


def flash(body):
    return [RS, "Firmware Device (FD)", "FD Name:              FLASH", "Base Address:         0xFF800000", "Size:                 0x800000 (8192K)", "=" * 120, SS, "FD Region", "Type:               FV", "Base Address:       0xFF800000", "Size:               0x700000 (7168K)",
            *body, SE, RE, ""]


def from_model(doc, m, pid):
    k, ls = doc["kind"], list(doc["lines"])
    if k == "ovr":
        return [{"op": "ovr", "lines": ["# a", ls[0], ""], "from": "file" if len(ls[0]) % 2 == 0 else "text"}]
    mods = []
    if k == "flash":
        mods = summary("A", "G1", "P/a.inf", "0x7 (DRIVER)", []) + summary("B", "G2", "/R/pp/q/b.inf", "", []) + flash(ls)
    elif k == "sec":
        mods = summary("A", "G1", "P/a.inf", "0x7 (DRIVER)", ls)
    else:
        mods = summary("A", "G1", "P/a.inf", "", [SS, "PCD" if k == "pcd" else "Library", SEP, *ls, SE])
    return [{"op": "report", "lines": HEAD + mods, "words": [], "pps": ["/R/pp"], "find": ["p/A.INF", "Q/b.inf", "no.inf"]}]


VALUES = ["0x1", "0x00001000 (4096)", "TRUE (1)", 'L"text"', 'L"a = b"', 'L"http://h:80/x?y=z"', '"C:\\\\dir"', 'L"{0} of {"', 'L"say \\"hi\\""', '""', "{0x01,0x02}", 'L"a  b"', "PcdGet32 (gT.PcdX) + 1", 'L"Old Old"', '"Old:Old=Old"', "{GUID(\"a\")}", "-1", "0xFFFFFFFFFFFFFFFF"]


def array(r):
    n = r.choice([16, 17, 31, 32, 33, 48, 49])
    b = ["0x%02X" % r.randrange(256) for _ in range(n)]
    ls = [", ".join(b[i : i + 16]) + "," for i in range(0, n, 16)]
    ls[-1] = ls[-1][:-1] + "}"
    return ls


def pcds(r):
    out = [SS, "PCD", SEP]
    for t in r.sample(["gEfiMdePkgTokenSpaceGuid", "gTokA", "gTokB", "_g2"], r.randrange(1, 4)):
        out.append(t)
        for _ in range(r.randrange(1, 5)):
            name, flag, kind = "Pcd" + r.choice("ABCDEF"), r.choice(["  ", "*P", "*F", "*B", " "]), r.choice(["FIXED", "FLAG", "PATCH", "DYN", "DYNHII", "DYNVPD"])
            head = f" {flag} {name:<40}   : {kind:>6} {r.choice(['(UINT8)', '(VOID*)', '(BOOLEAN)', '(UINT64)', '(VOID*) (0x20)']):>10}"
            if kind.startswith("DYN") and r.random() < 0.5:
                head += "  (DEFAULT)" + r.choice(["", "  (STANDARD)"])
            v = r.choice(["{"] * 3 + VALUES)
            out.append(head + " = " + v)
            if v == "{":
                out.extend(array(r))
            if kind == "DYNHII":
                out.append("      gEfiGlobalVariableGuid: Setup: 0x4")
                if r.random() < 0.4:
                    out.append(f"                : DYNHII (UINT8)  (SKU1) = {r.choice(VALUES)}")
            elif kind == "DYNVPD":
                out.append("            " + r.choice(["0x0", "0x10", "0x1F40", "*"]))
            for d in ("DSC DEFAULT", "INF DEFAULT", "DEC DEFAULT"):
                if r.random() < 0.2:
                    if r.random() < 0.4:
                        out.append(f"            {d} = " + "{")
                        out.extend(array(r))
                    else:
                        out.append(f"            {d} = {r.choice(VALUES)}")
            if r.random() < 0.1:
                out.append(f"            .Field[{r.randrange(3)}].Sub = {r.choice(VALUES)}")
    return [*out, SE]


def libs(r):
    out = [SS, "Library", SEP]
    for _ in range(r.randrange(1, 7)):
        p = r.choice(["/R/ws", "/R/pp", "/R/ws/Common", "/R/elsewhere"]) + "/" + r.choice(["MdePkg/Library/BaseLib/BaseLib.inf", "A/a-b.inf", "Lib With Space/x.inf", "x.INF"])
        out.extend([p[: p.index("-") + 1], p[p.index("-") + 1 :]] if "-" in p and r.random() < 0.5 else [p])
        c = r.choice(["BaseLib", "DebugLib", "NULL", "NULL", "null", "A", "HobLib"])
        x = r.choice(["", "", ": C = Ctor", ": C = A B  D = C  Depex = (gX AND gY)  Time = 1 ms"])
        if x and r.random() < 0.3:
            w = x.split(" ", 2)
            out.extend(["{" + c + " ".join(w[:2]), " " + w[2] + "}"] if len(w) > 2 else ["{" + c + x + "}"])
        else:
            out.append("{" + c + x + "}")
    return [*out, SE]


def depex(r):
    d = r.choice(["TRUE", "(gEfiA AND gEfiB)", "gA AND (gB OR NOT gC) AND gD", "BEFORE gX", "gA AND = : gB"])
    ls = [d] if r.random() < 0.6 or " " not in d else d.split(" ", 1)
    out = [SS]
    if r.random() < 0.6:
        out += ["Final Dependency Expression (DEPEX) Instructions", *["  " + x for x in r.choice([["PUSH gA", "END"], ["TRUE", "END"], ["END"]])], SEP]
    return [*out, "Dependency Expression (DEPEX) from INF", *ls, SEP, "From Module INF:  gModuleOnly", "From Library INF: gLib AND gOther", SE]


def other(r):
    return r.choice([[SS, "Build Flags", "Tool Chain Tag:    GCC5", SEP, "CC Flags:          -g -DX=1 {", SEP, SE], [SS, "Dependency Expression (DEPEX) from DXS", "gX AND gY", SE], [SS, "Notification", "*C  gCallback (Path.c : 12)", SE]])


def gen(rng, tier, pid):
    r, out = rng, []
    n = 1 if tier == "quick" else 12
    for _ in range(200 * n):
        names = r.sample(["DxeCore", "PeiCore", "Shell", "BdsDxe", "Logo", "X y"], r.randrange(1, 5))
        mods, ls, infs = [], list(HEAD), []
        if r.random() < 0.3:
            ls = ["Platform Name: Old", *ls, "no value:", "Output path :  other: dir "]
        regs = []
        if r.random() < 0.5:
            regs.append([RS, "Platform Configuration Database Report", SS, "PCDs not used by modules or in conditional directives", SEP, "gTok", "*P PcdUnused : FIXED (UINT8) = 0x1", SE, RE, ""])
        for i, nm in enumerate(names):
            inf = r.choice(["", "", "/R/ws/", "/R/pp/", "/R/far/"]) + r.choice(["MdeModulePkg/Core", "Pkg", "P/q r", "Pkg.d/v1.2", "a.b-c/d.e-f"]) + "/" + nm.replace(" ", "-") + r.choice([".inf", ".INF"])
            infs.append(inf)
            shown = inf.replace("/", "\\") if not inf.startswith("/") and r.random() < 0.2 else inf
            guid = "D6A2CB7F-6A18-4E2F-B43B-9920A733700%d" % (0 if r.random() < 0.15 else i)
            body = []
            for f in r.sample([pcds, libs, depex, other], r.randrange(0, 5)):
                body += f(r)
            x = summary(nm, guid, shown, r.choice(["", "0x7 (DRIVER)", "0x2 (SECURITY_CORE)", "0x9 (APPLICATION)", "0x6 (PEIM, PEIM)"]), body)
            if r.random() < 0.3:
                j = next(j for j, l in enumerate(x) if l.startswith("Module INF"))
                c = r.choice([i for i in range(1, len(shown) - 7) if " " not in shown[-i - 5 : 3 - i]] or [1])
                x[j : j + 1] = [x[j][: -c - 3], "    " + x[j][-c - 3 :]]
            regs.append(x)
        for _ in range(r.choice([0, 1, 1, 2])):
            fl = []
            for f in range(r.randrange(1, 4)):
                fl.append(f"Fv Name:            {r.choice(['FVMAIN', 'FVDXE', 'FVPEI'])} ({r.choice(['99.5', '0.1', '100.0'])}% Full)")
                fl += ["Occupied Size:      0x1 (0K)", "Offset     Module", SEP]
                for _ in range(r.randrange(0, 5)):
                    p = r.choice(infs + ["/R/ws/Other/o.inf", "/R/far/z.inf"])
                    if " " in p:
                        continue
                    p = p if p.startswith("/") else r.choice(["/R/ws/", "/R/pp/"]) + p
                    l = f"0x{r.getrandbits(24):08X} {r.choice(['Dxe', 'Name', 'A_b'])} ({p})"
                    x = r.random()
                    if x < 0.2 and "-" in l:
                        fl += [l[: l.index("-") + 1], "  " + l[l.index("-") + 1 :]]
                    elif x < 0.3:
                        fl.append(f"0x{r.getrandbits(24):08X} 7EBDDE82-0AA2-4BE4-A0A0-0C8E8D7D4A5E")
                    else:
                        fl.append(l)
            regs.append(flash(fl))
        if r.random() < 0.3:
            r.shuffle(regs)
        words = [["$(WORKSPACE)", "/R/ws"]] if r.random() < 0.2 else []
        if words:
            regs = [[l.replace("/R/ws/", "$(WORKSPACE)/") for l in x] for x in regs]
        elif r.random() < 0.25:
            words = r.choice([[["DxeCore", "Core2"], ["Core2", "Core3"]], [["Old", "New"]], [["Old", "O:d"], ["Pcd", "Pp"]]])
        for x in regs:
            ls += x
        find = [x for x in {r.choice(infs), r.choice(infs).upper(), "No/such.inf"}]
        find = sorted(f.replace("/R/ws/", "").replace("/R/pp/", "") for f in find)
        out.append({"op": "report", "lines": ls, "words": words, "pps": r.choice([[], ["/R/pp"], ["/R/pp", "/R/ws/Common"]]), "find": find})
    for _ in range(80 * n):
        ls = []
        for _ in range(r.choice([1, 2, 3, 5])):
            p = r.choice(["MdePkg/Lib/x.inf", "./A//b.inf", "/abs/x.inf", "A/./b.inf", "C:/w/x.inf", "a b/c.inf"])
            dt = r.choice(["2018-11-27T22-36-30", "2018-11-27t22-36-30", "1999-12-31T23-59-59", "2024-02-29T00-00-00", "0001-01-01T00-00-00"])
            v = r.choice(["00000001", "1", "01"])
            if r.random() < 0.08:
                dt = r.choice(["", "NOTADATE", "2023-02-29T00-00-00", "2018-13-01T00-00-00", "2018-11-27T22:36:30", "2018-11-27 22-36-30", "2018-11-27T24-00-00"])
            if r.random() < 0.08:
                v = r.choice(["", "2", "0", "x", "0000000X", "11"])
            l = r.choice(["#Override : ", "#OVERRIDE: ", "  #override:", "#Override :"]) + f"{v} | {p} | {r.choice(['4e367990b327501d1ea6fbee4002f9c8', 'ABC'])}|{dt}"
            if r.random() < 0.05:
                l = r.choice(["#Override", "#Override : ", "#Override 1 | a | b | c", l + " | more", "#Override : 1 | a"])
            ls.extend([l] * r.choice([1, 1, 1, 2]))
            if r.random() < 0.5:
                ls.append(r.choice(["", "[Defines]", "# Override : not one", "  BASE_NAME = x # Override", "#OVER"]))
        out.append({"op": "ovr", "lines": ls if r.random() < 0.95 else ["[Defines]", "# x"], "from": r.choice(["file", "file", "text", "text", "text", "text", "text", "both", "none", "gone", "folder"])})
    return out


def classify(case, events):
    e = events[1]
    o = e["obs"]
    if e["k"] == "ovr":
        yield "overrides" if o["ok"] else "refused override"
        return
    if not o["ok"]:
        return
    t = "\n".join(e["lines"])
    if len(o["mods"]) > 1:
        yield "modules"
    if t.count("File GUID:") > len(o["mods"]):
        yield "same guid"
    if any(x["fv"] != "-" for x in o["mods"]):
        yield "flash"
        if any(x["fv"] == "-" for x in o["mods"]):
            yield "unlisted"
    if any(x != "-" for x in o["find"]):
        yield "found"
    if "-" in o["find"]:
        yield "not found"
    if e["words"]:
        yield "protected words"
    for x in o["mods"]:
        ks = {a for a, _ in x["libs"]}
        if {"NULL0", "NULL1"} <= ks:
            yield "null libraries"
        if x["depex"]:
            yield "depex"
        if any(len(v) > 16 for _, v in x["pcds"]):
            yield "array"
        if any(":" in "".join(v) for _, v in x["pcds"]):
            yield "colon in value"
    if any(a.startswith("Module INF") and ".inf" not in a.lower() for a in e["lines"]):
        yield "wrapped path"


def report(case, d):
    from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport

    def away(s):
        return s.replace("/R/", d + "/")

    def back(s):
        return "-" if s is None else s.replace(d + "/", "/R/")

    for x in ["/R/ws", "/R/ws/Common", *case["pps"]]:
        os.makedirs(away(x + "/"), exist_ok=True)
    p = os.path.join(d, "report.txt")
    text = "".join(l + "\n" for l in case["lines"])
    with open(p, "w", newline=spell.ends(text)) as f:
        f.write(away(text))
    b = BuildReport(p, d + "/ws/", ",".join(away(x) for x in case["pps"]), {away(k): away(v + "/")[:-1] for k, v in case["words"]})
    b.BasicParse()
    find = []
    for x in case["find"]:
        m = b.FindComponentByInfPath(away(x))
        find.append("-" if m is None else m.Guid)
    mods = [{"key": k, "guid": m.Guid, "name": back(m.Name), "inf": back(m.InfPath), "type": m.Type, "fv": m.FvName or "-", "depex": m.Depex.split(),
             "pcds": [[a, back(v).split()] for a, v in m.PCDs.items() if not a.endswith(".")], "libs": [[a, back(v)] for a, v in m.Libraries.items()]} for k, m in b.Modules.items()]
    return {"ok": True, "head": {"name": b.PlatformName, "dsc": back(b.DscPath), "out": back(b.BuildOutputDir)}, "mods": mods, "find": find}


def override(case, d):
    from edk2toollib.uefi.edk2.parsers.override_parser import OverrideParser

    text = "\n".join(case["lines"])
    p = os.path.join(d, "a.inf")
    if case["from"] == "folder":
        os.mkdir(p)
    elif case["from"] != "gone":
        with open(p, "w") as f:
            f.write(text)
    o = OverrideParser(**{"text": {"inf_contents": text}, "both": {"file_path": p, "inf_contents": text}, "none": {}}.get(case["from"], {"file_path": p}))
    items = []
    for x in o.overrides:
        t = x["datetime"]
        items.append({"version": x["version"], "path": x["original_path"], "hash": x["current_hash"], "date": [t.year, t.month, t.day, t.hour, t.minute, t.second]})
    return {"ok": True, "items": items, "lines": [{"n": x["lineno"], "l": x["line"]} for x in o.override_lines]}


def run(case, d):
    e = {"k": case["op"], **{k: v for k, v in case.items() if k != "op"}}
    if case["op"] == "report":
        e["roots"] = [*sorted(case["pps"], reverse=True), "/R/ws"]
        try:
            e["obs"] = report(case, d)
        except Exception as x:
            e["obs"] = {"ok": False, "what": repr(x)[:200], "head": {}, "mods": [], "find": []}
    else:
        try:
            e["obs"] = override(case, d)
        except ValueError:
            e["obs"] = {"ok": False, "items": [], "lines": []}
        except Exception as x:
            e["obs"] = {"ok": True, "what": repr(x)[:200], "items": [], "lines": []}
    return [{"k": "start"}, e]
