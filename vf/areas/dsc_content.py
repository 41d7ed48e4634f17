"""C05: what a platform description says (DscParser: modules, components, overrides, scoped libraries, PCDs)."""

import os
import random

from vf import spell

TRACE = ("DscContentTrace", "DscContentTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True
REQUIRED_CLASSES = {"*": ["braces", "override", "nulls", "multi-scope", "redefined", "absolute", "common-component"]}


def models(tier, pid):
    n = 5 if tier == "quick" else 6
    return [{"module": "DscContentMC", "cfg": "DscContentMC.cfg", "consts": {"MaxLen": n}, "min_behaviours": 500,
             "what": "every platform description of %d lines over 12 line shapes" % n}]


def from_model(doc, m, pid):
    return [{"archs": ["IA32", "X64"], "exists": ["P/L1.inf"], "lines": doc, "seed": len(doc)}]


CSC = ["", "", "common", "x64", "x64", "ia32", "ia32", "aarch64", "arm"]
LSC = ["", "common", "x64", "ia32", "common.peim", "common.dxe_driver", "x64.peim", "ia32.dxe_driver", "aarch64", "x64.uefi_application"]


def gen(rng, tier, pid):
    return [one(rng) for _ in range(500 if tier == "quick" else 12000)]


def one(r):
    mods = [f"P/M{i}.inf" for i in range(4)] + ["OtherPkg/Sub/Drv.inf", "P/Caps.INF"]
    inst = [f"P/L{i}.inf" for i in range(4)] + ["LibPkg/Deep/Lib/Lib.inf", "LibPkg/Caps.INF"]
    classes = ["LibA", "liba", "LibB", "DebugLib"]
    pcds = ["gTokenSpaceGuid.PcdA", "gXTokenSpaceGuid.PcdB", "gXTokenSpaceGuid.PcdS.Arr[1].F"]
    lines = []

    def lib(nul):
        c = "NULL" if r.random() < nul else r.choice(classes)
        if c == "NULL" and r.random() < 0.3:
            c = "Null"
        return {"k": "lib", "cls": c, "path": r.choice(inst), "abs": r.random() < 0.12}

    for _ in range(r.randint(1, 6)):
        kd = r.choice(["components", "components", "components", "libraryclasses", "libraryclasses", "pcds", "other"])
        n = r.choice([1, 1, 2, 3]) if kd in ("components", "libraryclasses") else 1
        sc = r.sample(sorted(set(CSC if kd == "components" else LSC)), n) if n > 1 else [r.choice(CSC if kd == "components" else LSC)]
        lines.append({"k": "section", "items": [{"kind": kd, "scope": s if kd != "other" else ""} for s in sc]})
        for _ in range(r.randint(0, 4)):
            if kd == "libraryclasses":
                lines.append(lib(0.12))
            elif kd == "pcds":
                lines.append({"k": "pcd", "n": r.choice(pcds), "v": r.choice(["1", "TRUE", '"a|b"', 'L"[x]"'])})
            elif kd == "other":
                lines.append({"k": "misc", "t": r.choice(["P/L1.inf", "X|P/M0.inf", "gXTokenSpaceGuid.PcdB|1", "a = { b", "} c", "1 | x"])})
            elif kd == "components":
                op = r.random() < 0.5
                lines.append({"k": "comp", "path": r.choice(mods), "abs": r.random() < 0.12, "open": op})
                if op:
                    for s in r.sample(["libraryclasses", "pcdsfixedatbuild", "buildoptions", "libraryclasses"], r.randint(0, 3)):
                        lines.append({"k": "sub", "s": s})
                        for _ in range(r.randint(0, 3)):
                            if s == "libraryclasses":
                                lines.append(lib(0.3))
                            elif s == "pcdsfixedatbuild":
                                lines.append({"k": "pcd", "n": r.choice(pcds), "v": r.choice(["0x1", "0x1", "{0x1, 0x2}", '"a|b"', 'L"a.inf"', 'L"{"', 'L"}"', '"x } y"'])})
                    lines.append({"k": "close"})
    return {"pp": r.choice(["", "", "/pp", "/ws/Extra"]), "archs": r.choice([["IA32", "X64"], ["X64"], ["AARCH64"], ["IA32", "X64", "AARCH64"]]),
            "exists": [i for i in inst if r.random() < 0.6], "lines": lines, "seed": r.randrange(10**6)}


def cs(rng, s):
    return rng.choice([s, s.upper(), s.capitalize()])


def render(case, ws):
    r = random.Random(case["seed"])
    names = {"components": "Components", "libraryclasses": "LibraryClasses", "pcds": "PcdsFixedAtBuild", "other": "UserExtensions"}
    out = []
    depth = 0
    for ln in case["lines"]:
        k = ln["k"]
        p = ((ws if isinstance(ws, str) else ws(ln["path"])) + "/" if ln.get("abs") else "") + ln.get("path", "")
        if k == "section":
            t = []
            for it in ln["items"]:
                n = names[it["kind"]]
                n = r.choice([n, n, n.lower(), n.upper()])
                if it["kind"] == "pcds":
                    n = "Pcds" + r.choice(["FixedAtBuild", "FeatureFlag", "PatchableInModule", "DynamicDefault"])
                    if r.random() < 0.3:
                        n += "." + r.choice(["X64", "common"])
                elif it["scope"]:
                    n += "." + r.choice([it["scope"], it["scope"].upper()])
                t.append(n)
            s = r.choice(["[", "[", "[", "[ "]) + r.choice([", ", ", ", ", ", ",", " , "]).join(t) + r.choice(["]", "]", "]", " ]"])
        elif k == "comp":
            s = p + (r.choice([" {", " {", "  {", "{", "\t{"]) if ln["open"] else "")
        elif k == "sub":
            n = {"libraryclasses": "LibraryClasses", "pcdsfixedatbuild": "PcdsFixedAtBuild", "buildoptions": "BuildOptions"}[ln["s"]]
            s = "<" + r.choice([n, n, n.lower(), n.upper()]) + ">"
        elif k == "lib":
            s = ln["cls"] + r.choice(["|", " | ", "|  "]) + p
        elif k == "pcd":
            s = ln["n"] + r.choice(["|", " | "]) + ln["v"]
        elif k == "misc":
            s = ln["t"]
        else:
            s = "}"
        if k != "section":
            s = r.choice(["", "  ", "\t"]) + s
        if r.random() < 0.15:
            s += " # note [x] | y.inf"
        out.append((s, ln))
        if r.random() < 0.1:
            out.append((r.choice(["", "# Foo|P/x.inf", "   "]), None))
    return out


def layout(case, ws):
    """Spread the lines over the platform description and files it includes: file -> [(text, abstract line or None)]."""
    r = random.Random(case["seed"] + 1)
    head = [("[Defines]", None), ("  SUPPORTED_ARCHITECTURES = " + "|".join(case["archs"]), None)]
    body = render(case, ws)
    files = {}
    for n in range(r.choice([0, 0, 1, 1, 2])):
        name = "Inc/part%d.dsc.inc" % n
        i = r.randint(0, len(body))
        j = r.randint(i, len(body))
        part, body = body[i:j], body[:i] + [(r.choice(["", "  "]) + r.choice(["!include ", "!INCLUDE "]) + name, None)] + body[j:]
        files[name] = part or [("# nothing", None)]
    files["plat.dsc"] = head + body
    return files


def run(case, d):
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    ws = d + "/ws"
    # the packages of libraries may lie in a package path of their own
    pp = d + case["pp"] if case.get("pp") else ws
    base = lambda p: pp if p.startswith("LibPkg/") else ws
    for f in case["exists"]:
        os.makedirs(os.path.dirname(base(f) + "/" + f), exist_ok=True)
        open(base(f) + "/" + f, "w").close()
    os.makedirs(ws, exist_ok=True)
    os.makedirs(pp, exist_ok=True)
    files = layout(case, base)
    where = {}
    for name, body in files.items():
        os.makedirs(os.path.dirname(ws + "/" + name), exist_ok=True)
        text = "".join(x + "\n" for x, _ in body)
        with open(ws + "/" + name, "w", newline=spell.ends(text)) as f:
            f.write(text)
        for i, (_, ln) in enumerate(body):
            if ln is not None:
                where[id(ln)] = {"file": "/ws/" + name, "ln": i + 1}
    ev = {"k": "start", "archs": case["archs"], "exists": case["exists"], "pp": case.get("pp", ""), "lines": [dict(ln, **where[id(ln)]) for ln in case["lines"]]}
    cut = lambda p: p[len(d):] if p.startswith(d + "/") else p
    try:
        q = DscParser().SetEdk2Path(Edk2Path(ws, [pp] if case.get("pp") else []))
        q.ParseFile(ws + "/plat.dsc")
    except Exception as e:
        ev["obs"] = {"st": "raise", "what": repr(e)[:200]}
        return [ev]
    comps = [{"path": p, "arch": a.lower(), "nulls": list(o["NULL"]), "ov": [{"key": k, "v": v} for k, v in o.items() if k != "NULL"]}
             for p, a, o in q.Components]
    enh = lambda rows: [{"file": cut(x["file"]), "ln": x["lineno"], "path": cut(x["data"])} for x in rows]
    ev["obs"] = {"st": "ok", "sixat": enh(q.SixModsEnhanced), "threeat": enh(q.ThreeModsEnhanced), "six": [cut(x) for x in q.SixMods], "three": [cut(x) for x in q.ThreeMods],
                 "other": [cut(x) for x in q.OtherMods], "libs": [cut(x) for x in q.GetLibs()], "pcds": list(q.Pcds),
                 "cls": [{"key": k, "v": ["none" if x is None else cut(x) for x in v]} for k, v in q.LibraryClassToInstanceDict.items()],
                 "scoped": [{"key": k, "v": list(v)} for k, v in q.ScopedLibraryDict.items()], "comps": comps}
    if q.GetMods() != q.ThreeMods + q.SixMods + q.OtherMods:
        ev["obs"]["st"] = "GetMods disagrees"
    return [ev]


def classify(case, events):
    t = set()
    ls = case["lines"]
    for ln in ls:
        if ln["k"] == "comp" and ln["open"]:
            t.add("braces")
        if ln["k"] == "section" and len(ln["items"]) > 1:
            t.add("multi-scope")
        if ln.get("abs"):
            t.add("absolute")
        if ln["k"] == "section" and ln["items"][0]["kind"] == "components" and ln["items"][0]["scope"] in ("", "common"):
            t.add("common-component")
    o = events[0]["obs"]
    if o["st"] == "ok":
        if any(c["ov"] for c in o["comps"]):
            t.add("override")
        if any(c["nulls"] for c in o["comps"]):
            t.add("nulls")
        if any(len(x["v"]) > 1 for x in o["scoped"]):
            t.add("redefined")
    return t
