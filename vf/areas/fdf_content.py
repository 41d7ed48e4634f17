"""C08: what a flash description states (FdfParser: volumes, files, sections, devices)."""

import random

from vf import spell

TRACE = ("FdfContentTrace", "FdfContentTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True
REQUIRED_CLASSES = {"*": ["file", "guided", "multi-name", "reopened", "fd", "define"]}


def models(tier, pid):
    n = 5 if tier == "quick" else 6
    return [{"module": "FdfContentMC", "cfg": "FdfContentMC.cfg", "consts": {"MaxLen": n}, "min_behaviours": 300,
             "limit": 4000 if tier == "quick" else None, "what": f"every flash description of {n} lines over 14 line shapes"}]


def from_model(doc, m, pid):
    return [{"lines": doc, "seed": len(doc)}]


def gen(rng, tier, pid):
    return [one(rng) for _ in range(600 if tier == "quick" else 15000)]


def one(r):
    lines = []
    kind = "none"
    nfile = 0
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if kind == "none" or x < 0.25:
            kind = r.choice(["fv", "fv", "fv", "fv", "fd", "defines", "rule", "capsule", "fmp"])
            names = {"fv": r.choice([["FVMAIN"], ["FVREC"], ["FVMAIN"], ["FVMAIN", "FVREC"]]), "fd": [r.choice(["IMG", "FVMAIN"])], "rule": [r.choice(["Common.SEC", "FVMAIN", "FVREC"])],
                     "defines": ["Defines"], "capsule": [r.choice(["Cap", "FVMAIN"])], "fmp": [r.choice(["Pay", "FVREC"])]}[kind]
            lines.append({"k": "section", "kind": kind, "names": names})
        elif kind == "defines" or x < 0.33:
            lines.append({"k": "def", "n": f"N{r.randint(0, 3)}", "v": r.choice(["1", "abc", "0x10000", '"a = b"', "{ 1, 2 }", "[x]", '"}"', "INF P/x.inf"]), "local": kind != "defines"})
        elif x < 0.4:
            lines.append({"k": "def", "n": r.choice(["BlockSize", "ERASE_POLARITY"]), "v": "1", "local": False})
        elif kind == "fv" and x < 0.7:
            lines.append({"k": "inf", "v": r.choice(["P/a.inf", "P/b.inf", "RuleOverride = ACPI P/c.inf", "USE = X64  P/d.inf"])})
        elif kind == "fv" and len(names) == 1:
            nfile += 1
            op = r.random() < 0.8
            lines.append({"k": "file", "t": r.choice(["FREEFORM", "RAW", "DRIVER", "FV_IMAGE"]), "n": r.choice([f"7E175642-F3AD-490A-9F8A-2E9FC6933D{nfile:02X}", f"7E175642-F3AD-490A-9F8A-2E9FC6933D{nfile:02X}", f"PCD(gXTokenSpaceGuid.PcdF{nfile})"]), "open": op})
            if op:
                depth = 1
                for _ in range(r.randint(0, 5)):
                    y = r.random()
                    if y < 0.15 and depth < 3:
                        depth += 1
                        lines.append({"k": "guided", "t": r.choice(["EE4E5898-3914-4259-9D6E-DC7BD79403CF", "AA4E5898-3914-4259-9D6E-DC7BD79403CF"])})
                    elif y < 0.3 and depth > 1:
                        depth -= 1
                        lines.append({"k": "close"})
                    elif y < 0.9:
                        lines.append({"k": "sect", "t": r.choice(["UI", "VERSION", "PE32", "RAW"]), "v": r.choice(['"Name"', "1.0", "P/x.efi", '"a # b"', "a=b", '"a { b"', '"}"', '"x [FV.Y]"', "P/INF x.bin", "FILE x = y"])})
                    else:
                        lines.append({"k": "plain", "v": "P/logo.bmp"})
                lines += [{"k": "close"}] * depth
        elif kind in ("rule", "capsule", "fmp", "fd"):
            if kind != "fd" and r.random() < 0.3:
                lines += [{"k": "plain", "v": v} for v in ("FILE SEC = $(NAMED_GUID) {", "SECTION UI = z", "}")]
            else:
                lines.append({"k": "plain", "v": r.choice(["INF X/y.inf", "SECTION UI = z", "0x0|0x1000", "IMAGE_HEADER_INIT_VERSION = 2", "FV = FVMAIN"])})
    return {"lines": lines, "seed": r.randrange(10**6)}


def render(case):
    r = random.Random(case["seed"])
    out = []
    for ln in case["lines"]:
        k = ln["k"]
        if k == "section":
            nm = {"fv": ["FV", "FV", "fv"], "fd": ["FD", "Fd"], "defines": ["Defines"], "rule": ["Rule"], "capsule": ["Capsule"], "fmp": ["FmpPayload"]}[ln["kind"]]
            s = r.choice(["[", "[", "[", "[ "]) + ("Defines" if ln["kind"] == "defines" else r.choice([", ", ", ", ",", " , "]).join(r.choice(nm) + "." + x for x in ln["names"])) + r.choice(["]", "]", "]", " ]"])
        elif k == "def":
            s = ("DEFINE " if ln["local"] or r.random() < 0.5 and ln["n"].startswith("N") else "") + ln["n"] + r.choice([" = ", "="]) + ln["v"]
        elif k == "inf":
            s = r.choice(["INF ", "INF  ", "inf ", "INF\t"]) + ln["v"]
        elif k == "file":
            s = r.choice(["FILE ", "File ", "FILE\t"]) + ln["t"] + " = " + ln["n"] + (r.choice([" {", " {", "{", "  {  "]) if ln["open"] else r.choice(["", "", " {}"]))
        elif k == "sect":
            s = r.choice(["SECTION ", "Section ", "SECTION  ", "SECTION\t"]) + ln["t"] + r.choice([" = ", "="]) + ln["v"]
        elif k == "guided":
            s = r.choice(["SECTION GUIDED ", "SECTION GUIDED ", "SECTION  GUIDED ", "Section\tGuided "]) + ln["t"] + r.choice([" {", " = TRUE {", " {"])
        elif k == "close":
            s = "}"
        else:
            s = ln["v"]
        out.append(r.choice(["", "  ", "    "]) + s + r.choice(["", "", "  ", "  # { INF x.inf"]))
        if r.random() < 0.08:
            out.append(r.choice(["", "# [FV.X]", "   "]))
    return out


def run(case, d):
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser

    path = d + "/f.fdf"
    text = "\n".join(render(case)) + "\n"
    with open(path, "w", newline=spell.ends(text)) as f:
        f.write(text)
    ev = {"k": "start", "lines": case["lines"]}
    try:
        q = FdfParser()
        q.ParseFile(path)
        fvs = []
        for n, v in q.FVs.items():
            files = []
            for fn, fv in v["Files"].items():
                files.append({"key": fn, "v": {"type": fv["type"], "sects": [{"key": k, "v": x} for k, x in fv.items() if isinstance(x, list)],
                                               "guided": [k for k, x in fv.items() if isinstance(x, dict)]}})
            fvs.append({"key": n, "infs": v["Infs"], "files": files})
        ev["obs"] = {"st": "ok" if q.Parsed else "not parsed", "dict": [{"key": k, "v": v} for k, v in q.Dict.items()], "fvs": fvs, "fds": list(q.FDs)}
    except Exception as e:
        ev["obs"] = {"st": "raise", "what": repr(e)[:200]}
    return [ev]


def classify(case, events):
    t = set()
    seen = set()
    for ln in case["lines"]:
        if ln["k"] == "section":
            if len(ln["names"]) > 1:
                t.add("multi-name")
            if ln["kind"] == "fv" and set(ln["names"]) & seen:
                t.add("reopened")
            if ln["kind"] == "fv":
                seen |= set(ln["names"])
            if ln["kind"] == "fd":
                t.add("fd")
        elif ln["k"] in ("file", "guided"):
            t.add(ln["k"])
        elif ln["k"] == "def":
            t.add("define")
    return t
