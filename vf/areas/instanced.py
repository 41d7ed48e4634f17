"""C06: which library instance serves which module (InstancedInfTable, InstancedFvTable over DscParser and InfParser)."""

import os
import random

from vf.areas import dsc_content

TRACE = ("InstancedInfTrace", "InstancedInfTrace.cfg")
CASE_SECONDS = 30
SAME_DIR = True
REQUIRED_CLASSES = {"*": ["link", "null-link", "override-link", "unresolved", "two-archs", "shared-instance", "arch-library", "noguid", "fv", "parsed-again", "other-spelling"]}
PH = ["SEC", "PEIM", "PEI_CORE", "DXE_DRIVER", "DXE_CORE", "UEFI_DRIVER", "UEFI_APPLICATION"]
TARGETS = [["ia32", "x64"], ["x64"], ["ia32"], ["x64", "ia32"]]


def models(tier, pid):
    return [{"module": "InstancedInfMC", "cfg": "InstancedInfMC.cfg", "consts": {"Full": "FALSE" if tier == "quick" else "TRUE"},
             "min_behaviours": 400, "limit": 300 if tier == "quick" else None,
             "what": "visiting orders of the link closure for every placement of a library class over four scopes"}]


def from_model(doc, m, pid):
    doc["seed"] = len(doc["lines"])
    return [doc]


def gen(rng, tier, pid):
    return [one(rng) for _ in range(260 if tier == "quick" else 8000)]


def one(r):
    nl = r.randint(2, 7)
    classes = ["LibA", "LibB", "DebugLib", "PcdLib"][: r.randint(2, 4)]
    infs = []

    def srcs(name, folder):
        res = []
        for k in range(r.randint(0, 3)):
            res.append({"path": r.choice([f"{folder}/{name}{k}.c", f"P/Common{k}.c"]), "arch": r.choice(["common", "common", "x64", "ia32"])})
        return res

    def libs():
        return [{"cls": c, "arch": r.choice(["common", "common", "common", "x64", "ia32"])} for c in r.sample(classes, r.randint(0, len(classes)))]

    for i in range(nl):
        folder = r.choice(["P", "P/Library/L", "PP2Pkg/Lib"])
        infs.append({"path": f"{folder}/L{i}.inf", "name": f"L{i}", "guid": r.random() < 0.93, "cls": r.choice(classes),
                     "phases": [] if r.random() < 0.5 else r.sample(PH, r.randint(1, 4)), "mt": "BASE", "libs": libs(), "srcs": srcs(f"L{i}", folder)})
    mods = []
    for i in range(r.randint(1, 3)):
        folder = r.choice(["P/Mod", "P", "PP2Pkg/Drv"])
        m = {"path": f"{folder}/M{i}.inf", "name": f"M{i}", "guid": True, "cls": "" if r.random() < 0.93 else classes[0],
             "phases": [], "mt": r.choice(PH[1:5]), "libs": libs(), "srcs": srcs(f"M{i}", folder)}
        mods.append(m)
    infs += mods
    doc = {"archs": ["IA32", "X64"], "exists": [], "infs": infs, "seed": r.randrange(10**6)}
    doc.update(platform(r, infs, nl, mods, classes))
    if r.random() < 0.3:
        # more parses into the same database: other platforms over the same modules, or the same for other architectures
        doc["more"] = []
        for _ in range(r.randint(1, 2)):
            doc["more"].append(platform(r, infs, nl, mods, classes) if r.random() < 0.6 else
                               {"lines": doc["lines"], "fvs": doc["fvs"], "targets": r.choice(TARGETS)})
    return doc


def platform(r, infs, nl, mods, classes):
    lines = []
    lp = [x["path"] for x in infs[:nl]]

    def lib(p_null):
        # NULL libraries are instances of their own in real platforms
        return {"k": "lib", "cls": "NULL" if r.random() < p_null else r.choice(classes + [classes[0].lower()]), "path": r.choice(lp), "abs": False, "alt": r.random() < 0.3}

    for _ in range(r.randint(1, 4)):
        mt = r.choice(mods)["mt"].lower()
        sc = r.sample(["", "common", "x64", "ia32", "common." + mt, "x64." + mt, "ia32." + mt, "common.sec"], r.choice([1, 1, 1, 2]))
        if set(sc) == {"", "common"}:
            sc = [""]
        lines.append({"k": "section", "items": [{"kind": "libraryclasses", "scope": s} for s in sc]})
        for _ in range(r.randint(0, 3)):
            lines.append(lib(0.12))
    used = set()
    for _ in range(r.randint(1, 3)):
        s = r.choice(["", "x64", "ia32", "common"])
        archs = {"x64", "ia32"} if s in ("", "common") else {s}
        free = [m for m in mods if not any((m["path"], a) in used for a in archs)]
        if not free:
            continue
        lines.append({"k": "section", "items": [{"kind": "components", "scope": (s or "common") + r.choice([".peim", ".dxe_driver"]) if r.random() < 0.15 else s}]})
        for m in r.sample(free, r.randint(1, len(free))):
            used |= {(m["path"], a) for a in archs}
            op = r.random() < 0.5
            lines.append({"k": "comp", "path": m["path"], "abs": r.random() < 0.1, "open": op, "alt": r.random() < 0.3})
            if op:
                lines.append({"k": "sub", "s": "libraryclasses"})
                for _ in range(r.randint(0, 3)):
                    lines.append(lib(0.4))
                lines.append({"k": "close"})
    paths = [m["path"] for m in mods]
    return {"lines": lines, "targets": r.choice(TARGETS),
            "fvs": [{"name": n, "infs": r.sample(paths, r.randint(0, len(paths)))} for n in r.sample(["MAIN", "FVREC", "FVDXE"], r.randint(0, 2))]}


def inf_text(i, r):
    t = ["[Defines]", "  INF_VERSION = 0x00010005", f"  BASE_NAME = {i['name']}", f"  MODULE_TYPE = {i['mt']}"]
    if i["guid"]:
        t.append("  FILE_GUID = 12345678-1234-1234-1234-1234567890AB")
    if i["cls"]:
        ph = " ".join(r.choice([x, x, x.lower()]) for x in i["phases"])
        t.append(f"  LIBRARY_CLASS = {i['cls']}" + (r.choice(["|", " | "]) + ph if ph else r.choice(["", "|", "|BASE", " | base"])))
    folder = os.path.dirname(i["path"])
    secs = []
    for key, name, val in (("libs", "LibraryClasses", lambda e: e["cls"]), ("srcs", "Sources", lambda e: os.path.relpath(e["path"], folder))):
        by = {}
        for e in i[key]:
            by.setdefault(e["arch"], []).append(val(e))
        for a, vs in by.items():
            n = r.choice([name, name, name.upper(), name.lower()])
            head = "[" + n + ("" if a == "common" and r.random() < 0.6 else "." + r.choice([a, a.upper()])) + "]"
            secs.append([head] + ["  " + v + r.choice(["", "  # c", " "]) for v in vs])
    r.shuffle(secs)
    secs.insert(r.randint(0, len(secs)), ["[Packages]", "  P/P.dec"])
    return "\n".join(t + [x for s in secs for x in s + [""]]) + "\n"


def run(case, d):
    from edk2toollib.database import Edk2DB, Fv, InstancedInf
    from edk2toollib.database.tables import InstancedFvTable, InstancedInfTable
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    r = random.Random(case["seed"])
    ws = d + "/ws"
    pp2 = ws + "/Extra"
    # the packages below PP2Pkg live in a second package path
    where = lambda p: (pp2 if p.startswith("PP2Pkg/") else ws) + "/" + p
    for i in case["infs"]:
        os.makedirs(os.path.dirname(where(i["path"])), exist_ok=True)
        with open(where(i["path"]), "w") as f:
            f.write(inf_text(i, r))
    os.makedirs(pp2 + "/PP2Pkg", exist_ok=True)
    os.makedirs(ws + "/P", exist_ok=True)
    for f in (pp2 + "/PP2Pkg/PP2Pkg.dec", ws + "/P/P.dec"):
        open(f, "w").close()
    path = Edk2Path(ws, ["Extra"])
    cut = lambda p: p[len(ws) + 1:] if p.startswith(ws + "/") else p
    db = Edk2DB(":memory:", pathobj=path)
    db.register(InstancedInfTable(), InstancedFvTable())
    seen, res = {}, []

    def read():
        envs = {}
        with db.session() as s:
            for x in s.query(InstancedInf).all():
                envs.setdefault(x.env, {"rows": [], "fvs": []})["rows"].append(
                    {"path": x.path, "arch": x.arch.lower(), "component": x.component, "name": x.name, "cls": x.cls or "none",
                     "links": [y.path for y in x.libraries], "srcs": [cut(y.path) for y in x.sources],
                     # what a row links to belongs to the same parse, architecture and component
                     "own": all((y.env, y.arch, y.component) == (x.env, x.arch, x.component) for y in x.libraries)})
            for x in s.query(Fv).all():
                envs.setdefault(x.env, {"rows": [], "fvs": []})["fvs"].append(
                    {"name": x.name, "infs": [y.path for y in x.infs], "own": all(y.env == x.env for y in x.infs)})
        return envs

    for n, rnd in enumerate([case] + case.get("more", [])):
        write_platform(case, rnd, ws, pp2, "plat%d" % n, r)
        if n == 0:
            ev = {"k": "start"}
            ev.update({k: case[k] for k in ("archs", "exists", "infs")})
        else:
            ev = {"k": "again"}
        ev.update({k: rnd[k] for k in ("lines", "targets", "fvs")})
        env = {"ACTIVE_PLATFORM": "P/plat%d.dsc" % n, "FLASH_DEFINITION": "P/plat%d.fdf" % n, "TARGET": "DEBUG",
               "TARGET_ARCH": " ".join(x.upper() for x in rnd["targets"])}
        res.append(ev)
        try:
            db.parse(env)
            envs = read()
            kept = all(envs.get(k) == v for k, v in seen.items())
            fresh = [k for k in envs if k not in seen]
            new = envs[fresh[0]] if fresh else {"rows": [], "fvs": []}
            ev["obs"] = {"st": "ok" if len(fresh) <= 1 else "two parses", "rows": new["rows"], "fvs": new["fvs"], "kept": kept}
            seen = envs
        except Exception as e:
            ev["obs"] = {"st": "raise", "what": repr(e)[:200]}
            break
    return res


def write_platform(case, rnd, ws, pp2, name, r):
    body = []
    for ln in rnd["lines"]:
        ln = dict(ln, abs=bool(ln.get("abs")))
        # a module of the second package path can be named from the workspace as well
        if ln.get("alt") and not ln["abs"] and ln["path"].startswith("PP2Pkg/"):
            ln["path"] = "Extra/" + ln["path"]
        body.append(ln)
    body = [x for x, _ in dsc_content.render({"lines": body, "seed": case["seed"]}, "@WS@")]
    body = [(pp2 if "@WS@/PP2Pkg" in x else ws).join(x.split("@WS@")) for x in body]
    with open(ws + "/P/" + name + ".dsc", "w") as f:
        f.write("\n".join(["[Defines]", "  SUPPORTED_ARCHITECTURES = " + "|".join(case["archs"])] + body) + "\n")
    fdf = []
    for fv in rnd["fvs"]:
        fdf += [f"[FV.{fv['name']}]", "  BlockSize = 0x1000"]
        for p in fv["infs"]:
            fdf.append("  INF " + r.choice(["", "", "RuleOverride = ACPITABLE ", "RuleOverride=ABC  "]) + ("Extra/" if p.startswith("PP2Pkg/") and r.random() < 0.3 else "") + p + r.choice(["", "  # x"]))
    with open(ws + "/P/" + name + ".fdf", "w") as f:
        f.write("\n".join(fdf) + "\n")


def classify(case, events):
    t = set()
    o = events[0]["obs"]
    if o["st"] != "ok":
        return t
    if sum(bool(e["obs"].get("rows")) for e in events) > 1:
        t.add("parsed-again")
    if any(ln.get("alt") and "PP2Pkg" in ln["path"] and ln["k"] == "lib" for ln in case["lines"]):
        t.add("other-spelling")
    for x in o["rows"]:
        if x["links"]:
            t.add("link")
        if x["cls"] == "NULL":
            t.add("null-link")
    if len({x["arch"] for x in o["rows"]}) > 1:
        t.add("two-archs")
    ovs = [ln["path"] for k, ln in enumerate(case["lines"]) if ln["k"] == "lib" and any(z["k"] == "comp" and z["open"] for z in case["lines"][:k])]
    if any(x["path"] in ovs for x in o["rows"]):
        t.add("override-link")
    if any(i["libs"] for i in case["infs"]) and any(not x["links"] for x in o["rows"]):
        t.add("unresolved")
    use = {}
    for ln in case["lines"]:
        if ln["k"] == "lib":
            use.setdefault(ln["path"], set()).add(ln["cls"].lower())
    if any(len(use.get(x["path"], ())) > 1 for x in o["rows"]):
        t.add("shared-instance")
    if any(e["arch"] != "common" for i in case["infs"] for e in i["libs"]):
        t.add("arch-library")
    if any(not i["guid"] for i in case["infs"]):
        t.add("noguid")
    if any(f["infs"] for f in o["fvs"]):
        t.add("fv")
    return t
