"""C11, C12: workspace and package paths (Edk2Path)."""
import os

TRACE = ("PathsTrace", "PathsTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True
REQUIRED_CLASSES = {"C11": ["nested pp", "refused", "shadowed", "outside", "backslash", "tree edited"], "C12": ["nested pp", "mods found", "pkg found", "root asked", "three nested roots", "below a file", "tree edited"]}


def models(tier, pid):
    deep = tier != "quick"
    ms = [{"module": "PathsMC", "cfg": "PathsMC.cfg", "consts": {"MaxFiles": 1, "MaxPps": 2, "Depth": 3}, "min_behaviours": 5000,
           "limit": 250 if not deep else 4000, "what": "every placement of a workspace, up to 2 package paths and 1 file in a tree of depth 3", "q": 3},
          {"module": "PathsMC", "cfg": "PathsMC.cfg", "consts": {"MaxFiles": 2, "MaxPps": 1, "Depth": 2}, "min_behaviours": 3000,
           "limit": 250 if not deep else 4000, "what": "every placement of a workspace, up to 1 package path and 2 files in a tree of depth 2", "q": 2}]
    if deep:
        ms.append({"module": "PathsMC", "cfg": "PathsMC.cfg", "consts": {"MaxFiles": 2, "MaxPps": 2, "Depth": 3}, "min_behaviours": 100000,
                   "limit": 6000, "what": "every placement of a workspace, up to 2 package paths and 2 files in a tree of depth 3", "q": 3})
    return ms


def subdirs(q):
    out, cur = [[]], [[]]
    for _ in range(q):
        cur = [x + [n] for x in cur for n in ("a", "b")]
        out += cur
    return out


def from_model(doc, m, pid):
    dirs = subdirs(m["q"])
    case = {"files": doc["files"], "dirs": dirs, "cwd": [], "strict": True, "ws": {"abs": True, "path": doc["ws"]},
            "pps": [{"abs": True, "path": p} for p in doc["pps"]], "q": []}
    for p in doc["files"] + dirs + [d + ["gone", "x.c"] for d in dirs[:4]] + [f + ["x.c"] for f in doc["files"]]:
        case["q"] += queries(p, doc["ws"], pid)
    return [case]


def queries(p, ws, pid, style=None):
    if pid == "C11":
        return [{"k": "rel", "path": p, "style": style or {}}] + ([{"k": "abs", "path": p, "style": style or {}}] if p else [])
    return [{"k": "pkg", "path": p, "style": style or {}}, {"k": "mods", "path": p, "style": style or {}}] if p else []


NAMES = ["pp", "pp1", "PP", "Pkg", "pkg", "MdePkg", "x y", "a.b", "Mod", "Pkg.dec.d", "inf", "old.inf", "Old.INF"]
FILES = ["P.dec", "P.DEC", "M.inf", "M2.INF", "f.c", "inf", "dec", "x.inf.bak", "a.decx", "N.Inf"]


def gen(rng, tier, pid):
    cases = []
    for _ in range(220 if tier == "quick" else 5000):
        r = rng
        dirs = [[]]
        for _ in range(r.randint(3, 12)):
            b = r.choice(dirs)
            if len(b) < 5:
                dirs.append(b + [r.choice(NAMES[:6] if r.random() < 0.7 else NAMES)])
        dirs = [list(t) for t in sorted({tuple(x) for x in dirs})]
        files = []
        for _ in range(r.randint(1, 9)):
            f = r.choice(dirs) + [r.choice(FILES)]
            if f not in dirs and f not in files:
                files.append(f)
        top = [x for x in dirs if len(x) <= 2]
        ws = r.choice(top)
        cwd = r.choice([[], [], r.choice(dirs)])
        pps = []
        for _ in range(r.randint(0, 4)):
            p = r.choice([x for x in dirs if len(x) <= 4])
            if r.random() < 0.15:
                p = r.choice(files) if files and r.random() < 0.3 else p + ["nope"]
            x = r.random()
            if x < 0.4 and p[:len(ws)] == ws and len(p) > len(ws):
                pps.append({"abs": False, "path": p[len(ws):], "bs": r.random() < 0.3})
            elif x < 0.6 and p[:len(cwd)] == cwd and len(p) > len(cwd):
                pps.append({"abs": False, "path": p[len(cwd):], "bs": r.random() < 0.3})
            else:
                pps.append({"abs": True, "path": p, "bs": r.random() < 0.3})
        wsp = {"abs": True, "path": ws, "bs": r.random() < 0.2}
        if r.random() < 0.3 and ws[:len(cwd)] == cwd and len(ws) > len(cwd):
            wsp = {"abs": False, "path": ws[len(cwd):]}
        if r.random() < 0.05:
            wsp = {"abs": True, "path": ws + ["missing"]}
        case = {"files": files, "dirs": dirs, "cwd": cwd, "strict": r.random() < 0.7, "ws": wsp, "pps": pps, "q": []}
        for _ in range(14):
            p = r.choice(files + dirs)
            x = r.random()
            if x < 0.15:
                p = r.choice(dirs) + [r.choice(["gone", "Pkg"]), r.choice(FILES)]
            elif x < 0.22 and files:  # what was a folder is a file now
                p = r.choice(files) + r.choice([[], ["sub"]]) + [r.choice(FILES)]
            st = {"bs": r.random() < 0.3, "parts": r.random() < 0.3 and pid == "C11"}
            if pid == "C11":
                case["q"] += queries(p, ws, pid, st)
                k = r.randint(0, len(p))
                if p[k:]:
                    case["q"].append({"k": "abs", "path": p[k:], "style": st})
            else:
                case["q"] += queries(p, ws, pid, st)
                if r.random() < 0.1 and p:
                    case["q"].append({"k": "modsrel", "path": p, "style": st})
        if r.random() < 0.5:
            # the tree changes, the same is asked again
            add = [x for x in (r.choice(dirs) + [r.choice(FILES)] for _ in range(r.randint(0, 3))) if x not in files and x not in dirs]
            add = [list(x) for x in sorted({tuple(x) for x in add})]
            rm = r.sample(files, r.randint(0, min(2, len(files))))
            case["q"].append({"k": "edit", "add": add, "rm": rm})
            asked = [q for q in case["q"] if q["k"] not in ("edit", "modsrel")]
            case["q"] += r.sample(asked, min(len(asked), 10))
            for f in add + rm:
                case["q"] += queries(f, ws, pid)
        case["turn"] = r.random() < 0.5
        case["listed"] = r.choice(["list", "tuple", "iter"])
        cases.append(case)
    return cases


def run(case, d):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    base = os.path.join(d, "r")
    os.makedirs(base)
    for x in case["dirs"]:
        os.makedirs(os.path.join(base, *x), exist_ok=True)
    for x in case["files"]:
        with open(os.path.join(base, *x), "w") as f:
            f.write("# x\n")
    os.chdir(os.path.join(base, *case["cwd"]))

    def spell(sp):
        s = "/".join(([base] if sp["abs"] else []) + sp["path"])
        return s.replace("/", "\\") if sp.get("bs") else s

    def rel(s):
        s = str(s)
        if s == base:
            return []
        if not s.startswith(base + "/"):
            return ["?" + s]
        return s[len(base) + 1:].split("/")

    ev = {"k": "start", **{k: case[k] for k in ("files", "dirs", "cwd", "strict", "ws", "pps")}}
    try:
        given = [spell(p) for p in case["pps"]]
        e = Edk2Path(spell(case["ws"]), {"list": list, "tuple": tuple, "iter": iter}[case.get("listed", "list")](given), case["strict"])
        # neither what was handed over or out nor the current directory plays a part from here on
        given.append("/")
        e.PackagePathList.insert(0, "/")
        if case.get("turn"):
            os.chdir("/")
        ev["obs"] = {"st": "ok", "ws": rel(e.WorkspacePath), "pps": [rel(x) for x in e.PackagePathList]}
    except NotADirectoryError:
        ev["obs"] = {"st": "NotADirectoryError"}
        return [ev]
    evs = [ev]
    files = [list(x) for x in case["files"]]
    for q in case["q"]:
        if q["k"] == "edit":
            for x in q["rm"]:
                os.unlink(os.path.join(base, *x))
                files.remove(x)
            for x in q["add"]:
                with open(os.path.join(base, *x), "w") as f:
                    f.write("# y\n")
                files.append(x)
            evs.append({"k": "edit", "files": [list(x) for x in files], "obs": {"st": "ok"}})
            continue
        st = q.get("style", {})
        o = {k: q[k] for k in ("k", "path")}
        p = q["path"]
        slash = "\\" if st.get("bs") else "/"

        def parts(lead):
            allp = lead + p
            if st.get("parts") and len(p) > 1:
                return [slash.join(lead + p[:1])] + p[1:]
            return [slash.join(allp)]
        try:
            if q["k"] == "rel":
                v = e.GetEdk2RelativePathFromAbsolutePath(*parts(base.split("/")))
                o["obs"] = {"st": "ok", "v": ["none"] if v is None else ["yes", [] if v == "." else v.split("/")]}
            elif q["k"] == "abs":
                v = e.GetAbsolutePathOnThisSystemFromEdk2RelativePath(*parts([]), log_errors=False)
                o["obs"] = {"st": "ok", "v": ["none"] if v is None else ["yes", rel(v)]}
            elif q["k"] == "pkg":
                v = e.GetContainingPackage(parts(base.split("/"))[0])
                o["obs"] = {"st": "ok", "v": ["none"] if v is None else ["yes", [v]]}
            elif q["k"] == "mods":
                v = e.GetContainingModules(parts(base.split("/"))[0])
                o["obs"] = {"st": "ok", "v": sorted(rel(x) for x in v)}
            elif q["k"] == "modsrel":
                v = e.GetContainingModules(slash.join(p))
                o["obs"] = {"st": "ok", "v": [str(x) for x in v]}
        except Exception as x:
            o["obs"] = {"st": "raise", "what": repr(x)[:100]}
        evs.append(o)
    return evs


def classify(case, evs):
    if evs[0]["obs"]["st"] != "ok":
        yield "refused"
        return
    o = evs[0]["obs"]
    roots = [o["ws"]] + o["pps"]

    def below(a, b):
        return a != b and a[:len(b)] == b
    if any(below(a, b) for a in o["pps"] for b in roots):
        yield "nested pp"
    if any(below(a, b) and below(b, c) for a in roots for b in roots for c in roots):
        yield "three nested roots"
    for q, e in zip(case["q"], evs[1:]):
        v = e["obs"].get("v")
        if q.get("style", {}).get("bs"):
            yield "backslash"
        if q["k"] == "rel" and v == ["none"]:
            yield "outside"
        if q["k"] == "abs" and v and v[0] == "yes" and v[1] != o["ws"] + q["path"]:
            yield "shadowed"
        if q["k"] == "mods" and v and v != [q.get("path")]:
            yield "mods found"
        if q["k"] == "pkg" and v and v[0] == "yes":
            yield "pkg found"
        if q["k"] == "edit":
            yield "tree edited"
            continue
        if any(below(q["path"], f) for f in case["files"]):
            yield "below a file"
        if q["k"] == "mods" and q["path"] in roots:
            yield "root asked"
