"""C13: GUID search over a folder honouring gitignore lines (GuidList, gitignore_parser)."""
import os
import uuid

from vf import spell

TRACE = ("GitignoreTrace", "GitignoreTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True
REQUIRED_CLASSES = ["hidden", "negated", "folder hidden", "escaped blank", "ignore file"]
BASE = ["a", "b", "ab"]


def models(tier, pid):
    n = 3 if tier == "quick" else 4
    return [{"module": "GitignoreMC", "cfg": "GitignoreMC.cfg", "consts": {"MaxLen": n}, "min_behaviours": 300,
             "limit": 500 if tier == "quick" else 4000, "what": f"every ignore line of up to {n} characters, alone and before 4 others"}]


def f(path, kind, salt=0):
    g = lambda i: str(uuid.uuid5(uuid.NAMESPACE_URL, "/".join(path) + str(i) + str(salt)))
    r = {"path": path, "kind": kind, "protos": [], "ppis": [], "guids": [], "own": []}
    if kind == "dec":
        r["protos"] = [{"n": "gP%d" % i, "g": g(i)} for i in range(salt % 3)]
        r["ppis"] = [{"n": "gI%d" % i, "g": g(i + 3)} for i in range((salt // 3) % 3)]
        r["guids"] = [{"n": "gG%d" % i, "g": g(i + 6)} for i in range((salt // 9) % 3)]
        r["own"] = [{"n": "Pkg", "g": g(9)}] if salt % 5 else []
    if kind == "inf":
        r["own"] = [{"n": "Mod", "g": g(9)}] if salt % 7 else []
    return r


def from_model(doc, m, pid):
    files = []
    for x in BASE:
        files += [f([x + ".inf"], "inf", 1), f([x, "b.inf"], "inf", 2)]
        for y in BASE[:2]:
            files += [f([x, y, "a.inf"], "inf", 3), f([x, y, "b", "c.dec"], "dec", 11)]
    return [{"lines": doc, "files": files}]


def pat(r):
    seg = lambda: "".join(r.choice(["a", "b", "ab", "*", "?", "[ab]", "[!a]", "[a-c]", "[!a-b]", "A", ".", "x y", "1", "[0-9]", ".inf", "*.dec", "-"]) for _ in range(r.randint(1, 3)))
    segs = [("**" if r.random() < 0.2 else seg()) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
    if r.random() < 0.25:
        segs = [r.choice(["*.dec", "*.inf", "a.inf", "ab", "a", "b", "A*", "*.*"])]
    segs = [s.replace("**", "*") if s != "**" else s for s in segs]
    p = "/".join(segs)
    if r.random() < 0.2:
        p = "/" + p
    if r.random() < 0.25:
        p += "/"
    if r.random() < 0.1:
        p += "  "
    if r.random() < 0.25:
        p = "!" + p
    elif r.random() < 0.08:
        p = r.choice(["# ", "\\#", "\\!", "#"]) + p
    if r.random() < 0.04:
        p = r.choice(["", " ", "!", "/", "**", "*", "**/", "/**", "!*"])
    return p


def gen(rng, tier, pid):
    # two known deviations from git, checked by themselves
    cases = [{"probe": "folder pattern names a file", "lines": ["x/"], "files": [f(["a.inf"], "inf", 1), f(["b", "x", "c.inf"], "inf", 1), f(["x.inf"], "inf", 1)]},
             {"probe": "folder re-included", "lines": ["a/", "!a/"], "files": [f(["a", "b.inf"], "inf", 1), f(["b.inf"], "inf", 1)]},
             {"probe": "folder pattern hits file", "lines": ["a.inf/"], "files": [f(["a.inf"], "inf", 1), f(["b", "x.inf"], "inf", 1)]}]
    r = rng
    for _ in range(550 if tier == "quick" else 6000):
        dirs = [[]]
        for _ in range(r.randint(2, 9)):
            d = r.choice(dirs)
            if len(d) < 4:
                d = d + [r.choice(["a", "b", "ab", "A", "x y", "1", "!a", "#b", ".git", "a.b", "b-c"])]
                if d not in dirs:
                    dirs.append(d)
        files = []
        seen = set()
        for _ in range(r.randint(4, 14)):
            k = r.choice(["inf", "dec", "inf", "txt"])
            n = r.choice(["a", "b", "ab", "A", "a b", "1", "!a", "#b", "x", "1b"])
            ext = {"inf": r.choice([".inf", ".inf", ".INF"]), "dec": r.choice([".dec", ".DEC"]), "txt": r.choice([".txt", "", ".infx", ".h"])}[k]
            p = r.choice(dirs) + [n + ext]
            if tuple(p) in seen or p in dirs:
                continue
            seen.add(tuple(p))
            files.append(f(p, k, r.randrange(200)))
        lines = []
        for _ in range(r.randint(1, 4)):
            lines.append(pat(r))
        if files and r.random() < 0.6:
            p = r.choice(files)["path"]
            q = p[:r.randint(1, len(p))]
            x = r.random()
            s = "/".join(q) if x < 0.4 else q[-1] if x < 0.7 else "/" + "/".join(q) if x < 0.85 else "**/" + q[-1]
            if s[0] in "#!":
                s = "\\" + s
            if q != p and r.random() < 0.4:
                s += "/"
            if r.random() < 0.3:
                s = "!" + s.lstrip("\\")
            lines.insert(r.randint(0, len(lines)), s)
        if r.random() < 0.15:
            # names that end in a blank need an escaped one
            n = r.choice(["x ", "ab ", "x y "])
            files.append(f([n, "q.inf"], "inf", 1))
            files.append(f([n.rstrip(), "r.inf"], "inf", 1))
            lines.append(r.choice(["", "", "/", "!"]) + n[:-1] + r.choice(["\\ ", "\\ ", "\\   ", " ", "\\ /",]))
        cases.append({"lines": lines, "files": files, "via": r.choice(["", "", "beside", "elsewhere"])})
    return cases


def cstruct(g):
    h = g.replace("-", "")
    return "{0x%s, 0x%s, 0x%s, {%s}}" % (h[:8], h[8:12], h[12:16], ", ".join("0x" + h[i:i + 2] for i in range(16, 32, 2)))


def run(case, d):
    from edk2toollib.uefi.edk2.guid_list import GuidList

    base = os.path.join(d, "t")
    os.makedirs(base)
    for x in case["files"]:
        p = os.path.join(base, *x["path"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        out = []
        if x["kind"] == "dec":
            out = ["[Defines]", "DEC_SPECIFICATION = 0x00010005"]
            for o in x["own"]:
                out += ["PACKAGE_NAME = " + o["n"], "PACKAGE_GUID = " + o["g"]]
            for sec, key in (("Guids", "guids"), ("Protocols", "protos"), ("Ppis", "ppis")):
                if x[key]:
                    out.append("[%s]" % sec)
                    out += ["  %s = %s" % (o["n"], cstruct(o["g"])) for o in x[key]]
        elif x["kind"] == "inf":
            out = ["[Defines]", "INF_VERSION = 0x00010005"]
            for o in x["own"]:
                out += ["BASE_NAME = " + o["n"], "FILE_GUID = " + o["g"]]
        else:
            out = ["[Defines]", "BASE_NAME = no", "FILE_GUID = 11111111-1111-1111-1111-111111111111"]
        text = "\n".join(out) + "\n"
        with open(p, "w", newline=spell.ends(text)) as fh:
            fh.write(text)
    lines = list(case["lines"])
    ev = {"k": "start", "lines": case["lines"], "files": case["files"], "strict": "probe" in case}
    try:
        res = GuidList.guidlist_from_filesystem(base, ignore_lines=list(case["lines"]))
        idx = {os.path.join(base, *x["path"]): i for i, x in enumerate(case["files"])}
        out = [[] for _ in case["files"]]
        extra = 0
        for e in res:
            if e.absfilepath in idx:
                out[idx[e.absfilepath]].append({"n": e.name, "g": e.guid})
            else:
                extra += 1
        ev["obs"] = {"st": "ok", "files": out, "extra": extra}
        ev["dirs"] = [list(x) for x in sorted({tuple(x["path"][:k]) for x in case["files"] for k in range(1, len(x["path"]))})]
        ev["via"] = case.get("via", "")
        if ev["via"]:
            # the same lines from an ignore file, asked path by path
            from edk2toollib import gitignore_parser as G

            at = os.path.join(base if ev["via"] == "beside" else d, ".gitignore")
            with open(at, "w", newline=spell.ends("\n".join(lines))) as fh:
                fh.write("\n".join(lines) + "\n" * (len(lines) % 2))
            m = G.parse_gitignore_file(at) if ev["via"] == "beside" else G.parse_gitignore_file(at, base)
            ev["obs"].update(ask=[bool(m(os.path.join(base, *x["path"]))) for x in case["files"]], askdir=[bool(m(os.path.join(base, *x) + "/")) for x in ev["dirs"]],
                             out=bool(m(os.path.join(d, "out", "a.inf"))))
    except Exception as e:
        ev["obs"] = {"st": "raise", "what": repr(e)[:200], "files": [], "extra": 0}
    return [ev]


def classify(case, evs):
    o = evs[0]["obs"]
    if o["st"] != "ok":
        return
    hid = [f for f, g in zip(case["files"], o["files"]) if f["own"] and not g]
    if hid:
        yield "hidden"
    if any(len(f["path"]) > 2 for f in hid):
        yield "folder hidden"
    if any("\\ " in x for x in case["lines"]):
        yield "escaped blank"
    if case.get("via"):
        yield "ignore file"
    if any(x.startswith("!") for x in case["lines"]):
        yield "negated"
