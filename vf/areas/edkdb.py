"""C14: histories of the workspace database (Edk2DB and its tables)."""
import os
import subprocess

from vf import spell

TRACE = ("EdkDbTrace", "EdkDbTrace.cfg")
CASE_SECONDS = 60
REQUIRED_CLASSES = ["parsed twice", "failing table", "reopened", "submodule", "two environments", "bare source filled"]
ARCHS = ["IA32", "X64"]


def models(tier, pid):
    n = 5 if tier == "quick" else 6
    return [{"module": "EdkDbMC", "cfg": "EdkDbMC.cfg", "consts": {"MaxOps": n}, "min_behaviours": 2000, "limit": 200 if tier == "quick" else 4000,
             "what": f"every history of {n} edits, registrations, parses and reopenings over 2 modules and 1 source file"}]


def from_model(doc, m, pid):
    ops = [{"op": "plat", "comps": [], "fv": []}]
    for o in doc:
        o = dict(o)
        if o["op"] == "register":
            o = {"op": "register", "ts": [o["t"]]}
        if o["op"] == "parse":
            o.update(env=[], archs=["X64"])
        ops.append(o)
    return [{"ops": ops}]


def gen(rng, tier, pid):
    return [one(rng) if i % 8 else repos(rng) for i in range(118 if tier == "quick" else 3000)]


def repos(r):
    """Packages of the workspace's own repository and of submodules, and modules inside and outside of packages."""
    subs = [{"name": s, "path": [s]} for s in ("Common", "Feat") if r.random() < 0.85]
    decs = [x for x in ("PkgA", "Common/PkgC", "Feat/PkgD", "Common/PkgE") if r.random() < 0.7]
    ops = [{"op": "git", "base": r.choice(["BASE", "FOO", "BAR"]), "subs": subs}]
    ops += [{"op": "dec", "path": (d + "/P.dec").split("/")} for d in decs]
    for n, d in enumerate(r.sample(["PkgA", "Common/PkgC", "Feat/PkgD", "Common/Lone", "Feat", "Other", "Common2", "Common/PkgE/Sub"], r.randint(3, 6))):
        ops.append({"op": "inf", "i": {"path": (d + "/M%d.inf" % n).split("/"), "name": "M%d" % n, "guid": r.random() < 0.95, "cls": "none",
                                       "mt": r.choice(["PEIM", "DXE_DRIVER"]), "libs": [], "srcs": [(d + "/a.c").split("/")] if r.random() < 0.3 else []}})
    r.shuffle(ops)
    ops.sort(key=lambda o: o["op"] == "git")
    c = [o["i"]["path"] for o in ops if o["op"] == "inf"]
    ops += [{"op": "plat", "comps": c, "fv": r.sample(c, r.randint(0, len(c)))}, {"op": "register", "ts": r.choice([["Pkg", "Inst"], ["Inst", "Pkg"], ["Pkg", "Inst", "Fv"]])}, parse(r)]
    if r.random() < 0.5:
        ops.append(parse(r))
    return {"ops": ops}


def one(r):
    ops = []
    dirs = r.sample(["PkgA", "PkgB", "Common", "Common2", "Common/PkgC", "Feat/PkgD", "PkgA/Sub", "Build/PkgX", "BuildPkg", "Feat/Build", "X"], r.randint(2, 5))
    subs = []
    for s in ("Common", "Feat"):
        if r.random() < 0.4:
            subs.append({"name": r.choice([s, s + "/Repo", "SUB" + s]), "path": s.split("/")})
    infs, srcs = [], []
    decs = set()
    gitted = False
    base = r.choice(["BASE", "FOO", "BAR"])
    k = 0
    seen = {}

    def inf():
        d = r.choice(dirs)
        name = "M%d" % len(infs)
        sp = [x for x in {r.choice([d + "/a%d.c" % r.randint(0, 2), d + "/../s.c", r.choice(dirs) + "/shared.h"]) for _ in range(r.randint(0, 3))}]
        sp = sorted({os.path.normpath(x) for x in sp})
        i = {"path": (d + "/" + name + ".inf").split("/"), "name": name, "guid": r.random() < 0.85, "cls": r.choice(["none", "none", "LibX"]),
             "mt": r.choice(["PEIM", "DXE_DRIVER", "BASE"]), "libs": r.sample(["LibA", "LibB", "LibX"], r.randint(0, 3)), "srcs": [x.split("/") for x in sp]}
        infs.append(i)
        return {"op": "inf", "i": i}

    def src():
        names = [tuple(x) for i in infs for x in i["srcs"]] + [tuple((r.choice(dirs) + "/" + r.choice(["a0.c", "x.h", "t.txt", "s.s", "n.nasm", "q.rs", "C.C"])).split("/"))]
        p = list(r.choice(names))
        known = p[-1].rsplit(".", 1)[-1] in ("c", "h", "cpp", "asm", "s", "nasm", "masm", "rs")
        ls = []
        for _ in range(r.randint(0, 6)):
            ls.append(r.choice(["code", "code", "comment", "blank", "MIT", "BSD-2-Clause-Patent"] if r.random() < 0.5 else ["code", "blank"]))
        if p[-1].rsplit(".", 1)[-1] not in ("c", "h", "rs"):
            ls = ["code" for x in ls]
        ls = [x for k, x in enumerate(ls) if x != "blank" or (k and ls[k - 1] != "blank")]
        if "blank" in ls:
            ls.append("code")
        return {"op": "src", "s": {"path": p, "known": known, "lines": ls}}

    order = [["Env"], ["Inf"], ["Src"], ["Pkg"], ["Inst", "Fv"], ["Inf", "Src"], ["Pkg", "Inst", "Fv"], ["SrcStats"], ["Src", "Inf"], ["Env", "Inst"]]
    tabs = []
    for _ in range(r.randint(8, 22)):
        x = r.random()
        if x < 0.2:
            ops.append(inf())
        elif x < 0.36:
            ops.append(src())
        elif x < 0.46:
            d = r.choice(dirs)
            if os.path.basename(d) not in {os.path.basename(q) for q in decs if q != d}:
                decs.add(d)
                ops.append({"op": "dec", "path": (d + "/" + r.choice(["P.dec", "Q.dec"])).split("/")})
        elif x < 0.53:
            ops.append({"op": "git", "base": base, "subs": subs})
            gitted = True
        elif x < 0.72:
            ts = [t for t in r.choice(order) if t not in tabs or t in ("Inf", "Src", "SrcStats", "Pkg")]
            if not ts:
                continue
            if r.random() < 0.12:
                ts = ts + ["Boom"]
            tabs += ts
            ops.append({"op": "register", "ts": ts})
        elif x < 0.75:
            tabs = []
            ops.append({"op": r.choice(["clear", "reopen"])})
        elif x < 0.82:
            c = [i["path"] for i in infs if i["path"][0] != "Build"]
            c = r.sample(c, r.randint(0, len(c)))
            ops.append({"op": "plat", "comps": c, "fv": r.sample(c, r.randint(0, len(c)))})
        else:
            ops.append(parse(r))
    ops.append({"op": "register", "ts": ["Inf", "Src"] if r.random() < 0.5 else [t for t in ["Env", "Pkg", "Inst", "Fv"] if t not in tabs]})
    ops.append(parse(r))
    if r.random() < 0.5:
        ops.append(parse(r))
    return {"ops": ops}


def parse(r):
    return {"op": "parse", "archs": r.choice([["X64"], ["IA32"], ["IA32", "X64"]]),
            "env": [{"k": k, "v": r.choice(["1", "TRUE", "a b", ""])} for k in r.sample(["FOO", "BAR", "TOOL_CHAIN_TAG"], r.randint(0, 3))]}


CODE = {"code": "int a = 1;", "comment": "// note this text", "blank": ""}


def git(d, *a):
    env = {"PATH": os.environ["PATH"], "HOME": d, "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "x", "GIT_AUTHOR_EMAIL": "x@y", "GIT_COMMITTER_NAME": "x",
           "GIT_COMMITTER_EMAIL": "x@y"}
    return subprocess.run(["git", "-c", "init.defaultBranch=main", "-c", "safe.directory=*", *a], cwd=d, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode().strip()


def run(case, d):
    from edk2toollib.database import Edk2DB, Environment, Fv, Inf, InstancedInf, Library, Package, Repository, Source  # noqa: F401
    from edk2toollib.database import tables as T
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    class Spy(T.TableGenerator):
        def parse(self, session, pathobj, id, env):
            ids.append(id)

    class Boom(T.TableGenerator):
        def parse(self, session, pathobj, id, env):
            session.add(Source(path="partial/" + id))
            session.add(Library(name="partial" + id))
            if len(ids) % 2:
                session.flush()
            raise RuntimeError("boom")

    ids, commits = [], []
    ws = d + "/ws"
    os.makedirs(ws + "/PX")
    git_on = False
    comps, fv = [], []

    def put(p, text):
        p = os.path.join(ws, *p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline=spell.ends(text)) as f:
            f.write(text)

    def make(t):
        return {"Inf": lambda: T.InfTable(n_jobs=1), "Src": lambda: T.SourceTable(n_jobs=1), "SrcStats": lambda: T.SourceTable(n_jobs=1, source_stats=True),
                "Pkg": T.PackageTable, "Env": T.EnvironmentTable, "Inst": T.InstancedInfTable, "Fv": T.InstancedFvTable, "Boom": Boom}[t]()

    path = Edk2Path(ws, [])
    dbfile = d + "/db.sqlite"
    db = Edk2DB(dbfile, pathobj=path)
    db.register(Spy())
    evs = [{"k": "start"}]
    sp = lambda x: x.split("/")
    none = lambda x: "none" if x is None else x
    num = lambda x: -1 if x is None else x
    for o in case["ops"]:
        ev = {k: v for k, v in o.items() if k != "op"}
        ev["k"] = o["op"]
        if o["op"] == "inf":
            i = o["i"]
            t = ["[Defines]", "  BASE_NAME = " + i["name"], "  MODULE_TYPE = " + i["mt"]]
            if i["guid"]:
                t.append("  FILE_GUID = 12345678-1234-1234-1234-1234567890AB")
            if i["cls"] != "none":
                t.append("  LIBRARY_CLASS = " + i["cls"])
            t += ["[Sources]"] + ["  " + os.path.relpath("/".join(s), "/".join(i["path"][:-1])) for s in i["srcs"]]
            t += ["[LibraryClasses]"] + ["  " + x for x in i["libs"]]
            put(i["path"], "\n".join(t) + "\n")
        elif o["op"] == "src":
            put(o["s"]["path"], "".join(CODE.get(x, "// SPDX-License-Identifier: " + x) + "\n" for x in o["s"]["lines"]))
        elif o["op"] == "dec":
            put(o["path"], "[Defines]\n  PACKAGE_NAME = x\n")
        elif o["op"] == "git":
            if not git_on:
                git(ws, "init", "-q")
                if o["base"] != "BASE":
                    git(ws, "remote", "add", r_name(o["base"]), "https://example.com/x/%s.git" % o["base"].lower())
                if o["subs"]:
                    put([".gitmodules"], "".join('[submodule "%s"]\n\tpath = %s\n\turl = https://example.com/%s\n' % (s["name"], "/".join(s["path"]), s["name"]) for s in o["subs"]))
                    git(ws, "add", ".gitmodules")
                    for s in o["subs"]:
                        git(ws, "update-index", "--add", "--cacheinfo", "160000," + "1" * 40 + "," + "/".join(s["path"]))
                git_on = True
            git(ws, "commit", "-q", "--allow-empty", "-m", "c%d" % len(commits))
            commits.append(git(ws, "rev-parse", "HEAD"))
        elif o["op"] == "plat":
            comps, fv = o["comps"], o["fv"]
        elif o["op"] == "register":
            db.register(*[make(t) for t in o["ts"]])
        elif o["op"] == "clear":
            db.clear_parsers()
            db.register(Spy())
        elif o["op"] == "reopen":
            db.engine.dispose()
            db = Edk2DB(dbfile, pathobj=path)
            db.register(Spy())
        elif o["op"] == "parse":
            put(["PX", "p.dsc"], "[Defines]\n  SUPPORTED_ARCHITECTURES = IA32|X64\n[Components]\n" + "".join("  " + "/".join(c) + "\n" for c in comps))
            put(["PX", "p.fdf"], "[FV.MAIN]\n  BlockSize = 0x1000\n" + "".join("  INF " + "/".join(c) + "\n" for c in fv))
            env = {"ACTIVE_PLATFORM": "PX/p.dsc", "FLASH_DEFINITION": "PX/p.fdf", "TARGET": "DEBUG", "TARGET_ARCH": " ".join(o["archs"])}
            env.update({x["k"]: x["v"] for x in o["env"]})
            ev["env"] = [{"k": k, "v": v} for k, v in env.items()]
            try:
                db.parse(env)
                raised = False
                what = ""
            except RuntimeError as e:
                raised = str(e) == "boom"
                what = repr(e)[:200]
            idn = {x: i + 1 for i, x in enumerate(ids)}
            vers = {x: i + 1 for i, x in enumerate(commits)}
            vers["UNKNOWN"] = 0
            with db.session() as s:
                ev["obs"] = {
                    "raised": raised, "what": what,
                    "infs": [{"path": sp(x.path), "cls": none(x.library_class), "mt": none(x.module_type), "pkg": none(x.package_name),
                              "srcs": [sp(y.path) for y in x.sources], "libs": [y.name for y in x.libraries]} for x in s.query(Inf).all()],
                    "srcs": [{"path": sp(x.path), "row": {"lic": none(x.license), "total": num(x.total_lines), "code": num(x.code_lines), "com": num(x.comment_lines),
                                                          "blank": num(x.blank_lines)}} for x in s.query(Source).all()],
                    "pkgs": [{"name": x.name, "path": sp(x.path), "repo": {"name": x.repository.name, "path": sp(x.repository.path) if x.repository.path else []}} for x in s.query(Package).all()],
                    "repos": [{"name": x.name, "path": sp(x.path) if x.path else []} for x in s.query(Repository).all()],
                    "inst": [{"env": idn.get(x.env, -1), "path": sp(x.path), "arch": x.arch, "mtname": x.name, "repo": none(x.repository and x.repository.name),
                              "pkg": none(x.package and x.package.name), "srcs": [sp(y.path) for y in x.sources]} for x in s.query(InstancedInf).all()],
                    "fvs": [{"env": idn.get(x.env, -1), "infs": [sp(y.path) if y.env == x.env else ["other environment"] for y in x.infs]} for x in s.query(Fv).all()],
                    "envs": [{"n": idn.get(x.id, -1), "ver": vers.get(x.version, -1), "vals": [{"k": v.key, "v": v.value} for v in x.values]} for x in s.query(Environment).all()],
                }
        evs.append(ev)
    db.engine.dispose()
    return evs


def r_name(base):
    return "origin" if base == "FOO" else "upstream"


def classify(case, evs):
    ps = [e for e in evs if e["k"] == "parse"]
    if len(ps) > 1:
        yield "parsed twice"
    if any(e["obs"]["raised"] for e in ps):
        yield "failing table"
    if any(o["op"] == "reopen" for o in case["ops"]):
        yield "reopened"
    if not ps:
        return
    o = ps[-1]["obs"]
    if any(x["repo"]["path"] for x in o["pkgs"]):
        yield "submodule"
    if len({x["env"] for x in o["inst"]}) > 1:
        yield "two environments"
    bare = set()
    for e in ps:
        now = {tuple(x["path"]) for x in e["obs"]["srcs"] if x["row"]["total"] == -1}
        if bare - now:
            yield "bare source filled"
        bare = now
