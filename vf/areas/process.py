"""C22: running commands and scripts, signing tools, removing trees (utility_functions.py)."""

import io
import json
import logging
import os
import re
import stat
import sys
import warnings

TRACE = ("ProcessTrace", "ProcessTrace.cfg")
CASE_SECONDS = 25
KEEP_LOGGING = True
REQUIRED_CLASSES = ["captured", "not captured", "much output", "undecodable", "raised", "script on the path", "script in the current directory", "no script",
                    "spaces", "removed", "not removed", "retried", "link", "signed", "not signed"]

CHILD = """#!{py} -ISE
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(here + "/spec.json"))
with open(c["report"], "w") as f:
    json.dump({{"args": sys.argv[1:], "cwd": os.getcwd(), "mark": os.environ.get("VF_MARK"), "me": here}}, f)
for i, x in enumerate(c["lines"]):
    b = (x["s"].encode() + (b"\\xff" if x["bad"] else b"") + (b"\\n" if x["nl"] else b"")) * x["n"]
    fd = 1 + (i % 2 if c["both"] else 0)
    while b:
        b = b[os.write(fd, b):]
sys.exit(c["rc"])
"""
SIGNER = """#!{py} -ISE
import json, os, sys
with open({report!r}, "w") as f:
    json.dump({{"args": sys.argv[1:], "cwd": os.getcwd()}}, f)
if {made!r}:
    with open({made!r}, "w") as f:
        f.write("signature")
sys.exit({rc})
"""


def models(tier, pid):
    return [{"module": "ProcessMC", "cfg": "ProcessMC.cfg", "consts": {"MaxLines": 3, "Room": 2} if tier == "quick" else {"MaxLines": 5, "Room": 3},
             "min_behaviours": 100, "what": "every interleaving of command, pipe, reader thread and caller; each configuration is replayed with output below and above the size of a pipe"}]


def from_model(doc, m, pid):
    return [{"do": "run", "c": cfg(cap=doc["cap"], lines=[dict(x, n=n if i == k else 1) for i, x in enumerate(doc["lines"])], errs=doc["errs"], rc=doc["rc"],
                                   **{"raise": doc["raise"]})}
            for n, k in ([(1, 0), (20000, 0)] + ([(20000, len(doc["lines"]) - 1)] if len(doc["lines"]) > 1 else []))]


def cfg(**kw):
    c = {"cap": True, "lines": [], "errs": "strict", "rc": 0, "raise": False, "args": [], "wd": "", "env": "none", "stream": True, "file": True, "both": False,
         "level": 20, "quoted": False, "dir": "bin", "how": "abs", "places": [], "path": []}
    c.update(kw)
    if not c["cap"]:
        c["stream"] = c["file"] = False
    return c


WORDS = ["x", "-v", "a=b", "two words", "--opt", "a;b", "a'b", "/x/y", "#c", "a|b", "*", "~"]


def gen(rng, tier, pid):
    r = rng
    cases = []
    for _ in range(130 if tier == "quick" else 1500):
        lines = []
        for i in range(r.choice([0, 1, 2, 3, 5])):
            s = r.choice(["o:", "o: x  ", "o:\té", "o:" + "y" * 200, "o:%s %d", "", "   "])
            s = s + (f"{i}" if s.strip() and not s.endswith(" ") else "")
            lines.append({"s": s, "n": r.choice([1, 1, 1, 2, 9, 6000]), "bad": s.strip() != "" and r.random() < 0.08, "nl": True})
        if lines and r.random() < 0.3:
            lines[-1].update(nl=False, n=1)
            if lines[-1]["s"] == "":
                lines[-1]["s"] = "o:z"
        if lines and r.random() < 0.06:
            # one line longer than any buffer, with characters of several bytes
            lines[-1] = {"s": "o:" + r.choice(["é", "yé", "y中"]) * r.choice([5000, 40000, 70001]) + "z", "n": 1, "bad": False, "nl": r.random() < 0.7}
        c = cfg(cap=r.random() < 0.8, lines=lines, errs=r.choice(["strict", "replace", "ignore", "backslashreplace"]), rc=r.choice([0, 0, 1, 3, 255]),
                **{"raise": r.random() < 0.4}, args=[r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 4]))], wd=r.choice(["", "work", "w d"]),
                env=r.choice(["none", "none", "mark", "empty"]), stream=r.random() < 0.8, file=r.random() < 0.6, both=r.random() < 0.4,
                level=r.choice([10, 20, 20, 30]), quoted=r.random() < 0.4, dir=r.choice(["bin", "b in", "sub/bin"]))
        if r.random() < 0.55:
            if c["errs"] != "strict":
                c["errs"] = "strict"
            for x in c["lines"]:
                x["bad"] = False
            c["how"] = r.choice(["abs", "name", "name", "name"])
            c["places"] = sorted(x for x in ["abs", "cur", "p1", "p2", "p 3", "work"] if r.random() < (0.8 if x == "abs" else 0.25 if x == "cur" else 0.55))
            c["path"] = r.sample(["p1", "p2", "p 3", "none"], r.choice([1, 2, 3, 4]))
            c["dir"] = r.choice(["bin", "b in"])
            cases.append({"do": "script", "c": c})
        else:
            cases.append({"do": "run", "c": c})
    for k, unit in enumerate(["é", "yé", "y中"]):
        long = {"s": "o:" + unit * r.choice([66001, 70001, 150000]) + "z", "n": 1, "bad": False, "nl": k != 1}
        cases.append({"do": "run", "c": cfg(cap=True, lines=[{"s": "o:x", "n": 2, "bad": False, "nl": True}, long], file=True)})
    for _ in range(100 if tier == "quick" else 1500):
        n = r.choice([0, 1, 2, 3, 5])
        fails = [r.choice([0, 0, 0, 1, 2, 3, 4, 5, 99]) if r.random() < 0.5 else 0 for _ in range(n)]
        cases.append({"do": "remove", "c": {"there": r.random() < 0.93, "ignore": r.random() < 0.15, "fails": fails, "links": r.sample(["file", "dir", "loop"], r.choice([0, 1, 2])), "lfails": r.choice([0, 0, 0, 1, 2, 3]),
                                            "deep": r.choice([0, 1, 3]), "ro": r.random() < 0.4, "seed": r.randrange(10**6)}})
    for _ in range(40 if tier == "quick" else 300):
        sp = lambda a: r.choice([a, a, a + " x"])
        cases.append({"do": "sign", "c": {"kind": r.choice(["detached", "catalog"]), "tool": r.random() < 0.9, "dir": sp("kit"), "rc": r.choice([0, 0, 0, 1, 2]),
                                          "made": r.random() < 0.8, "oid": r.choice(["1.2.840.113549.1.7.2", "1.2.3"]), "eku": r.choice(["", "1.3.6.1"]),
                                          "pass": r.choice(["", "secret"]), "out": sp("out"), "pfx": sp("key.pfx"), "file": sp("image")}})
    return cases


def rle(text):
    """Runs of equal lines."""
    res = []
    parts = text.split("\n")
    for i, s in enumerate(parts):
        nl = i < len(parts) - 1
        if not nl and s == "":
            break
        s = s.replace("\ufffd", "<FFFD>")
        if res and nl and res[-1]["nl"] and res[-1]["s"] == s:
            res[-1]["n"] += 1
        else:
            res.append({"s": s, "n": 1, "nl": nl})
    return res


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.recs = []

    def emit(self, rec):
        self.recs.append(rec)


def run_cmd(case, d):
    from edk2toollib import utility_functions as U

    c = case["c"]
    report = d + "/report.json"

    def put(where, name):
        os.makedirs(where, exist_ok=True)
        p = where + "/" + name
        with open(p, "w") as f:
            f.write(CHILD.format(py=sys.executable))
        os.chmod(p, 0o755)
        with open(where + "/spec.json", "w") as f:
            json.dump({"report": report, "lines": c["lines"], "rc": c["rc"], "both": c["both"]}, f)
        return p

    places = {"abs": d + "/" + c["dir"], "cur": d + "/cur", "work": d + "/work", "p1": d + "/p1", "p2": d + "/p2", "p 3": d + "/p 3", "none": d + "/none", "w d": d + "/w d"}
    for x in places.values():
        if x != d + "/none":
            os.makedirs(x, exist_ok=True)
    os.chdir(places["cur"])
    name = "child.py" if " " not in c["dir"] else "the child.py"
    env = {"none": None, "mark": {"VF_MARK": "given", "PATH": "/usr/bin:/bin"}, "empty": {"PATH": "/usr/bin:/bin"}}[c["env"]]
    out = io.StringIO() if c["stream"] or not c["cap"] else None
    outfile = d + "/out.txt" if c["file"] or not c["cap"] else None
    params = " ".join('"' + x + '"' for x in c["args"])
    h = Records()
    root = logging.getLogger()
    old = root.level
    root.addHandler(h)
    root.setLevel(1)
    oldpath = os.environ.get("PATH")
    os.environ["VF_MARK"] = "parent"
    kw = dict(capture=c["cap"], workingdir=places[c["wd"]] if c["wd"] else None, outfile=outfile, outstream=out, environ=env, logging_level=c["level"],
              raise_exception_on_nonzero=c["raise"])
    try:
        if case["do"] == "run":
            cmd = put(places["abs"], name)
            if c["quoted"]:
                cmd = '"' + cmd + '"'
            try:
                res = "rc %d" % U.RunCmd(cmd, params if c["args"] else None, encodingErrors=c["errs"], **kw)
            except Exception:
                res = "raise"
        else:
            for x in c["places"]:
                put(places[x], name)
            cmd = places["abs"] + "/" + name if c["how"] == "abs" else name
            if c["quoted"]:
                cmd = '"' + cmd + '"'
            os.environ["PATH"] = os.pathsep.join([places[x] for x in c["path"]] + ["/usr/bin", "/bin"])
            try:
                res = "rc %d" % U.RunPythonScript(cmd, params, **kw)
            except Exception:
                res = "raise"
    finally:
        os.environ["PATH"] = oldpath
        os.environ.pop("VF_MARK", None)
        root.removeHandler(h)
        root.setLevel(old)
    obs = {"res": res, "stream": [] if out is None else rle(out.getvalue()), "file": [], "seen": {}, "ran": ""}
    if outfile and os.path.exists(outfile):
        with open(outfile, newline="") as f:
            obs["file"] = rle(f.read())
    texts = {x["s"].strip() for x in c["lines"]}
    logs = [x for x in h.recs if x.getMessage().startswith("o:")]
    obs["log"] = rle("".join(x.getMessage() + "\n" for x in logs))
    obs["level"] = all(x.levelno == c["level"] for x in logs)
    del texts
    if os.path.exists(report):
        with open(report) as f:
            s = json.load(f)
        back = {os.path.realpath(v): k for k, v in places.items()}
        obs["ran"] = back.get(os.path.realpath(s["me"]), s["me"])
        obs["seen"] = {"args": s["args"], "cwd": back.get(os.path.realpath(s["cwd"]), s["cwd"]), "mark": s["mark"] or "unset"}
    return [{"k": "start", "do": case["do"], "c": brief(c), "obs": brief(obs)}]


def brief(x):
    """Long texts by their repetitions (equal texts stay equal, different ones different)."""
    if isinstance(x, str):
        return x if len(x) < 4000 else re.sub(r"(.{1,2}?)\1{999,}", lambda m: "<%s * %d>" % (m[1], len(m[0]) // len(m[1])), x, flags=re.S)
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    return [brief(v) for v in x] if isinstance(x, list) else x


def run_remove(case, d):
    import random

    from edk2toollib import utility_functions as U

    c = case["c"]
    rng = random.Random(c["seed"])
    tree, outside = d + "/base/tree", d + "/base/other"
    for x in (outside, outside + "/sub"):
        os.makedirs(x)
        with open(x + "/keep", "w") as f:
            f.write("keep")
    fails = {}
    links = []
    if c["there"]:
        os.makedirs(tree)
        dirs = [tree]
        for i in range(c["deep"]):
            dirs.append(rng.choice(dirs) + f"/d{i}")
            os.makedirs(dirs[-1])
        for i, n in enumerate(c["fails"]):
            p = rng.choice(dirs) + f"/f{i}"
            with open(p, "w") as f:
                f.write("x")
            if c["ro"]:
                os.chmod(p, stat.S_IREAD)
            fails[f"f{i}"] = n
        for x in c["links"]:
            p = rng.choice(dirs) + "/l" + x
            os.symlink({"file": outside + "/keep", "dir": outside, "loop": tree}[x], p)
            fails["l" + x] = c.get("lfails", 0)
            links.append(p)
    real_unlink, real_remove = os.unlink, os.remove
    before = snapshot(outside)

    def flaky(path, *a, _real=real_unlink, **kw):
        b = os.path.basename(os.fsdecode(path))
        if fails.get(b, 0) > 0:
            if fails[b] < 99:
                fails[b] -= 1
            raise PermissionError(13, "in use", path)
        return _real(path, *a, **kw)

    raised = False
    os.unlink = os.remove = flaky
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            logging.disable(logging.CRITICAL)
            U.RemoveTree(tree, ignore_errors=c["ignore"])
    except Exception:
        raised = True
    finally:
        logging.disable(logging.NOTSET)
        os.unlink, os.remove = real_unlink, real_remove
    obs = {"raised": raised, "gone": not os.path.lexists(tree), "outside": snapshot(outside) == before and os.path.isdir(d + "/base"), "links": True}
    c2 = dict(c, fails=c["fails"] + [c.get("lfails", 0)] * len(c["links"]) if c["there"] else c["fails"])
    return [{"k": "start", "do": "remove", "c": c2, "obs": obs}]


def snapshot(top):
    res = []
    for r, ds, fs in os.walk(top):
        for x in sorted(ds + fs):
            st = os.lstat(r + "/" + x)
            res.append((r, x, st.st_mode, st.st_size))
    return sorted(res)


def run_sign(case, d):
    from edk2toollib import utility_functions as U

    c = case["c"]
    os.makedirs(d + "/" + c["dir"])
    outdir = d + "/" + c["out"]
    os.makedirs(outdir)
    os.makedirs(d + "/in")
    file, pfx, final = d + "/in/" + c["file"], d + "/" + c["pfx"], outdir + "/final.p7"
    made = outdir + "/" + c["file"] + ".p7" if c["made"] else ""
    tool, report = d + "/" + c["dir"] + "/signtool", d + "/report.json"
    if c["tool"]:
        with open(tool, "w") as f:
            f.write(SIGNER.format(py=sys.executable, report=report, made=made, rc=c["rc"]))
        os.chmod(tool, 0o755)
    logging.disable(logging.CRITICAL)
    try:
        if c["kind"] == "detached":
            res = U.DetachedSignWithSignTool(tool, file, final, pfx, PfxPass=c["pass"] or None, Oid=c["oid"], Eku=c["eku"] or None)
        else:
            res = U.CatalogSignWithSignTool(tool, file, pfx, PfxPass=c["pass"] or None)
        res = "rc %d" % res
    except Exception:
        res = "raise"
    finally:
        logging.disable(logging.NOTSET)
    obs = {"res": res, "args": [], "cwd": False, "moved": os.path.isfile(final) and not (made and os.path.exists(made))}
    if os.path.exists(report):
        with open(report) as f:
            s = json.load(f)
        obs["args"] = s["args"]
        obs["cwd"] = os.path.realpath(s["cwd"]) == os.path.realpath(d + "/in")
    c2 = dict(c, out=outdir, pfx=pfx, file=file)
    return [{"k": "start", "do": "sign", "c": c2, "obs": obs}]


def run(case, d):
    return {"run": run_cmd, "script": run_cmd, "remove": run_remove, "sign": run_sign}[case["do"]](case, os.path.realpath(d))


def classify(case, events):
    t, c, o = set(), case["c"], events[0]["obs"]
    if case["do"] in ("run", "script"):
        t.add("captured" if c["cap"] else "not captured")
        if any(x["n"] > 5000 for x in c["lines"]):
            t.add("much output")
        if any(x["bad"] for x in c["lines"]) and c["cap"] and c["errs"] == "strict":
            t.add("undecodable")
        if o["res"] == "raise":
            t.add("raised")
        if " " in c["dir"]:
            t.add("spaces")
        if case["do"] == "script":
            t.add({"cur": "script in the current directory", "": "no script", "abs": "script by path"}.get(o["ran"], "script on the path"))
    elif case["do"] == "remove":
        t.add("removed" if o["gone"] else "not removed")
        if any(1 < n < 99 for n in c["fails"]) and o["gone"] and not o["raised"]:
            t.add("retried")
        if c["links"]:
            t.add("link")
    else:
        t.add("signed" if o["res"] == "rc 0" else "not signed")
    return t
