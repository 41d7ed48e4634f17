"""C28: INF and catalog files of firmware capsules (windows/capsule)."""

import datetime
import json
import os
import stat

TRACE = ("InfFileTrace", "InfFileTrace.cfg")
CASE_SECONDS = 30
SAME_DIR = True
REQUIRED_CLASSES = ["refused", "one", "rollback", "integrity", "set after refusal", "many", "several firmwares", "replaced firmware", "shared file", "other os", "catalog", "failed catalog", "no tool", "no catalog file"]
G = ["34e094e9-4079-44cd-9450-3f2cb7824c97", "34E094E9-4079-44CD-9450-3F2CB7824C98", "{34e094e9-4079-44cd-9450-3f2cb7824c99}", "urn:uuid:34e094e9-4079-44cd-9450-3f2cb7824c9a", "34e094e9407944cd94503f2cb7824c9b",
     "00000000-0000-0000-0000-000000000000"]
BADG = ["", "4e094e9-4079-44cd-9450-3f2cb7824c97", "34e094e9-4079-44cd-9450-3f2cb7824c9g", "34e094e9-4079-44cd-9450-3f2cb7824c97a", "x"]
NAMES = ["Test", "Test-1", "test_Name", "A", "Fw0", "0"]
BADN = ["a b", "a.b", "a\n", "a;", "a%b", "a/b", "(a)", "a\t", "{a}"]
FILES = ["Firmware1234.bin", "a-b_c.d.bin", "x.cap", "i.bin", "noext", ".hidden"]
BADF = ["Who Names?.bin", "a/b.bin", "x.bin\n", "a b", "a\\b", "$x"]
TEXTS = ["Prov", "Firmware Provider (R)", "{Name}", "{0} {}", "a=b", "x;y", "50% off", "[Section]", "  padded  ", "", "é漢", "\\path\\"]
VERS = ["1.2", "1.2.3.4", "aa.bb", "4.15.80.0", "1.0.0"]
BADV = ["", "1", "1234", "1.2.3.4.5", "this is not good"]
ARCHS = ["amd64", "x64", "arm", "arm64", "aarch64", "AMD64", "X64", "Arm64", "AArch64"]
BADA = ["", "ia32", "x86", "amd 64", "arm6", "foobar"]
OSS = ["10.0", "10.0...17763", "10.0.1", "10.0.22000...1", " 10.0...22000 ", "10.0...22000\n", "\t10.0"]
BADO = ["", "10", "10.1", "11.0", "10.0...", "10.0..1", "10.0.", "10.0.x", "10.0...1.2", "bad_version", "10.0.1..2", "110.0"]


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "InfFileMC", "cfg": "InfFileMC.cfg", "consts": {"MaxOps": 2 if q else 3}, "min_behaviours": 5000, "limit": 1500 if q else 30000,
             "what": "every short history of firmware added to an INF file and of attributes set, numbers and dates around their limits"}]


NEW1 = {"op": "one", "name": "Test-1", "provider": "Prov", "arch": "X64", "desc": "D", "guid": G[0], "version": "1.2.3", "hex": "0x10"}
NEWM = {"op": "many", "name": "Test_2", "version": "1.2.3.4", "date": "2/29/2024", "provider": "P", "mfg": "M", "arch": "aarch64", "disk": "-", "os": "-"}


def from_model(doc, m, pid):
    if doc["kind"] == "day":
        return [{"ops": [{**NEWM, "date": "/".join(str(x) for x in doc["ops"])}, {**NEWM, "date": "/".join("%02d" % x for x in doc["ops"])}]}]
    if doc["kind"] == "many":
        ops = [dict(o) for o in doc["ops"]]
        return [{"ops": [{**NEWM, "os": doc["os"]}, *ops, {"op": "text"}]}]
    ops = [dict(o) for o in doc["ops"]]
    return [{"ops": [NEW1, {"op": "set", "a": "date", "v": "01/02/2024"}, *ops, {"op": "make", "file": "d/f.bin", "rollback": len(str(ops)) % 2 == 0}]}]


def number(r):
    v = r.choice([0, 1, 9, 10, 255, 256, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0xFFFFFFFFF, r.getrandbits(32), r.getrandbits(20), r.getrandbits(34)])
    x = r.random()
    if x < 0.4:
        return str(v)
    if x < 0.8:
        return ("0x%x" if x < 0.6 else "0X%08X") % v
    return r.choice(["-1", "-0x10", "0", "00", "+5", "", "abc", "0x", "012", "1.0", "0xG", "-0", "FF", "0b101", "1_0", " 7"])


def pick(r, good, bad, p=0.06):
    return r.choice(bad) if r.random() < p else r.choice(good)


def firmware(r):
    f = pick(r, FILES, BADF)
    i = r.choice(["-", "-", pick(r, [x for x in FILES if x != f], BADF, 0.15)])  # a file that is its own integrity file is not decided
    return {"op": "fw", "tag": pick(r, ["Firmware0", "Firmware1", "Fw-2", "A", "B_3"], BADN), "desc": r.choice(TEXTS), "guid": pick(r, G, BADG), "ver": number(r) if r.random() < 0.2 else str(r.getrandbits(32)),
            "file": f, "integ": "-" if i == f else i, "rollback": r.random() < 0.4}


def gen(rng, tier, pid):
    r, out = rng, []
    n = 1 if tier == "quick" else 9
    for _ in range(300 * n):
        bad = 0.04
        new = {"op": "one", "name": pick(r, NAMES, BADN, bad), "provider": r.choice(TEXTS), "arch": pick(r, ARCHS, BADA, bad), "desc": r.choice(TEXTS), "guid": pick(r, G, BADG, bad), "version": pick(r, VERS, BADV, bad), "hex": number(r) if r.random() < 0.3 else hex(r.getrandbits(32))}
        ops = [new, {"op": "set", "a": "date", "v": "%02d/%02d/%04d" % (r.randrange(1, 13), r.randrange(1, 29), r.choice([1999, 2024, 2030]))}]
        integ = "-"
        for _ in range(r.choice([0, 1, 3, 6])):
            a = r.choice(["name", "guid", "arch", "version", "hex", "date", "baddate", "provider", "mfg", "desc", "integ"])
            v = {"name": lambda: pick(r, NAMES, BADN, 0.4), "guid": lambda: pick(r, G, BADG, 0.4), "arch": lambda: pick(r, ARCHS, BADA, 0.4), "version": lambda: pick(r, VERS, BADV, 0.4), "hex": lambda: number(r),
                 "date": lambda: "%02d/%02d/2024" % (r.randrange(1, 13), r.randrange(1, 29)), "baddate": lambda: "01/01/2024", "integ": lambda: r.choice(["Integ.bin", "-", "I2.bin"])}.get(a, lambda: r.choice(TEXTS[:11]))()
            if a == "mfg" and v == "-":
                v = "M"
            ops.append({"op": "set", "a": a, "v": v})
        for _ in range(r.choice([1, 1, 2])):
            ops.append({"op": "make", "file": r.choice(["f.bin", "d/f.bin", "/x/y z/Fw 1.bin", "../f.cap"]), "rollback": r.random() < 0.5})
        out.append({"ops": ops})
    for _ in range(300 * n):
        new = {"op": "many", "name": pick(r, NAMES, BADN, 0.03), "version": pick(r, VERS, BADV, 0.03), "date": pick(r, ["01/01/2021", "1/2/2021", "12/31/1999", "02/29/2024", "2/9/2400"], ["foobar", "", "02/29/2023", "13/01/2021", "1/32/2021", "2021/01/01", "1/1/21", "2/29/1900", "0/1/2020"], 0.04),
               "provider": r.choice(TEXTS), "mfg": r.choice(TEXTS), "arch": pick(r, ARCHS, BADA, 0.03), "disk": r.choice(["-", "Disk", "My {Disk}"]), "os": "-" if r.random() < 0.5 else pick(r, OSS, BADO, 0.15)}
        ops = [new]
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            x = r.random()
            if x < 0.75:
                ops.append(firmware(r))
            elif x < 0.87:
                ops.append({"op": "src", "file": pick(r, FILES, BADF, 0.3)})
            else:
                ops.append({"op": "str", "w": r.choice(["loc", "non"]), "key": pick(r, ["Extra", "Provider", "REG_DWORD", "Dir_1", "a-b"], ["foo bar", "NotAllowed;", "", "x\n", "a=b"], 0.4), "v": r.choice(TEXTS[:8])})
            if r.random() < 0.2:
                ops.append({"op": "text"})
        ops.append({"op": "text"})
        out.append({"ops": ops})
    for _ in range(25 * n):
        oss = ["win10", "10", "10_AU", "10_rs2", "10_RS3", "10_rs4", "10_RS5", "10_19H1", "10_vb", "10_CO", "10_NI", "Server10", "SERVER2016", "serverRS2", "ServerRS3", "serverrs4"]
        ops = []
        for _ in range(20):
            ops.append({"op": "cat", "arch": pick(r, ARCHS, BADA, 0.1), "os": pick(r, oss, ["", "win7", "10_RS6", "server", "Invalid Junk", "11"], 0.1)})
            if r.random() < 0.5:
                a = r.choice(["arch", "os"])
                ops.append({"op": "catset", "a": a, "v": pick(r, ARCHS if a == "arch" else oss, BADA if a == "arch" else ["win7", ""], 0.4)})
        for _ in range(2):
            ops.append({"op": "cat", "arch": r.choice(ARCHS), "os": r.choice(oss)})
            ops.append({"op": "makecat", "tool": r.random() < 0.85, "code": r.choice([0, 0, 0, 1, 2, 255]), "makes": r.random() < 0.75, "folder": r.choice(["out", "out dir", "o/u/t"]), "where": r.choice(["bin", "b in"])})
        out.append({"ops": ops})
    return out


def classify(case, events):
    fws, bad = {}, False
    for e in events[1:]:
        o = e["obs"]
        k = e["k"]
        if k != "makecat" and not o["ok"]:
            yield "refused"
            bad = k == "set"
            continue
        if k == "set" and bad:
            yield "set after refusal"
        if k == "make":
            yield "one"
            if e["rollback"]:
                yield "rollback"
            if any("FirmwareIntegrityFilename" in x for s in o["secs"] for x in s["lines"]):
                yield "integrity"
        if k == "fw":
            if e["tag"] in fws:
                yield "replaced firmware"
            if e["file"] in fws.values():
                yield "shared file"
            fws[e["tag"]] = e["file"]
        if k == "many" and e["os"] != "-":
            yield "other os"
        if k == "text":
            yield "several firmwares" if len(fws) > 1 else "many"
        if k == "makecat":
            yield "catalog" if o["ok"] else "no tool" if not e["tool"] else "failed catalog" if e["code"] else "no catalog file"


def read(text):
    secs = []
    for t in text.split("\n"):
        t = t.strip()
        if not t or t.startswith(";"):
            continue
        if t.startswith("[") and t.endswith("]"):
            secs.append({"h": t[1:-1], "lines": []})
            continue
        if "=" in t:
            k, v = t.split("=", 1)
            t = k.strip() + "=" + v.strip()
        secs[-1]["lines"].append(t)
    return secs


def attrs(g):
    return {"ok": True, "name": g.Name, "provider": g.Provider, "mfg": g.Manufacturer, "guid": g.EsrtGuid, "arch": g.Arch, "desc": g.Description, "version": g.VersionString, "hex": g.VersionHex, "date": g.Date, "integ": g.IntegrityFilename}


def date(s):
    m, d, y = s.split("/")
    return datetime.date(int(y), int(m), int(d))


def put(g, a, v):
    if a == "date":
        g.Date = date(v)
    elif a == "baddate":
        g.Date = v
    elif a == "integ":
        g.IntegrityFilename = None if v == "-" else v
    else:
        setattr(g, {"name": "Name", "guid": "EsrtGuid", "arch": "Arch", "version": "VersionString", "hex": "VersionHex", "provider": "Provider", "mfg": "Manufacturer", "desc": "Description"}[a], v)


TOOL = """#!/opt/venv/bin/python
import json, os, sys
with open({log!r}, "a") as f:
    f.write(json.dumps({{"args": sys.argv[1:], "cwd": os.getcwd()}}) + "\\n")
if {makes!r}:
    open({out!r}, "w").close()
sys.exit({code})
"""


def makecat(g, o, d, i):
    base = os.path.join(d, str(i))
    folder = os.path.join(base, o["folder"])
    where = os.path.join(base, o["where"])
    os.makedirs(folder)
    os.makedirs(where)
    log, cat, tool = os.path.join(base, "log"), os.path.join(folder, "x.cat"), os.path.join(where, "Inf2Cat.exe")
    if o["tool"]:
        with open(tool, "w") as f:
            f.write(TOOL.format(log=log, makes=o["makes"], out=cat, code=o["code"]))
        os.chmod(tool, os.stat(tool).st_mode | stat.S_IXUSR)
    try:
        obs = {"ok": True, "ret": g.MakeCat(cat, tool)}
    except Exception:
        obs = {"ok": False, "ret": 1}
    obs["calls"] = []
    if os.path.exists(log):
        with open(log) as f:
            for t in f:
                c = json.loads(t)
                obs["calls"].append({"args": c["args"], "here": os.path.realpath(c["cwd"]) == os.path.realpath(folder)})
    return obs


def run(case, d):
    from edk2toollib.windows.capsule.cat_generator import CatGenerator
    from edk2toollib.windows.capsule.inf_generator import InfGenerator
    from edk2toollib.windows.capsule.inf_generator2 import InfFile

    ev, g = [{"k": "start"}], None
    for i, o in enumerate(case["ops"]):
        k = o["op"]
        e = {"k": k, **o}
        if g is None and k not in ("one", "many", "cat"):
            break
        try:
            if k == "one":
                x = InfGenerator(o["name"], o["provider"], o["guid"], o["arch"], o["desc"], o["version"], o["hex"])
                g = x
                obs = attrs(g)
            elif k == "set":
                try:
                    put(g, o["a"], o["v"])
                    obs = attrs(g)
                except (ValueError, TypeError):
                    obs = {**attrs(g), "ok": False}
            elif k == "make":
                p = os.path.join(d, "x.inf")
                e["base"] = o["file"].split("/")[-1]
                g.MakeInf(p, o["file"], o["rollback"])
                with open(p) as f:
                    obs = {"ok": True, "secs": read(f.read())}
            elif k == "many":
                kw = {} if o["disk"] == "-" else {"DiskName": o["disk"]}
                x = InfFile(o["name"], o["version"], o["date"], o["provider"], o["mfg"], o["arch"], TargetOsVersion=None if o["os"] == "-" else o["os"], **kw)
                g = x
                obs = {"ok": True}
            elif k == "fw":
                g.AddFirmware(o["tag"], o["desc"], o["guid"], o["ver"], o["file"], o["rollback"], None if o["integ"] == "-" else o["integ"])
                obs = {"ok": True}
            elif k == "src":
                g.InfSourceFiles.AddFile(o["file"])
                obs = {"ok": True}
            elif k == "str":
                (g.InfStrings.AddLocalizableString if o["w"] == "loc" else g.InfStrings.AddNonLocalizableString)(o["key"], o["v"])
                obs = {"ok": True}
            elif k == "text":
                obs = {"ok": True, "secs": read(str(g))}
            elif k == "cat":
                x = CatGenerator(o["arch"], o["os"])
                g = x
                obs = {"ok": True, "arch": g.Arch, "os": g.OperatingSystem}
            elif k == "catset":
                try:
                    if o["a"] == "arch":
                        g.Arch = o["v"]
                    else:
                        g.OperatingSystem = o["v"]
                    obs = {"ok": True}
                except ValueError:
                    obs = {"ok": False}
                obs.update(arch=g.Arch, os=g.OperatingSystem)
            else:
                obs = makecat(g, o, d, i)
        except Exception:
            obs = {"ok": False, "secs": [], "arch": "", "os": ""}
        e["obs"] = obs
        ev.append(e)
    return ev
