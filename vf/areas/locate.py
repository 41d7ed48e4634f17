"""C30: vswhere, vcvarsall and the tools of the Windows SDK (windows/locate_tools.py), on a machine made of stand-ins."""

import codecs
import contextlib
import glob
import hashlib
import importlib.resources
import io
import os
import re
import shlex
import subprocess
import types
import urllib.error
import urllib.request
from collections import namedtuple
from pathlib import Path
from unittest import mock

TRACE = ("LocateToolsTrace", "LocateToolsTrace.cfg")
CASE_SECONDS = 20
REQUIRED_CLASSES = ["own", "on the path", "downloaded", "refused download", "cut download", "not Windows", "asked", "vcvarsall", "missing key", "tool", "fallback", "no tool", "current", "brackets"]
GOOD = b"MZ vswhere" * 500
Host = namedtuple("Host", "os arch bits")
HOST0 = {"os": "Windows", "arch": "x86", "bits": "64"}


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "LocateToolsMC", "cfg": "LocateToolsMC.cfg", "consts": {"MaxDirs": 2 if q else 3}, "min_behaviours": 2000, "limit": 2500 if q else 12000,
             "what": "the directories of a tool in every order, histories of vswhere with every download, every way a query ends"}]


def world(**kw):
    w = {"host": HOST0, "dirs": [], "vs": {"code": 0, "lines": ["/R/vs/1", "/R/vs/2"]}, "bats": ["/R/vs/2"], "vc": {"code": 0, "env": []}, "sdk": [], "kits": []}
    w.update(kw)
    return w


def sdkenv(ver, dir="/R/sdk"):
    return [["Path", "C:\\a;"], ["WindowsSdkDir", dir], ["WindowsSDKVersion", ver], ["X", "1"]]


def tool(dl="good", product="-", arch="-", name="signtool.exe"):
    return {"k": "tool", "dl": dl, "product": product, "arch": arch, "tool": name}


def from_model(doc, m, pid):
    k, ds = doc["kind"], [list(x) for x in doc["dirs"]] if doc["kind"] == "scan" else list(doc["dirs"])
    if k == "scan":
        cur = ".".join(str(x) for x in doc["cur"]) + ".0\\" if doc["cur"] else "none"
        return [{"w": world(host=doc["host"], sdk=ds, vc={"code": 0, "env": sdkenv(cur)}, kits=ds[:1]), "own": True, "ops": [tool()], "seed": 0}]
    if k == "where":
        return [{"w": world(host=doc["host"], dirs=ds), "own": False, "ops": [{"k": "where", "dl": o["dl"], "strict": o["strict"]} for o in doc["ops"]], "seed": 0}]
    o = doc["ops"][0]
    w = world(vs={"code": 1 if o["vs"] == "fail" else 0, "lines": [] if o["vs"] == "none" else ["/R/vs/1", "/R/vs/2"]}, bats=[] if o["vs"] == "nobat" else ["/R/vs/2"], vc={"code": o["code"], "env": [["Path", "x;"], ["Foo", "1"]]})
    return [{"w": w, "own": True, "seed": 0, "ops": [{"k": "query", "dl": "good", "keys": list(o["keys"]), "arch": o["arch"], "product": o["product"], "ver": o["ver"], "vc": o["vc"]}]}]


VERSIONS = ["10.0.19041.0", "10.0.22621.0", "10.0.9.0", "10.0.10.0", "9.10.1.0", "8.1.0.0", "10.0.19041.685", "10.1.0.0", "0.0.0.1", "10.0.9999.0", "10.0.122621.0", "100.0.1.0", "010.0.9.0"]


def version(r):
    if r.random() < 0.6:
        return r.choice(VERSIONS)
    n = r.choice([0, 2, 2, 2, 2, 1, 3])
    v = ["10", "0", "22621", "0"]
    v[n] = str(r.choice([0, 1, 2, 8, 9, 10, 11, 99, 100, 101, 999, 1000, 9999, 10000, 22620, 22622, 99999, 100000]))
    return ".".join(v)


def tooldir(r):
    d = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        d.append(r.choice(["bin", "Tools", "App Certification Kit", "v4", "1.2.3", "10.0.1"]))
    if r.random() < 0.75:
        d.insert(r.randrange(len(d) + 1), version(r))
    if r.random() < 0.1:
        d.insert(r.randrange(len(d) + 1), version(r))
    if r.random() < 0.8:
        d.append(r.choice(["x64", "x64", "x86", "arm", "arm64", "ARM64", "X64", "amd64", "aarch64", "i386"]))
    if r.random() < 0.05:
        d.append("x86")
    return d


def gen(rng, tier, pid):
    r = rng
    cases = []
    for _ in range(500 if tier == "quick" else 6000):
        host = {"os": "Windows" if r.random() < 0.95 else r.choice(["Linux", "Mac"]), "arch": r.choice(["x86", "x86", "ARM"]), "bits": r.choice(["64", "64", "32"])}
        uniq = lambda n: [list(x) for x in dict.fromkeys(tuple(tooldir(r)) for _ in range(n))]
        lines = ["/R/vs/" + x for x in r.sample(["1", "2", "Program Files/VS", "x y"], r.choice([0, 1, 1, 2, 3, 4]))]
        sdk, kits = uniq(r.choice([0, 1, 2, 4, 7])), uniq(r.choice([0, 1, 3]))
        sdkname = r.choice(["sdk", "sdk", "Windows Kits/10", "sdk [x64]", "s*k", "10.0.5.0/arm"])
        env = sdkenv(r.choice(VERSIONS + [r.choice([v for d in sdk for v in d if v in VERSIONS] or ["10.0.9.0"])] * 8 + ["10", ""]) + r.choice(["", "\\"]), "/R/" + sdkname)
        env += [["INCLUDE", "a;b;"], ["LIB", "x=y"], ["VCToolsVersion", "14.4"], ["Empty", ""], ["Semi", ";;"]]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            env.pop(r.randrange(len(env)))
        r.shuffle(env)
        for e in env:
            if r.random() < 0.15 and not e[0].startswith("Windows"):
                e[0] = r.choice([e[0].upper(), e[0].lower()])
        w = world(host=host, dirs=[{"name": n, "has": r.random() < 0.3} for n in r.sample(["a", "b c", "d"], r.choice([1, 2, 3]))], vs={"code": r.choice([0] * 8 + [1, 87]), "lines": lines},
                  bats=sorted(x for x in ["/R/vs/1", "/R/vs/2", "/R/vs/Program Files/VS", "/R/vs/x y"] if r.random() < 0.6), vc={"code": r.choice([0] * 8 + [1, 255]), "env": env}, sdk=sdk, kits=kits)
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(["where", "all", "find", "query", "query", "tool", "tool", "tool"])
            o = {"k": k, "dl": r.choice(["good", "good", "good", "bad", "http", "url", "cut"])}
            if k == "where":
                o["strict"] = r.random() < 0.7
            else:
                o["product"] = r.choice(["-", "*", "Microsoft.VisualStudio.Product.BuildTools"])
            if k in ("all", "find", "query"):
                o["ver"] = r.choice(["-", "-", "vs2017", "VS2019", "vs2022", "Vs2026", "vs2015", "2022", ""])
            if k in ("query", "tool"):
                o["arch"] = r.choice(["-", "x86", "amd64_arm64", "x64"])
            if k == "query":
                o["vc"] = r.choice(["-", "-", "14.42.34433"])
                o["keys"] = r.sample(["INCLUDE", "lib", "Path", "vctoolsversion", "Empty", "WindowsSdkVersion", "semi", "Missing"] if r.random() < 0.2 else ["INCLUDE", "lib", "Path", "vctoolsversion", "Empty", "WindowsSdkVersion", "semi"], r.choice([0, 1, 2, 3]))
            if k == "tool":
                o["tool"] = r.choice(["signtool.exe", "rc.exe"])
            ops.append(o)
        cases.append({"w": w, "own": r.random() < 0.4, "ops": ops, "seed": r.randrange(10**6), "noise": r.random() < 0.5, "sdkname": sdkname, "eol": r.choice(["\r\n", "\n"])})
    return cases


def classify(case, events):
    out = set()
    for o, e in zip(case["ops"], events[1:]):
        r, ob = e["obs"]["r"], e["obs"]
        if case["own"]:
            out.add("own")
        if r[0] == "dir" or any(a["tool"][0] == "dir" for a in ob["asked"]):
            out.add("on the path")
        if ob["fetched"]:
            out.add({"good": "downloaded", "cut": "cut download"}.get(o["dl"], "refused download"))
        if case["w"]["host"]["os"] != "Windows":
            out.add("not Windows")
        if ob["asked"]:
            out.add("asked")
        if ob["ran"]:
            out.add("vcvarsall")
            if r == ["raise", "value"]:
                out.add("missing key")
        if o["k"] == "tool":
            out.add({"sdk": "tool", "kits": "fallback", "none": "no tool"}.get(r[0], "x"))
            if r[0] == "sdk" and "[" in case.get("sdkname", ""):
                out.add("brackets")
            if r[0] == "sdk" and any(e[0].upper() == "WINDOWSSDKVERSION" and e[1].rstrip("\\") in r[1] for e in case["w"]["vc"]["env"]):
                out.add("current")
    return out


class Response(io.RawIOBase):
    """What urlopen gives: all of it, or the half of it and then an error."""

    def __init__(self, data, cut):
        self.data, self.pos, self.cut, self.status, self.code, self.headers = data, 0, cut, 200, 200, {"Content-Length": str(len(data))}

    def read(self, n=-1):
        end = len(self.data) // 2 if self.cut else len(self.data)
        if self.cut and (n is None or n < 0 or self.pos >= end):
            raise ConnectionResetError("cut")
        n = end - self.pos if n is None or n < 0 else min(n, end - self.pos)
        b = self.data[self.pos : self.pos + n]
        self.pos += n
        return b

    def readinto(self, b):
        x = self.read(len(b))
        b[: len(x)] = x
        return len(x)

    def readable(self):
        return True


def mbcs(name):
    if name == "mbcs":
        return codecs.lookup("cp1252")
    return None


try:
    codecs.lookup("mbcs")
except LookupError:
    codecs.register(mbcs)


def run(case, d):
    import random

    from edk2toollib.windows import locate_tools as lt

    w, rng = case["w"], random.Random(case["seed"])
    d = os.path.realpath(d)
    real = lambda p: p.replace("/R/", d + "/", 1) if p.startswith("/R/") else p
    sdk = d + "/" + case.get("sdkname", "sdk")
    kits = d + "/pf (x86)/Windows Kits/10/bin"
    own = d + "/own/bin/vswhere.exe"

    def put(p, data=b"x"):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    if case["own"]:
        put(own, GOOD)
    os.makedirs(sdk, exist_ok=True)
    os.makedirs(kits, exist_ok=True)
    for top, dirs in ((sdk, w["sdk"]), (kits, w["kits"])):
        dirs = list(dirs)
        rng.shuffle(dirs)
        for x in dirs:
            for t in ("signtool.exe", "rc.exe"):
                put("/".join([top, *x, t]))
        put(top + "/99.0.0.0/x64/other.exe")
        put(top + "/99.0.0.0/x64/xsigntool.exe")
    for x in w["dirs"]:
        os.makedirs(d + "/path/" + x["name"], exist_ok=True)
        if x["has"]:
            put(d + "/path/" + x["name"] + "/vswhere.exe")
    for b in w["bats"]:
        put(real(b) + "/VC/Auxiliary/Build/vcvarsall.bat")
    for b in w["vs"]["lines"]:
        os.makedirs(real(b) + "/VC/Auxiliary/Build", exist_ok=True)

    st = {"dl": "good", "fetched": 0, "asked": [], "ran": []}

    def urlopen(url, *a, **kw):
        st["fetched"] += 1
        if st["dl"] == "http":
            raise urllib.error.HTTPError("u", 404, "no", {}, None)
        if st["dl"] == "url":
            raise urllib.error.URLError("no network")
        return Response(GOOD if st["dl"] != "bad" else b"something else", st["dl"] == "cut")

    def retrieve(url, filename=None, *a, **kw):
        with urlopen(url) as f, open(filename, "wb") as o:
            while True:
                b = f.read(100)
                if not b:
                    return filename, {}
                o.write(b)

    def which(p):
        p = os.path.realpath(p)
        if p == own:
            return ["own"]
        if os.path.basename(p) == "vswhere.exe" and os.path.dirname(os.path.dirname(p)) == d + "/path":
            return ["dir", os.path.basename(os.path.dirname(p))]
        return ["other", p]

    def runcmd(cmd, parameters="", *a, outstream=None, **kw):
        opts = []
        for x in shlex.split(parameters or "", posix=False):
            if x.startswith("-") or not opts:
                opts.append([x])
            else:
                opts[-1].append(x)
        st["asked"].append({"tool": which(cmd.strip('"')), "args": opts})
        eol = case.get("eol", "\n")
        outstream.write("".join(real(x) + eol for x in w["vs"]["lines"]))
        return w["vs"]["code"]

    def output(cmd):
        if not isinstance(cmd, str):
            cmd = " ".join(cmd)
        m = re.match(r'\s*"([^"]*)"\s*(.*?)\s*&&?\s*set\s*$', cmd)
        bat = m.group(1) if m else cmd
        tail = "/VC/Auxiliary/Build/vcvarsall.bat"
        bat = bat[: -len(tail)].replace(d + "/", "/R/", 1) if bat.endswith(tail) else bat
        st["ran"].append({"bat": bat, "args": m.group(2).split() if m else []})
        if w["vc"]["code"]:
            return w["vc"]["code"], b"", b"The input line is too long.\r\n" if case["seed"] % 2 else b"no"
        ls = ["%s=%s" % (k, real(v)) for k, v in w["vc"]["env"]]
        if case.get("noise"):
            ls = ["*" * 30, "** Visual Studio 2022", "[vcvarsall.bat] Environment initialized for: 'x64'", "", *ls, ""]
        return 0, "".join(x + "\r\n" for x in ls).encode("cp1252"), b""

    def popen(cmd, *a, **kw):
        code, o, e = output(cmd)
        if kw.get("text") or kw.get("encoding") or kw.get("universal_newlines"):
            o, e = o.decode("cp1252").replace("\r\n", "\n"), e.decode("cp1252")
        p = types.SimpleNamespace(stdout=io.BytesIO(), stderr=io.BytesIO(), returncode=code, pid=0, args=cmd)
        p.communicate = lambda *a, **kw: (o, e)
        p.wait = lambda *a, **kw: code
        p.poll = lambda: code
        p.kill = lambda: None
        return p

    @contextlib.contextmanager
    def popen_cm(cmd, *a, **kw):
        yield popen(cmd, *a, **kw)

    class Popen:
        def __new__(cls, cmd, *a, **kw):
            p = popen(cmd, *a, **kw)
            o = object.__new__(cls)
            o.__dict__.update(p.__dict__)
            return o

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

    def subrun(cmd, *a, **kw):
        p = popen(cmd, *a, **kw)
        o, e = p.communicate()
        if p.returncode and kw.get("check"):
            raise subprocess.CalledProcessError(p.returncode, cmd, o, e)
        return subprocess.CompletedProcess(cmd, p.returncode, o, e)

    realglob = glob.iglob

    def shuffled(*a, **kw):
        x = sorted(realglob(*a, **kw))
        rng.shuffle(x)
        return x

    def found(p):
        if p is None:
            return ["none"]
        p = os.path.abspath(p)
        for n, top in (("sdk", sdk), ("kits", kits)):
            if p.startswith(top + "/") and os.path.isfile(p) and os.path.basename(p) == case["_tool"]:
                return [n, p[len(top) + 1 :].split("/")[:-1]]
        return ["other", p]

    sub = types.SimpleNamespace(**{k: getattr(subprocess, k) for k in dir(subprocess) if not k.startswith("__")})
    sub.Popen, sub.run, sub.check_output = Popen, subrun, lambda cmd, **kw: subrun(cmd, check=True, **kw).stdout
    host = Host(w["host"]["os"], w["host"]["arch"], w["host"]["bits"])
    opt = lambda x: None if x == "-" else x
    events = [{"k": "start", "w": w, "have": case["own"]}]
    env = {"PATH": ";".join(d + "/path/" + x["name"] for x in w["dirs"]) or "/none", "ProgramFiles(x86)": d + "/pf (x86)"}
    with contextlib.ExitStack() as es:
        P = lambda *a, **kw: es.enter_context(mock.patch.object(*a, **kw))
        P(lt, "GetHostInfo", lambda: host)
        P(lt, "RunCmd", runcmd)
        P(lt, "subprocess", sub, create=True)
        P(importlib.resources, "files", lambda *a: Path(d + "/own"))
        P(urllib.request, "urlopen", urlopen)
        P(urllib.request, "urlretrieve", retrieve)
        P(glob, "iglob", lambda *a, **kw: iter(shuffled(*a, **kw)))
        P(glob, "glob", shuffled)
        P(os, "pathsep", ";")
        es.enter_context(mock.patch.dict(os.environ, env))
        if hasattr(lt, "__SHA256"):
            P(lt, "__SHA256", hashlib.sha256(GOOD).hexdigest())
        for o in case["ops"]:
            st.update(dl=o["dl"], fetched=0, asked=[], ran=[])
            case["_tool"] = o.get("tool")
            k = o["k"]
            try:
                if k == "where":
                    x = lt.GetVsWherePath(o["strict"])
                    r = ["none"] if x is None else which(x)
                elif k in ("all", "find"):
                    x = (lt.FindAllWithVsWhere if k == "all" else lt.FindWithVsWhere)(opt(o["product"]), opt(o["ver"]))
                    back = lambda p: p.replace(d + "/", "/R/", 1)
                    r = ["none"] if x is None else ["list", [back(p) for p in x]] if k == "all" else ["one", back(x)]
                elif k == "query":
                    x = lt.QueryVcVariables(list(o["keys"]), opt(o["arch"]), opt(o["product"]), opt(o["ver"]), opt(o["vc"]))
                    r = ["vars", [[a, b.replace(d + "/", "/R/", 1)] for a, b in x.items()]]
                else:
                    r = found(lt.FindToolInWinSdk(o["tool"], product=opt(o["product"]), arch=opt(o["arch"])))
            except OSError:
                r = ["raise", "env"]
            except ValueError:
                r = ["raise", "value"]
            except RuntimeError:
                r = ["raise", "runtime"]
            have = "no"
            if os.path.lexists(own):
                with open(own, "rb") as f:
                    have = "yes" if f.read() == GOOD else "bad"
            events.append({**o, "obs": {"r": r, "have": have, "fetched": st["fetched"], "asked": st["asked"], "ran": st["ran"]}})
    case.pop("_tool", None)
    return events
