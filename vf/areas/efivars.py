"""C31: UEFI variables (os/uefivariablesupport.py), on an efivarfs made of stand-ins in the scratch directory and on stand-ins for the firmware calls of Windows."""

import builtins
import contextlib
import ctypes
import errno
import io
import logging
import os
import shlex
import struct
import subprocess
import sys
import uuid
from unittest import mock

TRACE = ("EfiVarsTrace", "EfiVarsTrace.cfg")
CASE_SECONDS = 20
KEEP_LOGGING = True
REQUIRED_CLASSES = ["read", "missing", "unusual", "written", "created", "deleted", "nothing to delete", "protected", "refused", "appended", "names", "strange name", "no file system", "large", "shell characters", "wide", "windows read", "windows written", "windows deleted", "windows refused", "windows names", "windows without variables"]
TOP = "/sys/firmware/efi/efivars"
GUIDS = ["8be4df61-93ca-11d2-aa0d-00e098032b8c", "d719b2cb-3d3a-4596-a3bc-dad00e67656f", "00112233-4455-6677-8899-aabbccddeeff"]


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "EfiVarsMC", "cfg": "EfiVarsMC.cfg", "consts": {"MaxOps": 2 if q else 3}, "min_behaviours": 2000, "limit": 2500 if q else 20000,
             "what": "every short history of setting and deleting variables, protected and not, with reads between"}]


def from_model(doc, m, pid):
    n = [66, 45]
    ops = []
    for o in doc["ops"]:
        ops += [dict(o, n=n, nul=0, up=False, bad=["text", "big", "negative", "none"][(len(ops) // 3 + doc["prot"] + 2 * doc["sudo"] + len(doc["vars"])) % 4])]
        ops += [{"k": "get", "n": n, "g": GUIDS[0], "nul": 0, "up": False}, {"k": "names"}]
    return [{"win": doc["win"], "there": doc["there"], "sudo": doc["sudo"], "prot": doc["prot"], "vars": [dict(v) for v in doc["vars"]], "strange": [], "ops": ops, "seed": 0}]


NAMES = ["BootOrder", "A", "Boot-0001", "a b", "x;touch y", "$(id)", "'q'", '"d"', "-i", "é", "日本", "\U0001f600x", "*", "a&b", "Name-8be4df61-93ca-11d2-aa0d-00e098032b8c", "a\\b", "x\ty", "#c", "~"]
STRANGE = ["README", "Foo-1234", "x-8be4df61-93ca-11d2-aa0d-00e098032b8", "BootOrder-8be4df61-93ca-11d2-aa0d-00e09803zzzz", "a-b-c-d-e", "8be4df61-93ca"]


def units(s):
    b = s.encode("utf-16-le")
    return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]


def text(u):
    return b"".join(struct.pack("<H", x) for x in u).decode("utf-16-le")


def gen(rng, tier, pid):
    r = rng
    cases = []
    data = lambda: [r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(r.choice([1, 1, 2, 4, 5, 16, 40]))]
    for i in range(300 if tier == "quick" else 4000):
        names = [units(x) for x in r.sample(NAMES, r.choice([1, 2, 3, 5]))]
        pick = lambda: (r.choice(names), r.choice(GUIDS))
        vs = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            n, g = pick()
            if not any(v["n"] == n and v["g"] == g for v in vs):
                vs.append({"n": n, "g": g, "a": r.choice([7, 7, 7, 6, 3, 39, 0x27]), "d": data(), "imm": r.random() < 0.5})
        big = i % 40 == 0
        ops = []
        for j in range(r.choice([1, 2, 3, 5, 8])):
            n, g = pick()
            if vs and r.random() < 0.5:
                v = r.choice(vs)
                n, g = v["n"], v["g"]
            k = r.choice(["get", "get", "set", "set", "set", "del", "names"])
            o = {"k": k}
            if k != "names":
                o.update(n=n, g=g, nul=r.choice([0, 0, 0, 1, 2]), up=r.random() < 0.2)
            if k == "set":
                o.update(a=r.choice([[], [], [7], [7], [6], [3], [39], [71], [0]]), d=data(), valid=r.random() < 0.92)
                if big and j == 0:
                    o.update(d=[r.randrange(256) for _ in range(r.choice([8185, 8192, 9000]))])
                elif r.random() < 0.1 and o["a"] != [71]:
                    o["d"] = []
                if not o["valid"]:
                    o["bad"] = r.choice(["text", "negative", "big", "none"])
                    if o["bad"] in ("negative", "big"):
                        o["a"] = [7]
            ops.append(o)
        win = r.random() < 0.25 and not big
        if win:
            for o in ops:
                if not o.get("valid", True):
                    o.update(valid=True, a=[])
                    o.pop("bad")
        cases.append({"win": win, "there": r.random() < 0.93, "sudo": r.random() < 0.8, "prot": r.random() < 0.5, "vars": vs, "strange": [r.choice(STRANGE)] if r.random() < 0.12 and not win else [], "ops": ops, "seed": r.randrange(10**6), "obj": r.random() < 0.2})
    return cases


def classify(case, events):
    out = set()
    if case["win"]:
        for e in events[1:]:
            x = e["obs"]["r"]
            x = x if e["k"] == "names" else x[0]
            out.add("windows " + {"ok": "names" if e["k"] == "names" else "read", "set": "deleted" if e["k"] == "del" else "written", "not set": "refused", "error": "without variables"}.get(x, "other"))
        return out
    if not case["there"]:
        out.add("no file system")
    before = {(tuple(v["n"]), v["g"]) for v in case["vars"]}
    for e in events[1:]:
        o, k = e["obs"], e["k"]
        if k == "get":
            out |= {"read"} if o["r"][0] == "ok" else {"missing"}
            if o["logged"]:
                out.add("unusual")
        elif k == "names":
            out.add("strange name" if e["strange"] else "names")
        else:
            key = (tuple(e["n"]), e["g"].lower())
            if o["r"][0] == "raise":
                out.add("refused" if k == "set" and not e["valid"] else "protected")
            elif k == "del":
                out.add("deleted" if o["r"][0] == "set" else "nothing to delete")
            else:
                out.add("written" if key in before else "created")
                if e["a"] == [71] and key in before:
                    out.add("appended")
                if len(e["d"]) > 8000:
                    out.add("large")
            if o["ran"] and any(x in e["n"] for x in (32, 59, 36, 39)):
                out.add("shell characters")
            if any(x > 255 for x in e["n"]):
                out.add("wide")
            before = {(tuple(v["n"]), v["g"]) for v in o["files"]}
    return out


class FakeFs:
    def __init__(self, top, there, sudo, prot):
        self.top, self.sudo, self.prot, self.imm, self.ran = top, sudo, prot, set(), []
        if there:
            os.mkdir(top)

    def resolve(self, base):
        """efivarfs compares the GUID at the end of a name without regard to case."""
        if "/" in base or not os.path.isdir(self.top) or len(base) < 37:
            return base
        for x in REAL["listdir"](self.top):
            if x[:-36] == base[:-36] and x[-36:].lower() == base[-36:].lower():
                return x
        return base

    def path(self, p):
        """The scratch path for a path below TOP, else None."""
        if isinstance(p, os.PathLike):
            p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return None
        p = os.path.normpath(p) if p.startswith("/sys/") else p
        if p == TOP:
            return self.top
        if p.startswith(TOP + "/"):
            return self.top + "/" + self.resolve(p[len(TOP) + 1 :])
        return None

    def blocked(self, q):
        if q in self.imm:
            raise PermissionError(errno.EPERM, "Operation not permitted", q)

    def write(self, q, b, fresh):
        def drop():
            REAL["remove"](q)
            self.imm.discard(q)

        if len(b) < 4:
            raise OSError(errno.EINVAL, "Invalid argument")
        (a,), data = struct.unpack("<I", b[:4]), b[4:]
        if a & ~0x7F:
            raise OSError(errno.EINVAL, "Invalid argument")
        with REAL["open"](q, "rb") as f:
            old = f.read()
        if not data or not a:
            drop()
            if not old:
                raise OSError(errno.EIO, "Input/output error")
            return
        app, a = a & 64, a & ~64
        if old and struct.unpack("<I", old[:4])[0] != a:
            raise OSError(errno.EINVAL, "Invalid argument")
        with REAL["open"](q, "wb") as f:
            f.write(struct.pack("<I", a) + (old[4:] if app and old else b"") + data)
        if not old and self.prot:
            self.imm.add(q)

    def command(self, cmd):
        toks = cmd
        if not isinstance(cmd, (list, tuple)):
            x = shlex.shlex(cmd, posix=True, punctuation_chars=True)
            x.whitespace_split, x.commenters = True, ""
            toks = list(x)
            if any(c in cmd for c in "$`*?[~") and "'" not in cmd:
                toks = ["shell"]
        toks = [os.fspath(t) for t in toks]
        if toks and toks[0] == "sudo":
            toks = toks[1:]
            while toks and toks[0] in ("-n", "-E"):
                toks = toks[1:]
        toks = [t for i, t in enumerate(toks) if not (t == "--" and i == len(toks) - 2)]
        if len(toks) == 3 and toks[:2] == ["chattr", "-i"] and toks[2].startswith(TOP + "/") and len(toks[2]) - len(TOP) > 37:
            base = toks[2][len(TOP) + 1 :]
            self.ran.append({"do": "clear", "n": units(base[:-37]), "g": base[-36:]})
            q = self.path(toks[2])
            if not REAL["exists"](q) or not self.sudo:
                return 1
            self.imm.discard(q)
            return 0
        self.ran.append({"do": "other", "n": [], "g": " ".join(toks)[:80]})
        return 1

    def dump(self):
        out = []
        if os.path.isdir(self.top):
            for x in sorted(REAL["listdir"](self.top)):
                if x in self.strange:
                    continue
                with REAL["open"](self.top + "/" + x, "rb") as f:
                    b = f.read()
                out.append({"n": units(x[:-37]), "g": x[-36:].lower(), "a": struct.unpack("<I", b[:4])[0] if len(b) >= 4 else -1, "d": list(b[4:])})
        return out


class Win:
    """What Windows offers for the variables: calls on Python values, after ctypes took the arguments apart."""

    def __init__(self, case, rng):
        self.there, self.rng, self.error, self.enabled, self.calls = case["there"], rng, 0, False, []
        self.vars = [dict(v) for v in case["vars"]] if case["there"] else []
        win = self

        class Call:
            def __init__(self, f):
                self.f, self.restype, self.argtypes = f, None, None

            def __call__(self, *a):
                return self.f(*a)

        class Dll:
            pass

        self.kernel32, self.ntdll = Dll(), Dll()
        self.kernel32.GetLastError = Call(lambda: win.error)
        self.kernel32.GetFirmwareEnvironmentVariableW = Call(self.get)
        self.kernel32.SetFirmwareEnvironmentVariableW = Call(lambda n, g, b, s: self.set(n, g, b, s, 7))
        self.kernel32.SetFirmwareEnvironmentVariableExW = Call(self.set)
        self.ntdll.NtEnumerateSystemEnvironmentValuesEx = Call(self.names)

    def adjust(self, token, off, what):
        self.enabled = not off and ("SeSystemEnvironmentPrivilege", 2) in [tuple(x) for x in what]

    def refused(self):
        self.error = 0 if self.there and self.enabled else 1314 if self.there else 1
        return self.error != 0

    def of(self, n, g):
        if not (g[:1] == "{" and g[-1:] == "}"):
            return None
        return [v for v in self.vars if v["n"] == units(n) and v["g"] == g[1:-1].lower()]

    def get(self, n, g, buf, size):
        if self.refused():
            return 0
        v = self.of(n, g)
        self.error = 87 if v is None else 203 if not v else 122 if len(v[0]["d"]) > size else 0
        if self.error:
            return 0
        ctypes.memmove(buf, bytes(v[0]["d"]), len(v[0]["d"]))
        return len(v[0]["d"])

    def set(self, n, g, b, size, a):
        if self.refused():
            return 0
        v = self.of(n, g)
        if v is None:
            self.error = 87
            return 0
        d = list(bytes(b)[:size]) if size else []
        if not d or not a:
            self.error = 0 if v else 203
            self.vars = [x for x in self.vars if x not in v]
            return int(bool(v))
        app, a = a & 64, a & ~64
        if v and v[0]["a"] != a:
            self.error = 87
            return 0
        self.vars = [x for x in self.vars if x not in v] + [{"n": units(n), "g": g[1:-1].lower(), "a": a, "d": v[0]["d"] + d if app and v else d}]
        return 1

    def names(self, kind, buf, length):
        length = length._obj if hasattr(length, "_obj") else length.contents
        if self.refused() or kind != 1:
            return -1073741823
        vs = list(self.vars)
        self.rng.shuffle(vs)
        out = b""
        for v in vs:
            e = uuid.UUID(v["g"]).bytes_le + struct.pack(f"<{len(v['n'])}H", *v["n"]) + b"\0\0"
            e += bytes(-len(e) % 4)
            out += struct.pack("<I", 4 + len(e)) + e
        fits = ctypes.sizeof(buf) >= len(out) if isinstance(buf, ctypes.Array) else length.value >= len(out)
        fits = fits and length.value >= len(out)
        length.value = len(out)
        if not fits:
            return -1073741789
        ctypes.memmove(buf, out, len(out))
        return 0

    def dump(self):
        return [{k: v[k] for k in ("n", "g", "a", "d")} for v in self.vars]


def windows(es, case, rng):
    """The library as a Windows host would load it."""
    import types

    win = Win(case, rng)
    P = lambda *a, **kw: es.enter_context(mock.patch.object(*a, **kw))
    security = types.SimpleNamespace(
        LookupPrivilegeValue=lambda host, name: name, OpenProcessToken=lambda p, a: ("token", a) if a & 0x28 == 0x28 else None, AdjustTokenPrivileges=lambda t, off, w: win.adjust(t, off, w) if t else None,
        TOKEN_READ=0x20008, TOKEN_ADJUST_PRIVILEGES=0x20, SE_PRIVILEGE_ENABLED=2)
    mods = {"win32api": types.SimpleNamespace(CloseHandle=lambda h: None), "win32process": types.SimpleNamespace(GetCurrentProcess=lambda: -1), "win32security": security}
    name = "edk2toollib.os.uefivariablesupport"
    es.enter_context(mock.patch.dict(sys.modules, {"win32": types.SimpleNamespace(**mods), **mods, **{"win32." + k: v for k, v in mods.items()}}))
    sys.modules.pop(name, None)
    import platform

    import edk2toollib.os as pkg
    was = pkg.__dict__.get("uefivariablesupport")
    P(ctypes, "windll", win, create=True)
    P(ctypes, "WinDLL", lambda n, *a, **kw: win.ntdll if "nt" in n else win.kernel32, create=True)
    P(ctypes, "WinError", lambda *a: OSError("WinError"), create=True)
    P(ctypes, "GetLastError", lambda: win.error, create=True)
    P(platform, "system", lambda: "Windows")
    P(sys, "platform", "win32")
    P(os, "name", "nt")
    uv = __import__(name, fromlist=["x"])
    if was is not None:
        es.callback(setattr, pkg, "uefivariablesupport", was)
    return uv, win


def run_windows(case):
    import random

    events = [{"k": "start", "win": True, "there": case["there"], "sudo": True, "prot": True, "vars": case["vars"] if case["there"] else []}]
    h = Errors()
    root = logging.getLogger()
    with contextlib.ExitStack() as es:
        uv, win = windows(es, case, random.Random(case["seed"]))
        root.addHandler(h)
        es.callback(root.removeHandler, h)
        lib = uv.UefiVariable()
        for o in case["ops"]:
            h.n, k = 0, o["k"]
            obs = {"buf": []}
            if k != "names":
                name, g = text(o["n"]) + "\0" * o["nul"], o["g"].upper() if o["up"] else o["g"]
                o = dict(o, g=g)
                if case.get("obj"):
                    g = uuid.UUID(g)
            else:
                o = dict(o, strange=False)
            try:
                if k == "get":
                    e, b = lib.GetUefiVar(name, g)
                    r = ["ok", list(b)] if e == 0 else ["missing"] if e == 0xCB and not b else ["error"]
                elif k == "names":
                    e, b = lib.GetUefiAllVarNames()
                    r = "ok" if e == 0 else "error"
                    if e == 0:
                        obs["buf"] = list(bytes(b))
                elif k == "del":
                    r = ["set"] if lib.SetUefiVar(name, g) else ["not set"]
                else:
                    v = bytes(o["d"])
                    r = ["set"] if (lib.SetUefiVar(name, g, v, o["a"][0]) if o["a"] else lib.SetUefiVar(name, g, v)) else ["not set"]
            except Exception as x:
                r = "raise" if k == "names" else ["raise", repr(x)[:80]]
            obs.update(r=r, logged=h.n > 0, ran=[], files=win.dump())
            events.append({**o, "obs": obs})
    return events


class Raw(io.RawIOBase):
    def __init__(self, fs, q):
        self.fs, self.q = fs, q
        self.name = q
        fs.blocked(q)
        if not REAL["exists"](q):
            with REAL["open"](q, "wb"):
                pass

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.fs.write(self.q, b, True)
        return len(b)


REAL = {"open": builtins.open, "listdir": os.listdir, "remove": os.remove, "exists": os.path.exists}


class Errors(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def emit(self, rec):
        self.n += 1


def run(case, d):
    import random

    if case["win"]:
        return run_windows(case)
    from edk2toollib.os import uefivariablesupport as uv

    rng = random.Random(case["seed"])
    fs = FakeFs(d + "/efivars", case["there"], case["sudo"], case["prot"])
    fs.strange = case["strange"]
    if case["there"]:
        for v in case["vars"]:
            q = fs.top + "/" + text(v["n"]) + "-" + v["g"]
            with open(q, "wb") as f:
                f.write(struct.pack("<I", v["a"]) + bytes(v["d"]))
            if v["imm"]:
                fs.imm.add(q)
        for x in case["strange"]:
            with open(fs.top + "/" + x, "wb") as f:
                f.write(b"\7\0\0\0x")

    def redirect(real):
        def f(p, *a, **kw):
            q = fs.path(p)
            return real(p if q is None else q, *a, **kw)

        return f

    def remove(real):
        def f(p, *a, **kw):
            q = fs.path(p)
            if q is not None:
                fs.blocked(q)
            return real(p if q is None else q, *a, **kw)

        return f

    def shuffled(p=".", *a):
        q = fs.path(p)
        x = REAL["listdir"](p if q is None else q, *a)
        rng.shuffle(x)
        return x

    def fopen(p, mode="r", buffering=-1, *a, **kw):
        q = fs.path(p)
        if q is None:
            return REAL["open"](p, mode, buffering, *a, **kw)
        if not any(c in mode for c in "wax+"):
            return REAL["open"](q, mode, buffering, *a, **kw)
        if not os.path.isdir(fs.top):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        if "x" in mode and REAL["exists"](q):
            raise FileExistsError(errno.EEXIST, "File exists", p)
        if "r" in mode and not REAL["exists"](q):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        raw = Raw(fs, q)
        return raw if buffering == 0 else io.BufferedWriter(raw, io.DEFAULT_BUFFER_SIZE if buffering < 1 else buffering)

    def completed(cmd, *a, **kw):
        code = fs.command(cmd)
        if code and kw.get("check"):
            raise subprocess.CalledProcessError(code, cmd)
        return subprocess.CompletedProcess(cmd, code, b"", b"")

    events = [{"k": "start", "win": False, "there": case["there"], "sudo": case["sudo"], "prot": case["prot"], "vars": case["vars"] if case["there"] else []}]
    h = Errors()
    root = logging.getLogger()
    with contextlib.ExitStack() as es:
        P = lambda *a, **kw: es.enter_context(mock.patch.object(*a, **kw))
        P(builtins, "open", fopen)
        P(io, "open", fopen)
        for n in ("stat", "lstat", "scandir", "access", "open"):
            P(os, n, redirect(getattr(os, n)))
        P(os, "listdir", shuffled)
        for n in ("remove", "unlink"):
            P(os, n, remove(getattr(os, n)))
        P(os, "system", lambda c: fs.command(c) << 8)
        P(subprocess, "run", completed)
        P(subprocess, "call", lambda c, *a, **kw: completed(c, *a, **kw).returncode)
        P(subprocess, "check_call", lambda c, *a, **kw: completed(c, check=True).returncode)
        P(subprocess, "check_output", lambda c, *a, **kw: completed(c, check=True).stdout)
        root.addHandler(h)
        es.callback(root.removeHandler, h)
        lib = uv.UefiVariable()
        for o in case["ops"]:
            fs.ran, h.n, k = [], 0, o["k"]
            obs = {"buf": []}
            if k != "names":
                name, g = text(o["n"]) + "\0" * o["nul"], o["g"].upper() if o["up"] else o["g"]
                o = dict(o, g=g)
                if case.get("obj") and k != "get":
                    g = uuid.UUID(g)
            else:
                o = dict(o, strange=bool(case["strange"]))
            try:
                if k == "get":
                    e, b = lib.GetUefiVar(name, g)
                    r = ["ok", list(b)] if e == 0 else ["missing"] if e == 0xCB and b is None else ["error", e]
                elif k == "names":
                    e, b = lib.GetUefiAllVarNames()
                    r = "ok" if e == 0 else "missing" if e == 0xCB and b is None else "error"
                    if e == 0:
                        obs["buf"] = list(bytes(b))
                elif k == "del":
                    r = ["set"] if lib.SetUefiVar(name, g) else ["not set"]
                else:
                    v, a, bad = bytes(o["d"]), o["a"][0] if o["a"] else None, None if o["valid"] else o["bad"]
                    if bad == "text":
                        v = "text"
                    elif bad in ("negative", "big"):
                        a = -1 if bad == "negative" else 2**32
                    elif bad == "none":
                        a = "7"
                    x = lib.SetUefiVar(name, g, v) if a is None else lib.SetUefiVar(name, g, v, a)
                    r = ["set"] if x else ["not set"]
            except Exception:
                r = "raise" if k == "names" else ["raise"]
            obs.update(r=r, logged=h.n > 0, ran=fs.ran, files=fs.dump())
            events.append({**o, "obs": obs})
    return events
