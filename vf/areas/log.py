"""C24: log handlers and JUnit reports (edk2toollib/log)."""

import io
import logging
import os
import threading
import time
import xml.etree.ElementTree as ET

TRACE = ("LogTrace", "LogTrace.cfg")
CASE_SECONDS = 20
REQUIRED_CLASSES = ["string", "file", "color", "stripped", "kept colours", "azure", "dropped", "misfit", "read", "report", "refused report", "result set twice", "threads", "console", "console bright", "console without colours"]
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "SECTION": 35, "PROGRESS": 21, "NOTE": 25}


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "LogMC", "cfg": "LogMC.cfg", "consts": {"MaxOps": 2 if q else 3, "MaxRep": 4 if q else 5, "Threads": 2 if q else 3, "Msgs": 2}, "min_behaviours": 300,
             "limit": 600 if q else 12000, "what": "every short history of records and reads with several handlers, of reports, and every interleaving of threads that log"}]


def from_model(doc, m, pid):
    ops = [dict(o) for o in doc["ops"]]
    if doc["kind"] == "log":
        for i, o in enumerate(ops):
            if o["op"] == "log":
                o["style"] = ["plain", "args", "obj"][(i + o["r"]["level"]) % 3]
        return [{"do": "log", "hs": doc["hs"], "ops": [{**o, "op": "begin"} if o["op"] == "start" else o for o in ops]}]
    return [{"do": "report", "ops": ops + [{"op": "write"}]}]


def text(r, rich):
    n = r.choice([0, 1, 2, 5, 12])
    pool = ["a", "b", "Z", " ", " ", "<", ">", "&", '"', "'", "%", "\n", "\t", "é", "漢", "😀", "]]>", "<!--", "&amp;", "\\", "{0}", "\r\n", "\r"]
    esc = ["\033[31m", "\033[0m", "\033[1;32m", "\033[m", "\033[2K", "\033[", "\033", "[31m", "\033[3", "\033]0;t", "\033[;m", "\033[31", "\033[39mx"]
    out = "".join(r.choice(esc) if r.random() < (0.25 if rich else 0) else r.choice(pool) for _ in range(n))
    return [ord(c) for c in out]


def win_text(r):
    """Colours a console knows, commands it does not."""
    out = ""
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        if r.random() < 0.6:
            c = lambda: r.choice([*range(30, 38), 39, *range(40, 48), 49, *range(90, 98), *range(100, 108)])
            out += r.choice(["\033[%sm" % ";".join(str(c()) for _ in range(r.choice([1, 1, 2, 3]))), "\033[%sm" % c(), "\033[;%d;m" % c(), "\033[2K", "\033[31J", "\033[", "\033[3"])
        else:
            out += r.choice(["a", "bc", " ", "\n", "é", "[31m"])
    return [ord(x) for x in out]


def win(r):
    """A colour handler on a Windows console."""
    tty, api = r.random() < 0.8, r.random() < 0.85
    strip, convert = r.choice([None, None, True, False]), r.choice([None, None, True])
    if not (tty and api):
        convert = None
    paint = (api and tty) if convert is None else convert
    return {"kind": "win", "level": r.choice([0, 0, 10, 20]), "deny": r.choice(["", "", "a"]), "fmt": r.choice(["plain", "color", "color", "azure"]), "tty": tty, "api": api, "args": [strip, convert],
            "strip": paint or ((api or not tty) if strip is None else strip), "paint": paint, "def": r.choice([7, 7, 0, 15, 0x1E, 0x8F, 0xF0, 0x5B, r.randrange(256)]) if api else 0}


def rep_text(r):
    t = text(r, False)
    if r.random() < 0.15:
        t = [97] + t + [r.choice([0, 1, 8, 27, 31, 0xFFFE, 0xFFFF, 127, 0x85, 0xA0, 0xFFFD])] + [98]
    if r.random() < 0.3:
        t = [r.choice([32, 9, 10])] + t + [r.choice([32, 10, 13])]
    return t


def gen(rng, tier, pid):
    r = rng
    cases = []
    n = 1 if tier == "quick" else 12
    for _ in range(220 * n):
        hs = []
        for _ in range(r.choice([1, 2, 3])):
            k = r.choice(["string", "file", "color", "color"])
            hs.append({"kind": k, "level": r.choice([0, 0, 10, 20, 30, 31, 50]), "deny": r.choice(["", "", "a", "b", "a.b"]), "fmt": r.choice(["plain", "color", "color", "azure"]),
                       "strip": k == "color" and r.random() < 0.5})
        console = r.random() < 0.25
        if console:
            hs.insert(r.randrange(len(hs) + 1), win(r))
        ops = []
        for _ in range(r.randrange(1, 9)):
            x = r.random()
            i = r.randrange(len(hs)) + 1
            if x < 0.65:
                nm = r.choice(list(LEVELS))
                bad = r.random() < 0.06
                ops.append({"op": "log", "r": {"name": nm, "level": LEVELS[nm], "logger": r.choice(["a", "b", "a.b"]), "msg": win_text(r) if console else text(r, r.random() < 0.5), "bad": bad},
                            "style": "misfit" if bad else r.choice(["plain", "args", "obj"])})
            elif x < 0.75:
                ops.append({"op": "level", "h": i, "level": r.choice([0, 10, 20, 30, 40, 60])})
            elif hs[i - 1]["kind"] == "string":
                if r.random() < 0.5:
                    ops.append({"op": "begin", "h": i})
                ops.append(r.choice([{"op": "begin", "h": i}, {"op": "end", "h": i}, *[{"op": "read", "h": i, "hint": x} for x in (-1, -1, 0, 1, 10, 40)], {"op": "seek", "h": i, "pos": r.choice([0, 1, 5, 12, 60])}]))
        cases.append({"do": "log", "hs": hs, "ops": ops})
    for _ in range(150 * n):
        ops = []
        suites = []
        for _ in range(r.randrange(1, 16)):
            x = r.random()
            full = [(i, j) for i, m in enumerate(suites) for j in range(m)]
            if not suites or x < 0.12:
                ops.append({"op": "suite", "name": rep_text(r), "pkg": rep_text(r)})
                suites.append(0)
            elif not full or x < 0.3:
                i = r.randrange(len(suites))
                ops.append({"op": "case", "s": i + 1, "name": rep_text(r), "cls": rep_text(r)})
                suites[i] += 1
            elif x < 0.9:
                i, j = r.choice(full)
                if r.random() < 0.5:
                    ops.append({"op": "set", "s": i + 1, "c": j + 1, "st": r.choice(["failed", "error", "skipped", "success"]), "msg": rep_text(r), "type": rep_text(r)})
                else:
                    ops.append({"op": r.choice(["out", "err"]), "s": i + 1, "c": j + 1, "msg": rep_text(r)})
            else:
                ops.append({"op": "write"})
        if r.random() < 0.7:
            for i, m in enumerate(suites):
                for j in range(m):
                    ops.append({"op": "set", "s": i + 1, "c": j + 1, "st": r.choice(["failed", "error", "skipped", "success"]), "msg": rep_text(r), "type": rep_text(r)})
        ops.append({"op": "write"})
        cases.append({"do": "report", "ops": ops})
    for i in range(12 if tier == "quick" else 60):
        cases.append({"do": "threads", "kind": ["color", "string", "file"][i % 3], "strip": i % 2 == 0, "counts": [r.choice([1, 5, 20, 40]) for _ in range(r.choice([2, 3, 4]))]})
    return cases


def classify(case, events):
    if case["do"] == "threads":
        yield "threads"
    if case["do"] == "log":
        for h in case["hs"]:
            if h["kind"] == "win":
                if events[-1]["k"] == "log" and any(events[-1]["obs"]["cells"]):
                    yield "console" if h["paint"] else "console without colours"
                    if h["def"] & 0x88:
                        yield "console bright"
                continue
            yield h["kind"]
            if h["kind"] == "color" and any(27 in o["r"]["msg"] for o in case["ops"] if o["op"] == "log"):
                yield "stripped" if h["strip"] else "kept colours"
            if h["fmt"] == "azure":
                yield "azure"
        for e in events:
            if e["k"] == "log":
                if False in e["obs"]["rv"]:
                    yield "dropped"
                if e["r"]["bad"]:
                    yield "misfit"
            if e["k"] == "read" and e["obs"]["lines"]:
                yield "read"
    for e in events:
        if e["k"] == "write":
            yield "report" if e["obs"]["ok"] else "refused report"
        if e["k"] == "set" and not e["obs"]["ok"]:
            yield "result set twice"


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def codes(s):
    return [ord(c) for c in s]


class Console:
    """The part of Windows a colour handler talks to."""

    def __init__(self, attr, api):
        self.attr, self.api = attr, api
        self.GetConsoleScreenBufferInfo = lambda handle, info: self.get(info)
        self.SetConsoleTextAttribute = lambda handle, attr: self.set(attr)
        self.GetStdHandle = lambda which: which

    def get(self, info):
        if self.api:
            info._obj.wAttributes = self.attr
        return int(self.api)

    def set(self, attr):
        self.attr = attr & 0xFFFF
        return 1


class Screen(io.StringIO):
    """What is written with the attribute it is written in."""

    def __init__(self, console, tty):
        super().__init__(newline="")
        self.console, self.tty, self.cells = console, tty, []

    def isatty(self):
        return self.tty

    def write(self, s):
        self.cells += [self.console.attr] * len(s)
        return super().write(s)


def on_windows(h):
    """A colour handler as a Windows host would have it, and its screen."""
    import ctypes
    import platform
    import sys
    from ctypes import wintypes  # noqa: F401
    from unittest import mock

    con = Console(h["def"], h["api"])
    win = mock.Mock(kernel32=con)
    name = "edk2toollib.log.ansi_handler"
    import edk2toollib.log as pkg
    was = sys.modules.pop(name, None), getattr(pkg, "ansi_handler", None)
    host = mock.Mock(system="Windows", node="n", release="10", version="10.0", machine="AMD64", processor="")
    try:
        with mock.patch.object(ctypes, "WinDLL", lambda *a, **k: con, create=True), mock.patch.object(ctypes, "windll", win, create=True), \
                mock.patch.object(platform, "uname", lambda: host), mock.patch.object(platform, "system", lambda: "Windows"):
            mod = __import__(name, fromlist=["x"])
            s = Screen(con, h["tty"])
            kw = {k: v for k, v in zip(("strip", "convert"), h["args"]) if v is not None}
            return mod.ColoredStreamHandler(s, **kw), s
    finally:
        sys.modules.pop(name, None)
        if was[0] is not None:
            sys.modules[name] = was[0]
        if was[1] is not None:
            pkg.ansi_handler = was[1]


def make(h, d, i, stream=None):
    from edk2toollib.log.ansi_handler import ColoredFormatter, ColoredStreamHandler
    from edk2toollib.log.file_handler import FileHandler
    from edk2toollib.log.string_handler import StringStreamHandler

    if h["kind"] == "string":
        x = StringStreamHandler()
        get = lambda: x.stream.getvalue()
    elif h["kind"] == "file":
        p = f"{d}/log{i}.txt"
        with open(p, "w") as f:
            f.write("what was there before\n")
        x = FileHandler(p)

        def get():
            x.flush()
            with open(p, encoding="utf-8", newline="") as f:
                return f.read()
    elif h["kind"] == "win":
        x, s = on_windows(h)
        get = lambda: s.getvalue()
        get.__dict__["cells"] = s.cells
    else:
        s = stream or (io.StringIO() if h["strip"] else Terminal())
        x = ColoredStreamHandler(s) if i % 2 == 0 else ColoredStreamHandler(s, strip=h["strip"], convert=False)
        get = lambda: s.getvalue()
    if h["fmt"] == "plain":
        x.setFormatter(logging.Formatter("%(levelname)s: %(message)s"))
    else:
        x.setFormatter(ColoredFormatter("%(levelname)s: %(message)s", use_azure=h["fmt"] == "azure"))
    if h["deny"]:
        x.addFilter(lambda rec, n=h["deny"]: rec.name != n)
    x.setLevel(h["level"])
    return x, get


class Terminal(io.StringIO):
    def isatty(self):
        return True


class Slow(io.StringIO):
    """Lets other threads run after every write."""

    def write(self, s):
        super().write(s)
        time.sleep(0.0001)


def run_log(case, d):
    case = {**case, "hs": [{"def": 7, "paint": False, "tty": True, "api": True, "args": [None, None], **h} for h in case["hs"]]}
    for k, v in LEVELS.items():
        logging.addLevelName(v, k)
    pairs = [make(h, d, i) for i, h in enumerate(case["hs"])]
    texts = lambda: [codes(g()) for _, g in pairs]
    evs = [{"k": "start", "do": "log", "hs": [{k: v for k, v in h.items() if k not in ("args", "tty", "api", "at", "cells", "text", "pos")} for h in case["hs"]], "obs": {}}]
    logging.raiseExceptions = False
    try:
        for o in case["ops"]:
            k = o["op"]
            x = pairs[o["h"] - 1][0] if "h" in o else None
            if k == "log":
                t = "".join(map(chr, o["r"]["msg"]))
                msg, args = {"plain": (t, ()), "args": ("%s", (t,)), "obj": (Obj(t), ()), "misfit": ("%d %d", (t,))}[o["style"]]
                rec = logging.LogRecord(o["r"]["logger"], o["r"]["level"], "f.py", 1, msg, args, None)
                before = (rec.levelname, rec.msg, rec.args)
                rv = [bool(h.handle(rec)) for h, _ in pairs]
                evs.append({"k": k, "r": o["r"], "obs": {"rv": rv, "texts": texts(), "cells": [list(getattr(g, "cells", [])) for _, g in pairs], "kept": (rec.levelname, rec.msg, rec.args) == before}})
            elif k == "level":
                x.setLevel(o["level"])
                evs.append({"k": k, "h": o["h"], "level": o["level"], "obs": {"texts": texts()}})
            elif k == "begin":
                x.seek_start()
                evs.append({"k": k, "h": o["h"], "obs": {"texts": texts()}})
            elif k == "end":
                x.seek_end()
                evs.append({"k": k, "h": o["h"], "obs": {"texts": texts()}})
            elif k == "seek":
                p = min(o["pos"], len(x.stream.getvalue()))
                x.seek(p, 0)
                evs.append({"k": k, "h": o["h"], "pos": p, "obs": {"texts": texts()}})
            elif k == "read":
                ls = [codes(y) for y in x.readlines(o["hint"])]
                evs.append({"k": k, "h": o["h"], "hint": o["hint"], "obs": {"lines": ls, "texts": texts()}})
    finally:
        for h, _ in pairs:
            h.close()
    return evs


def run_threads(case, d):
    h = {"kind": case["kind"], "level": 0, "deny": "", "fmt": "color" if case["strip"] else "plain", "strip": case["strip"]}
    s = Slow()
    if not case["strip"]:
        s.isatty = lambda: True
    x, get = make(h, d, 0, s if case["kind"] == "color" else None)
    if case["kind"] == "string":
        x.stream = s
        get = s.getvalue
    logging.addLevelName(35, "SECTION")

    def work(t, n):
        for i in range(n):
            x.handle(logging.LogRecord("a", 35, "f.py", 1, "t%d i%d\033[31m end", (t + 1, i + 1), None))

    ts = [threading.Thread(target=work, args=(t, n)) for t, n in enumerate(case["counts"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    whole = True
    lines = []
    import re

    for ln in get().split("\n")[:-1]:
        m = re.fullmatch(r"(?:\033\[36m)?SECTION: t(\d+) i(\d+)(?:\033\[31m)? end(?:\033\[39m)?", ln)
        if not m:
            whole = False
            continue
        lines.append({"t": int(m[1]), "i": int(m[2])})
    x.close()
    return [{"k": "start", "do": "threads", "counts": case["counts"], "obs": {"whole": whole, "lines": lines}}]


def run_report(case, d):
    fake = clock()
    JunitTestReport = __import__("edk2toollib.log.junit_report_format", fromlist=["x"]).JunitTestReport
    CLOCK[0] = at = 8 * 1700000000
    S = lambda t: "".join(map(chr, t))
    evs = [{"k": "start", "do": "report", "obs": {}}]
    rep = JunitTestReport()
    suites = []
    for n, o in enumerate(case["ops"]):
        k = o["op"]
        e = {"k": k, **{a: b for a, b in o.items() if a != "op"}}
        # an uneven clock, in eighths of a second
        CLOCK[0] += (n * n + len(case["ops"])) % 11
        e["at"] = CLOCK[0] - at
        try:
            obs = {"ok": True}
            if k == "suite":
                suites.append((rep.create_new_testsuite(S(o["name"]), S(o["pkg"])), []))
            elif k == "case":
                s, cs = suites[o["s"] - 1]
                cs.append(s.create_new_testcase(S(o["name"]), S(o["cls"])))
            elif k == "set":
                c = suites[o["s"] - 1][1][o["c"] - 1]
                {"failed": lambda: c.SetFailed(S(o["msg"]), S(o["type"])), "error": lambda: c.SetError(S(o["msg"]), S(o["type"])),
                 "skipped": c.SetSkipped, "success": c.SetSuccess}[o["st"]]()
            elif k == "out":
                suites[o["s"] - 1][1][o["c"] - 1].LogStdOut(S(o["msg"]))
            elif k == "err":
                suites[o["s"] - 1][1][o["c"] - 1].LogStdError(S(o["msg"]))
            elif k == "write":
                p = f"{d}/r{n}.xml"
                rep.Output(p)
                obs = {"ok": True, "xml": read(p)}
        except Exception as x:
            obs = {"ok": False}
            if isinstance(x, Unreadable):
                obs = {"ok": True, "unreadable": str(x)}
        e["obs"] = obs
        evs.append(e)
    CLOCK[0] = None
    fake()
    return evs


CLOCK = [None]


def clock():
    """Every clock a report may look at shows CLOCK from here on, until what this returns is called."""
    import sys
    import time

    def show(real, unit):
        return lambda: real() if CLOCK[0] is None else CLOCK[0] * unit // 8 if unit > 1 else CLOCK[0] / 8

    names = {"time": 1, "monotonic": 1, "perf_counter": 1, "time_ns": 10**9, "monotonic_ns": 10**9, "perf_counter_ns": 10**9}
    real = {n: getattr(time, n) for n in names}
    for n, unit in names.items():
        setattr(time, n, show(real[n], unit))
    sys.modules.pop("edk2toollib.log.junit_report_format", None)
    return lambda: [setattr(time, n, f) for n, f in real.items()]


class Unreadable(Exception):
    pass


def read(p):
    try:
        root = ET.parse(p).getroot()
        assert root.tag == "testsuites"
        res = []
        for s in root:
            assert s.tag == "testsuite"
            cases = []
            for c in s:
                assert c.tag == "testcase" and float(c.get("time")) >= 0
                kids = list(c)
                st = {"skipped": "skipped", "failure": "failed", "error": "error"}.get(kids[0].tag, "success")
                body = []
                if st == "skipped":
                    body = [codes(kids[0].text or "")]
                elif st != "success":
                    body = [codes(kids[0].get("message")), codes(kids[0].get("type"))]
                rest = kids if st == "success" else kids[1:]
                assert [x.tag for x in rest] == ["system-out", "system-err"]
                cases.append({"cls": codes(c.get("classname")), "name": codes(c.get("name")), "out": codes(rest[0].text or ""), "err": codes(rest[1].text or ""), "st": st, "body": body, "time": round(8 * float(c.get("time")))})
            res.append({"id": int(s.get("id")), "name": codes(s.get("name")), "pkg": codes(s.get("package")), "errors": int(s.get("errors")), "tests": int(s.get("tests")),
                        "failures": int(s.get("failures")), "skipped": int(s.get("skipped")), "cases": cases})
        return res
    except Exception as x:
        raise Unreadable(repr(x)) from x


def run(case, d):
    os.makedirs(d, exist_ok=True)
    return {"log": run_log, "report": run_report, "threads": run_threads}[case["do"]](case, d)
