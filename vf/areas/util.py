"""C23: hex dumps, C arrays, versions, classes of a module, host information (utility_functions.py)."""

import io
import os
import re
import types
import warnings

TRACE = ("UtilTrace", "UtilTrace.cfg")
CASE_SECONDS = 20
REQUIRED_CLASSES = ["version", "classes found", "classes ambiguous", "no class", "dump", "array", "array refused", "host", "unknown host", "import"]


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "UtilMC", "cfg": "UtilMC.cfg", "consts": {"MaxParts": 2 if q else 3, "MaxClasses": 3 if q else 4, "MaxLen": 40 if q else 90}, "min_behaviours": 500,
             "limit": 1500 if q else 20000, "what": "every pair of short versions, every hierarchy of up to three or four classes, data of every length up to the bound with every option"}]


def from_model(doc, m, pid):
    x = doc["x"]
    if doc["kind"] == "version":
        return [{"do": "version", "a": x["a"], "b": x["b"], "pad": len(x["a"]) % 2}]
    if doc["kind"] == "classes":
        return [{"do": "classes", "cs": x}]
    return [{"do": "dump", "bs": x["bs"], "o": x["o"]}]


TYPES = ["UINT8", "CONST UINT8", "unsigned char"]


def gen(rng, tier, pid):
    r = rng
    cases = []
    n = 1 if tier == "quick" else 12
    for _ in range(120 * n):
        cases.append({"do": "version", "a": [r.choice([0, 0, 1, 2, 10, 20, 100, 2023]) for _ in range(r.choice([1, 2, 3, 4, 5]))], "b": [], "pad": r.randrange(2)})
        a = cases[-1]["a"]
        b = list(a)
        y = r.random()
        if y < 0.4:
            b[r.randrange(len(b))] += r.choice([1, 9, 10])
        elif y < 0.7:
            b += [0] * r.choice([1, 2])
        elif y < 0.9:
            b += [r.choice([0, 1])]
        cases[-1]["b"] = b
    for _ in range(80 * n):
        names = r.sample(["Alpha", "Beta", "Gamma", "Delta", "Omega", "Zeta", "a1", "_p"], r.choice([1, 2, 3, 5, 6]))
        cs = []
        for i, x in enumerate(names):
            pool = ["Base", "Base", "Other"] + names[:i] * 2
            b = [r.choice(pool)]
            if r.random() < 0.35 and i > 1:
                b = r.sample(names[:i], 2)
            if "Base" in b:
                b = ["Base"]
            cs.append({"n": x, "b": b})
        cases.append({"do": "classes", "cs": cs})

    def data():
        return [r.choice([0, 9, 10, 31, 32, 47, 92, 126, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 70, r.randrange(1, 120)]))]
    for _ in range(80 * n):
        cases.append({"do": "dump", "bs": data(), "o": {"start": r.choice([0, 0, 1, 16, 250, 4096, 65520]), "ascii": r.random() < 0.7, "offset": r.random() < 0.6, "sep": r.random() < 0.6}})
    for _ in range(120 * n):
        cases.append({"do": "array", "bs": data(), "skip": r.choice([0, 0, 1, 5]),
                      "o": {"type": r.choice(TYPES), "name": r.choice(["mData", "Test"]), "len": r.random() < 0.6, "row": r.choice([1, 2, 3, 7, 8, 16, 16, 20]),
                            "indent": r.choice(["    ", "  ", "", "\t"]), "ascii": r.random() < 0.7, "lname": r.choice(["", "mSize"]), "ltype": r.choice(["UINTN", "UINT32"])}})
    for big in [300, 1000, 4111, 5000, 66000]:
        bs = [(i * 7 + i // 256) % 256 for i in range(big)]
        cases.append({"do": "dump", "bs": bs, "o": {"start": r.choice([0, 16, 65520]), "ascii": r.random() < 0.5, "offset": True, "sep": r.random() < 0.5}})
        cases.append({"do": "array", "bs": bs, "skip": 0, "o": {"type": "UINT8", "name": "mBig", "len": True, "row": r.choice([16, 20]), "indent": "  ", "ascii": r.random() < 0.5, "lname": "", "ltype": "UINTN"}})
    for s in ["Linux", "Windows", "Darwin"]:
        for mch in ["x86_64", "AMD64", "x86_32", "aarch64", "arm64", "ARM64", "armv7l", "loongarch64", "riscv64", "i686", "Intel64", "x86", "sparc", "LOONGARCH32", "aarch64_be", "arm32v7"]:
            cases.append({"do": "host", "sys": s, "mach": mch})
    for _ in range(10 * n):
        cases.append({"do": "import", "vals": [r.randrange(1000) for _ in range(r.choice([1, 2, 4]))]})
    return cases


ROW = re.compile(r"^(\s*?)((?:0x[0-9a-f]{2},?\s*)+)(?:\s*// (.*))?$")


def parse_array(text, o):
    """The parts of a C array declaration."""
    head, rest = text.split(" = {", 1)
    m = re.fullmatch(r"(.+) (\w+)\[(\d*)\]", head)
    body, tail = rest.split("\n};", 1)
    lines = body.split("\n")
    assert lines[0] == "", lines[0]
    bs, widths, indents, comments = [], [], [], []
    stripped = []
    for i, ln in enumerate(lines[1:]):
        code, sep, com = ln.partition("//")
        if sep:
            # a blank follows //, and one ends the comment so that no backslash is last
            assert com[0] == " " and com[-1] == " ", com
            comments.append(com[1:-1])
        indents.append(code[:len(code) - len(code.lstrip())])
        stripped.append(code.strip())
    for i, c in enumerate(stripped):
        last = i == len(stripped) - 1
        assert c.endswith(",") != last, c
        v = [int(x.strip(), 16) for x in c.rstrip(",").split(",")]
        assert all(re.fullmatch(r"0x[0-9a-f]{2}", x.strip()) for x in c.rstrip(",").split(","))
        widths.append(len(v))
        bs += v
    return {"type": m.group(1), "name": m.group(2), "len": m.group(3), "bytes": bs, "widths": widths, "indents": indents, "comments": comments, "tail": tail.strip()}


def run(case, d):
    from edk2toollib import utility_functions as U

    ev = {"k": "start"}
    ev.update(case)
    do = case["do"]
    if do == "version":
        txt = lambda v: ".".join(("%02d" if case["pad"] else "%d") % x for x in v)
        ev["obs"] = {"r": U.version_compare(txt(case["a"]), txt(case["b"])), "back": U.version_compare(txt(case["b"]), txt(case["a"]))}
    elif do == "classes":
        made = {"Base": type("Base", (), {}), "Other": type("Other", (), {})}
        mod = types.ModuleType("m")
        cs = []
        for c in case["cs"]:
            b = list(c["b"])
            for bases in (b, b[::-1], b[:1]):
                try:
                    made[c["n"]] = type(c["n"], tuple(made[x] for x in bases), {})
                    break
                except TypeError:
                    continue
            cs.append({"n": c["n"], "b": bases})
            setattr(mod, c["n"], made[c["n"]])
        mod.Base, mod.number, mod.Other = made["Base"], 5, made["Other"]
        ev["cs"] = cs
        try:
            k = U.locate_class_in_module(mod, made["Base"])
            ev["obs"] = {"r": "none" if k is None else k.__name__}
        except RuntimeError:
            ev["obs"] = {"r": "raise"}
    elif do == "dump":
        o = case["o"]
        kw = {"include_ascii": o["ascii"], "include_offset": o["offset"], "include_hex_sep": o["sep"]}
        f, g = io.StringIO(), io.StringIO()
        U.hexdump(bytes(case["bs"]), o["start"], f, **kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                U.PrintByteList(bytes(case["bs"]), o["ascii"], o["offset"], o["sep"], o["start"], outfs=g)
                legacy = g.getvalue()
            except TypeError as e:
                legacy = "TypeError " + str(e)
        rows = lambda t: t[:-1].split("\n") if t.endswith("\n") else [t, "no line end"]
        ev["obs"] = {"rows": rows(f.getvalue()), "legacy": rows(legacy)}
    elif do == "array":
        o = case["o"]
        src = io.BytesIO(b"\x77" * case["skip"] + bytes(case["bs"]))
        src.seek(case["skip"])
        out = io.StringIO()
        try:
            U.export_c_type_array(src, o["name"], out, data_type=o["type"], length_data_type=o["ltype"], bytes_per_row=o["row"], indent=o["indent"],
                                  include_ascii=o["ascii"], include_length=o["len"], **({"length_variable_name": o["lname"]} if o["lname"] else {}))
            ev["obs"] = {"st": "ok", "a": parse_array(out.getvalue(), o)}
        except ValueError:
            ev["obs"] = {"st": "raise"}
    elif do == "host":
        real = U.platform.uname
        U.platform.uname = lambda: types.SimpleNamespace(system=case["sys"], machine=case["mach"])
        try:
            h = U.GetHostInfo()
            ev["obs"] = {"st": "ok", "h": [h.os, h.arch, h.bit]}
        except EnvironmentError:
            ev["obs"] = {"st": "raise"}
        finally:
            U.platform.uname = real
    else:
        # files of one name in several directories
        got, want = [], []
        mods = []
        for i, v in enumerate(case["vals"]):
            os.makedirs(f"{d}/d{i}")
            with open(f"{d}/d{i}/plug.py", "w") as f:
                f.write(f"VALUE = {v}\nWHERE = __file__\nSTATE = []\n")
            mods.append(U.import_module_by_file_name(f"{d}/d{i}/plug.py"))
            mods[-1].STATE.append(v)
        mods.append(U.import_module_by_file_name(f"{d}/d0/plug.py"))
        for i, m in enumerate(mods):
            j = i if i < len(case["vals"]) else 0
            got.append([m.VALUE, m.WHERE == f"{d}/d{j}/plug.py", len(m.STATE)])
            want.append([case["vals"][j], True, 1 if i < len(case["vals"]) else 0])
        ev["want"] = want
        ev["obs"] = {"st": "ok", "v": got}
    return [ev]


def classify(case, events):
    o, do = events[0]["obs"], case["do"]
    if do == "classes":
        return {"no class" if o["r"] == "none" else "classes ambiguous" if o["r"] == "raise" else "classes found"}
    if do == "array":
        return {"array refused" if o["st"] == "raise" else "array"}
    if do == "host":
        return {"unknown host" if o["st"] == "raise" else "host"}
    return {do}
