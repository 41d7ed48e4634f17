"""C21: IVRS and DMAR tables."""
import contextlib
import io
import os
import re
import xml.etree.ElementTree as ET

TRACE = ("AcpiTrace", "AcpiTrace.cfg")
REQUIRED_CLASSES = ["table", "refused table", "reports", "structure added", "refused structure", "dmar", "refused dmar", "rmrr unexpected", "rmrr expected"]


def models(tier, pid):
    deep = tier != "quick"
    return [{"module": "AcpiMC", "cfg": "AcpiMC.cfg", "consts": {"MaxSubs": 2, "Deep": "TRUE" if deep else "FALSE"}, "min_behaviours": 1500, "limit": None if deep else 3000,
             "what": "small IVRS and DMAR tables with every kind of structure, cut and damaged"}]


def from_model(doc, m, pid):
    return [{"ops": [{"op": doc["k"], "b": doc["b"], "full": doc["full"], "golden": None}]}]


def le(n, w):
    return list(n.to_bytes(w, "little"))


def num(r, w):
    return r.choice([[0] * w, [255] * w, [1] + [0] * (w - 1), [r.randint(0, 255) for _ in range(w)], [r.randint(0, 255) for _ in range(w)]])


ALNUM = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefgh0123456789 "


def txt(r, n, plain):
    return [r.choice(ALNUM) if plain else r.randint(0, 255) for _ in range(n)]


def entry(r, plain, wild=0.0):
    t = r.choice([0, 1, 2, 3, 66, 67, 70, 71, 72, 240, 240])
    if r.random() < wild:
        t = r.choice([4, 5, 65, 73, 241, r.randint(0, 255)])
    h = [t] + num(r, 2) + num(r, 1)
    end = [4 if r.random() >= wild else r.choice([0, 3, 5])] + num(r, 2) + [r.choice([0, 0, 0, 7])]
    if t == 3:
        return h + end
    if t in (66, 67):
        h += [r.choice([0, 0, 9])] + num(r, 2) + [r.choice([0, 0, 9])]
        return h + (end if t == 67 else [])
    if t in (70, 71):
        return h + num(r, 4) + (end if t == 71 else [])
    if t == 72:
        return h + num(r, 3) + [r.choice([0, 1, 2, 3, 255])]
    if t == 240:
        f = r.choice([0, 1, 2, 2])
        u = {0: 0, 1: 8, 2: r.choice([0, 1, 5, 8, 200, 255])}[f]
        if r.random() < wild:
            u = r.choice([0, 1, 8, 9, u])
        return h + txt(r, 16, plain) + [f, u] + (txt(r, u, plain) if f == 2 else num(r, u) if u else [])
    return h


def sub(r, plain, wild=0.0):
    if r.random() < 0.3:
        t = r.choice([32, 33, 34])
        return [t] + num(r, 1) + le(32 if r.random() >= wild else r.choice([0, 4, 31, 33]), 2) + num(r, 2) + num(r, 2) + num(r, 8) + num(r, 8) + num(r, 8)
    t = r.choice([16, 17, 64])
    if r.random() < wild:
        t = r.choice([15, 18, 35, 65, 0])
    d = [x for _ in range(r.choice([0, 1, 1, 2, 4])) for x in entry(r, plain, wild)]
    n = (24 if t == 16 else 40) + len(d)
    if r.random() < wild:
        n += r.choice([-1, 1, 4, -4, 256])
    return [t] + num(r, 1) + le(max(n, 0), 2) + num(r, 2) + num(r, 2) + num(r, 8) + num(r, 2) + num(r, 2) + num(r, 4) + ([] if t == 16 else num(r, 16)) + d


def head(r, plain, sig=b"IVRS"):
    return list(sig) + le(48, 4) + num(r, 1) + [0] + txt(r, 6, plain) + txt(r, 8, plain) + num(r, 4) + txt(r, 4, plain) + num(r, 4)


def resum(b):
    b = list(b)
    if len(b) > 9:
        b[9] = 0
        b[9] = -sum(b) & 255
    return b


def ivhead(r, plain):
    x = num(r, 4)
    if not x[0] & 0x1E:
        x[0] |= r.choice([2, 4, 8, 16])
    return head(r, plain) + x + num(r, 8)


def table(r, plain, wild=0.0):
    b = ivhead(r, plain)
    for _ in range(r.choice([0, 1, 1, 2, 3]) if r.random() < 0.98 else r.choice([17, 40, 70])):
        b += sub(r, plain, wild)
    n = len(b)
    if r.random() < wild:
        n += r.choice([-1, 1, 4])
    b[4:8] = le(n, 4)
    if r.random() < wild:
        b[36] &= ~0x1E & 255
    return resum(b)


def scopes(r, wild):
    b = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        n = r.choice([0, 1, 1, 1, 2, 4])
        ln = 6 + 2 * n
        if r.random() < wild:
            ln = r.choice([0, 1, 5, ln + 1, ln + 2, ln - 1, 255])
        t = r.choice([1, 1, 2, 3, 4, 5])
        if r.random() < wild:
            t = r.choice([0, 6, 255])
        b += [t, ln] + num(r, 3) + r.choice([[0], [9], [10], num(r, 1)]) + [r.choice([0, 1, 9, 10, 31, 255]) for _ in range(2 * n)]
    return b


def dmar(r, plain, wild=0.0):
    b = head(r, plain, b"DMAR") + num(r, 1) + [r.randint(0, 255)] + num(r, 10)
    for _ in range(r.choice([0, 1, 2, 2, 3, 4]) if r.random() < 0.97 else r.choice([17, 40, 70])):
        t = r.choice([0, 1, 1, 2, 3, 4])
        if t == 0:
            x = num(r, 1) + num(r, 1) + num(r, 2) + num(r, 8) + scopes(r, wild)
        elif t == 1:
            x = num(r, 2) + num(r, 2) + num(r, 8) + num(r, 8) + scopes(r, wild)
        elif t == 2:
            x = num(r, 1) + num(r, 1) + num(r, 2) + scopes(r, wild)
        elif t == 3:
            x = num(r, 4) + num(r, 8) + num(r, 4)
        else:
            x = num(r, 3) + num(r, 1) + txt(r, r.choice([0, 1, 4, 12, 250]), plain)
        n = 4 + len(x)
        if r.random() < wild:
            n = r.choice([0, 1, 3, 4, n - 1, n + 1, n + 100, 65535])
        if r.random() < wild:
            t = r.choice([5, 6, 256, 65535])
        b += le(t, 2) + le(n, 2) + x
    b[4:8] = le(len(b), 4)
    return resum(b)


def gen(rng, tier, pid):
    n = 700 if tier == "quick" else 15000
    return [one(rng) for _ in range(n)]


def one(r):
    ops = []
    plain = r.random() < 0.7
    odd = False
    x = r.random()
    if x < 0.35:
        wild = r.choice([0, 0, 0, 0.1])
        b = dmar(r, plain, wild)
        if r.random() < 0.1:
            b = b[:r.choice([0, 37, 48, r.randrange(len(b)), r.randrange(len(b))])]
            wild = 1
        return {"ops": [{"op": "dmar", "b": b, "full": plain and not wild, "golden": r.choice(["none", "all", "most", "random"]), "seed": r.randint(0, 1 << 30)}]}
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if not ops or x < 0.4:
            wild = r.choice([0, 0, 0, 0.1])
            odd = False  # texts that are not text: no reports
            if r.random() < 0.35:
                ops.append({"op": "new", "h": resum(ivhead(r, plain))})
            else:
                b = table(r, plain, wild)
                y = r.random()
                if y < 0.05:
                    b = b[:r.randrange(len(b))]
                    wild = 1
                elif y < 0.1:
                    i = r.randrange(len(b))
                    b[i] ^= r.choice([1, 4, 128])
                    wild = 1
                    if r.random() < 0.6:
                        b = resum(b)
                odd = bool(wild)
                ops.append({"op": "read", "b": b, "full": plain and not wild, "reuse": r.random() < 0.5})
        else:
            wild = r.choice([0, 0, 0, 0.15])
            odd = odd or bool(wild)
            o = {"op": "sub", "b": sub(r, plain, wild), "e": [], "full": plain and not odd, "reuse": r.random() < 0.5}
            if wild and r.random() < 0.5:
                o["b"] = o["b"][:r.randrange(len(o["b"]) + 1)]
            if o["b"] and o["b"][0] in (16, 17, 64):
                for _ in range(r.choice([0, 1, 2])):
                    o["e"].append(entry(r, plain))
            ops.append(o)
    return {"ops": ops}


def classify(case, events):
    for e in events[1:]:
        k, o = e["k"], e["obs"]
        if k == "read":
            yield "table" if o["ok"] else "refused table"
        elif k == "sub":
            yield "structure added" if o["ok"] else "refused structure"
        elif k == "dmar":
            yield "dmar" if o["ok"] else "refused dmar"
            if o["ok"]:
                yield "rmrr expected" if o["rmrr"] else "rmrr unexpected"
        if o.get("xml"):
            yield "reports"


def run(case, d):
    import random

    from edk2toollib.acpi.dmar_parser import DMARTable
    from edk2toollib.acpi.ivrs_parser import IVRS_TABLE

    def flat(x):
        back = ET.fromstring(ET.tostring(x))
        return [{"t": e.tag, "a": [[k, v] for k, v in sorted(e.attrib.items())]} for e in back.iter()]

    def lines(s):
        out = []
        for ln in s.split("\n"):
            if not ln.strip() or ln.strip().startswith("---"):
                continue
            if ": " in ln:
                v = ln.split(": ", 1)[1]
                if re.fullmatch("0x[0-9A-Fa-f]+", v):
                    v = "0x%X" % int(v, 16)
                out.append(v)
            else:
                out.append(ln.strip())
        return out

    def refuse(f):
        try:
            return f()
        except SystemExit:
            return None
        except Exception:
            return None

    def show(t, full):
        o = {"ok": True, "b": list(t.Encode()), "bit": bool(t.IVRSBitEnabled()), "n": len(t.SubStructs)}
        if full:
            s = io.StringIO()
            with contextlib.redirect_stdout(s):
                t.DumpInfo()
            o["dump"] = lines(s.getvalue())
            o["xml"] = flat(t.ToXmlElementTree())
        return o

    t, spare = None, None
    evs = [{"k": "start"}]
    for o in case["ops"]:
        k = o["op"]
        if k == "new":
            t = IVRS_TABLE()
            t.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(bytes(o["h"]))
            evs.append({"k": k, "h": o["h"], "obs": {"ok": True, "b": list(t.Encode())}})
        elif k == "read":
            if t is not None and o.get("reuse"):
                x = t if refuse(lambda: t.Decode(bytes(o["b"])) or True) else None
            else:
                x = refuse(lambda: IVRS_TABLE(bytes(o["b"])))
            t = x
            evs.append({"k": k, "b": o["b"], "full": o["full"], "obs": show(t, o["full"]) if t else {"ok": False}})
            if t is None:
                t = IVRS_TABLE()
                h = resum(b"IVRS" + bytes(le(48, 4) + [2, 0] + [65] * 6 + [66] * 8 + [0] * 4 + [67] * 4 + [0] * 4 + [2] + [0] * 11))
                t.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(bytes(h))
                evs.append({"k": "new", "h": h, "obs": {"ok": True, "b": list(t.Encode())}})
        elif k == "sub":
            cls = IVRS_TABLE.IVMD_STRUCT if o["b"] and o["b"][0] in (32, 33, 34) else IVRS_TABLE.IVHD_STRUCT
            if not o["b"] or o["b"][0] not in (16, 17, 64, 32, 33, 34):
                continue
            # a structure of its own: the object knows the bytes from its start to its stated end
            b = o["b"][:32] if cls is IVRS_TABLE.IVMD_STRUCT else o["b"]
            if o.get("reuse") and cls is IVRS_TABLE.IVHD_STRUCT:
                def build():
                    s = IVRS_TABLE.IVHD_STRUCT(bytes([17, 0, 44, 0] + [9] * 36 + [1, 2, 3, 4]))
                    s.Decode(bytes(b))
                    return s
                s = refuse(build)
            else:
                s = refuse(lambda: cls(bytes(b)))
            e = {"k": k, "b": b, "e": [x for y in o["e"] for x in y], "full": o["full"]}
            if s is None:
                evs.append({**e, "e": [], "obs": {"ok": False}})
                continue
            for x in o["e"]:
                s.addDTEEntry(IVRS_TABLE.DEVICE_TABLE_ENTRY.Factory(bytes(x)))
            (t.addIVMDEntry if cls is IVRS_TABLE.IVMD_STRUCT else t.addIVHDEntry)(s)
            evs.append({**e, "obs": show(t, o["full"])})
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                x = refuse(lambda: DMARTable(bytes(o["b"])))
            e = {"k": k, "b": o["b"], "full": o["full"], "golden": []}
            if x is None:
                evs.append({**e, "obs": {"ok": False}})
                continue
            ps = [p.getPath() for p in x.dmar_table.RMRRlist]
            path = None
            if o["golden"] not in (None, "none"):
                rr = random.Random(o["seed"])
                g = list(ps)
                if o["golden"] == "most" and g:
                    g.pop(rr.randrange(len(g)))
                elif o["golden"] == "random":
                    g = ["00:02.0"] + [p + "0" for p in g] + g[:1]
                g = [p for p in g if p]
                rr.shuffle(g)
                path = os.path.join(d, "golden.xml")
                root = ET.Element("RMRRs")
                for p in g:
                    ET.SubElement(ET.SubElement(root, "RMRR"), "Path").text = p
                ET.ElementTree(root).write(path)
                e["golden"] = g
            with contextlib.redirect_stdout(io.StringIO()):
                ok = bool(x.CheckRMRRCount(path))
            obs = {"ok": True, "bit": bool(x.DMARBitEnabled()), "andd": x.ANDDCount(), "paths": ps, "rmrr": ok}
            if o["full"]:
                obs["dump"] = lines(str(x))
                obs["xml"] = flat(x.toXml())
            evs.append({**e, "obs": obs})
    return evs
