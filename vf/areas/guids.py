"""C10: GUID spellings (GuidParser, BaseParser.ParseGuid)."""

TRACE = ("GuidTrace", "GuidTrace.cfg")
CASE_SECONDS = 20
BATCH = []


def models(tier, pid):
    return [{"module": "GuidMC", "cfg": "GuidMC.cfg", "consts": {"Vals": "{1, 2}" if tier == "quick" else "{1, 2, 3, 4}", "Points": "{12}" if tier == "quick" else "{5, 12}"}, "min_behaviours": 300,
             "limit": 300 if tier == "quick" else 1500, "what": "every C spelling with per-part choices of case, leading zeros and spacing"}]


def batch(s):
    BATCH.append(s)
    if len(BATCH) == 1:
        c = {"strs": list(BATCH)}
        BATCH.clear()
        return [c]
    return []


def from_model(doc, m, pid):
    return batch(doc)


def cform(h, r):
    f = [h[0:8], h[8:12], h[12:16]] + [h[i:i + 2] for i in range(16, 32, 2)]
    z = r.random() < 0.4
    f = [(x.lstrip("0") or "0") if z else x for x in f]
    f = [r.choice(["0x", "0x", "0X"]) + (x.upper() if r.random() < 0.4 else x) for x in f]
    sp = lambda: r.choice(["", " ", " ", "  "])
    return sp() + "{" + sp() + ("," + sp()).join(f[:3]) + sp() + "," + sp() + "{" + sp() + (sp() + "," + sp()).join(f[3:]) + sp() + "}" + sp() + "}" + sp()


def gen(rng, tier, pid):
    r = rng
    cases = []
    BATCH.clear()
    for _ in range(200 if tier == "quick" else 5000):
        strs = []
        for _ in range(8):
            h = "".join(r.choice("0123456789abcdef" if r.random() < 0.7 else "0") for _ in range(32))
            if r.random() < 0.15:
                h = r.choice(["0" * 32, "f" * 32, "0" * 31 + "1", "1" + "0" * 31, "0" * 16 + "8" + "0" * 15])
            if r.random() < 0.5:
                s = cform(h, r)
            else:
                s = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
                s = s.upper() if r.random() < 0.4 else s
                s = r.choice(["", " ", "{", "{ ", "\t"]) + s + r.choice(["", " ", "}", " }", "\n"])
            if r.random() < 0.45:
                i = r.randrange(len(s))
                y = r.random()
                if y < 0.3:
                    s = s[:i] + s[i + 1:]
                elif y < 0.6:
                    s = s[:i] + r.choice("0gx,-{} f") + s[i:]
                elif y < 0.8:
                    s = s.rstrip() + r.choice(["0", "ff", " x", ", 0x1", "}", "-00"])
                else:
                    s = r.choice(["1", "g", "x", "{"]) + s
            strs.append(list(s))
        cases.append({"strs": strs})
    return cases


def run(case, d):
    from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
    from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser as G

    out = []
    ev = {"k": "start", "strs": case["strs"]}
    try:
        for cs in case["strs"]:
            s = "".join(cs)
            u = G.uuid_from_guidstring(s)
            c = bool(G.is_guid_in_c_format(s))
            try:
                dsc = BaseParser("x").ParseGuid(s.strip()) if c else "any"
            except Exception as e:
                dsc = "raise " + repr(e)[:80]
            out.append({"c": c, "reg": bool(G.is_guid_in_reg_format(s)), "regtext": G.reg_guid_from_c_format(s),
                        "ctext": "" if c else G.c_guid_from_reg_format(s), "uuid": "none" if u is None else str(u),
                        "back": [] if u is None else [G.c_guid_str_from_uuid(u), G.reg_guid_str_from_uuid(u)], "dsc": dsc})
        ev["obs"] = {"st": "ok", "out": out}
    except Exception as e:
        ev["obs"] = {"st": "raise", "what": repr(e)[:200] + " on " + s}
    return [ev]
