"""C27: the DSC data model and the file it is written to (uefi/edk2/build_objects)."""

import os

TRACE = ("DscObjectTrace", "DscObjectTrace.cfg")
CASE_SECONDS = 20
REQUIRED_CLASSES = ["refused item", "refused section", "refused assignment", "replaced", "sku clash", "sections", "written component", "written pcd", "written option", "replacing option", "written store", "equal objects",
                    "different objects", "equal sections", "different sections", "equal items", "different items"]
MODULES = ["common", "BASE", "SEC", "PEI_CORE", "PEIM", "DXE_CORE", "DXE_DRIVER", "DXE_RUNTIME_DRIVER", "DXE_SAL_DRIVER", "DXE_SMM_DRIVER", "SMM_CORE", "UEFI_DRIVER", "UEFI_APPLICATION", "USER_DEFINED"]
PCDS = ["FeatureFlag", "PatchableInModule", "FixedAtBuild", "Dynamic", "DynamicEx", "DynamicDefault", "DynamicHii", "DynamicVpd", "DynamicExHii", "DynamicExVpd"]
KIND = {"components": "gen", "libraries": "gen", "library_classes": "gen", "build_options": "bo", "pcds": "pcds"}


def models(tier, pid):
    q = tier == "quick"
    return [{"module": "DscObjectMC", "cfg": "DscObjectMC.cfg", "consts": {"MaxOps": 2 if q else 3}, "min_behaviours": 4000, "limit": 2500 if q else 40000,
             "what": "every short history of additions and assignments on each part of the object"}]


def from_model(doc, m, pid):
    end = [{"op": "all"}, {"op": "write"}]
    for o in doc["ops"]:
        if o["op"] != "add":
            end.append({"op": "look", "w": o["w"], "sec": o["sec"]})
    if len(doc["ops"]) == 2 and doc["ops"][0]["op"] == "addto":
        a, b = doc["ops"]
        if b["op"] == "addto":
            end.append({"op": "itemeq", "a": a["item"], "b": b["item"]})
        end.append({"op": "seceq", "a": a["sec"], "b": b["sec"]})
        end.append({"op": "same", "ops": doc["ops"][:1]})
    elif doc["ops"][0]["op"] == "add":
        end.append({"op": "itemeq", "a": doc["ops"][0]["item"], "b": doc["ops"][1]["item"]})
        end.append({"op": "same", "ops": doc["ops"][::-1]})
    return [{"ops": doc["ops"] + end}]


def odd(r, s):
    x = r.random()
    s = s.upper() if x < 0.2 else s.lower() if x < 0.4 else s
    return " " * r.choice([0, 0, 0, 1]) + s + " " * r.choice([0, 0, 0, 1])


def definition(r):
    return ["def", r.choice(["A", "B", "a", "PLATFORM_NAME", "X1"]), r.choice(["1", "0x10", "Build/Test", "IA32|X64", "a = b", "", "TRUE", "$(A)/x"]), r.choice("01")]


def lc(r):
    return ["lc", r.choice(["NULL", "null", "PcdLib", "PCDLIB", "DebugLib", "Nullify"]), r.choice(["P/a.inf", "P/b.inf", "P/A.inf", "P/d e.inf"])]


def pcd(r):
    ns, n = r.choice(["gA", "gB", "gAB"]), r.choice(["P", "Q", "PcdLong", "B.P"])
    x = r.random()
    if x < 0.4:
        return ["pcd", ns, n, r.choice(["1", "0x0", 'L"a=b"', "TRUE", '"t"', "{0x1, 0x2}"])]
    if x < 0.7:
        return ["pcdt", ns, n, r.choice(["1", 'L"COM1!COM2"', "{GUID(gX)}"]), r.choice(["VOID*", "UINT8", "BOOLEAN"]), r.choice(["0", "0", "8", "106"])]
    d = r.choice(["-", "10", "0x1", "0"])
    a = "-" if d == "-" or r.random() < 0.3 else r.choice(["NV", "nv,BS", "BS, RT,NV", " ro ", "NV,NVX", "XX", "RO,RO"])
    return ["pcdv", ns, n, r.choice(['L"Timeout"', 'L"a b"']), r.choice(["gEfiGlobalVariableGuid", "gG"]), r.choice(["0", "0x07"]), d, a]


def opt(r):
    return ["opt", r.choice(["-", "-", "MSFT", "GCC"]), r.choice(["*", "DEBUG", "RELEASE"]), r.choice(["*", "VS2019"]), r.choice(["*", "IA32"]), r.choice(["CC", "DLINK"]), r.choice(["FLAGS", "PATH"]), r.choice("001"),
            r.choice(["-O2", "/D X = 1", "", "a|b", "= x", "/BASE:0x1 -DY=2"])]


def unique(xs):
    seen, out = set(), []
    for x in xs:
        k = (x[0], x[1].lower(), x[2] if x[1].lower() == "null" else "") if x[0] == "lc" else tuple(x[:7]) if x[0] == "opt" else ("pcd", x[1] + "." + x[2]) if x[0][:3] == "pcd" else tuple(x[:2])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def few(r, f, most=3):
    return unique([f(r) for _ in range(r.choice([0, 0, 1, 2, most]))])


def goodpcd(r):
    while True:
        x = pcd(r)
        if x[0] != "pcdv" or not ("XX" in x[7] or "NVX" in x[7]):
            return x


def comp(r):
    inf = r.choice(["P/a.inf", "P/b.inf", "P/A.inf", "P/x/c d.inf"])
    if r.random() < 0.4:
        return ["comp", inf, [], [], [], []]
    ts = r.sample(PCDS, r.choice([0, 0, 1, 2]))
    if r.random() < 0.03:
        ts = ["Nonsense"]
    return ["comp", inf, few(r, definition), few(r, lc), [[t, few(r, goodpcd)] for t in ts], few(r, opt)]


ITEM = {"defines": definition, "skus": lambda r: ["sku", r.choice(["0", "1", "2", "255"]), r.choice(["DEFAULT", "A", "B", "a"]), r.choice(["DEFAULT", "A"])],
        "default_stores": lambda r: ["store", r.choice(["0", "1", "2"]), r.choice(["Standard", "Manufacturing"])],
        "components": comp, "libraries": lambda r: ["lib", r.choice(["P/a.inf", "P/b.inf", "P/A.inf"])], "library_classes": lc, "build_options": opt, "pcds": pcd}


def item(r, w):
    x = r.random()
    if x < 0.08:
        return ITEM[r.choice(list(ITEM))](r)
    if x < 0.2:
        return definition(r)
    return ITEM[w](r)


def section(r, w):
    k = KIND[w] if r.random() < 0.96 else r.choice(["gen", "bo", "pcds"])
    bad = r.random()
    arch = odd(r, r.choice(["common", "common", "IA32", "X64", "default" if k != "pcds" else "AARCH64"]))
    mod = "Wrong" if bad < 0.03 else odd(r, r.choice(MODULES[:1] * 8 + MODULES))
    if k == "gen":
        return [k, arch, mod]
    if k == "bo":
        return [k, arch, "EDKI" if 0.03 < bad < 0.06 else odd(r, r.choice(["common", "EDK", "EDKII", "common"])), mod]
    t = r.choice(["DynamicHii", "DynamicExHii"]) if r.random() < 0.4 else r.choice(PCDS)
    store = r.choice(["-", "Standard", " Man"]) if t.endswith("Hii") or bad < 0.04 else "-"
    return [k, "PcdsFixedAtBuild" if bad > 0.97 else odd(r, t), arch, r.choice(["DEFAULT", "DEFAULT", "default", "S1", "s1", "S2"]), store]


def build(r, n):
    ops = []
    for _ in range(n):
        x = r.random()
        if x < 0.3:
            w = r.choice(["defines", "skus", "skus", "default_stores"])
            ops.append({"op": "add", "w": w, "item": item(r, w)})
            continue
        w = r.choice(list(KIND))
        s = section(r, w)
        if x < 0.85:
            ops.append({"op": "addto", "w": w, "sec": s, "item": item(r, w)})
        elif x < 0.92:
            ops.append({"op": "look", "w": w, "sec": s})
        else:
            how = r.choice(["set", "set", "full", "wrong", "plain"])
            ops.append({"op": "open", "w": w, "sec": s, "how": how, "items": [item(r, w) for _ in range(r.choice([1, 2, 3]))] if how in ("full", "plain") else []})
    return ops


def gen(rng, tier, pid):
    r, out = rng, []
    n = 1 if tier == "quick" else 20
    for _ in range(220 * n):
        ops = build(r, r.choice([2, 5, 12, 30, 60]))
        plain = list(ops)
        for _ in range(3):
            o = r.choice(plain)
            if "sec" in o:
                ops.append({"op": "look", "w": o["w"], "sec": o["sec"]})
        ops.append({"op": "all"})
        ops.append({"op": "write"})
        if r.random() < 0.7:
            other = list(plain)
            x = r.random()
            if x < 0.5:
                del other[r.randrange(len(other))]
            elif x < 0.7:
                other.append(build(r, 1)[0])
            ops.append({"op": "same", "ops": other})
        out.append({"ops": ops})
    ops = []
    for _ in range(700 * n):
        if r.random() < 0.5:
            w = r.choice(list(KIND))
            a = section(r, w)
            b = [odd(r, y.strip()) if i and i < 4 and not (a[0] == "pcds" and i == 3) else y for i, y in enumerate(a)] if r.random() < 0.3 else section(r, w)
            if a[0] == b[0] and r.random() < 0.3:
                i = r.randrange(1, len(a))
                b = a[:i] + [b[i]] + a[i + 1:]
            ops.append({"op": "seceq", "a": a, "b": b})
        else:
            f = r.choice(list(ITEM.values()))
            a, b = f(r), f(r)
            if a[0] == b[0] and len(a) == len(b) and r.random() < 0.6:
                i = r.randrange(1, len(a))
                b = a[:i] + [b[i]] + a[i + 1:]
            ops.append({"op": "itemeq", "a": a, "b": b})
    out += [{"ops": ops[i:i + 20]} for i in range(0, len(ops), 20)]
    return out


def classify(case, events):
    seen = {}
    for e in events[1:]:
        o = e["obs"]
        if e["k"] in ("add", "addto", "open") and not o["ok"]:
            yield "refused section" if e.get("sec") and e["sec"][0] != KIND[e["w"]] else "refused assignment" if e["k"] == "open" else "refused item"
        if e["k"] == "add" and o["ok"]:
            k = e["item"]
            if k[0] == "sku":
                for z in seen.get("sku", []):
                    if (z[1] == k[1]) != (z[2] == k[2]):
                        yield "sku clash"
            if k[:2] in seen.get(k[0] + "2", []):
                yield "replaced"
            seen.setdefault(k[0], []).append(k)
            seen.setdefault(k[0] + "2", []).append(k[:2])
        if e["k"] in ("seceq", "itemeq") and o["ok"]:
            yield ("equal " if o["eq"] else "different ") + ("sections" if e["k"] == "seceq" else "items")
        if e["k"] == "same":
            yield "equal objects" if o["eq"] else "different objects"
        if e["k"] == "write" and o["ok"]:
            if len(o["secs"]) > 3:
                yield "sections"
            for s in o["secs"]:
                for b in s["blocks"]:
                    if b["subs"]:
                        yield "written component"
                    if s["h"][0].startswith("PCDS"):
                        yield "written pcd"
                    if s["h"][0] == "BUILDOPTIONS":
                        yield "written option"
                        if b["l"][0] == "=" and b["l"][2] == "==":
                            yield "replacing option"
                    if s["h"][0] == "DEFAULTSTORES":
                        yield "written store"


def make(x):
    from edk2toollib.uefi.edk2.build_objects import dsc as D

    def none(s):
        return None if s == "-" else s

    t = x[0]
    if t == "def":
        o = D.definition(x[1], x[2], x[3] == "1")
    elif t == "sku":
        o = D.sku_id(int(x[1]), x[2], x[3])
    elif t == "lc":
        o = D.library_class(x[1], x[2])
    elif t == "lib":
        o = D.library(x[1])
    elif t == "store":
        o = D.default_store(int(x[1]), x[2])
    elif t == "pcd":
        o = D.pcd(x[1], x[2], x[3])
    elif t == "pcdt":
        o = D.pcd_typed(x[1], x[2], x[3], x[4], int(x[5]))
    elif t == "pcdv":
        o = D.pcd_variable(x[1], x[2], x[3], x[4], x[5], none(x[6]), none(x[7]))
    elif t == "opt":
        o = D.build_option(x[5], x[6], x[8], x[2], x[3], x[4], none(x[1]), x[7] == "1")
    else:
        o = D.component(x[1])
        for y in x[2]:
            o.defines.add(make(y))
        for y in x[3]:
            o.library_classes.add(make(y))
        for k, ys in x[4]:
            o.pcds[D.dsc_pcd_component_type(k)] = {make(y) for y in ys}
        for y in x[5]:
            o.build_options.add(make(y))
    o.vf_item = x
    return o


def sec(x):
    from edk2toollib.uefi.edk2.build_objects import dsc as D

    if x[0] == "gen":
        return D.dsc_section_type(x[1], x[2])
    if x[0] == "bo":
        return D.dsc_buildoption_section_type(x[1], x[2], x[3])
    return D.dsc_pcd_section_type(x[1], x[2], x[3], None if x[4] == "-" else x[4])


def attempt(f):
    try:
        f()
        return {"ok": True}
    except Exception:
        return {"ok": False}


def other_set(w):
    """A set restricted to (and holding) something else."""
    from edk2toollib.uefi.edk2.build_objects import dsc as D

    s = D.dsc_set([D.sku_id])
    s.add(D.sku_id())
    return s


def allowed(w):
    from edk2toollib.uefi.edk2.build_objects import dsc as D

    return {"components": [D.component, D.definition], "libraries": [D.library, D.definition], "library_classes": [D.library_class, D.definition], "build_options": [D.build_option, D.definition],
            "pcds": [D.pcd, D.pcd_typed, D.pcd_variable]}[w]


def setitem(d, o):
    from edk2toollib.uefi.edk2.build_objects import dsc as D

    items = [make(x) for x in o["items"]]
    if o["how"] == "set":
        v = set()
    elif o["how"] == "wrong":
        v = other_set(o["w"])
    elif o["how"] == "plain":
        v = set(items)
    else:
        v = D.dsc_set(allowed(o["w"]))
        for x in items:
            v.add(x)
    getattr(d, o["w"])[sec(o["sec"])] = v


def do(d, o):
    if o["op"] == "add":
        return attempt(lambda: getattr(d, o["w"]).add(make(o["item"])))
    if o["op"] == "addto":
        return attempt(lambda: getattr(d, o["w"])[sec(o["sec"])].add(make(o["item"])))
    if o["op"] == "open":
        return attempt(lambda: setitem(d, o))
    try:
        return {"ok": True, "items": [x.vf_item for x in getattr(d, o["w"])[sec(o["sec"])]]}
    except Exception:
        return {"ok": False, "items": []}


def line(t):
    p, q = t.find("|"), t.find("=")
    if q >= 0 and (p < 0 or q < p):
        k, v = t[:q].strip(), t[q + 1:]
        op = "="
        if v.startswith("="):
            op, v = "==", v[1:]
        return ["=", k, op, v.strip()]
    if p >= 0:
        f = [y.strip() for y in t.split("|")]
        if len(f) == 6:
            f[5] = f[5].replace(" ", "")
        return ["|", *f]
    return ["-", t]


def header(t):
    h = [y.strip() for y in t.split(".")]
    h = [y if i == 3 and h[0].upper().startswith("PCDS") else y.upper() for i, y in enumerate(h)]
    if len(h) > 1 and h[1] in ("COMMON", "DEFAULT"):
        h[1] = "*"
    return h


def read(text):
    secs, block, sub = [], None, None
    for t in text.split("\n"):
        t = t.strip()
        if not t:
            continue
        if t.startswith("[") and t.endswith("]") and block is None:
            secs.append({"h": header(t[1:-1]), "blocks": []})
        elif block is not None and t == "}":
            block = sub = None
        elif block is not None and t.startswith("<") and t.endswith(">"):
            sub = {"h": header(t[1:-1]), "lines": []}
            block["subs"].append(sub)
        elif block is not None:
            sub["lines"].append(line(t))
        elif secs[-1]["h"][0] == "COMPONENTS" and t.endswith("{"):
            block = {"l": ["-", t[:-1].strip()], "subs": []}
            secs[-1]["blocks"].append(block)
        else:
            secs[-1]["blocks"].append({"l": line(t), "subs": []})
    if block is not None:
        raise ValueError("a component is not closed")
    return secs


def write(d, folder):
    from edk2toollib.uefi.edk2.build_objects.dsc_translator import DscTranslator

    p = os.path.join(folder, "out.dsc")
    try:
        DscTranslator.dsc_to_file(d, p)
        with open(p) as f:
            return {"ok": True, "secs": read(f.read())}
    except Exception as e:
        return {"ok": False, "secs": [], "why": repr(e)[:200]}


def pair(f, a, b):
    try:
        x, y = f(a), f(b)
    except Exception:
        return {"ok": False, "eq": False, "hash": False}
    return {"ok": True, "eq": bool(x == y), "hash": hash(x) == hash(y)}


def run(case, folder):
    import contextlib
    import io

    from edk2toollib.uefi.edk2.build_objects.dsc import dsc

    d = dsc()
    ev = [{"k": "start"}]
    with contextlib.redirect_stdout(io.StringIO()):
        for o in case["ops"]:
            e = {"k": o["op"], **o}
            if o["op"] in ("add", "addto", "open", "look"):
                e["obs"] = do(d, o)
            elif o["op"] == "all":
                e["obs"] = {w: [x.vf_item for x in getattr(d, w)] for w in ("defines", "skus", "default_stores")}
            elif o["op"] == "write":
                e["obs"] = write(d, folder)
            elif o["op"] == "same":
                x = dsc()
                for p in o["ops"]:
                    do(x, p)
                e["obs"] = {"eq": bool(d == x)}
            else:
                e["obs"] = pair(sec if o["op"] == "seceq" else make, o["a"], o["b"])
            ev.append(e)
    return ev
