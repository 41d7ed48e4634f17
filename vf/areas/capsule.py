"""C18: capsules, built from parts, decoded, reused and damaged."""
import uuid

TRACE = ("CapsuleTrace", "CapsuleTrace.cfg")
REQUIRED_CLASSES = ["built", "decoded", "refused", "larger header", "reused object", "signed", "not signed"]


def models(tier, pid):
    return [{"module": "CapsuleMC", "cfg": "CapsuleMC.cfg", "consts": {"Deep": "FALSE" if tier == "quick" else "TRUE"}, "min_behaviours": 2000, "limit": 2500 if tier == "quick" else None,
             "what": "every nesting of drivers, images, headers and payloads, and every cut or damaged byte of one of each level"}]


def exts(t):
    return [t.get("ext", [])] + [e for x in t.get("in", []) + t.get("images", []) for e in exts(x)]


def from_model(doc, m, pid):
    ops = []
    if doc["k"] == "build":
        if not any(x for e in exts(doc["t"]) for x in e):
            ops.append({"op": "build", "lvl": doc["lvl"], "t": doc["t"]})
    ops.append({"op": "decode", "lvl": doc["lvl"], "b": doc["b"]})
    if doc["lvl"] == "auth":
        ops.append({"op": "signed", "b": doc["b"]})
    return [{"ops": ops}]


def le(n, w):
    return list(n.to_bytes(w, "little"))


def bs(r, n=20):
    return [r.choice([0, 1, 77, 83, 255, r.randint(0, 255)]) for _ in range(r.choice([0, 1, 2, 4, r.randint(0, n)]))]


def num(r, w):
    return r.choice([[0] * w, [255] * w, [r.randint(0, 255) for _ in range(w)]])


def pay(r):
    return {"fw": num(r, 4), "low": num(r, 4), "ext": [0] * r.choice([0, 0, 0, 4, 16]), "data": bs(r)}


def auth(r):
    i = [pay(r)] if r.random() < 0.8 else []
    return {"mc": num(r, 8), "cert": bs(r), "in": i, "raw": [] if i or r.random() < 0.9 else bs(r)}


def img(r):
    i = [auth(r)] if r.random() < 0.8 else []
    return {"ver": [r.choice([2, 2, 2, 3]), 0, 0, 0], "type": num(r, 16), "idx": r.choice([1, 1, 2, 255]), "hw": num(r, 8), "in": i, "raw": [] if i or r.random() < 0.9 else bs(r), "vendor": bs(r)}


def fmp(r):
    return {"ver": [1, 0, 0, 0], "drivers": [bs(r) + [1] for _ in range(r.choice([0, 0, 1, 2, 3]))], "images": [img(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]}


def cap(r):
    g = list(uuid.UUID("6dcbd5ed-e82d-4c44-bda1-7194199ad92a").bytes_le)
    i = [fmp(r)] if r.random() < 0.7 else []
    other = not i and r.random() < 0.7
    return {"guid": num(r, 16) if other else g, "oem": r.choice([0, 1, 65535, r.randint(0, 65535)]), "fl": r.randint(0, 7), "ext": [0] * r.choice([0, 0, 0, 4, 16]), "in": i, "raw": bs(r) if other else []}


LV = {"pay": pay, "auth": auth, "img": img, "fmp": fmp, "cap": cap}


def gen(rng, tier, pid):
    n = 500 if tier == "quick" else 12000
    return [one(rng) for _ in range(n)]


def one(r):
    lvl = r.choice(["pay", "auth", "img", "fmp", "cap", "cap"])
    ops = []
    for _ in range(r.randint(1, 4)):
        ops.append({"op": "build", "lvl": lvl, "t": LV[lvl](r), "reuse": r.random() < 0.5})
        x = r.random()
        if x < 0.6:
            ops.append({"op": "redecode", "lvl": lvl, "reuse": r.random() < 0.6, "hurt": [r.random(), r.choice([0, 1, 128, 255]), r.random() < 0.5] if r.random() < 0.4 else None, "ext": bs(r, 6) if r.random() < 0.15 else []})
        if lvl == "auth":
            ops.append({"op": "resigned", "hurt": [r.random(), r.choice([1, 128, 255]), r.random() < 0.5] if r.random() < 0.6 else None})
    return {"ops": ops}


def run(case, d):
    from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
    from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
    from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass

    CLS = {"pay": FmpPayloadHeaderClass, "auth": FmpAuthHeaderClass, "img": FmpCapsuleImageHeaderClass, "fmp": FmpCapsuleHeaderClass, "cap": UefiCapsuleHeaderClass}
    I = lambda b: int.from_bytes(bytes(b), "little")

    def build(lvl, t, o=None):
        o = o or CLS[lvl]()
        if lvl == "pay":
            o.FwVersion, o.LowestSupportedVersion, o.Payload, o.HeaderSize = I(t["fw"]), I(t["low"]), bytes(t["data"]), 16 + len(t["ext"])
        elif lvl == "auth":
            o.MonotonicCount, o.Payload = I(t["mc"]), bytes(t["raw"])
            o.AuthInfo.add_cert_data(bytes(t["cert"]))
            o.FmpPayloadHeader = build("pay", t["in"][0]) if t["in"] else None
        elif lvl == "img":
            o.Version, o.UpdateImageTypeId, o.UpdateImageIndex, o.UpdateHardwareInstance = I(t["ver"]), uuid.UUID(bytes_le=bytes(t["type"])), t["idx"], I(t["hw"])
            o.VendorCodeBytes, o.Payload = bytes(t["vendor"]), bytes(t["raw"])
            o.FmpAuthHeader = build("auth", t["in"][0]) if t["in"] else None
        elif lvl == "fmp":
            o = CLS[lvl]()
            o.Version = I(t["ver"])
            for x in t["drivers"]:
                o.AddEmbeddedDriver(bytes(x))
            for x in t["images"]:
                o.AddFmpCapsuleImageHeader(build("img", x))
        else:
            o.CapsuleGuid, o.OemFlags, o.HeaderSize = uuid.UUID(bytes_le=bytes(t["guid"])), t["oem"], 32 + len(t["ext"])
            o.PersistAcrossReset, o.PopulateSystemTable, o.InitiateReset = bool(t["fl"] & 1), bool(t["fl"] & 2), bool(t["fl"] & 4)
            o.Payload = bytes(t["raw"])
            o.FmpCapsuleHeader = build("fmp", t["in"][0]) if t["in"] else None
        return o

    def show(lvl, o):
        if lvl == "pay":
            return {"fw": le(o.FwVersion, 4), "low": le(o.LowestSupportedVersion, 4), "ext": list(o.Encode()[16:o.HeaderSize]), "data": list(o.Payload)}
        if lvl == "auth":
            i = o.FmpPayloadHeader
            return {"mc": le(o.MonotonicCount, 8), "cert": list(o.AuthInfo.get_certificate()), "in": [show("pay", i)] if i is not None else [], "raw": [] if i is not None else list(o.Payload)}
        if lvl == "img":
            i = o.FmpAuthHeader
            assert o.UpdateImageSize == len(o.Payload) and o.UpdateVendorCodeSize == len(o.VendorCodeBytes)
            return {"ver": le(o.Version, 4), "type": list(o.UpdateImageTypeId.bytes_le), "idx": o.UpdateImageIndex, "hw": le(o.UpdateHardwareInstance, 8),
                    "in": [show("auth", i)] if i is not None else [], "raw": [] if i is not None else list(o.Payload), "vendor": list(o.VendorCodeBytes)}
        if lvl == "fmp":
            return {"ver": le(o.Version, 4), "drivers": [list(o.GetEmbeddedDriver(i)) for i in range(o.EmbeddedDriverCount)],
                    "images": [show("img", o.GetFmpCapsuleImageHeader(i)) for i in range(o.PayloadItemCount)]}
        i = o.FmpCapsuleHeader
        return {"guid": list(o.CapsuleGuid.bytes_le), "oem": o.OemFlags, "fl": o.PersistAcrossReset + 2 * o.PopulateSystemTable + 4 * o.InitiateReset,
                "ext": list(o.Encode()[32:o.HeaderSize]), "in": [show("fmp", i)] if i is not None else [], "raw": [] if i is not None else list(o.Payload)}

    def hurt(b, h):
        if h is None or not b:
            return b
        i = int(h[0] * len(b))
        return b[:i] if h[2] else b[:i] + [b[i] ^ h[1]] + b[i + 1:]

    obj, last = {}, None
    evs = [{"k": "start"}]
    for o in case["ops"]:
        k = o["op"]
        if k == "build":
            lvl = o["lvl"]
            x = build(lvl, o["t"], obj.get(lvl) if o.get("reuse") and not o["t"].get("ext") else None)
            obj[lvl] = x
            last = list(x.Encode())
            evs.append({"k": "build", "lvl": lvl, "t": o["t"], "obs": {"b": last, "twice": list(x.Encode()) == last}})
        elif k in ("decode", "redecode"):
            lvl = o["lvl"]
            b = o["b"] if k == "decode" else hurt(last, o["hurt"])
            if o.get("ext") and lvl in ("pay", "cap") and len(b) >= 32:
                # a larger header than known
                e = o["ext"]
                if lvl == "pay":
                    n = I(b[4:8])
                    b = b[:4] + le((n + len(e)) % 2 ** 32, 4) + b[8:n] + e + b[n:]
                else:
                    n = I(b[16:20])
                    b = b[:16] + le((n + len(e)) % 2 ** 32, 4) + b[20:24] + le((I(b[24:28]) + len(e)) % 2 ** 32, 4) + b[28:n] + e + b[n:]
            x = obj.get(lvl) if o.get("reuse") and lvl in obj else CLS[lvl]()
            ev = {"k": "decode", "lvl": lvl, "b": b, "reuse": x is obj.get(lvl)}
            try:
                x.Decode(bytes(b))
                ev["obs"] = {"ok": True, "t": show(lvl, x), "enc": list(x.Encode())}
                obj[lvl] = x
            except Exception:
                ev["obs"] = {"ok": False}
                obj.pop(lvl, None)
            evs.append(ev)
        else:
            b = o["b"] if k == "signed" else hurt(last, o["hurt"])
            evs.append({"k": "signed", "b": b, "obs": FmpAuthHeaderClass().IsSigned(bytes(b))})
    return evs


def classify(case, evs):
    for e in evs:
        if e["k"] == "build":
            yield "built"
        elif e["k"] == "decode":
            yield "decoded" if e["obs"]["ok"] else "refused"
            if e["obs"]["ok"] and any(exts(e["obs"]["t"])):
                yield "larger header"
            if e["obs"]["ok"] and e.get("reuse"):
                yield "reused object"
        elif e["k"] == "signed":
            yield "signed" if e["obs"] else "not signed"
