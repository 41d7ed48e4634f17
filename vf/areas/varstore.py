"""C17: histories of a variable store in a ROM image."""
import io
import uuid

TRACE = ("VarStoreTrace", "VarStoreTrace.cfg")
SAME_DIR = True
REQUIRED_CLASSES = ["opened", "refused open", "written", "refused write", "written over what was there", "authenticated", "full store opened"]
FVG = list(uuid.UUID("fff12b8d-7696-4c8b-a985-2747075b4f50").bytes_le)
KIND = {"Var": list(uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d").bytes_le), "Auth": list(uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792").bytes_le)}


def models(tier, pid):
    n = 5 if tier == "quick" else 6
    return [{"module": "VarStoreMC", "cfg": "VarStoreMC.cfg", "consts": {"MaxOps": n}, "min_behaviours": 1000, "limit": 700 if tier == "quick" else 12000,
             "what": f"every order of {n} additions, changes, removals, writes and reopenings of a store with room for two or three variables"}]


def from_model(doc, m, pid):
    o = {"op": "open", "base": doc[0]["base"], "size": doc[0]["size"]}
    return [{"img": doc[0]["img"], "ops": [o] + doc[1:] + [{"op": "flush"}, o]}]


def le(n, w):
    return list(n.to_bytes(w, "little"))


def gen(rng, tier, pid):
    n = 700 if tier == "quick" else 15000
    return [one(rng) for _ in range(n)] + [one(rng, k % 3) for k in range(3 if tier == "quick" else 30)]


def bs(r, n):
    return [r.choice([0, 1, 85, 170, 254, 255, r.randint(0, 255)]) for _ in range(n)]


def name(r):
    n = r.choice([0, 1, 2, 3, 5, 9])
    s = "".join(r.choice(["A", "b", "\x00", " ", "é", "中", "ꩪ", "𐀀"]) for _ in range(n))
    b = s.encode("utf-16-le")
    return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]


def var(r, kind):
    a = kind == "Auth"
    return {"st": r.choice([0x3F, 0x3F, 0x3D, 0x3C, 0x7F, r.randint(0, 255)]), "at": bs(r, 4), "g": bs(r, 16), "name": name(r), "data": bs(r, r.choice([0, 1, 2, 3, 4, 5, 7, 8, 30])),
            "mc": bs(r, 8) if a else [], "ts": bs(r, 16) if a else [], "pk": bs(r, 4) if a else []}


def enc(kind, v):
    nb = [x for u in v["name"] for x in le(u, 2)] + [0, 0]
    b = [0xAA, 0x55, v["st"], 0] + v["at"] + v["mc"] + v["ts"] + v["pk"] + le(len(nb), 4) + le(len(v["data"]), 4) + v["g"] + nb + v["data"]
    return b + [255] * (-len(b) % 4)


def one(r, large=None):
    kind = r.choice(["Var", "Auth"])
    hs = 60 if kind == "Auth" else 32
    pre = bs(r, r.choice([0, 0, 1, 4, 16]))
    vs = [var(r, kind) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    if large == 0:
        vs = [dict(var(r, kind), name=[65 + i % 20, 48 + i // 20]) for i in range(r.choice([66, 130]))]
    elif large is not None:
        # one long name, or data of 32 KiB and more
        vs.insert(r.randint(0, len(vs)), dict(var(r, kind), **({"name": [97 + i % 20 for i in range(300)]} if large == 1 else {"data": [i % 251 for i in range(r.choice([33000, 66001]))]})))
    body = [x for v in vs for x in enc(kind, v)]
    full = r.random() < 0.25
    room = 0 if full else r.choice([hs - 1, hs, hs + 1, hs + 4, hs + 40, hs + 100, hs + 200])
    rest = [255] * room if r.random() < 0.6 else bs(r, room)
    if rest[:2] == [0xAA, 0x55]:
        rest[0] = 255
    hl = r.choice([72, 72, 72, 80])
    head = bs(r, 16) if r.random() < 0.3 else [0] * 16
    ssize = 28 + len(body) + len(rest)
    gap = r.choice([0, 0, 1, 8])
    flen = hl + ssize + gap
    fv = head + FVG + le(flen, 8) + [95, 70, 86, 72] + bs(r, 4) + le(hl, 2) + bs(r, 4) + [0, 2] + bs(r, 16) + bs(r, hl - 72)
    sh = KIND[kind] + le(ssize, 4) + [0x5A, 0xFE] + bs(r, 6)
    post = r.choice([[], [], enc(kind, var(r, kind)), bs(r, 3), [0xAA, 0x55] + bs(r, 60)])
    img = pre + fv + sh + body + rest + [255] * gap + post
    base, size = len(pre), flen
    if r.random() < 0.12:
        i = len(pre) + r.choice([16, 31, 32, 33, 39, 40, 43, hl, hl + 15, hl + 20, hl + 21])
        img[i] ^= r.choice([1, 128, 255])
    if r.random() < 0.06:
        base, size = r.choice([(base + 1, size), (base, size + 1), (base, size - 1), (base, size + 1000), (max(0, base - 1), size), (len(img), 10)])
    if r.random() < 0.04:
        img = img[: r.randint(1, len(img) - 1)]
    o = {"op": "open", "base": base, "size": size}
    ops = [o]
    n = len(vs)
    for _ in range(r.choice([0, 1, 2, 4, 6])):
        x = r.random()
        if x < 0.35:
            ops.append({"op": "add", "v": var(r, kind)})
            n += 1
        elif x < 0.65 and n:
            ops.append({"op": "setdata", "i": r.randint(1, n), "data": bs(r, r.randint(0, 40))} if r.random() < 0.5 else {"op": "setname", "i": r.randint(1, n), "name": name(r)})
        elif x < 0.75 and n:
            ops.append({"op": "remove", "i": r.randint(1, n)})
            n -= 1
        elif x < 0.85 and n:
            ops.append({"op": "show", "i": r.randint(1, n)})
        else:
            ops.append({"op": "flush"})
            if r.random() < 0.5:
                ops.append(o)
                break
    ops += [{"op": "flush"}, o]
    return {"img": img, "ops": ops, "full": full}


def run(case, d):
    import os

    import edk2toollib.uefi.edk2.variable_format as VF
    from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

    path = os.path.join(d, "rom")
    with open(path, "wb") as f:
        f.write(bytes(case["img"]))

    def image():
        with open(path, "rb") as f:
            return list(f.read())

    def units(s):
        b = s.encode("utf-16-le", "surrogatepass")
        return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]

    def text(u):
        return bytes(x for y in u for x in le(y, 2)).decode("utf-16-le")

    def show(v):
        a = isinstance(v, VF.AuthenticatedVariableHeader)
        return {"st": v.State, "at": le(v.Attributes, 4), "g": list(v.VendorGuid.bytes_le), "name": units(v.Name), "data": list(v.Data),
                "mc": le(v.MonotonicCount, 8) if a else [], "ts": list(v.TimeStamp) if a else [], "pk": le(v.PubKeyIndex, 4) if a else []}

    def make(v):
        x = S.get_new_var_class()
        x.State, x.Attributes = v["st"], int.from_bytes(bytes(v["at"]), "little")
        x.VendorGuid = uuid.UUID(bytes_le=bytes(v["g"]))
        if v["mc"]:
            x.MonotonicCount, x.TimeStamp, x.PubKeyIndex = int.from_bytes(bytes(v["mc"]), "little"), bytes(v["ts"]), int.from_bytes(bytes(v["pk"]), "little")
        x.set_name(text(v["name"]))
        x.set_data(bytes(v["data"]))
        return x

    S = None
    evs = [{"k": "start", "img": case["img"]}]
    for o in case["ops"]:
        ev = dict(o, k=o["op"])
        k = o["op"]
        if k == "open":
            before = image()
            try:
                N = VariableStore(path, o["base"], o["size"])
                S = N
                ev["obs"] = {"ok": True, "kind": "Auth" if S.var_store_header.Type == "AuthVar" else "Var", "vars": [show(v) for v in S.variables], "same": image() == before}
            except Exception:
                ev["obs"] = {"ok": False, "same": image() == before}
                evs.append(ev)
                break
        elif k == "add":
            S.add_variable(make(o["v"]))
        elif k == "remove":
            del S.variables[o["i"] - 1]
        elif k == "setname":
            S.variables[o["i"] - 1].set_name(text(o["name"]))
        elif k == "setdata":
            S.variables[o["i"] - 1].set_data(bytes(o["data"]))
        elif k == "show":
            v = S.variables[o["i"] - 1]
            b = v.serialize()
            fs = io.BytesIO(b"abc" + b + b"xyz")
            fs.seek(3)
            w = type(v)().load_from_file(fs)
            ev["obs"] = {"b": list(b), "p": list(v.serialize(True)), "n": v.get_buffer_size(), "d": v.get_buffer_data_size(), "again": show(w), "pos": fs.tell(),
                         "again2": show(type(v)().load_from_bytes(b + b"xyz"))}
        elif k == "flush":
            try:
                S.flush_to_file()
                ok = True
            except Exception:
                ok = False
            ev["obs"] = {"ok": ok, "img": image()}
        evs.append(ev)
    return evs


def classify(case, evs):
    had = 0
    for e in evs:
        o = e.get("obs", {})
        if e["k"] == "open":
            yield "opened" if o["ok"] else "refused open"
            if o["ok"] and o["kind"] == "Auth":
                yield "authenticated"
            if o["ok"] and o["vars"] and case.get("full"):
                yield "full store opened"
            had = len(o.get("vars", []))
        if e["k"] == "flush":
            yield "written" if o["ok"] else "refused write"
            if o["ok"] and had:
                yield "written over what was there"
