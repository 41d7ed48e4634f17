"""C25: firmware volume, file, fault tolerant write and variable structures, BMP images, variable attributes, status codes."""

import io
import logging
import uuid

TRACE = ("FirmwareTrace", "FirmwareTrace.cfg")
CASE_SECONDS = 20
REQUIRED_CLASSES = ["fv", "fvext", "ffs", "ftwhead", "ftwwrite", "ftwrec", "vsh", "refused structure", "changed", "variable", "no variable", "refused variable", "written variable", "image", "refused image",
                    "image read again", "colours", "padding", "print", "attribute text", "refused attribute", "attribute value", "status"]


def models(tier, pid):
    deep = tier != "quick"
    return [{"module": "FirmwareMC", "cfg": "FirmwareMC.cfg", "consts": {"MaxOps": 3 if deep else 2, "MaxVarOps": 5 if deep else 4, "Deep": "TRUE" if deep else "FALSE"}, "min_behaviours": 2000,
             "limit": None if deep else 2500, "what": "short histories of loads and changes of every structure, images around their limits, every attribute set and status code"}]


def from_model(doc, m, pid):
    return [{"t": doc["t"], "ops": doc["ops"]}]


FV = b"_FVH"
FTW = uuid.UUID(fields=(0x9E58292B, 0x7C68, 0x497D, 0xA0, 0xCE, 0x6500FD9F1B95)).bytes_le
VAR = uuid.UUID(fields=(0xDDCF3616, 0x3275, 0x4164, 0x98, 0xB6, 0xFE85707FFE7D)).bytes_le
AVAR = uuid.UUID(fields=(0xAAF32C78, 0x947B, 0x439A, 0xA1, 0x80, 0x2E144EC37792)).bytes_le
LAY = {
    "fv": [("ZeroVector", 16), ("FileSystemGuid", 16), ("FvLength", 8), ("Signature", 4), ("Attributes", 4), ("HeaderLength", 2), ("Checksum", 2), ("ExtHeaderOffset", 2), ("Reserved", 1), ("Revision", 1),
           ("Blockmap0", 8), ("Blockmap1", 8)],
    "fvext": [("FileSystemGuid", 16), ("ExtHeaderSize", 4)],
    "ffs": [("FileSystemGuid", 16), ("Checksum", 2), ("Type", 1), ("Attributes", 1), ("Size0", 1), ("Size1", 1), ("Size2", 1), ("State", 1)],
    "ftwhead": [("Signature", 16), ("Crc", 4), ("WorkingBlockValidFields", 1), ("Reserved1", 1), ("Reserved2", 1), ("Reserved3", 1), ("WriteQueueSize", 8)],
    "ftwwrite": [("StatusBits", 1), ("ReservedByte1", 1), ("ReservedByte2", 1), ("ReservedByte3", 1), ("CallerId", 16), ("ReservedUint32", 4), ("NumberOfWrites", 8), ("PrivateDataSize", 8)],
    "ftwrec": [("StatusBits", 1), ("ReservedByte1", 1), ("ReservedByte2", 1), ("ReservedByte3", 1), ("ReservedUint32", 4), ("Lba", 8), ("Offset", 8), ("Length", 8), ("RelativeOffset", 8)],
    "vsh": [("Signature", 16), ("Size", 4), ("Format", 1), ("State", 1), ("Reserved0", 2), ("Reserved1", 4)],
    "var": [("StartId", 2), ("State", 1), ("_", 1), ("Attributes", 4), ("NameSize", 4), ("DataSize", 4), ("VendorGuid", 16)],
    "authvar": [("StartId", 2), ("State", 1), ("_", 1), ("Attributes", 4), ("MonotonicCount", 8), ("TimeStamp", 16), ("PubKeyIndex", 4), ("NameSize", 4), ("DataSize", 4), ("VendorGuid", 16)],
    "bmp": [("CharB", 1), ("CharM", 1), ("Size", 4), ("Rsvd16_1", 2), ("Rsvd16_2", 2), ("ImageOffset", 4), ("HeaderSize", 4), ("PixelWidth", 4), ("PixelHeight", 4), ("Planes", 2), ("BitPerPixel", 2),
            ("CompressionType", 4), ("ImageSize", 4), ("XPixelsPerMeter", 4), ("YPixelsPerMeter", 4), ("NumberOfColors", 4), ("ImportantColors", 4)],
}
PLAIN = ["fv", "fvext", "ffs", "ftwhead", "ftwwrite", "ftwrec", "vsh"]
# fields that hold bytes, GUIDs (objects), signed numbers
RAW = {("fv", "ZeroVector"), ("fv", "Signature"), ("fvext", "FileSystemGuid"), ("ftwwrite", "CallerId"), ("authvar", "TimeStamp"), ("bmp", "CharB"), ("bmp", "CharM")}
GUIDS = {("fv", "FileSystemGuid"), ("ffs", "FileSystemGuid"), ("ftwhead", "Signature"), ("vsh", "Signature"), ("var", "VendorGuid"), ("authvar", "VendorGuid")}
SIGNED = {("ftwrec", "RelativeOffset")}


def num(r, n):
    x = r.random()
    if x < 0.35:
        return r.randbytes(n)
    if x < 0.5:
        return bytes(n)
    if x < 0.65:
        return b"\xff" * n
    b = bytearray(n)
    b[r.choice([0, n - 1, r.randrange(n)])] = r.choice([1, 0x7F, 0x80, 0xFF])
    return bytes(b)


def plain(r, t, good=True):
    b = b""
    for name, n in LAY[t]:
        if name == "Signature":
            s = FV if t == "fv" else FTW if t == "ftwhead" else r.choice([VAR, AVAR])
            if not good:
                s = bytearray(s)
                s[r.randrange(len(s))] ^= r.choice([1, 0x20, 0x80])
                s = bytes(s) if r.random() < 0.7 else num(r, n)
            b += s
        else:
            b += num(r, n)
    return b


def var(r, t):
    x = r.random()
    name = "".join(r.choice(["a", "B", "é", "\u4e2d", "\U0001f600", "_", " ", "\x00" if r.random() < 0.1 else "k"]) for _ in range(r.choice([0, 1, 2, 5, 5, 12])))
    nb = name.encode("utf-16-le") + b"\0\0"
    d = r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 30]))
    if x < 0.1:
        nb = nb[:-1] if r.random() < 0.5 else nb + b"\0"
    elif x < 0.15:
        nb = b"\x3d\xd8" + nb
    b = b""
    for f, n in LAY[t]:
        b += (b"\xaa\x55" if f == "StartId" else len(nb).to_bytes(4, "little") if f == "NameSize" else len(d).to_bytes(4, "little") if f == "DataSize" else num(r, n))
    b += nb + d
    y = r.random()
    if y < 0.06:
        b = r.choice([b"\xff\xff", b"\x55\xaa", b"\xaa\x54", b"\xab\x55"]) + b[2:]
    elif y < 0.1:
        b = b[: r.randrange(len(b))]
    return b


def bmp(r):
    depth = r.choice([1, 1, 4, 8, 24, 24, 32, 0, 2, 16])
    n = r.choice([0, 0, 0, 1, 2, 3, 16, 256, 5])
    cols = (n or {1: 2, 4: 16, 8: 256}[depth]) if depth in (1, 4, 8) else 0
    slack = r.choice([0, 0, 1, 2, 7, 40])
    data = r.randbytes(r.choice([0, 1, 4, 9, 30]))
    if r.random() < 0.15 and cols:
        cols, slack = cols - 1, r.choice([0, 3])
    if r.random() < 0.15:
        cols = slack = 0
    off = 54 + 4 * cols + slack
    size = off + len(data)
    hs = 40
    x = r.random()
    o2, s2 = off, size
    if x < 0.05:
        hs = r.choice([0, 12, 39, 41, 52, 108, 124, size, size + 1, 0xFFFFFFFF])
    elif x < 0.1:
        o2 = r.choice([0, 13, 53, 54, off - 1, off + 1, size, size + 1, 0xFFFFFFFF])
    elif x < 0.15:
        s2 = r.choice([0, 39, 40, 53, 54, size - 1, size + 1, off, 0xFFFFFFFF])
    o2, s2 = max(o2, 0), max(s2, 0)
    b = r.choice([b"BM", b"BM", b"BA", b"\0\xff"]) + s2.to_bytes(4, "little") + num(r, 4) + o2.to_bytes(4, "little") + hs.to_bytes(4, "little") + num(r, 4) + num(r, 4) + r.choice([b"\1\0", num(r, 2)])
    b += depth.to_bytes(2, "little") + num(r, 4) + num(r, 4) + num(r, 4) + num(r, 4) + n.to_bytes(4, "little") + num(r, 4)
    b += r.randbytes(4 * cols + slack) + data
    if x > 0.95:
        b = b[: r.randrange(len(b))]
    elif x > 0.92:
        b += r.randbytes(r.choice([1, 4]))
    return b


WORDS = ["AP", "AT", "AW", "HW", "RT", "BS", "NV", "EFI_VARIABLE_APPEND_WRITE", "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS",
         "EFI_VARIABLE_HARDWARE_ERROR_RECORD", "EFI_VARIABLE_RUNTIME_ACCESS", "EFI_VARIABLE_BOOTSERVICE_ACCESS", "EFI_VARIABLE_NON_VOLATILE"]


def attrs(r):
    ws = [r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3, 7, 9]))]
    if r.random() < 0.2:
        ws[r.randrange(len(ws))] = r.choice(["", "EFI_VARIABLE", "XX", "B", "APAT", "0x1", "EFI_VARIABLE_", "NVBS", "A P", "7"])
    ws = [w.lower() if r.random() < 0.2 else w.title() if r.random() < 0.1 else w for w in ws]
    return r.choice([",", ", ", " , ", ","]).join(ws)


def put(r, b):
    """A position in a larger stream."""
    n = r.choice([0, 0, 1, 3, 16, 33])
    return {"b": list(r.randbytes(n) + b + (r.randbytes(r.choice([0, 0, 1, 8, 40])))), "off": n}


def gen(rng, tier, pid):
    return [one(rng) for _ in range(1500 if tier == "quick" else 25000)]


def one(r):
    x = r.random()
    if x < 0.4:
        t = r.choice(PLAIN)
        ops = []
        for _ in range(r.choice([1, 2, 3, 5])):
            y = r.random()
            if y < 0.5 or not ops:
                b = plain(r, t, r.random() < 0.8)
                if r.random() < 0.1:
                    ops.append({"op": "load", "b": list(b[: r.randrange(len(b))]), "off": 0})
                else:
                    ops.append({"op": "load", **put(r, b)})
            else:
                f, n = r.choice([x for x in LAY[t] if x[0] != "Signature" or t in ("vsh", "ftwhead")])
                ops.append({"op": "set", "f": f, "v": list(num(r, n))})
        return {"t": t, "ops": ops}
    if x < 0.62:
        t = r.choice(["var", "authvar"])
        ops = [{"op": "newvar", "g": list(r.randbytes(16))}]
        for _ in range(r.choice([1, 2, 3, 5])):
            y = r.random()
            if y < 0.5:
                ops.append({"op": "loadvar", **(put(r, var(r, t)) if r.random() < 0.9 else {"b": list(var(r, t)), "off": 0})})
            elif y < 0.65:
                u = [c for c in "".join(r.choice("aB_é中\U0001f600 ") for _ in range(r.choice([0, 1, 2, 5]))).encode("utf-16-le")]
                ops.append({"op": "name", "us": [u[i] + 256 * u[i + 1] for i in range(0, len(u), 2)]})
            elif y < 0.8:
                ops.append({"op": "data", "d": list(r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 300])))})
            else:
                f, n = r.choice([x for x in LAY[t] if x[0] not in ("_", "NameSize", "DataSize", "StartId")])
                ops.append({"op": "setvar", "f": f, "v": list(num(r, n))})
        return {"t": t, "ops": ops}
    if x < 0.85:
        ops = [{"op": "newbmp"}] if r.random() < 0.3 else []
        for _ in range(r.choice([1, 1, 2, 3])):
            b = bmp(r)
            n = r.choice([0, 0, 2, 60])
            ops.append({"op": "loadbmp", "b": list(r.randbytes(n) + b), "off": n})
            if r.random() < 0.2:
                f, n = r.choice(LAY["bmp"])
                ops.append({"op": "setbmp", "f": f, "v": list(num(r, n))})
            if r.random() < 0.3:
                ops.append({"op": "print"})
        return {"t": "bmp", "ops": ops}
    if x < 0.94:
        return {"t": "attrs", "ops": [{"op": "attrs", "s": attrs(r)} if r.random() < 0.7 else {"op": "attrn", "n": list(num(r, 4))} for _ in range(4)]}
    ops = []
    for _ in range(6):
        w = r.choice([4, 8])
        b = bytearray(num(r, w) if r.random() < 0.4 else r.randrange(45).to_bytes(w, "little"))
        if r.random() < 0.5:
            b[-1] |= 0x80
        ops.append({"op": "status", "b": list(b)})
    return {"t": "status", "ops": ops}


def classify(case, events):
    t = case["t"]
    seen = False
    for e in events[1:]:
        k, o = e["k"], e["obs"]
        if k == "load":
            yield t if o["ok"] else "refused structure"
        elif k in ("set", "setvar", "setbmp"):
            yield "changed"
        elif k == "loadvar":
            yield {"ok": "variable", "eof": "no variable", "refused": "refused variable"}[o["r"]]
        elif k == "var":
            yield "written variable"
        elif k == "loadbmp":
            yield "image" if o["ok"] else "refused image"
            if o["ok"]:
                if seen:
                    yield "image read again"
                seen = True
                if o["v"]["colors"]:
                    yield "colours"
                if o["v"]["pad"]:
                    yield "padding"
        elif k == "attrs":
            yield "attribute text" if o["ok"] else "refused attribute"
        elif k == "attrn":
            yield "attribute value"
        else:
            yield k


def get(t, o, f, n):
    if f == "_":
        return [0]
    v = getattr(o, f)
    if (t, f) in RAW:
        return list(bytes(v).ljust(n, b"\0"))
    if (t, f) in GUIDS:
        return list(v.bytes_le)
    return list(v.to_bytes(n, "little", signed=(t, f) in SIGNED))


def put_field(t, o, f, v):
    b = bytes(v)
    setattr(o, f, b if (t, f) in RAW else uuid.UUID(bytes_le=b) if (t, f) in GUIDS else int.from_bytes(b, "little", signed=(t, f) in SIGNED))


def fields(t, o):
    try:
        return [get(t, o, f, n) for f, n in LAY[t]]
    except (OverflowError, TypeError, AttributeError) as e:
        return ["field", type(e).__name__]


def run(case, d):
    import edk2toollib.uefi.bmp_object as B
    import edk2toollib.uefi.edk2.ftw_working_block_format as F
    import edk2toollib.uefi.edk2.variable_format as V
    import edk2toollib.uefi.pi_firmware_file as FF
    import edk2toollib.uefi.pi_firmware_volume as FV_
    import edk2toollib.uefi.status_codes as S
    import edk2toollib.uefi.uefi_multi_phase as U

    make = {"fv": FV_.EfiFirmwareVolumeHeader, "fvext": FV_.EfiFirmwareVolumeExtHeader, "ffs": FF.EfiFirmwareFileSystemHeader, "ftwhead": F.EfiFtwWorkingBlockHeader, "ftwwrite": F.EfiFtwWriteHeader,
            "ftwrec": F.EfiFtwWriteRecord, "vsh": V.VariableStoreHeader, "var": V.VariableHeader, "authvar": V.AuthenticatedVariableHeader}
    t = case["t"]
    evs = [{"k": "start"}]
    ob = make[t]() if t in make else None
    known = False
    count = 0

    def ser():
        return [] if t == "fvext" else list(ob.serialize())

    def look():
        if t in ("var", "authvar") and known and ob.Name is not None and ob.Data is not None:
            evs.append({"k": "var", "t": t, "obs": {"size": ob.get_buffer_data_size(), "pad": ob.get_buffer_padding_size(), "total": ob.get_buffer_size(), "packed": list(ob.get_packed_name()),
                                                  "ser": list(ob.serialize()), "padded": list(ob.serialize(with_padding=True))}})

    def wr():
        fs = io.BytesIO()
        ob.Write(fs)
        return list(fs.getvalue())

    def colours():
        return [[c.Blue, c.Green, c.Red, c.Reserved] for c in ob.ColorMapList]

    def seen():
        return {"fs": fields("bmp", ob), "colors": colours(), "pad": list(ob._Padding or b"")[: ob._PaddingLength], "data": list(ob.ImageData or b"")}

    for o in case["ops"]:
        k = o["op"]
        if k == "load":
            fs = io.BytesIO(bytes(o["b"]))
            fs.seek(o["off"])
            try:
                r = ob.load_from_file(fs)
                fl = fields(t, ob)
                x = {"size": ob.get_size()} if t == "ffs" else {"type": ob.Type} if t == "vsh" else {"none": True}
                obs = {"ok": r is ob, "fs": fl, "x": x, "pos": fs.tell() == o["off"], "ser": ser()}
                known = True
            except Exception:
                obs, known = {"ok": False}, False
            evs.append({"k": k, "t": t, "b": o["b"], "off": o["off"], "obs": obs})
        elif k == "set":
            if known:
                put_field(t, ob, o["f"], o["v"])
                evs.append({"k": k, "t": t, "f": o["f"], "v": o["v"], "obs": {"ser": ser()}})
        elif k == "newvar":
            ob = make[t]()
            ob.VendorGuid = uuid.UUID(bytes_le=bytes(o["g"]))
            known = True
            evs.append({"k": k, "t": t, "g": o["g"], "obs": {"fs": fields(t, ob)}})
        elif k == "loadvar":
            for via in ("bytes", "file"):
                fs = io.BytesIO(bytes(o["b"]))
                fs.seek(o["off"])
                try:
                    r = ob.load_from_bytes(bytes(o["b"][o["off"] :])) if via == "bytes" else ob.load_from_file(fs)
                    us = ob.Name.encode("utf-16-le")
                    obs = {"r": "ok" if r is ob else "other", "fs": fields(t, ob), "name": [us[i] + 256 * us[i + 1] for i in range(0, len(us), 2)], "data": list(ob.Data), "pos": fs.tell() == o["off"]}
                    known = True
                except EOFError:
                    obs, known = {"r": "eof", "pos": fs.tell() == o["off"]}, False
                except Exception:
                    obs, known = {"r": "refused"}, False
                evs.append({"k": k, "t": t, "b": o["b"], "off": o["off"], "obs": obs})
                look()
        elif k in ("setvar", "name", "data"):
            if not known:
                continue
            if k == "name":
                ob.set_name(b"".join(u.to_bytes(2, "little") for u in o["us"]).decode("utf-16-le"))
                evs.append({"k": k, "us": o["us"], "obs": {"done": True}})
            elif k == "data":
                ob.set_data(bytes(o["d"]))
                evs.append({"k": k, "d": o["d"], "obs": {"done": True}})
            else:
                put_field(t, ob, o["f"], o["v"])
                evs.append({"k": k, "t": t, "f": o["f"], "v": o["v"], "obs": {"done": True}})
            look()
        elif k == "newbmp":
            ob = B.BmpObject()
            known = True
            evs.append({"k": k, "obs": seen()})
        elif k == "loadbmp":
            fs = io.BytesIO(bytes(o["b"]))
            fs.seek(o["off"])
            count += 1
            try:
                if ob is None or count % 2 == 0 and count > 2:
                    ob = B.BmpObject(fs)
                else:
                    ob.PopulateFromFileStream(fs)
                obs, known = {"ok": True, "v": seen(), "w": wr()}, True
            except Exception:
                obs, known = {"ok": False}, False
            evs.append({"k": k, "b": o["b"], "off": o["off"], "obs": obs})
        elif k == "setbmp":
            if known:
                put_field("bmp", ob, o["f"], o["v"])
                evs.append({"k": k, "f": o["f"], "v": o["v"], "obs": {"w": wr()}})
        elif k == "print":
            if known:
                lines = []
                h = logging.Handler()
                h.emit = lambda rec: lines.append(rec.getMessage())
                lg = logging.getLogger("edk2toollib.uefi.bmp_object")
                old = lg.level, lg.propagate, logging.root.manager.disable
                logging.disable(logging.NOTSET)
                lg.addHandler(h)
                lg.setLevel(logging.DEBUG)
                lg.propagate = False
                try:
                    ob.Print(True, True)
                    n = lines.count("BMP Color Map")
                except Exception as e:
                    n = f"raised {type(e).__name__}: {e}"
                lg.removeHandler(h)
                lg.setLevel(old[0])
                lg.propagate = old[1]
                logging.disable(old[2])
                evs.append({"k": k, "obs": {"colors": n, "w": wr()}})
        elif k == "attrs":
            try:
                a = U.EfiVariableAttributes(o["s"])
                n = int(a)
                obs = {"ok": True, "n": list(n.to_bytes(4, "little")), "short": a.get_short_string(), "long": str(a)}
                if list(a.encode()) != obs["n"] or U.EfiVariableAttributes.parse_attributes_str(o["s"]) != n:
                    obs["ok"] = "differs"
            except ValueError:
                obs = {"ok": False}
            evs.append({"k": k, "s": o["s"], "obs": obs})
        elif k == "attrn":
            fs = io.BytesIO(b"xx" + bytes(o["n"]) + b"tail")
            fs.seek(2)
            a = U.EfiVariableAttributes(decodefs=fs)
            b = U.EfiVariableAttributes("NV")
            b.update(int.from_bytes(bytes(o["n"]), "little"))
            obs = {"n": list(a.encode()), "short": a.get_short_string(), "long": str(a), "at": fs.tell() - 2}
            if int(a) != int(b) or b.encode() != a.encode() or str(b) != str(a):
                obs["at"] = "differs"
            evs.append({"k": k, "n": o["n"], "obs": obs})
        elif k == "status":
            s = S.UefiStatusCode()
            n = int.from_bytes(bytes(o["b"]), "little")
            if len(o["b"]) == 4:
                obs = {"s": s.Convert32BitToString(n), "hex": s.ConvertHexString32ToString(hex(n))}
            else:
                obs = {"s": s.Convert64BitToString(n), "hex": s.ConvertHexString64ToString("0x%016X" % n)}
            evs.append({"k": k, "b": o["b"], "obs": obs})
    return evs
