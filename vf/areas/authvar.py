"""C16: authenticated variables, certificates, times, attributes, digests and signatures."""
import datetime
import io
import uuid

from vf import spell

TRACE = ("AuthVarTrace", "AuthVarTrace.cfg")
CASE_SECONDS = 60
REQUIRED_CLASSES = ["refused", "decoded", "signature lists", "signed", "payload replaced", "attributes refused", "non ASCII name", "former names", "inside a stream"]
P7 = list(uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le)
SHORT = ["AP", "AT", "AW", "HW", "RT", "BS", "NV"]
LONG = ["EFI_VARIABLE_APPEND_WRITE", "EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS",
        "EFI_VARIABLE_HARDWARE_ERROR_RECORD", "EFI_VARIABLE_RUNTIME_ACCESS", "EFI_VARIABLE_BOOTSERVICE_ACCESS", "EFI_VARIABLE_NON_VOLATILE"]


def models(tier, pid):
    return [{"module": "AuthVarMC", "cfg": "AuthVarMC.cfg", "min_behaviours": 5000, "limit": 1500 if tier == "quick" else 9000,
             "what": "every cut and every damaged header byte of variables of each certificate kind and payload"}]


def from_model(doc, m, pid):
    return [{"ops": [{"op": "vardecode", "b": doc}, {"op": "factory", "b": doc[16:]}], "old": len(doc) % 3, "skip": len(doc) % 2 * 5}]


def le(n, w):
    return list((n % (1 << (8 * w))).to_bytes(w, "little"))


def gen(rng, tier, pid):
    n = 450 if tier == "quick" else 5000
    return [dict(c, old=rng.choice([0, 0, 1, 2]), skip=rng.choice([0, 0, 0, 1, 16, 40])) for c in [builder(rng) for _ in range(n // 2)] + [misc(rng) for _ in range(n)]]


def bs(r, n=40):
    return [r.choice([0, 1, 10, 13, 65, 128, 255]) for _ in range(r.randint(0, n))]


def tm(r):
    y = r.choice([1, 1970, 2000, 2024, 2023, 9999, r.randint(1, 9999)])
    t = datetime.datetime(y, 1, 1) + datetime.timedelta(days=r.choice([0, 31 + 27, 31 + 28, 364, r.randint(0, 364)]), seconds=r.choice([0, 86399, r.randint(0, 86399)]))
    return [t.year, t.month, t.day, t.hour, t.minute, t.second]


def esl(r):
    k = r.choice([1, 2])
    return list(uuid.UUID("c1c41626-504c-4092-aca9-41f936934328").bytes_le) + le(28 + 48 * k, 4) + le(0, 4) + le(48, 4) + [r.randint(0, 255)] * (48 * k)


def cert(r):
    d = bs(r, 20)
    if r.random() < 0.6:
        b = le(24 + len(d), 4) + [0, 2, 0xF1, 0x0E] + P7 + d
    else:
        b = le(24 + len(d), 4) + [0, 2, 0xF0, 0x0E] + [r.randint(0, 255)] * 16 + d
    if r.random() < 0.3:
        i = r.choice([0, 0, 0, 4, 5, 6, 7, 8, 23])
        b[i] = r.choice([0, 8, 23, 24, 25, 0xF1, 255])
    return b


def misc(r):
    ops = []
    for _ in range(r.randint(1, 6)):
        x = r.random()
        if x < 0.12:
            ops.append({"op": "time", "t": tm(r), "how": r.choice(["new", "var"])})
        elif x < 0.25:
            t = tm(r)
            b = le(t[0], 2) + t[1:] + [0] + (le(r.choice([0, 999999999, 1000000000, 5]), 4) if r.random() < 0.4 else [0] * 4) + [r.choice([0, 0, 7]), 0, 0, 0]
            if r.random() < 0.5:
                b[r.choice([0, 1, 2, 3, 4, 5, 6])] = r.choice([0, 12, 13, 24, 28, 29, 30, 31, 32, 59, 60, 255])
            if r.random() < 0.1:
                b = b[: r.randint(0, 15)]
            how = r.choice(["stream", "binary"])
            ops.append({"op": "timedecode", "b": b + (bs(r, 4) if how == "stream" else []), "how": how})
        elif x < 0.45:
            b = cert(r) + bs(r, 10)
            if r.random() < 0.2:
                b = b[: r.randint(0, len(b))]
            ops.append({"op": r.choice(["guiddecode", "guiddecode", "pkcs1decode", "factory"]), "b": b, "how": r.choice(["bytes", "stream"])})
        elif x < 0.55:
            for _ in range(r.randint(1, 3)):
                ops.append({"op": "guidcert", "d": bs(r), "how": r.choice(["bytes", "stream"])})
        elif x < 0.62:
            ops.append({"op": "pkcs1new"})
            for _ in range(r.randint(1, 4)):
                ops.append(r.choice([{"op": "pkcs1hash", "h": [r.randint(0, 255)] * 16}, {"op": "pkcs1add", "d": bs(r)}]))
        elif x < 0.8:
            t = tm(r)
            b = le(t[0], 2) + t[1:] + [0] * 9 + cert(r) + r.choice([[], bs(r), esl(r), esl(r) + esl(r), esl(r) + [1, 2]])
            if r.random() < 0.15:
                b = b[: r.randint(0, len(b))]
            ops.append({"op": "vardecode", "b": b})
            for _ in range(r.choice([0, 0, 1, 2])):
                ops.append({"op": "setpayload", "d": r.choice([[], bs(r), esl(r), esl(r) + [9]])})
        else:
            ops.append(attrs(r))
    return {"ops": ops}


def attrs(r):
    if r.random() < 0.3:
        return {"op": "attrs", "how": r.choice(["int", "bytes"]), "v": r.choice([0, 127, 128, 1 << 20, r.randint(0, 255), r.randint(0, 1 << 30)]), "names": []}
    ns = [r.choice([SHORT, LONG])[r.randint(0, 6)] for _ in range(r.randint(1, 9))]
    if r.random() < 0.1:
        ns[r.randint(0, len(ns) - 1)] = r.choice(["XX", "EFI_VARIABLE", "NVX", "EFI_VARIABLE_NON_VOLATIL"])
    return {"op": "attrs", "how": "str", "names": ns, "sep": r.choice([",", ", ", " , "]), "low": r.random() < 0.3, "v": 0}


def builder(r):
    nm = [r.choice([65, 98, 0x20, 0xE9, 0x4E2D, 0xFFFD, 0x10000, 0x1F600]) for _ in range(r.randint(1, 8))]
    pay = lambda: r.choice([[], bs(r), bs(r, 90), esl(r), esl(r) + esl(r)])
    a = attrs(r)
    while a["how"] == "str" and any(x not in SHORT + LONG for x in a["names"]):
        a = attrs(r)
    ops = [{"op": "builder", "name": nm, "guid": [r.randint(0, 255) for _ in range(16)], "a": a, "time": tm(r), "payload": pay(), "how": r.choice(["bytes", "stream", "uuid"])}]
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        ops.append({"op": "payload", "d": pay(), "how": r.choice(["bytes", "stream", "none"]), "skip": r.choice([0, 0, 5])})
    for o in ops:
        if o["op"] == "payload" and o["how"] == "none":
            o["d"] = []
    if r.random() < 0.5:
        ops.append({"op": "finalize", "omit": r.random() < 0.6, "extra": r.choice([0, 0, 1, 2]), "alg": r.choice(["SHA256", "SHA256", "SHA384", "SHA512"])})
    return {"ops": ops}


KEYS = []


def keys():
    if not KEYS:
        from cryptography import x509
        from cryptography.hazmat.primitives import hashes
        from cryptography.hazmat.primitives.asymmetric import rsa
        for i in range(3):
            k = rsa.generate_private_key(public_exponent=65537, key_size=2048)
            n = x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, "signer%d" % i)])
            now = datetime.datetime(2024, 1, 1)
            c = x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.public_key()).serial_number(7 + i).not_valid_before(now).not_valid_after(
                now + datetime.timedelta(days=9000)).sign(k, hashes.SHA256())
            KEYS.append((c, k))
    return KEYS


def run(case, d):
    import types

    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from pyasn1.codec.der.decoder import decode as der
    from pyasn1_modules import rfc2315

    import edk2toollib.uefi.authenticated_variables_structure_support as A
    from edk2toollib.uefi.uefi_multi_phase import EfiVariableAttributes
    from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid

    evs = [{"k": "start"}]
    gc, pk, b, var = WinCertUefiGuid(), WinCertPkcs1(), None, None

    say, skip = spell.speaker(case), case.get("skip", 0)

    def stream(b):
        fs = io.BytesIO(b"\xee" * skip + b)
        fs.seek(skip)
        return fs

    def read(cls, b):
        """An object read from inside a stream, by its constructor or by decode() on another one."""
        fs = stream(b)
        if not case.get("old"):
            return cls(fs) if cls is WinCertPkcs1 else cls(decodefs=fs), fs
        x = A.EFiVariableAuthentication2() if cls is A.EfiVariableAuthentication2 and case["old"] == 2 else cls()
        say(x).decode(fs)
        return x, fs

    def lists(v):
        return -1 if v.sig_list_payload is None else len(v.sig_list_payload.esl_list)

    def t6(t):
        return [t.year, t.month, t.day, t.hour, t.minute, t.second]

    for o in case["ops"]:
        ev = dict(o)
        k = ev["k"] = o["op"]
        raw = bytes(o.get("b", []))
        try:
            if k == "time":
                t = datetime.datetime(*o["t"])
                ev["obs"] = {"b": list(say(A.EfiTime(time=t)).encode() if o["how"] == "new" else A.EfiVariableAuthentication2(time=t).time.encode())}
            elif k == "timedecode":
                x = read(A.EfiTime, raw)[0] if o["how"] == "stream" else A.EfiTime.from_binary(raw)
                ev["obs"] = {"ok": True, "t": t6(x.get_datetime())}
            elif k == "guidcert":
                say(gc).add_cert_data(bytes(o["d"]) if o["how"] == "bytes" else stream(bytes(o["d"])))
                n = gc.get_length()
                ev["obs"] = {"len": n, "b": list(say(gc).encode()), "data": list(say(gc).get_certificate())}
            elif k == "guiddecode":
                x = WinCertUefiGuid()
                fs = stream(raw)
                rest = say(x).decode(raw if o["how"] == "bytes" else fs)
                ev["obs"] = {"ok": True, "len": x.get_length(), "data": list(say(x).cert_data), "rest": list(rest), "pos": fs.tell() - skip, "b": list(say(x).encode())}
            elif k == "pkcs1new":
                pk = WinCertPkcs1()
                ev["obs"] = {"ok": True}
            elif k == "pkcs1hash":
                pk.set_hash_algorithm(uuid.UUID(bytes_le=bytes(o["h"])))
                ev["obs"] = {"ok": True}
            elif k == "pkcs1add":
                say(pk).add_cert_data(stream(bytes(o["d"])))
                w = io.BytesIO()
                say(pk).write(w)
                ev["obs"] = {"ok": True, "b": list(pk.encode())}
                if w.getvalue() != pk.encode():
                    ev["obs"]["written"] = list(w.getvalue())
            elif k == "pkcs1decode":
                x, fs = read(WinCertPkcs1, raw)
                ev["obs"] = {"ok": True, "len": x.Hdr_dwLength, "data": list(say(x).cert_data), "pos": fs.tell() - skip, "hash": list(say(x).hash_algorithm.bytes_le), "b": list(x.encode())}
            elif k == "factory":
                x = say(WinCert).factory(stream(raw))
                kind = {WinCertUefiGuid: "guid", WinCertPkcs1: "pkcs1", type(None): "none"}[type(x)]
                ev["obs"] = {"ok": True, "kind": kind, "data": list(x.cert_data) if x else []}
            elif k == "vardecode":
                var = None
                x, _ = read(A.EfiVariableAuthentication2, raw)
                var = x if x.auth_info is not None else None
                if x.auth_info is None:
                    ev["obs"] = {"none": True}
                else:
                    w = io.BytesIO()
                    if case.get("old") == 1:
                        x.Encode(w)
                    else:
                        say(x).write(w)
                    ev["obs"] = {"ok": True, "time": t6(x.time.get_datetime()), "cert": list(x.auth_info.cert_data), "payload": list(x.payload or b""), "lists": lists(x),
                                 "size": x.payload_size, "b": list(say(x).encode())}
                    if w.getvalue() != x.encode():
                        ev["obs"]["written"] = list(w.getvalue())
            elif k == "setpayload":
                if var is None:
                    continue
                say(var).set_payload(stream(bytes(o["d"])))
                ev["obs"] = {"payload": list(var.payload or b""), "lists": lists(var), "size": var.payload_size, "b": list(say(var).encode())}
            elif k == "builder":
                a = o["a"]
                g = uuid.UUID(bytes_le=bytes(o["guid"]))
                pay = bytes(o["payload"])
                arg = astr(a) if a["how"] == "str" else a["v"]
                b = A.EfiVariableAuthentication2Builder("".join(map(chr, o["name"])), g if o["how"] == "uuid" else str(g), arg, io.BytesIO(pay) if o["how"] == "stream" else pay,
                                                        efi_time=datetime.datetime(*o["time"]))
                ev["attrs"] = sum({v[i]: 64 >> i for i in range(7) for v in (SHORT, LONG)}[x] for x in set(alias(x) for x in a["names"])) if a["how"] == "str" else a["v"]
                ev["obs"] = {"digest": list(b.get_digest())}
            elif k == "payload":
                pay = bytes(o["d"])
                if o["how"] == "stream":
                    fs = io.BytesIO(b"z" * o["skip"] + pay)
                    fs.seek(o["skip"])
                    b.update_payload(fs)
                else:
                    b.update_payload(pay if o["how"] == "bytes" else None)
                v = b.authenticated_variable
                ev["obs"] = {"digest": list(b.get_digest()), "payload": list(v.payload or b""), "lists": lists(v)}
            elif k == "finalize":
                (c, key), *more = keys()
                extra = [types.SimpleNamespace(certificate=q) for q, _ in more[: o["extra"]]]
                alg = getattr(hashes, o["alg"])()
                b.sign(c, key, extra, hash_algorithm=alg)
                v = b.finalize(omit_content_info=o["omit"])
                sig = v.auth_info.cert_data
                try:
                    ci, rest = der(sig, asn1Spec=rfc2315.ContentInfo())
                    info = True
                    sd, rest2 = der(bytes(ci["content"]), asn1Spec=rfc2315.SignedData())
                except Exception:
                    info = False
                    sd, rest = der(sig, asn1Spec=rfc2315.SignedData())
                si = sd["signerInfos"]
                try:
                    c.public_key().verify(bytes(si[0]["encryptedDigest"]), b.get_digest(), padding.PKCS1v15(), alg)
                    valid = len(si) == 1 and not rest and not sd["contentInfo"]["content"].isValue and not si[0]["authenticatedAttributes"].isValue
                except Exception:
                    valid = False
                ev["sig"] = list(sig)
                ev["certs"] = 1 + o["extra"]
                w = io.BytesIO()
                v.write(w)
                ev["obs"] = {"digest": list(b.get_digest()), "valid": valid, "info": info, "certs": len(sd["certificates"]), "b": list(v.encode()),
                             "same": w.getvalue() == v.encode() and b.get_signature() == sig}
            elif k == "attrs":
                x = EfiVariableAttributes(decodefs=io.BytesIO(bytes(le(o["v"], 4)))) if o["how"] == "bytes" else EfiVariableAttributes(astr(o) if o["how"] == "str" else o["v"])
                sp = lambda s: s.split(",") if s else []
                ev["obs"] = {"ok": True, "v": int(x), "b": list(x.encode()), "short": sp(x.get_short_string()), "long": sp(str(x))}
        except Exception as e:
            if k in ("builder", "payload", "finalize", "time", "guidcert", "setpayload"):
                raise
            ev["obs"] = {"ok": False}
        evs.append(ev)
    return evs


def alias(x):
    return LONG[SHORT.index(x)] if x in SHORT else x


def astr(a):
    s = a["sep"].join(a["names"])
    return s.lower() if a["low"] else s


def classify(case, evs):
    if case.get("old"):
        yield "former names"
    if case.get("skip") and any(e["k"] in ("vardecode", "guiddecode", "pkcs1decode", "factory", "timedecode") and e["obs"].get("ok") for e in evs[1:]):
        yield "inside a stream"
    for e in evs:
        o = e.get("obs", {})
        k = e["k"]
        if o.get("ok") is False:
            yield "attributes refused" if k == "attrs" else "refused"
        if k == "vardecode" and o.get("ok"):
            yield "decoded"
        if o.get("lists", -1) > 0:
            yield "signature lists"
        if k == "finalize":
            yield "signed"
        if k in ("payload", "setpayload") and o["payload"]:
            yield "payload replaced"
        if k == "builder" and max(e["name"]) > 255:
            yield "non ASCII name"
