"""C32: printing decoded structures and reading the printed text back into the facts it states."""
import ast
import copy
import io
import logging
import os
import re
import sys
import tempfile
import uuid
import warnings

from vf.areas import authvar, capsule, firmware, policy, siglist

TRACE = ("DescribeTrace", "DescribeTrace.cfg")
REQUIRED_CLASSES = ["refused", "former name", "compact", "console", "stream", "certificate", "device policy"] + [
    "stated " + x for x in ("x509", "sha256", "list", "db", "time", "guidcert", "pkcs1", "var", "pay", "auth", "img", "fmp", "cap", "policy", "lock", "entry", "bmp")]
SIG = ("x509", "sha256", "list", "db")


def models(tier, pid):
    return [{"module": "DescribeMC", "cfg": "DescribeMC.cfg", "consts": {"Deep": "FALSE" if tier == "quick" else "TRUE"}, "min_behaviours": 5000, "limit": 2500 if tier == "quick" else None,
             "what": "one or more structures of every kind, every cut of them and every damaged byte"}]


def from_model(doc, m, pid):
    h = sum(doc[1]) + len(doc[1])
    return [{"ops": [op(doc[0], doc[1], h % 2, h % 3 == 0, h % 5 < 2, h % 7 < 5, h % 4 < 2)]}]


def op(what, b, old, compact, console, img, cols):
    return {"op": "print", "what": what, "b": list(b), "old": bool(old), "compact": bool(compact), "console": bool(console), "img": bool(img), "cols": bool(cols)}


def der(n):
    v, wrapped = n
    sd = [48, 20, 2, 1, v, 49, 0, 48, 11, 6, 9, 42, 134, 72, 134, 247, 13, 1, 7, 1, 49, 0]
    return [48, 35, 6, 9, 42, 134, 72, 134, 247, 13, 1, 7, 2, 160, 22] + sd if wrapped else sd


def a_cert(r):
    return der((r.randint(0, 127), r.random() < 0.5)) if r.random() < 0.93 else capsule.bs(r)


def le(n, w):
    return list((n % (1 << (8 * w))).to_bytes(w, "little"))


P7 = authvar.P7


def enc(lvl, t):
    if lvl == "pay":
        return [77, 83, 83, 49] + le(16 + len(t["ext"]), 4) + t["fw"] + t["low"] + t["ext"] + t["data"]
    if lvl == "auth":
        return t["mc"] + le(24 + len(t["cert"]), 4) + [0, 2, 241, 14] + P7 + t["cert"] + (enc("pay", t["in"][0]) if t["in"] else t["raw"])
    if lvl == "img":
        body = enc("auth", t["in"][0]) if t["in"] else t["raw"]
        return t["ver"] + t["type"] + [t["idx"], 0, 0, 0] + le(len(body), 4) + le(len(t["vendor"]), 4) + t["hw"] + body + t["vendor"]
    if lvl == "fmp":
        parts = t["drivers"] + [enc("img", x) for x in t["images"]]
        o, offs = 8 + 8 * len(parts), []
        for p in parts:
            offs += le(o, 8)
            o += len(p)
        return t["ver"] + le(len(t["drivers"]), 2) + le(len(t["images"]), 2) + offs + [x for p in parts for x in p]
    body = enc("fmp", t["in"][0]) if t["in"] else t["raw"]
    return t["guid"] + le(32 + len(t["ext"]), 4) + le(t["oem"], 2) + [t["fl"], 0] + le(32 + len(t["ext"]) + len(body), 4) + [0] * 4 + t["ext"] + body


def certs_in(r, t):
    """Puts certificates that can be shown into a capsule."""
    for x in t.get("in", []) + t.get("images", []):
        certs_in(r, x)
    if "cert" in t:
        t["cert"] = a_cert(r)


def lists(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if r.random() < 0.5:
            k, sz, g = r.choice([1, 1, 2, 3]), 48, "sha256"
        else:
            k, sz, g = r.choice([0, 1, 1, 1]), 16 + r.choice([0, 1, 7, 8, 9, 15, 16, 17, 33]), "x509"
        out += list(uuid.UUID(siglist.GUID[g]).bytes_le) + le(28 + k * sz, 4) + le(0, 4) + le(sz if k else r.choice([0, sz]), 4) + [r.choice([r.randint(0, 255), 45, 32, 48]) for _ in range(k * sz)]
    return out


def one(r):
    what = r.choice(["x509", "sha256", "list", "list", "db", "db", "time", "time", "guidcert", "pkcs1", "pkcs1", "var", "var", "pay", "auth", "img", "fmp", "cap", "cap", "policy", "policy", "lock", "entry", "entry", "bmp", "bmp"])
    if what == "x509":
        b = [r.randint(0, 255) for _ in range(16 + r.choice([0, 1, 7, 8, 15, 16, 17, 40, 256, 261]))]
    elif what == "sha256":
        b = [r.randint(0, 255) for _ in range(48 + r.choice([0, 0, 1, 16]))]
    elif what in ("list", "db"):
        b = lists(r)
    elif what == "time":
        t = authvar.tm(r)
        b = le(t[0], 2) + t[1:] + [0] * 9
    elif what == "guidcert":
        d = a_cert(r)
        b = le(24 + len(d), 4) + [0, 2, 0xF1, 0x0E] + P7 + d + r.choice([[], [1, 2]])
    elif what == "pkcs1":
        d = capsule.bs(r, 40) if r.random() < 0.9 else [r.randint(0, 255)] * r.randint(255, 300)
        b = le(24 + len(d), 4) + [0, 2, 0xF0, 0x0E] + [r.randint(0, 255) for _ in range(16)] + d + r.choice([[], [1, 2]])
    elif what == "var":
        t = authvar.tm(r)
        d = a_cert(r) if r.random() < 0.6 else None
        c = le(24 + len(d), 4) + [0, 2, 0xF1, 0x0E] + P7 + d if d is not None else le(24 + 9, 4) + [0, 2, 0xF0, 0x0E] + [r.randint(0, 255) for _ in range(25)]
        b = le(t[0], 2) + t[1:] + [0] * 9 + c + r.choice([[], capsule.bs(r, 40), lists(r), lists(r) + [1]])
    elif what in capsule.LV:
        t = capsule.LV[what](r)
        certs_in(r, t)
        b = enc(what, t)
    elif what == "policy":
        b = policy.shared(r)
        if r.random() < 0.5:
            v = {"t": 5, "v": r.choice([[1] + [0] * 7, [3] + [0] * 7, [2] + [0] * 7, policy.num(r, 8)])}
            if r.random() < 0.3:
                v = policy.value(r)
            near = r.random() < 0.3
            q = policy.estr(policy.units("UEFI" if not near else r.choice(["UEFI", "uefi", "Target"]))), policy.estr(policy.units("Policy" if not near else r.choice(["Policy", "policy"]))), policy.evalue(v)
            rules = [q] * r.choice([1, 1, 2])
            tab = [y for x in q for y in x]
            b = le(2, 2) + [1, 0, 0, 0] + policy.num(r, 16) + le(0, 2) + policy.num(r, 4) + le(0, 2) + le(len(rules), 2)
            for _ in rules:
                b += r.choice([[0, 0, 16, 239], [0, 0, 16, 239], [0, 0, 16, 238]]) + le(0, 4) + le(len(q[0]), 4) + le(len(q[0]) + len(q[1]), 4)
            b += tab
    elif what == "lock":
        b = policy.num(r, 16) + [r.randint(0, 255), 0] + [x for w in policy.units(r.choice(["A", "Lock", "a, b)", "é"])) for x in policy.le(w, 2)] + [0, 0]
    elif what == "entry":
        b = policy.entry(r)
    else:
        b = list(firmware.bmp(r))
    if r.random() < 0.12 and b:
        b = b[: r.randrange(len(b))] if r.random() < 0.4 else policy.hurt(r, b)
    if what in SIG + ("pkcs1", "var", "time", "guidcert"):
        b = [121 if x == 120 else x for x in b]  # no "x", which could make the text beside a dump look like a dump
    return op(what, b, r.random() < 0.4, r.random() < 0.4, r.random() < 0.4, r.random() < 0.7, r.random() < 0.7)


def gen(rng, tier, pid):
    n = 1200 if tier == "quick" else 50000
    return [{"ops": [one(rng) for _ in range(rng.choice([1, 1, 3]))]} for _ in range(n)]


# ---------------------------------------------------------------------------------------------------------------------
# reading what was printed
N8 = lambda s, base: le(int(s, base), 8)
G = r"([0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12})"
GV = lambda s: list(uuid.UUID(s).bytes_le)
T = lambda s: policy.units(s)
DAYS = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
LOCKS = ["NONE", "NOW", "ON_CREATE"]


def hexa(label):
    return lambda m: [[label, N8(m.group(1), 16)]]


def guid(label):
    return lambda m: [[label, GV(m.group(1))]]


def flag(label):
    return lambda m: [[label, []]]


def text(label):
    return lambda m: [[label, T(m.group(1))]]


def when(m):
    return [["weekday", le(DAYS.index(m[1]), 8)], ["month", le(MONTHS.index(m[2]) + 1, 8)], ["day", N8(m[3], 10)], ["year", N8(m[4], 10)], ["hour", N8(m[5], 10)], ["minute", N8(m[6], 10)], ["half", le(["AM", "PM"].index(m[7]), 8)]]


def eslrow(m):
    return [["list", []], ["type", GV(m[1])], ["list size", N8(m[2], 16)], ["header size", N8(m[3], 16)], ["signature size", N8(m[4], 16)]] + ([["no header", []]] if m[5] == "NONE" else [["?" + m[5], []]])


def esdrow(m):
    return [["entry " + {"X509": "x509", "SHA256": "sha256"}[m[1]], []], ["owner", GV(m[2])], ["data", list(bytes.fromhex(m[3]))]]


def both(label):
    """A number in hexadecimal and, beside it, in decimal."""
    return lambda m: [[label, N8(m[1], 16)]] if int(m[1], 16) == int(m[2]) else [["?" + m[0], []]]


H = "([0-9A-Fa-f]+)"
X = "0[xX]([0-9A-Fa-f]+)"
F, C, W, A = r"EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER\.", r"EFI_FIRMWARE_MANAGEMENT_CAPSULE_HEADER\.", r"WIN_CERTIFICATE", r"EFI_CAPSULE_HEADER\."
LINES = [
    ("EfiSignatureData - EfiSignatureDataEfiCertX509", flag("entry x509")), ("EfiSignatureData - EfiSignatureDataEfiCertSha256", flag("entry sha256")),
    ("Signature Owner: +" + G, guid("owner")), ("Signature Data: +([0-9A-F]+)", lambda m: [["data", list(bytes.fromhex(m[1]))]]), ("Signature Data:", flag("data")),
    ("EfiSignatureList", flag("list")), ("Signature Type: +" + G, guid("type")), ("Signature List Size: +" + H, hexa("list size")), ("Signature Header Size: +" + H, hexa("header size")),
    ("Signature Size: +" + H, hexa("signature size")), ("Signature Header: +NONE", flag("no header")),
    ("ESL:" + G + ",(\\w+),(\\w+),(\\w+),(.*)", eslrow), ("ESD:EFI_CERT_(X509|SHA256)," + G + ",([0-9A-F]*)", esdrow),
    (r"EfiTime: (\w+), (\w+) (\d+), (\d+) (\d+):(\d+)([AP]M)", when),
    ("-+ WinCertPKCS115 -+", flag("pkcs1 cert")), ("Hdr_dwLength: +" + X, hexa("length")), ("Hdr_wRevision: +" + X, hexa("revision")), ("Hdr_wCertificateType: +" + X, hexa("kind")),
    ("Hash Guid: +" + G, guid("hash")), ("cert_data:", flag("data")),
    ("-+ WIN_CERTIFICATE -+", flag("guid cert")), (W + r"\.dwLength += " + H, hexa("length")), (W + r"\.wRevision += " + H, hexa("revision")), (W + r"\.wCertificateType += " + H, hexa("kind")),
    (W + r"_UEFI_GUID\.cert_type += " + G, guid("cert type")), (r"sizeof \(WIN_CERTIFICATE_UEFI_GUID\.cert_data\) += " + H, hexa("cert size")), ("-+ CERTIFICATE DATA -+", lambda m: []),
    ("EfiVariableAuthentication2", flag("variable")), ("-+ VARIABLE PAYLOAD -+", flag("payload")), ("Raw Data:", flag("raw")),
    (r"FMP_PAYLOAD_HEADER\.Signature += " + H + r" \((.*)\)", lambda m: [["signature", N8(m[1], 16)], ["signature text", list(m[2].encode())]]), (r"FMP_PAYLOAD_HEADER\.HeaderSize += " + H, hexa("pay header size")),
    (r"FMP_PAYLOAD_HEADER\.FwVersion += " + H, hexa("fw")), (r"FMP_PAYLOAD_HEADER\.LowestSupportedVersion += " + H, hexa("lowest")),
    (r"EFI_FIRMWARE_IMAGE_AUTHENTICATION\.MonotonicCount += " + H, hexa("count")),
    (F + "Version += " + H, hexa("image version")), (F + "UpdateImageTypeId += " + G, guid("image type")), (F + "UpdateImageIndex += " + H, hexa("image index")), (F + "UpdateImageSize += " + H, hexa("image size")),
    (F + "UpdateVendorCodeSize += " + H, hexa("vendor size")), (F + "UpdateHardwareInstance += " + H, hexa("instance")), (r"sizeof \(VendorCodeBytes\) += " + H, hexa("vendor bytes")),
    (C + "Version += " + H, hexa("fmp version")), (C + "EmbeddedDriverCount += " + H, hexa("drivers")), (r"sizeof \(EmbeddedDriver\) += " + H, hexa("driver size")), (C + "PayloadItemCount += " + H, hexa("items")),
    (C + "ItemOffsetList +=", flag("offsets")),
    (A + "CapsuleGuid += " + G, guid("capsule guid")), (A + "HeaderSize += " + H, hexa("cap header size")), (A + "Flags += " + H, hexa("flags")), ("OEM Flags += " + H, hexa("oem flags")),
    ("CAPSULE_FLAGS_PERSIST_ACROSS_RESET", flag("persist")), ("CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE", flag("populate")), ("CAPSULE_FLAGS_INITIATE_RESET", flag("reset")), (A + "CapsuleImageSize += " + H, hexa("capsule size")),
]
PAYLOAD = {"FMP_PAYLOAD_HEADER": "pay size", "EFI_FIRMWARE_IMAGE_AUTHENTICATION": "auth size", "EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER": "image payload", "EFI_CAPSULE_HEADER": "capsule payload"}
POLICY = [
    ("Firmware Policy", flag("policy")), ("FormatVersion: +" + H, hexa("format")), ("PolicyVersion: +" + H, hexa("policy version")), ("PolicyPublisher: +" + G, guid("publisher")), ("Reserved1Count: +" + H, hexa("reserved1")),
    ("Reserved1: +" + G, guid("reserved1 item")), ("OptionFlags: +" + H, hexa("options")), ("Reserved2Count: +" + H, hexa("reserved2")), ("RulesCount: +" + H, hexa("rules")), ("ValueTableSize: +" + H, hexa("table size")),
    ("ValueTableOffset: +" + H, hexa("table offset")), ("Reserved2", flag("reserved2 item")), ("ObjectType: +" + H, hexa("object")), ("Element: +" + H, hexa("element")),
    ("Rule", flag("rule")), ("RootKey: +" + H, hexa("root")), ("SubKeyNameOffset: +" + H, hexa("sub offset")), ("ValueNameOffset: +" + H, hexa("name offset")), ("ValueOffset: +" + H, hexa("value offset")),
    ("SubKeyName String:  (.*)", text("sub")), ("ValueName String:  (.*)", text("name")), ("ValueType: +([0-9]+)", lambda m: [["value type", N8(m[1], 10)]]), ("Value: String:  (.*)", text("string")), ("Value: +" + X, hexa("value")),
    ('Value: +"[^"]*not supported"', flag("no value")), ("Device Policy:", flag("device policy")), ("Clear UEFI Secure Boot Keys", flag("clear secure boot")), (r"Clear the Trusted Platform Module \(TPM\)", flag("clear tpm")), ("Valuetable", flag("table")), ("(?:bytearray\\()?(b'.*'|b\".*\")\\)?", lambda m: [["bytes", list(ast.literal_eval(m[1]))]]),
]
BMP = [("CharB: +(b'.*'|b\".*\")", lambda m: [["CharB", le(ast.literal_eval(m[1])[0], 8)]]), ("CharM: +(b'.*'|b\".*\")", lambda m: [["CharM", le(ast.literal_eval(m[1])[0], 8)]]),
       ("Size: +" + X + r" \((\d+) bytes\)", both("Size")), (r"RSVD\[1\]: +" + X, hexa("Rsvd16_1")), (r"RSVD\[2\]: +" + X, hexa("Rsvd16_2")), ("ImageOffset: +" + X + r" \((\d+)\)", both("ImageOffset")),
       ("HeaderSize: +" + X, hexa("HeaderSize")), ("PixelWidth: +" + X + r" \((\d+)\)", both("PixelWidth")), ("PixelHeight: +" + X + r" \((\d+)\)", both("PixelHeight")), ("Planes: +" + X, hexa("Planes")),
       ("BitPerPixel: +([0-9]+)", lambda m: [["BitPerPixel", N8(m[1], 10)]]), ("CompressionType: +" + X, hexa("CompressionType")), ("ImageSize: +" + X + r" \(used for compressed images only\)", hexa("ImageSize")),
       ("XPixelsPerMeter: +([0-9]+)", lambda m: [["XPixelsPerMeter", N8(m[1], 10)]]), ("YPixelsPerMeter: +([0-9]+)", lambda m: [["YPixelsPerMeter", N8(m[1], 10)]]),
       ("NumberOfColors: +([0-9]+)", lambda m: [["NumberOfColors", N8(m[1], 10)]]), ("ImportantColors: +([0-9]+)", lambda m: [["ImportantColors", N8(m[1], 10)]]), ("BMP", flag("image")), ("BMP File Header", lambda m: []),
       ("BMP Image Header", lambda m: []), ("BMP Color Map", flag("colour")), ("Blue: +" + X, hexa("blue")), ("Green: +" + X, hexa("green")), ("Red: +" + X, hexa("red")), ("Reserved: +" + X, hexa("rest")),
       (r"BMP Padding \(" + X + r" bytes\)", flag("padding")), ("Bmp Image Data:", flag("pixels"))]
ENTRY = [(r"VARIABLE_POLICY_ENTRY\(" + G + r", (.*)\)", lambda m: [["namespace", GV(m[1])], ["name", T(m[2])]]), (r"Lock += (NONE|NOW|ON_CREATE)", lambda m: [["lock", le(LOCKS.index(m[1]), 8)]]),
         (r"(?:Lock += )?VARIABLE_LOCK_ON_VAR_STATE_POLICY\(" + G + r", (\d+), (.*)\)", lambda m: [["lock namespace", GV(m[1])], ["lock value", N8(m[2], 10)], ["lock name", T(m[3])]]),
         ("Min = " + X + ", Max = " + X + ", Must = " + X + ", Cant = " + X, lambda m: [[n, N8(m[i + 1], 16)] for i, n in enumerate(("min", "max", "must", "cant"))])]
TABLE = {k: [(re.compile(a, re.S), f) for a, f in v] for k, v in (("", LINES), ("policy", POLICY), ("bmp", BMP), ("entry", ENTRY), ("lock", ENTRY))}
DUMP = re.compile(r"0x([0-9a-f]+) -((?:(?: -)? 0x[0-9a-f]{2}){1,16})(.*)", re.S)


def read(what, s, certs):
    """The facts that a printed text states, in order."""
    for i, (b, t) in enumerate(certs):
        s = s.replace(t, f"\n@CERTIFICATE {i}@\n")
    facts, inner = [], ""
    for line in s.split("\n"):
        if what == "policy":
            q = re.sub("^ {0,6}", "", line)
        else:
            q = line.strip(" \t")
        if not q:
            continue
        m = re.fullmatch("@CERTIFICATE ([0-9]+)@", q)
        if m:
            facts.append(["certificate", certs[int(m[1])][0]])
            continue
        m = DUMP.fullmatch(q)
        if m and what in ("x509", "sha256", "list", "db", "pkcs1", "var") and facts and facts[-1][0] in ("data", "raw"):
            b = [int(x, 16) for x in re.findall("0x([0-9a-f]{2})", m[2])]
            asc = "".join(chr(x) if 32 <= x < 127 else "." for x in b)
            v = facts[-1][1]
            if int(m[1], 16) == len(v) and len(v) % 16 == 0 and m[3].strip() == asc.strip():
                v += b
                continue
        if what == "bmp" and facts and facts[-1][0] in ("padding", "pixels"):
            m = re.fullmatch("0x([0-9A-F]+) -", q)
            if m and int(m[1], 16) == len(facts[-1][1]) and int(m[1], 16) % 16 == 0:
                continue
            m = re.fullmatch("([0-9A-F]{2})", q)
            if m:
                facts[-1][1].append(int(m[1], 16))
                continue
        m = re.fullmatch(r"([A-Z_]+)\.\w+ +=.*", q)
        if m and m[1] in PAYLOAD:
            inner = m[1]
        m = re.fullmatch(r"sizeof \(Payload\) += " + H, q)
        if m:
            # the size belongs to the innermost structure that has not stated it yet
            facts.append([size_of(facts), N8(m[1], 16)])
            continue
        for a, f in TABLE.get(what, TABLE[""]):
            m = a.fullmatch(q)
            if m:
                facts += f(m)
                break
        else:
            facts.append(["?" + q[:80], []])
    return [list(f) for f in facts]


def size_of(facts):
    """Whose payload the next size is: of the structure whose header came last."""
    for l, _ in reversed(facts):
        for label, mine in (("pay size", ("lowest", "fw", "pay header size", "signature text")), ("auth size", ("certificate", "cert size")), ("image payload", ("instance", "vendor size", "image size")), ("capsule payload", ("capsule size",))):
            if l in mine:
                return label
    return "?payload"


def capture(f):
    """What f writes to the standard output, by whatever way."""
    sys.stdout.flush()
    with tempfile.TemporaryFile() as t:
        keep = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            f()
        finally:
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
        t.seek(0)
        return t.read().decode("utf-8", "replace")


def run(case, d):
    warnings.simplefilter("ignore")
    from pyasn1.codec.der.decoder import decode
    from pyasn1_modules import rfc2315

    import edk2toollib.uefi.authenticated_variables_structure_support as S
    from edk2toollib.uefi.bmp_object import BmpObject
    from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
    from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry
    from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
    from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass
    from edk2toollib.uefi.wincert import WinCertPkcs1, WinCertUefiGuid
    from edk2toollib.windows.policy.firmware_policy import FirmwarePolicy

    CAP = {"pay": FmpPayloadHeaderClass, "auth": FmpAuthHeaderClass, "img": FmpCapsuleImageHeaderClass, "fmp": FmpCapsuleHeaderClass, "cap": UefiCapsuleHeaderClass}

    def shown(b):
        """The text of PKCS #7 data, if it is that."""
        for t in (rfc2315.ContentInfo(), rfc2315.SignedData()):
            try:
                v = decode(bytes(b), asn1Spec=t)
                if not v[1]:
                    return str(v[0])
            except Exception:
                pass
        return None

    def certs(b):
        """Certificates inside of b that can be shown."""
        res, i = [], 0
        b = bytes(b)
        while True:
            i = b.find(bytes([0, 2, 241, 14]) + bytes(P7), i)
            if i < 4:
                break
            n = int.from_bytes(b[i - 4:i], "little")
            c = b[i + 20:i - 4 + n]
            t = shown(c) if 24 <= n <= len(b) - i + 4 else None
            if t and [list(c), t] not in res:
                res.append([list(c), t])
            i += 1
        res.sort(key=lambda x: -len(x[1]))
        return res

    def make(what, raw):
        fs = io.BytesIO(raw)
        if what == "x509":
            return S.EfiSignatureDataEfiCertX509(decodefs=fs, decodesize=len(raw))
        if what == "sha256":
            return S.EfiSignatureDataEfiCertSha256(decodefs=fs)
        if what == "list":
            return S.EfiSignatureList(filestream=fs)
        if what == "db":
            return S.EfiSignatureDatabase(fs)
        if what == "time":
            return S.EfiTime(decodefs=fs)
        if what == "guidcert":
            x = WinCertUefiGuid()
            x.decode(fs)
            return x
        if what == "pkcs1":
            return WinCertPkcs1(fs)
        if what == "var":
            return S.EfiVariableAuthentication2(decodefs=fs)
        if what in CAP:
            x = CAP[what]()
            x.Decode(raw)
            return x
        if what == "policy":
            return FirmwarePolicy(fs)
        if what == "bmp":
            return BmpObject(fs)
        x = VariableLockOnVarStatePolicy() if what == "lock" else VariablePolicyEntry()
        x.decode(raw)
        return x

    def encoded(what, x):
        try:
            if what in CAP:
                return x.Encode()
            if what == "policy":
                b = bytearray()
                copy.deepcopy(x).Serialize(b)  # serializing sets the table of the policy
                return bytes(b)
            if what == "bmp":
                w = io.BytesIO()
                x.Write(w)
                return w.getvalue()
            return bytes(x.encode())
        except Exception as e:
            return type(e).__name__

    def described(o, x):
        """The text x prints itself as."""
        what = o["what"]
        if what in ("lock", "entry"):
            return str(x)
        if what == "bmp":
            lines = []
            h = logging.Handler()
            h.emit = lambda rec: lines.append(rec.getMessage())
            lg = logging.getLogger("edk2toollib.uefi.bmp_object")
            old = lg.level, lg.propagate, logging.root.manager.disable
            logging.disable(logging.NOTSET)
            lg.addHandler(h)
            lg.setLevel(logging.DEBUG)
            lg.propagate = False
            try:
                x.Print(o["img"], o["cols"])
            finally:
                lg.removeHandler(h)
                lg.setLevel(old[0])
                lg.propagate = old[1]
                logging.disable(old[2])
            return "\n".join(lines)
        if what in CAP:
            return capture(x.DumpInfo)
        if what == "policy":
            return capture(x.Print)
        if what == "guidcert":
            f = getattr(x, {(0, 0): "print", (0, 1): "dump_info", (1, 0): "Print", (1, 1): "DumpInfo"}[o["old"], o["compact"]])
        else:
            f = x.Print if o["old"] else x.print
        args = [o["compact"]] if what in SIG else []
        if o["console"]:
            return capture(lambda: f(*args))
        s = io.StringIO()
        stray = capture(lambda: f(*args, s))
        return s.getvalue() + ("\nstray: " + stray if stray else "")

    evs = [{"k": "start"}]
    for o in case["ops"]:
        ev = {k: v for k, v in o.items() if k != "op"}
        ev["k"] = "print"
        known = certs(ev["b"]) if ev["what"] in ("guidcert", "var", "auth", "img", "fmp", "cap") else []
        ev["der"] = [c for c, _ in known]
        try:
            x = make(o["what"], bytes(o["b"]))
        except Exception:
            ev["obs"] = {"ok": False}
            evs.append(ev)
            continue
        try:
            before = encoded(o["what"], x)
            one = described(o, x)
            two = described(o, x)
            ev["obs"] = {"ok": True, "facts": read(o["what"], one, known), "again": one == two, "same": encoded(o["what"], x) == before}
        except Exception as e:
            ev["obs"] = {"ok": False, "raised": f"{type(e).__name__}: {e}"[:200]}
        evs.append(ev)
    return evs


def classify(case, evs):
    for e in evs[1:]:
        if not e["obs"]["ok"]:
            yield "refused"
            continue
        yield "stated " + e["what"]
        labels = {f[0] for f in e["obs"]["facts"]}
        for l in ("certificate", "device policy"):
            if l in labels:
                yield l
        if e["what"] in SIG:
            if e["compact"]:
                yield "compact"
            if e["old"]:
                yield "former name"
            yield "console" if e["console"] else "stream"
