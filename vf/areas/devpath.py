"""C26: UEFI device paths (uefi/device_path.py)."""

import base64
import json

TRACE = ("DevicePathTrace", "DevicePathTrace.cfg")
CASE_SECONDS = 20
REQUIRED_CLASSES = ["refused path", "empty path", "Hardware / PCI", "Hardware / PCCARD", "ACPI / ACPI HID", "Messaging / USB", "Messaging / MAC Address", "Messaging / IPv4", "Messaging / SATA",
                    "Messaging / NVMe Namespace", "Media / Hard Drive", "Media / File Path", "Media / PIWG Firmware Volume", "Media / PIWG Firmware File", "Media / Relative Offset Range", "Messaging / URI",
                    "NOT FOUND / NOT_FOUND!", "Hardware / Unimplemented!", "end"]
SIZES = {(1, 1): 2, (1, 2): 1, (2, 1): 8, (3, 5): 2, (3, 11): 33, (3, 12): 23, (3, 18): 6, (4, 1): 38, (4, 6): 16, (4, 7): 16, (4, 8): 20}


def models(tier, pid):
    deep = tier != "quick"
    return [{"module": "DevicePathMC", "cfg": "DevicePathMC.cfg", "consts": {"MaxNodes": 4 if deep else 3, "Deep": "TRUE" if deep else "FALSE"}, "min_behaviours": 5000, "limit": None if deep else 3000,
             "what": "every short path over nodes of every kind, with lengths that are wrong"}]


def from_model(doc, m, pid):
    return [{"b": doc["b"]}] if fine(doc["b"]) else []


def fine(b):
    """No IPv4 node whose address is not static: read as static (recorded finding)."""
    i = 0
    while i + 4 <= len(b):
        n = b[i + 2] + 256 * b[i + 3]
        if b[i] == 3 and b[i + 1] == 12 and n > 18 and i + 18 < len(b) and b[i + 18] == 0:
            return False
        if n < 4:
            break
        i += n
    return True


def node(r):
    x = r.random()
    if x < 0.55:
        t, s = r.choice(list(SIZES) + [(4, 4), (3, 23), (4, 4), (3, 23)])
    elif x < 0.85:
        t, s = r.choice([1, 2, 3, 3, 3, 4, 5]), r.choice([*range(34), 255])
    elif x < 0.93:
        t, s = 127, r.choice([1, 255, 255, 7])
    else:
        t, s = r.choice([0, 6, 7, 8, 126, 128, 255]), r.choice([0, 1, 255])
    if (t, s) in SIZES:
        n = SIZES[t, s]
        y = r.random()
        d = r.randbytes(n) if y < 0.7 else bytes(n) if y < 0.8 else b"\xff" * n if y < 0.9 else bytes(r.choice([0, 0, 1, 128, 255]) for _ in range(n))
        if (t, s) == (3, 12) and d[14] == 0:
            d = d[:14] + bytes([r.choice([1, 255, 2])]) + d[15:]
        if r.random() < 0.04:
            d = d[:-1] if r.random() < 0.5 else d + b"\1"
    elif (t, s) == (4, 4):
        d = "".join(r.choice("\\AEFI.éü中\U0001f600 \x00") for _ in range(r.choice([0, 1, 3, 8, 20]))).encode("utf-16-le") + b"\0\0" * r.choice([0, 1, 1, 1, 2])
        if r.random() < 0.05:
            d += b"a"
    elif (t, s) == (3, 23):
        d = r.randbytes(r.choice([1, 12, 17, 17])) if r.random() < 0.4 else r.randbytes(17) + b"nqn.2014-08.org" + b"\0" * r.choice([0, 1, 3])
    elif t == 127:
        d = r.randbytes(r.choice([0, 0, 0, 3]))
    else:
        d = r.randbytes(r.choice([0, 1, 2, 10, 100, 260, 300]))
    n = len(d) + 4
    y = r.random()
    if y < 0.02:
        n = r.choice([0, 1, 2, 3])
    elif y < 0.04:
        n = max(0, n + r.choice([-1, 1, 256]))
    return bytes([t, s]) + n.to_bytes(2, "little") + d


def gen(rng, tier, pid):
    out = [{"b": []}, {"b": [0x7F, 255, 4, 0]}]
    probe = [3, 12, 27, 0] + [10, 0, 0, 1, 10, 0, 0, 2, 80, 0, 1, 1, 6, 0, 0, 10, 0, 0, 254, 255, 255, 255, 0]
    out.append({"probe": "IPv4 address that is not static", "b": probe})
    big = bytes([3, 24]) + (0x8004).to_bytes(2, "little") + rng.randbytes(0x8000)
    out.append({"b": list(big + bytes([127, 255, 4, 0]))})
    n = 1200 if tier == "quick" else 20000
    while n:
        b = b"".join(node(rng) for _ in range(rng.choice([1, 2, 3, 5, 9]) if n % 100 else rng.choice([17, 33, 70])))
        x = rng.random()
        if x < 0.04:
            b = b[: rng.randrange(len(b) + 1)]
        elif x < 0.08:
            b += rng.randbytes(rng.choice([1, 2, 3]))
        if fine(b):
            out.append({"b": list(b)})
            n -= 1
    return out


def classify(case, events):
    for e in events[1:]:
        o = e["obs"]
        if not o["ok"]:
            yield "refused path"
        elif not o["nodes"]:
            yield "empty path"
        else:
            for n in o["nodes"]:
                yield n["title"] or "end"


def text(s):
    u = s.encode("utf-16-le")
    return [u[i] + 256 * u[i + 1] for i in range(0, len(u), 2)]


def flat(pairs, pre=""):
    out = []
    for k, v in pairs:
        if isinstance(v, list) and v and isinstance(v[0], tuple):
            out += flat(v, pre + k + ".")
            continue
        if isinstance(v, list) and len(v) == 1:
            v = v[0]
        if k == "data":
            out.append([pre + k, "u", list(base64.b64decode(v, validate=True))])
        elif k in ("PathName", "SubsystemNqn"):
            out.append([pre + k, "u", text(v)])
        elif isinstance(v, bool):
            out.append([pre + k, "b", v])
        elif isinstance(v, int):
            out.append([pre + k, "n", list(v.to_bytes(8, "little", signed=v < 0))])
        else:
            out.append([pre + k, "s", str(v)])
    return out


def show(p):
    x = json.loads(str(p), object_pairs_hook=lambda ps: ps)
    title = ""
    if len(x) == 1:
        title, x = x[0]
    return {"t": p.dev_type, "s": p.dev_subtype, "n": p.dev_length, "d": list(p.dev_data), "title": title, "fields": flat(x)}


def run(case, d):
    from edk2toollib.uefi.device_path import DevicePathFactory

    try:
        ps = DevicePathFactory.from_binary(bytes(case["b"]))
    except Exception:
        return [{"k": "start"}, {"k": "path", "b": case["b"], "obs": {"ok": False}}]
    return [{"k": "start"}, {"k": "path", "b": case["b"], "obs": {"ok": True, "nodes": [show(p) for p in ps]}}]
