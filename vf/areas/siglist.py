"""C15: histories of signature lists; databases, canonical form, byte layout."""
import hashlib
import io
import uuid

from vf import spell

TRACE = ("SigListTrace", "SigListTrace.cfg")
REQUIRED_CLASSES = ["refused", "merged", "duplicates", "canonical with duplicates", "malformed refused", "merged into emptied", "entry from a stream", "entry refused", "former names"]
GUID = {"sha256": "c1c41626-504c-4092-aca9-41f936934328", "x509": "a5c059a1-94e4-4aa7-87b5-ab155c2bf072", "other": "3bd2a492-96c0-4079-b420-fcf98ef103ed"}


def models(tier, pid):
    n = 6 if tier == "quick" else 7
    return [{"module": "SigListMC", "cfg": "SigListMC.cfg", "consts": {"MaxOps": n}, "min_behaviours": 1000, "limit": 500 if tier == "quick" else 15000,
             "what": f"every order of {n} header, entry, merge and sort steps on two lists of every type"}]


def from_model(doc, m, pid):
    ops = list(doc) + [{"op": "encode", "n": "a"}, {"op": "db", "ns": ["a", "b"]}, {"op": "db", "ns": ["b", "a"]}, {"op": "redecode", "n": "c", "m": "a"}]
    return [{"ops": ops, "old": len(doc) % 3}]


def gen(rng, tier, pid):
    n = 300 if tier == "quick" else 8000
    return [dict(c, old=rng.choice([0, 0, 1, 2])) for c in [one(rng) for _ in range(n)] + [raw(rng) for _ in range(n)] + [single(rng) for _ in range(n)] + [large(rng, k) for k in range(2 if tier == "quick" else 12)]]


def large(r, k):
    """One certificate around 64 KiB, or hundreds of hashes."""
    if k % 2 == 0:
        n = r.choice([65508, 65520, 66000])
        c = {"o": [1] * 16, "d": [r.randint(0, 255)] * (n - 1) + [7]}
        ops = [{"op": "new", "n": "a", "t": "x509"}, {"op": "header", "n": "a", "size": 16 + n}, {"op": "add", "n": "a", "t": "x509", "e": c}]
    else:
        ops = [{"op": "new", "n": "a", "t": "sha256"}, {"op": "header", "n": "a", "size": 48}]
        ops += [{"op": "add", "n": "a", "t": "sha256", "e": {"o": [i % 2] * 16, "d": [0] * 30 + [(i * 37) % 256, i % 3]}} for i in range(r.choice([260, 300]))]
    return {"ops": ops + [{"op": "encode", "n": "a"}, {"op": "redecode", "n": "c", "m": "a"}] + ([{"op": "sort", "n": "a", "dedupe": True}] if k % 2 else [])}


def ent(r, t, ln):
    d = [r.choice([0, 1, 2, 127, 128, 255])] * (31 if t == "sha256" else max(0, ln - 1))
    if t == "sha256":
        d = d + [r.choice([0, 1, 255])]
    elif ln:
        d = d + [r.choice([0, 1, 9])]
    return {"o": [r.randint(0, 3)] * 16, "d": d}


def one(r):
    names = ["a", "b", "c", "d"]
    typ, hd, ops = {}, {}, []
    same = r.random() < 0.6
    for n in names:
        t = "sha256" if same else r.choice(["sha256", "x509", "x509", "other"])
        typ[n] = t
        ops.append({"op": "new", "n": n, "t": t})
        hd[n] = 48 if t == "sha256" else 16 + r.randint(0, 3)
        if r.random() < 0.85:
            ops.append({"op": "header", "n": n, "size": hd[n]})
    for _ in range(r.randint(3, 22)):
        n = r.choice(names)
        x = r.random()
        if x < 0.5:
            t = typ[n] if r.random() < 0.95 else r.choice(["sha256", "x509"])
            if typ[n] == "x509" and t == "x509" and r.random() < 0.3:
                # a fresh single certificate list
                hd[n] = 16 + r.randint(0, 3)
                ops += [{"op": "new", "n": n, "t": t}, {"op": "header", "n": n, "size": hd[n]}]
            ops.append({"op": "add", "n": n, "t": t, "e": ent(r, t, hd[n] - 16 if hd[n] != 48 or t == "x509" else 32)})
        elif x < 0.6:
            ops.append({"op": "merge", "n": n, "m": r.choice([q for q in names if q != n])})
        elif x < 0.7:
            ops.append({"op": "sort", "n": n, "dedupe": r.random() < 0.7})
        elif x < 0.77:
            ops.append({"op": "encode", "n": n})
        elif x < 0.86:
            m = r.choice(names)
            ops.append({"op": "redecode", "n": n, "m": m})
            typ[n], hd[n] = typ[m], hd[m]
        elif x < 0.89:
            ops.append({"op": "header", "n": n, "size": r.choice([48, 20])})
        elif x < 0.91:
            ops.append({"op": "new", "n": n, "t": typ[n]})
        else:
            ops.append({"op": "db", "ns": r.sample(names, r.randint(0, 4))})
    ops.append({"op": "db", "ns": r.sample(names, 4)})
    ops.append({"op": "db", "ns": r.sample(names, 3)})
    return {"ops": ops}


def raw(r):
    """Bytes of one or several lists, often damaged."""
    b = []
    for _ in range(r.randint(0, 3)):
        t = r.choice(["sha256", "x509", "x509", "other"])
        k = r.choice([0, 1, 1, 2, 3])
        sz = 48 if t == "sha256" else r.choice([16, 17, 20])
        if k == 0:
            sz = r.choice([0, sz, 0, sz, 5, 1 << 30, 0xFFFFFFFF, 1887751250])
        hs = 0
        ls = 28 + k * sz
        if r.random() < 0.25:
            sz = r.choice([0, 1, 8, 15, 16, 17, 24, 32, 48, 49, 255])
        if r.random() < 0.15:
            ls = max(0, ls + r.choice([-29, -28, -17, -1, 1, 16, 28, 300]))
        if r.random() < 0.06:
            hs = r.choice([1, 16, 28, 4096])
        body = [r.randint(0, 255) for _ in range(k * (48 if t == "sha256" else 20))][: max(0, k * sz if r.random() < 0.9 else 10 ** 6)]
        b += list(uuid.UUID(GUID[t]).bytes_le) + list(ls.to_bytes(4, "little")) + list(hs.to_bytes(4, "little")) + list(sz.to_bytes(4, "little")) + body
    if b and r.random() < 0.2:
        b = b[: r.randint(0, len(b))]
    if r.random() < 0.1:
        b += [r.randint(0, 255) for _ in range(r.randint(1, 30))]
    if b and r.random() < 0.05:
        i = r.randint(16, max(16, len(b) - 1))
        if i < len(b):
            b[i] = r.randint(0, 255)
    return {"ops": [{"op": "dbdecode", "b": b}, {"op": "decode", "n": "a", "b": b}, {"op": "sort", "n": "a", "dedupe": True}, {"op": "encode", "n": "a"}], "skip": r.choice([0, 0, 3, 28])}


def single(r):
    """Entries on their own, made and read in every way, from any place of a stream."""
    ops = []
    for _ in range(r.randint(1, 5)):
        t = r.choice(["sha256", "x509", "x509", "other"])
        how = r.choice(["new", "createfs", "create", "decode", "again", "factory", "factory"])
        n = r.choice([0, 1, 15, 16, 17, 31, 32, 32, 33, 47, 48, 48, 49, 64, 90])
        pos = r.choice([0, 0, 1, 16, 48]) if how != "new" else 0
        if t == "other" and how not in ("create", "factory"):
            t = "x509"
        b = [r.randint(0, 255) for _ in range(pos + n)]
        size = r.choice([0, 15, 16, 17, 48, 48, n, n, n, max(0, n - 1), n + 1])
        ops.append({"op": "entry", "t": t, "how": how, "b": b, "pos": pos, "size": size, "o": [r.randint(0, 255) for _ in range(16)], "o2": [r.randint(0, 255) for _ in range(16)]})
    return {"ops": ops}


def run(case, d):
    import edk2toollib.uefi.authenticated_variables_structure_support as A

    name = {uuid.UUID(v): k for k, v in GUID.items()}

    say = spell.speaker(case)

    def stream(o):
        skip = case.get("skip", o.get("pos", 0))
        fs = io.BytesIO(bytes([0xEE] * case.get("skip", 0)) + bytes(o["b"]))
        fs.seek(skip)
        return fs

    def single(o):
        """An entry, and the stream it came from."""
        fs = stream(o)
        g, own, sha = uuid.UUID(GUID[o["t"]]), uuid.UUID(bytes_le=bytes(o["o"])), o["t"] == "sha256"
        S, X, F = A.EfiSignatureDataEfiCertSha256, A.EfiSignatureDataEfiCertX509, say(A.EfiSignatureDataFactory)
        if o["how"] == "new":
            return (S(digest=fs.read(), sigowner=own) if sha else X(cert=fs.read(), sigowner=own)), fs
        if o["how"] == "createfs":
            return (S(createfs=fs, sigowner=own) if sha else X(createfs=fs, sigowner=own)), fs
        if o["how"] == "create":
            return F.create(g, fs, own), fs
        if o["how"] == "decode":
            return (S(decodefs=fs) if sha else X(decodefs=fs, decodesize=o["size"])), fs
        if o["how"] == "again":
            x = S(digest=b"1" * 32, sigowner=own) if sha else X(cert=b"12", sigowner=own)
            say(x).decode(*([fs] if sha else [fs, o["size"]]))
            return x, fs
        return F.factory(fs, g, o["size"]), fs

    def new(t):
        return A.EfiSignatureList(typeguid=uuid.UUID(GUID[t]))

    def show(x):
        return {"t": name.get(x.signature_type, "unknown"), "ls": x.signature_list_size, "hs": x.signature_header_size, "sz": min(x.signature_size, 1 << 30),  # saturates as in Bytes.tla; the exact value shows in the bytes
                "data": [{"o": list(say(e).signature_owner.bytes_le), "d": list(say(e).signature_data)} for e in (say(x).signature_data_list or [])]}

    def entry(t, e):
        o = uuid.UUID(bytes_le=bytes(e["o"]))
        if len(e["d"]) == 32 and t != "x509":
            return A.EfiSignatureDataEfiCertSha256(digest=bytes(e["d"]), sigowner=o)
        return A.EfiSignatureDataEfiCertX509(cert=bytes(e["d"]), sigowner=o)

    L = {n: new("sha256") for n in "abcd"}
    evs = [{"k": "start"}]

    def tried(f):
        try:
            f()
            return True
        except Exception:
            return False

    for o in case["ops"]:
        ev = dict(o)
        ev["k"] = o["op"]
        n = o.get("n")
        if o["op"] == "redecode":
            if not tried(L[o["m"]].encode):
                continue
            ev["k"] = "decode"
            ev["b"] = list(L[o["m"]].encode())
        k = ev["k"]
        if k == "new":
            L[n] = new(o["t"])
            ev["obs"] = {"ok": True, "l": show(L[n])}
        elif k == "header":
            ev["obs"] = {"ok": tried(lambda: L[n].AddSignatureHeader(None, o["size"])), "l": show(L[n])}
        elif k == "add":
            t = name.get(L[n].signature_type)
            e = entry(t, o["e"])
            ev["obs"] = {"ok": tried(lambda: L[n].AddSignatureData(e)), "l": show(L[n])}
        elif k == "merge":
            ev["obs"] = {"ok": tried(lambda: L[n].MergeSignatureList(L[o["m"]])), "l": show(L[n])}
        elif k == "sort":
            dup = L[n].SortBySignatureDataValue(deduplicate=o["dedupe"])
            ev["obs"] = {"l": show(L[n]), "dup": show(dup)}
        elif k == "encode":
            try:
                ev["obs"] = {"ok": True, "b": list(say(L[n]).encode())}
            except Exception:
                ev["obs"] = {"ok": False, "b": []}
        elif k == "decode":
            fs = stream(ev)
            try:
                if case.get("old"):
                    x = A.EfiSignatureList()
                    say(x).decode(fs)
                else:
                    x = A.EfiSignatureList(filestream=fs)
                ev["obs"] = {"ok": True, "l": show(x), "n": fs.tell() - case.get("skip", 0)}
                L[n] = x
            except Exception:
                ev["obs"] = {"ok": False}
        elif k == "entry":
            ev["hash"] = list(hashlib.sha256(bytes(o["b"][o["pos"]:])).digest())
            try:
                x, fs = single(o)
                w = io.BytesIO()
                say(x).write(w)
                ev["obs"] = {"ok": True, "o": list(say(x).signature_owner.bytes_le), "d": list(say(x).signature_data), "b": list(say(x).encode()), "w": list(w.getvalue()),
                             "total": say(x).get_total_size(), "pos": fs.tell(), "sha": isinstance(x, A.EfiSignatureDataEfiCertSha256)}
                say(x).signature_owner = uuid.UUID(bytes_le=bytes(o["o2"]))
                ev["obs"]["b2"] = list(x.encode())
            except Exception:
                ev["obs"] = {"ok": False}
        elif k == "db":
            db = A.EfiSignatureDatabase(esl_list=[L[x] for x in o["ns"]])
            try:
                c, dd = say(db).get_canonical_and_dupes()
                dup = [show(x) for x in dd.esl_list if x.signature_data_list]
                ev["obs"] = {"ok": True, "canon": [show(x) for x in c.esl_list], "dupes": dup, "cb": list(say(c).encode()), "after": [show(L[x]) for x in o["ns"]]}
                again = [show(x) for x in say(say(db).get_duplicates()).esl_list if x.signature_data_list], [show(x) for x in say(say(db).get_canonical()).esl_list]
                if again != (dup, ev["obs"]["canon"]):
                    ev["obs"]["again"] = list(again)
            except Exception as e:
                ev["obs"] = {"ok": False, "what": repr(e)[:200]}
        elif k == "dbdecode":
            try:
                if len(o["b"]) % 2:
                    db = A.EfiSignatureDatabase(stream(o))
                else:
                    db = A.EfiSignatureDatabase()
                    say(db).decode(stream(o))
                w = io.BytesIO()
                say(db).write(w)
                ev["obs"] = {"ok": True, "ls": [show(x) for x in db.esl_list], "b": list(say(db).encode())}
                if w.getvalue() != db.encode():
                    ev["obs"]["written"] = list(w.getvalue())
            except Exception:
                ev["obs"] = {"ok": False, "ls": [], "b": []}
        evs.append(ev)
    return evs


def classify(case, evs):
    if case.get("old"):
        yield "former names"
    for e in evs:
        if e["k"] == "entry":
            yield "entry from a stream" if e["obs"]["ok"] and e["pos"] else "entry refused" if not e["obs"]["ok"] else "entry"
            continue
        o = e.get("obs", {})
        if o.get("ok") is False:
            yield "malformed refused" if e["k"] in ("decode", "dbdecode") else "refused"
        if e["k"] == "merge" and o["ok"] and o["l"]["data"]:
            yield "merged"
        if e["k"] == "sort" and o["dup"]["data"]:
            yield "duplicates"
        if e["k"] == "db" and o["ok"] and o["dupes"]:
            yield "canonical with duplicates"
    lens = {}
    for e in evs:
        o = e.get("obs", {})
        if e["k"] == "merge" and o["ok"] and lens.get(e["n"]) == 0 and o["l"]["data"]:
            yield "merged into emptied"
        if e["k"] == "decode" and o["ok"]:
            lens[e["n"]] = len(o["l"]["data"])
        elif e.get("n"):
            lens[e["n"]] = -1
