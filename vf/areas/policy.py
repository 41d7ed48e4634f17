"""C19: firmware policies built, written and read in both ways, and variable policies."""
import io
import uuid

TRACE = ("PolicyTrace", "PolicyTrace.cfg")
REQUIRED_CLASSES = ["rule added", "rule known", "written", "parsed", "refused policy", "legacy policy", "surrogates", "entry", "entry refused", "entry reused", "lock", "value"]


def models(tier, pid):
    deep = tier != "quick"
    return [{"module": "PolicyMC", "cfg": "PolicyMC.cfg", "consts": {"MaxOps": 4 if deep else 3, "Deep": "TRUE" if deep else "FALSE"}, "min_behaviours": 2000, "limit": None if deep else 3000,
             "what": "every short order of additions to a firmware policy, and every cut and damaged byte of policies, values and variable policies of each kind"}]


def from_model(doc, m, pid):
    if doc["k"] == "ops":
        return [{"ops": doc["ops"] + [{"op": "serialize"}, {"op": "reparse"}, {"op": "serialize"}]}]
    return [{"ops": [{"op": doc["k"], "b": doc["b"], "o": 0, "pos": len(doc["b"])}]}]


def le(n, w):
    return list(n.to_bytes(w, "little"))


def num(r, w):
    return r.choice([[0] * w, [255] * w, [1] + [0] * (w - 1), [r.randint(0, 255) for _ in range(w)]])


WORDS = ["", "A", "AB", "UEFI", "Policy", "Target", "Nonce", "Ünïcode 中", "\U00010000", "x\U0001F600y", "OEM", "Product SKU", "a b"]


def units(s):
    b = s.encode("utf-16-le")
    return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]


def text(u):
    return b"".join(bytes(le(x, 2)) for x in u).decode("utf-16-le")


def value(r):
    t = r.choice([0, 2, 5])
    return {"t": t, "v": units(r.choice(WORDS)) if t == 0 else num(r, 4 if t == 2 else 8)}


def rule(r):
    return {"root": r.choice([[0, 0, 16, 239], [0, 0, 16, 239], num(r, 4)]), "sub": units(r.choice(WORDS[:7] if r.random() < 0.6 else WORDS)), "name": units(r.choice(WORDS)), **value(r)}


def estr(u):
    return le(2 * len(u), 2) + [x for w in u for x in le(w, 2)]


def evalue(v):
    return le(v["t"], 2) + (estr(v["v"]) + [0, 0] if v["t"] == 0 else list(v["v"]))


def shared(r):
    """A policy as other tools write it: shared and permuted table entries, reserved arrays, unknown types."""
    tab, at = [], {}

    def put(b):
        k = bytes(b)
        if k in at and r.random() < 0.7:
            return at[k]
        if r.random() < 0.1:
            tab.extend([r.randint(0, 255) for _ in range(r.randint(1, 3))])
        at[k] = len(tab)
        tab.extend(b)
        return at[k]
    rules = []
    rr = [rule(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if rr and r.random() < 0.3:
        rr.append(r.choice(rr))
    for x in rr:
        v = evalue(x)
        if r.random() < 0.1:
            v = le(r.choice([1, 3, 8, 9, 10, 11, 255, 65535]), 2) + num(r, 4)
        rules.append((x["root"], v, x))
    out = []
    for root, v, x in rules:
        parts = [("s", estr(x["sub"])), ("n", estr(x["name"])), ("v", v)]
        r.shuffle(parts)
        o = {k: put(b) for k, b in parts}
        out += root + le(o["s"], 4) + le(o["n"], 4) + le(o["v"], 4)
    n1, n2 = r.choice([0, 0, 0, 0, 1, 2]), r.choice([0, 0, 0, 1, 3])
    return le(r.choice([2, 2, 2, 2, 1, 0, 3, 258]), 2) + num(r, 4) + num(r, 16) + le(n1, 2) + [r.randint(0, 255) for _ in range(16 * n1)] + num(r, 4) + le(n2, 2) + le(len(rules), 2) \
        + [r.randint(0, 255) for _ in range(12 * n2)] + out + tab


def entry(r):
    t = r.choice([0, 1, 2, 3, 3])
    lock = num(r, 16) + [r.randint(0, 255), 0] + [x for w in units(r.choice(["A", "AB", "Lock", "é", "\U00010000"])) for x in le(w, 2)] + [0, 0] if t == 3 else []
    if r.random() < 0.1:
        lock += [r.randint(0, 255) for _ in range(r.choice([1, 2, 4]))]
    name = [x for w in units(r.choice(["A", "AB", "Name", "é", "\U00010000"])) for x in le(w, 2)] + [0, 0] * r.choice([0, 1, 1, 1, 2]) if r.random() < 0.75 else []
    off = 44 + len(lock)
    return le(0x10000, 4) + le(off + len(name), 2) + le(off, 2) + num(r, 16) + num(r, 4) + num(r, 4) + num(r, 4) + num(r, 4) + [t, 0, 0, 0] + lock + name


def gen(rng, tier, pid):
    n = 900 if tier == "quick" else 20000
    return [one(rng) for _ in range(n)] + [many(rng, k) for k in range(2 if tier == "quick" else 10)]


def many(r, k):
    """Many rules, or one long value."""
    if k % 2:
        rs = [dict(rule(r), name=units("n%d" % i)) for i in range(r.choice([66, 70]))]
    else:
        rs = [dict(rule(r), t=0, v=units("x" * r.choice([260, 600])))]
    return {"ops": [{"op": "rule", "r": q} for q in rs] + [{"op": "serialize"}, {"op": "reparse", "pre": 0, "how": "new"}, {"op": "serialize"}]}


def hurt(r, b):
    if not b or r.random() < 0.6:
        return b
    if r.random() < 0.4:
        return b[:r.randrange(len(b))]
    i = r.randrange(len(b))
    return b[:i] + [r.choice([0, 1, 2, 255, 216, 220, b[i] ^ 1, b[i] ^ 128])] + b[i + 1:]


def one(r):
    ops = []
    if r.random() < 0.6:
        for _ in range(r.randint(1, 8)):
            x = r.random()
            if x < 0.4:
                old = [o["r"] for o in ops if o["op"] == "rule"]
                q = dict(r.choice(old)) if old and r.random() < 0.4 else rule(r)
                if old and r.random() < 0.4:
                    # nearly the same rule
                    k = r.choice(["name", "sub", "v", "root"])
                    x = r.random()
                    if k == "root" or (k == "v" and q["t"] != 0):
                        i = r.randrange(len(q[k]))
                        q[k] = q[k][:i] + [q[k][i] ^ r.choice([1, 128])] + q[k][i + 1:]
                    elif x < 0.4:
                        q[k] = units(text(q[k]).swapcase())
                    elif x < 0.6:
                        q[k] = q[k] + units(r.choice([" ", "\x00", "A"]))
                    else:
                        q[k] = units(r.choice(WORDS))
                ops.append({"op": "rule", "r": q})
            elif x < 0.5:
                ops.append({"op": "device", "v": r.choice([[1] + [0] * 7, [3] + [0] * 7, num(r, 8)])})
            elif x < 0.65:
                ks = r.sample(["A", "OEM", "Nonce", "Product SKU", ""], r.randint(1, 3))
                ops.append({"op": "target", "kv": [{"n": units(k), "v": num(r, 8) if k == "Nonce" else units(r.choice(WORDS))} for k in ks]})
            elif x < 0.7:
                ops.append({"op": "header", "pv": num(r, 4), "opt": num(r, 4), "pub": num(r, 16)})
            elif x < 0.8:
                ops.append({"op": "serialize"})
            elif x < 0.9:
                ops += [{"op": "serialize"}, {"op": "reparse", "pre": r.choice([0, 0, 1, 7]), "how": r.choice(["new", "same"])}]
            else:
                ops.append({"op": "parse", "b": hurt(r, shared(r)), "pre": r.choice([0, 0, 3]), "how": r.choice(["new", "same"])})
        return {"ops": ops}
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.6:
            ops.append({"op": "entry", "b": hurt(r, entry(r)) + [r.randint(0, 255) for _ in range(r.choice([0, 0, 1, 30]))], "reuse": r.random() < 0.6, "xref": r.random() < 0.5})
        elif x < 0.75:
            b = num(r, 16) + [r.randint(0, 255), 0] + [x for w in units(r.choice(["A", "AB", "é"])) for x in le(w, 2)] + [0, 0] + num(r, r.choice([1, 2, 3, 4]))
            ops.append({"op": "lock", "b": hurt(r, b)})
        else:
            b = hurt(r, r.choice([evalue(value(r)), estr(units(r.choice(WORDS)))]))
            p = [r.randint(0, 3) for _ in range(r.choice([0, 0, 1, 5]))]
            ops.append({"op": "value", "b": p + b, "o": len(p), "pos": r.randint(0, len(p) + len(b))})
    return {"ops": ops}


def run(case, d):
    import edk2toollib.windows.policy.firmware_policy as M
    from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry

    def val(v):
        t = M.PolicyValueType(v["t"])
        return M.PolicyValue(t, M.PolicyString(text(v["v"])) if v["t"] == 0 else int.from_bytes(bytes(v["v"]), "little"))

    def sval(v):
        t = v.valueType.Get()
        return {"t": t, "v": units(v.value.String) if t == 0 else le(v.value, {2: 4, 5: 8}[t]) if t in (2, 5) else []}

    def srule(x):
        return {"root": le(x.RootKey, 4), "sub": units(x.SubKeyName.String), "name": units(x.ValueName.String), **sval(x.Value)}

    def show(p):
        assert p.RulesCount == len(p.Rules) and p.Reserved1Count == len(p.Reserved1) and p.Reserved2Count == len(p.Reserved2)
        return {"fmt": p.FormatVersion, "pv": le(p.PolicyVersion, 4), "pub": list(p.PolicyPublisher.bytes_le), "r1": [list(x.bytes_le) for x in p.Reserved1], "opt": le(p.OptionFlags, 4),
                "r2": [le(x.ObjectType, 4) + le(x.Element, 4) + le(x.OffsetToValue, 4) for x in p.Reserved2], "rules": [srule(x) for x in p.Rules]}

    p, last, entry = M.FirmwarePolicy(), None, None
    evs = [{"k": "start"}]
    for o in case["ops"]:
        k = o["op"]
        if k == "rule":
            x = o["r"]
            a = p.AddRule(M.Rule(int.from_bytes(bytes(x["root"]), "little"), M.PolicyString(text(x["sub"])), M.PolicyString(text(x["name"])), val(x)))
            evs.append({"k": k, "r": x, "obs": {"added": a, "n": p.RulesCount}})
        elif k == "device":
            p.SetDevicePolicy(int.from_bytes(bytes(o["v"]), "little"))
            evs.append({"k": k, "v": o["v"], "obs": {"n": p.RulesCount}})
        elif k == "target":
            p.SetDeviceTarget({text(x["n"]): int.from_bytes(bytes(x["v"]), "little") if text(x["n"]) == "Nonce" else text(x["v"]) for x in o["kv"]})
            evs.append({"k": k, "kv": o["kv"], "obs": {"n": p.RulesCount}})
        elif k == "header":
            p.PolicyVersion, p.OptionFlags, p.PolicyPublisher = int.from_bytes(bytes(o["pv"]), "little"), int.from_bytes(bytes(o["opt"]), "little"), uuid.UUID(bytes_le=bytes(o["pub"]))
            evs.append({"k": k, "pv": o["pv"], "opt": o["opt"], "pub": o["pub"]})
        elif k == "serialize":
            ba = bytearray()
            try:
                p.Serialize(ba)
                fs = io.BytesIO()
                p.SerializeToStream(fs)
            except Exception as e:
                if all(v.valueType.Get() in (0, 2, 5) for v in [x.Value for x in p.Rules]):
                    raise e
            last = list(ba)
            evs.append({"k": k, "obs": {"b": last, "vt": p.ValueTableOffset, "vs": p.ValueTableSize, "stream": fs.getvalue() == bytes(ba)}})
        elif k in ("parse", "reparse"):
            b = o["b"] if k == "parse" else last
            obs = {}
            pre = o.get("pre", 0)
            for way, flag in (("offsets", False), ("bytes", True)):
                fs = io.BytesIO(bytes([0xEE] * pre + b))
                fs.seek(pre)
                q = p if o.get("how") == "same" else M.FirmwarePolicy()
                try:
                    if way == "bytes" and q is not p:
                        q = M.FirmwarePolicy(fs)
                    else:
                        q.FromFileStream(fs, parseByBytes=flag)
                    obs[way] = {"ok": True, "p": show(q)}
                except Exception:
                    obs[way] = {"ok": False}
                    q = M.FirmwarePolicy()
            p = q
            evs.append({"k": "parse", "b": b, "obs": obs})
        elif k == "value":
            obs = {}

            def both(cls, show):
                def byb():
                    return show(cls.FromBytes(bytes(o["b"]), o["o"]))

                def byo():
                    fs = io.BytesIO(bytes(o["b"]))
                    fs.seek(o["pos"])
                    return show(cls.FromFileStream(fs, fsOffset=o["o"]))
                out = []
                for f in (byb, byo):
                    try:
                        out.append(dict(f(), ok=True))
                    except Exception:
                        out.append({"ok": False})
                return out
            s, v = both(M.PolicyString, lambda x: {"v": units(x.String)}), both(M.PolicyValue, sval)
            evs.append({"k": k, "b": o["b"], "o": o["o"], "obs": {"bytes": {"str": s[0], "val": v[0]}, "offsets": {"str": s[1], "val": v[1]}}})
        elif k == "entry":
            x = entry if o.get("reuse") and entry is not None else VariablePolicyEntry()
            ev = {"k": k, "b": o["b"], "reuse": x is entry}
            entry = x
            try:
                rest = x.decode(bytes(o["b"]))
                lk = x.LockPolicy
                ev["obs"] = {"ok": True, "rest": list(rest),
                             "e": {"ns": list(x.Namespace.bytes_le), "min": le(x.MinSize, 4), "max": le(x.MaxSize, 4), "must": le(x.AttributesMustHave, 4), "cant": le(x.AttributesCantHave, 4), "type": x.LockPolicyType,
                                   "lock": [{"ns": list(lk.Namespace.bytes_le), "val": lk.Value, "name": units(lk.Name)}] if lk is not None else [], "named": x.Name is not None, "name": units(x.Name or "")}}
                xref = {x.Namespace: "Own"}
                if lk is not None:
                    xref.setdefault(lk.Namespace, "Lock")
                row = x.csv_row(xref) if o.get("xref") else x.csv_row()
                assert len(row) == len(x.csv_header())
                f = dict(zip(x.csv_header(), row))
                back = {v: k for k, v in xref.items()}
                g = lambda y: [] if y == "N/A" else list((back[y] if o.get("xref") else y).bytes_le)
                assert str(x.Name) in str(x)
                ev["obs"]["row"] = {"ns": g(f["Namespace"]), "name": units(f["Name"] or ""), "type": f["LockPolicyType"], "lns": g(f["VarStateNamespace"]), "lname": [] if lk is None else units(f["VarStateName"]),
                                    "lval": -1 if f["VarStateValue"] == "N/A" else f["VarStateValue"], "min": f["MinSize"], "max": f["MaxSize"],
                                    "must": [y for y in f["AttributesMustHave"].split(",") if y], "cant": [y for y in f["AttributesCantHave"].split(",") if y]}
            except Exception:
                ev["obs"] = {"ok": False}
            evs.append(ev)
        else:
            ev = {"k": "lock", "b": o["b"]}
            x = VariableLockOnVarStatePolicy()
            try:
                rest = x.decode(bytes(o["b"]))
                ev["obs"] = {"ok": True, "l": {"ns": list(x.Namespace.bytes_le), "val": x.Value, "name": units(x.Name)}, "rest": list(rest)}
            except Exception:
                ev["obs"] = {"ok": False}
            evs.append(ev)
    return evs


def classify(case, evs):
    for e in evs:
        k = e["k"]
        if k == "rule":
            yield "rule added" if e["obs"]["added"] else "rule known"
            if any(x >= 55296 and x < 57344 for x in e["r"]["name"]):
                yield "surrogates"
        elif k == "serialize":
            yield "written"
        elif k == "parse":
            yield "parsed" if e["obs"]["bytes"]["ok"] else "refused policy"
            if e["obs"]["bytes"]["ok"] and e["obs"]["bytes"]["p"]["r2"]:
                yield "legacy policy"
        elif k == "entry":
            yield "entry" if e["obs"]["ok"] else "entry refused"
            if e["obs"]["ok"] and e["reuse"]:
                yield "entry reused"
        elif k in ("lock", "value"):
            yield k
