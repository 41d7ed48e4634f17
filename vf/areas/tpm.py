"""C20: TPM 2.0 policies, command streams, codes and the exchange with a simulator."""
import hashlib
import socket
import threading
import time

TRACE = ("TpmTrace", "TpmTrace.cfg")
REQUIRED_CLASSES = ["policy", "refused policy", "unusable policy", "primitive", "or", "stream", "refused element", "changed element", "code", "response", "unknown response", "answer", "no answer", "hello", "startup"]
CASE_SECONDS = 20


def models(tier, pid):
    deep = tier != "quick"
    return [{"module": "TpmMC", "cfg": "TpmMC.cfg", "consts": {"MaxOps": 4 if deep else 2, "Deep": "TRUE" if deep else "FALSE"}, "min_behaviours": 300, "limit": None if deep else 2000,
             "what": "every small policy over a few primitives, every short history of a command and every split of simulator answers"}]


def from_model(doc, m, pid):
    if doc["k"] == "policy":
        return [{"ops": [{"op": "policy", "c": doc["c"], "n": n} for n in (32, 48)]}]
    if doc["k"] == "send":
        return [{"ops": [{"op": "send", "msgs": [{"d": doc["d"], "parts": [doc["reply"][:doc["cut"]], doc["reply"][doc["cut"]:]]}]}]}]
    ops = [{"op": "new", "tag": [128, 2], "code": [0, 0, 1, 68]}]
    for o in doc["ops"]:
        ops += [o, {"op": "stream"}]
    return [{"ops": ops}]


NAMES = ["TPM_CC_Clear", "TPM_CC_NV_Write", "TPM_CC_ClearControl", "TPM_CC_Startup", "TPM_CC_PolicyOR", "TPM_CC_ClockSet", "TPM_CC_EC_Ephemeral", "TPM_CC_NV_UndefineSpaceSpecial", "TPM_CC_HierarchyChangeAuth"]


def prim(r):
    if r.random() < 0.5:
        if r.random() < 0.08:
            return {"k": "cc", "s": r.choice(["", "TPM_CC_None", "TPM_CC_clear", "TPM_CC_FIRST", "Clear", "TPM_CC_Clear "])}
        return {"k": "cc", "s": r.choice(NAMES)}
    x = r.random()
    if x < 0.7:
        v = [r.randint(0, 4) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    elif x < 0.9:
        v = [r.choice([32, 33, 64, 128, 200, 254, 255])]
    else:
        v = r.choice([[5], [31], [256], [0, 32], [32, 32], [255, 4], [7, 1], [65536]])
    return {"k": "loc", "v": v}


def good(r):
    while True:
        c = prim(r)
        if c["k"] == "cc" and c["s"] in NAMES or c["k"] == "loc" and (all(x < 5 for x in c["v"]) or len(c["v"]) == 1 and 32 <= c["v"][0] < 256):
            return c


def tree(r, depth=0):
    x = r.random()
    p = prim if r.random() < 0.15 else good
    if x < 0.2:
        return {"k": "solo", "c": p(r)}
    if x < 0.5 or depth > 2:
        return {"k": "and", "cs": [p(r) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]}
    if x < 0.95:
        cs = [tree(r, depth + 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4, 7, 8] if r.random() < 0.9 else [9]))]
        if cs and r.random() < 0.3:
            cs[r.randrange(len(cs))] = dict(cs[0])
        return {"k": "or", "cs": cs}
    return good(r)


def el(r):
    if r.random() < 0.5:
        return {"k": "2b", "d": [r.randint(0, 255) for _ in range(r.choice([0, 0, 1, 2, 16, 255, 256, 300]))]}
    w = r.choice([1, 2, 4, 8, 8, 4, 2, 1, 3, 0])
    k = w if r.random() < 0.85 else 8
    return {"k": "int", "w": w, "v": [0] * (8 - k) + [r.choice([0, 1, 128, 255, r.randint(0, 255)]) for _ in range(k)]}


def answer(r):
    d = [r.randint(0, 255) for _ in range(r.choice([1, 4, 10, 10, 12, 300, 5000 if r.random() < 0.2 else 64]))]
    b = [0, 0, 0, 0] * r.choice([0, 0, 0, 1, 2]) + list(len(d).to_bytes(4, "big")) + d
    return b


def split(r, b):
    n = r.choice([0, 0, 1, 1, 2, 4])
    at = sorted(r.choice([r.randint(0, len(b)), r.randint(0, min(6, len(b)))]) for _ in range(n))
    return [b[i:j] for i, j in zip([0] + at, at + [len(b)])]


def gen(rng, tier, pid):
    n = 700 if tier == "quick" else 12000
    out = [one(rng) for _ in range(n)]
    # every command code, every response code
    ops = [{"op": "string", "n": i} for i in list(range(0, 520)) + [4095, 65536, 1 << 24]]
    out += [{"ops": ops[i:i + 60]} for i in range(0, len(ops), 60)]
    ops = [{"op": "code", "s": s} for s in ["codes", "TPM_CC_FIRST", "TPM_CC_LAST", "TPM_CC_PP_FIRST", "", "tpm_cc_clear", "TPM_CC_PolicyPassword"]]
    out.append({"ops": ops})
    ops = [{"op": "response", "n": i} for i in range(4096)]
    out += [{"ops": ops[i:i + 128]} for i in range(0, 4096, 128)]
    return out


def one(r):
    x = r.random()
    if x < 0.4:
        return {"ops": [{"op": "policy", "c": tree(r), "n": r.choice([32, 48])} for _ in range(r.choice([1, 1, 2]))]}
    if x < 0.75:
        ops = [{"op": "new", "tag": r.choice([[128, 1], [128, 2], [r.randint(0, 255), r.randint(0, 255)]]), "code": [r.choice([0, 0, 32]), 0, 1, r.randint(0, 255)]}]
        bs = []
        n = 0
        for _ in range(r.randint(1, 9)):
            y = r.random()
            if y < 0.5:
                e = el(r)
                ops.append({"op": "add", "e": e})
                if e["k"] == "2b":
                    n += 1
                    bs.append(n)
                elif e["w"] in (1, 2, 4, 8) and not any(e["v"][:8 - e["w"]]):
                    n += 1
            elif y < 0.7 and bs:
                ops.append({"op": "data", "i": r.choice(bs), "d": [r.randint(0, 255) for _ in range(r.choice([0, 1, 3, 32, 257]))]})
            elif y < 0.75:
                ops.append({"op": "new", "tag": [128, 1], "code": [0, 0, 1, 126]})
                bs, n = [], 0
            else:
                ops.append({"op": "stream"})
        return {"ops": ops + [{"op": "stream"}]}
    if x < 0.8:
        return {"ops": [{"op": "hello"}]}
    msgs = []
    for i in range(r.choice([1, 1, 2, 3])):
        b = answer(r)
        if r.random() < 0.15:
            b = b[:r.randrange(len(b))]
        m = {"parts": split(r, b)}
        if r.random() < 0.25:
            m["type"] = r.choice([0, 1, 0, 1, 258, 65535])
        else:
            m["d"] = [r.randint(0, 255) for _ in range(r.choice([0, 1, 10, 12, 700]))]
        msgs.append(m)
        if len(b) < 4 or not complete(b):
            break
    return {"ops": [{"op": "send", "msgs": msgs}]}


def complete(b):
    i = 0
    while len(b) >= i + 4:
        n = int.from_bytes(bytes(b[i:i + 4]), "big")
        i += 4
        if n:
            return len(b) >= i + n
    return False


def classify(case, events):
    for e in events[1:]:
        k, o = e["k"], e["obs"]
        if k == "policy":
            yield "refused policy" if not o["built"] else "primitive" if "b" in o else "policy" if o["valid"] else "unusable policy"
            if e["c"]["k"] == "or":
                yield "or"
        elif k == "add":
            yield "element" if o["ok"] else "refused element"
        elif k == "data":
            yield "changed element"
        elif k == "response":
            yield "unknown response" if o["r"] == ["unknown"] else "response"
        elif k in ("send", "startup"):
            yield "answer" if o["r"]["ok"] else "no answer"
            yield k
        else:
            yield k


class Server:
    """A scripted simulator on two ports of the loopback interface."""

    def __init__(self, msgs):
        self.msgs, self.got, self.plat, self.extra = msgs, [], b"", b""
        for _ in range(200):
            self.tpm_l, self.plat_l = socket.socket(), socket.socket()
            try:
                self.tpm_l.bind(("127.0.0.1", 0))
                self.port = self.tpm_l.getsockname()[1]
                self.plat_l.bind(("127.0.0.1", self.port + 1))
                break
            except (OSError, OverflowError):
                self.tpm_l.close()
                self.plat_l.close()
        self.tpm_l.listen(1)
        self.plat_l.listen(1)
        self.tpm_l.settimeout(5)
        self.plat_l.settimeout(5)
        self.ts = [threading.Thread(target=self.do_plat, daemon=True), threading.Thread(target=self.do_tpm, daemon=True)]
        for t in self.ts:
            t.start()

    def do_plat(self):
        try:
            s = self.plat_l.accept()[0]
            s.settimeout(5)
            while True:
                b = s.recv(4096)
                if not b:
                    break
                self.plat += b
        except OSError:
            pass

    def do_tpm(self):
        try:
            s = self.tpm_l.accept()[0]
            s.settimeout(3)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            for m in self.msgs:
                b = b""
                while len(b) < m["want"]:
                    x = s.recv(m["want"] - len(b))
                    if not x:
                        break
                    b += x
                self.got.append(b)
                for i, x in enumerate(m["parts"]):
                    if i:
                        time.sleep(0.004)
                    s.sendall(bytes(x))
            s.shutdown(socket.SHUT_WR)
            while True:
                x = s.recv(4096)
                if not x:
                    break
                self.extra += x
        except OSError:
            pass

    def close(self):
        for t in self.ts:
            t.join(6)
        self.tpm_l.close()
        self.plat_l.close()


def shut(sim):
    for v in vars(sim).values():
        if isinstance(v, socket.socket):
            v.close()


def run(case, d):
    import edk2toollib.tpm.tpm2_defs as D
    import edk2toollib.tpm.tpm2_policy_calc as P
    import edk2toollib.tpm.tpm2_simulator as S
    import edk2toollib.tpm.tpm2_stream as T

    class Recorder(P.PolicyHasher):
        def __init__(self, t):
            super().__init__(t)
            self.seen = []

        def hash(self, data):
            self.seen.append(bytes(data))
            return super().hash(data)

    def build(c):
        k = c["k"]
        if k == "loc":
            return P.PolicyLocality(list(c["v"]))
        if k == "cc":
            return P.PolicyCommandCode(c["s"])
        if k == "solo":
            return P.PolicyTreeSolo(build(c["c"]))
        return (P.PolicyTreeAnd if k == "and" else P.PolicyTreeOr)([build(x) for x in c["cs"]])

    def num(b):
        return int.from_bytes(bytes(b), "big")

    evs = [{"k": "start"}]
    st = els = None
    for o in case["ops"]:
        k = o["op"]
        if k == "policy":
            n = o["n"]
            h = Recorder("sha256" if n == 32 else "sha384")
            algo = hashlib.sha256 if n == 32 else hashlib.sha384
            try:
                t = build(o["c"])
            except ValueError:
                t = None
            if t is None:
                obs = {"built": False}
            elif o["c"]["k"] in ("loc", "cc"):
                obs = {"built": True, "b": list(t.get_buffer_for_digest())}
            elif not t.validate():
                obs = {"built": True, "valid": False}
            else:
                a = t.get_policy(h)
                obs = {"built": True, "valid": True, "d": list(a), "twice": t.get_policy(h) == a and h.get_size() == n}
            ins = [b"dummy"] + list(dict.fromkeys(h.seen))
            evs.append({"k": k, "c": o["c"], "n": n, "h": [{"i": list(x), "o": list(algo(x).digest())} for x in ins], "obs": obs})
        elif k == "new":
            st, els = T.Tpm2CommandStream(num(o["tag"]), 0, num(o["code"])), []
            evs.append({"k": k, "tag": o["tag"], "code": o["code"], "obs": {"b": list(st.get_stream()), "n": st.get_size()}})
        elif k == "add":
            e = o["e"]
            try:
                x = T.TPM2B(bytes(e["d"])) if e["k"] == "2b" else T.Tpm2StreamPrimitive(e["w"], num(e["v"]))
                x.marshal()
                st.add_element(x)
                els.append(x)
                obs = {"ok": True, "n": st.get_size()}
            except (ValueError, Exception) as err:
                if type(err).__name__ not in ("ValueError", "error"):
                    raise
                obs = {"ok": False}
            evs.append({"k": k, "e": e, "obs": obs})
        elif k == "data":
            els[o["i"] - 1].update_data(bytes(o["d"]))
            evs.append({"k": k, "i": o["i"], "d": o["d"], "obs": {"n": st.get_size()}})
        elif k == "stream":
            evs.append({"k": k, "obs": {"b": list(st.get_stream())}})
        elif k == "string":
            evs.append({"k": k, "n": o["n"], "obs": {"name": D.CommandCode.get_string(o["n"]) or "none"}})
            s = D.CommandCode.get_string(o["n"])
            if s:
                evs.append({"k": "code", "name": s, "obs": {"code": D.CommandCode.get_code(s)}})
        elif k == "code":
            c = D.CommandCode.get_code(o["s"])
            evs.append({"k": k, "name": o["s"], "obs": {"code": -1 if c is None else c}})
        elif k == "response":
            try:
                r = [str(x) for x in D.ResponseCode.parse_code(o["n"])]
            except Exception:
                r = ["unknown"]
            evs.append({"k": k, "n": o["n"], "obs": {"r": r, "s": D.ResponseCode.get_simple_string(o["n"]) or "none"}})
        elif k == "hello":
            sv = Server([])
            sim = S.TpmSimulator("127.0.0.1", sv.port)
            shut(sim)
            sv.close()
            evs.append({"k": k, "obs": {"plat": list(sv.plat), "tpm": list(sv.extra)}})
        else:
            sv = Server([{"want": 9 + (12 if "type" in m else len(m["d"])), "parts": m["parts"]} for m in o["msgs"]])
            sim = S.TpmSimulator("127.0.0.1", sv.port)
            rs = []
            for m in o["msgs"]:
                try:
                    rs.append({"ok": True, "d": list(sim.startup(m["type"]) if "type" in m else sim.send_data(bytes(m["d"])))})
                except (ConnectionError, EOFError, OSError):
                    rs.append({"ok": False})
            shut(sim)
            sv.close()
            for i, (m, r) in enumerate(zip(o["msgs"], rs)):
                got = sv.got[i] if i < len(sv.got) else b""
                if i == len(rs) - 1:
                    got += sv.extra
                e = {"k": "startup", "type": m["type"]} if "type" in m else {"k": "send", "d": m["d"]}
                evs.append({**e, "reply": [x for p in m["parts"] for x in p], "obs": {"sent": list(got), "r": r}})
    return evs
