"""C01-C04: conditionals, expressions, macros, includes (BaseParser, DscParser, FdfParser)."""

import os
import random
import re

from vf import spell

TRACE = ("PreprocTrace", "PreprocTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True

# ------------------------------------------------------------------ abstract program construction


def lit(s):
    return {"m": False, "v": s}


def mac(s):
    return {"m": True, "v": s}


def val(p, q=False, pcd=False):
    return {"k": "val", "q": q, "pcd": pcd, "p": p}


def op(s):
    return {"k": "op", "s": s}


LP, RP = {"k": "("}, {"k": ")"}
# values of defines that hold = or the keyword DEFINE (only used in text)
ODD = ["a=b", "-DX=1", "MY_DEFINE", "DEFINE-x/DEFINE", "==", "x=y=z", "DEFINES"]
WORDS = ["TRUE", "FALSE", "true", "False", "0", "1", "5", "0x5", "0X10", "16", "abc", "AbC", "a_b", "0x1F", "31", "-1"]
INTS = ["TRUE", "FALSE", "0", "1", "5", "0x5", "16", "0x10", "0x0", "31", "0x1f", "007", "true"]
NUMS = ["0", "1", "5", "0x5", "16", "0x10", "255", "0xFF", "10", "9", "0xA", "100"]
# numbers wider than 32 and 64 bits and their neighbours
WIDE = ["0x100000000", "4294967296", "0xFFFFFFFF", "4294967295", "0x100000005", "0x7FFFFFFFFFFFFFFF", "0xFFFFFFFFFFFFFFFF", "18446744073709551616",
        "18446744073709551615", "0x10000000000000000", "9007199254740993", "9007199254740992", "-4294967296", "0x80000000", "2147483648", "00000000005"]
STRS = ["", "a", "A", "abc", "a b", "bc", "OR", "a==b", "TRUE", "16", "(x)", "IN", "x y z"]
SYN = {"==": ["==", "EQ", "eq", "=="], "!=": ["!=", "NE", "ne"], "AND": ["AND", "and", "&&", "And"], "OR": ["OR", "or", "||"],
       "IN": ["IN", "in"], "NOT": ["NOT", "not", "!"], "<": ["<"], "<=": ["<="], ">": [">"], ">=": [">="]}


class G:
    """Random programs over a fixed vocabulary of macro names."""

    def __init__(self, rng, words, strs, undef, pcds=()):
        self.r, self.words, self.strs, self.undef, self.pcds = rng, words, strs, undef, list(pcds)

    def operand(self, kind):
        r = self.r
        x = r.random()
        if kind == "int":
            if x < 0.25 and self.words:
                return val([mac(r.choice(self.words))])
            if x < 0.35:
                return val([mac(r.choice(self.undef))])
            if x < 0.42 and self.pcds:
                return val([lit(r.choice(self.pcds))], pcd=True)
            return val([lit(r.choice(INTS if r.random() < 0.95 else WIDE))])
        if kind == "str":
            y = r.random()
            if y < 0.3 and self.strs + self.words:
                return val([mac(r.choice(self.strs + self.words))], q=True)
            if y < 0.4 and self.words:
                return val([lit(r.choice(["a", "x-", ""])), mac(r.choice(self.words))], q=True)
            return val([lit(r.choice(STRS))], q=True)
        if x < 0.15 and self.words:
            return val([mac(r.choice(self.words))])
        if x < 0.2:
            return val([mac(r.choice(self.undef))])
        if x < 0.28 and self.pcds:
            return val([lit(r.choice(self.pcds))], pcd=True)
        if x < 0.6:
            return val([lit(r.choice(WORDS))])
        return self.operand("str")

    def expr(self, d, top=True):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.12:
            return [self.operand("int")]
        if x < 0.4:
            o = r.choice(["==", "!="])
            a = self.operand("any") if r.random() < 0.95 else val([lit(r.choice(WIDE))], q=r.random() < 0.3)
            b = dict(a) if r.random() < 0.3 else self.operand("any") if r.random() < 0.95 else val([lit(r.choice(WIDE))])
            return [a] + ([op("NOT")] if r.random() < 0.12 else []) + [op(o), b]
        if x < 0.48:
            return [self.operand("str")] + ([op("NOT")] if r.random() < 0.3 else []) + [op("IN"), self.operand("str")]
        if x < 0.56:
            nums = NUMS if r.random() < 0.8 else WIDE + ["5", "0", "1"]
            e = [val([lit(r.choice(nums))]), op(r.choice(["<", "<=", ">", ">="])), val([lit(r.choice(nums))])]
            return e if top and r.random() < 0.5 else [LP] + e + [RP]
        if x < 0.8:
            return self.expr(d - 1, False) + [op(r.choice(["AND", "OR"]))] + self.expr(d - 1, False)
        if x < 0.9:
            return [op("NOT")] * (1 if r.random() < 0.85 else 2) + self.expr(d - 1, False)
        return [LP] + self.expr(d - 1, True) + [RP]

    def broken(self, e):
        """One token lost, or a parenthesis too many."""
        r = self.r
        e = list(e)
        y = r.random()
        if y < 0.2:
            return e + [RP]
        if y < 0.4:
            return [LP] + e
        i = r.randrange(len(e))
        del e[i]
        while e and e[-1] == op("NOT"):
            e.pop()
        return e

    def text(self, tag, strs=True):
        r = self.r
        p = [lit(tag)]
        pool = self.words + (self.strs if strs else []) + self.undef[:1]
        for _ in range(r.choice([0, 1, 1, 2]) if r.random() < 0.97 else r.choice([9, 17, 40, 130])):
            p += [lit(r.choice(["/", "-", "_", "/x."])), mac(r.choice(pool))]
        return p + ([lit("/e")] if r.random() < 0.3 else [])


def directives(g, depth, emit, bad=0.0, nchain=1):
    """Random nested conditional chains; emit() supplies the lines of a region."""
    r = g.r
    out = list(emit())
    for _ in range(nchain):
        k = r.random()
        cond = g.expr(r.choice([0, 1, 2]))
        if bad and r.random() < bad:
            cond = g.broken(cond)
        if k < 0.6:
            out.append({"k": "if", "e": cond})
        else:
            out.append({"k": r.choice(["ifdef", "ifndef"]), "n": r.choice(g.words + g.strs + g.undef)})
        body = lambda: directives(g, depth - 1, emit, bad, r.choice([0, 1, 1, 2])) if depth > 0 else list(emit())
        out += body()
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            out.append({"k": "elif", "e": g.expr(r.choice([0, 1, 2]))})
            out += body()
        if r.random() < 0.6:
            out.append({"k": "else"})
            out += body()
        out.append({"k": "endif"})
        out += list(emit())
    return out


def deep(g, depth, emit):
    """Conditionals nested deeply, most of them taken, with lines between all of the directives."""
    r = g.r
    opened = []
    out = list(emit())
    for _ in range(depth):
        c = r.random()
        alive = r.random() < 0.85
        if c < 0.6:
            out.append({"k": "if", "e": [val([lit("1" if alive else "0")])] if r.random() < 0.7 else g.expr(1)})
        else:
            out.append({"k": "ifndef" if alive else "ifdef", "n": g.undef[0]})
        opened.append(alive)
        out += emit()
    for alive in reversed(opened):
        if not alive or r.random() < 0.3:
            out.append({"k": "else"} if r.random() < 0.7 else {"k": "elif", "e": [val([lit("1")])]})
            out += emit()
        out.append({"k": "endif"})
        out += emit()
    return out


# ------------------------------------------------------------------ rendering (text of a program)


def r_pieces(p):
    return "".join("$(" + x["v"] + ")" if x["m"] else x["v"] for x in p)


def r_expr(e, rng):
    out = []
    for t in e:
        if t["k"] == "val":
            s = r_pieces(t["p"])
            out.append('"' + s + '"' if t["q"] else s)
        elif t["k"] == "op":
            out.append(rng.choice(SYN[t["s"]]))
        else:
            out.append(t["k"])
    # optional blanks
    s = ""
    for i, t in enumerate(out):
        if i == 0:
            s = t
            continue
        a, b = out[i - 1], t
        text = lambda x: x.replace("_", "a").isalnum() or x[0] == '"' or x[:2] == "$("
        plain = text(a) and b in ("==", "!=", "<", ">", "<=", ">=")
        plain = plain or (text(b) and a in ("==", "!=", "<", ">", "<=", ">="))
        tight = plain or a == "(" or b == ")" or (a == "!" and (b == "(" or b.isalnum()))
        if a == "(" and b in ("!",):
            tight = False
        s += ("" if tight and rng.random() < 0.4 else rng.choice([" ", " ", " ", "  ", "\t"])) + t
    return s


def case_of(w, rng):
    return rng.choice([w, w, w, w.upper(), w.capitalize()])


def r_line(ln, rng, indent=True):
    k = ln["k"]
    if k in ("if", "elif"):
        s = "!" + case_of({"if": "if", "elif": "elseif"}[k], rng) + rng.choice([" ", " ", " ", "\t"]) + r_expr(ln["e"], rng)
    elif k in ("ifdef", "ifndef"):
        s = "!" + case_of(k, rng) + rng.choice([" ", " ", " ", "\t"]) + (ln["n"] if rng.random() < 0.8 else "$(" + ln["n"] + ")")
    elif k in ("else", "endif"):
        s = "!" + case_of(k, rng)
    elif k == "include":
        s = "!" + case_of("include", rng) + rng.choice([" ", " ", " ", "\t"]) + r_pieces(ln["p"])
    elif k == "section":
        s = "[" + ln["s"] + ("." + ln["q"] if ln["q"] else "") + "]"
    elif k == "define":
        s = (rng.choice(["DEFINE ", "DEFINE ", "DEFINE ", "DEFINE\t", "DEFINE  "]) if ln["kw"] else "") + ln["n"] + rng.choice([" = ", " = ", " = ", "=", "\t= "]) + r_pieces(ln["p"])
    elif k == "pcd":
        s = ln["n"] + "|" + r_pieces(ln["p"])
    else:
        s = ln.get("pre", "") + r_pieces(ln["p"])
    if indent:
        s = rng.choice(["", "", "  ", "\t"]) + s + rng.choice(["", "", " ", "  # note", " # !endif", "\t#x"])
    return s


def r_file(lines, rng):
    out = []
    for ln in lines:
        if rng.random() < 0.1:
            out.append(rng.choice(["", "# comment", "  # !if 0", "   "]))
        # what has no effect of its own, many times over
        out += {"comment": ["# c"], "blank": ["", " "], "pair": ["!if 0", "!endif"], "": []}[ln.get("padk", "")] * ln.get("pad", 0)
        out += [r_line(ln, rng)] * ln.get("times", 1)
    return "\n".join(out) + ("\n" if rng.random() < 0.8 else "")


# ------------------------------------------------------------------ cases


def models(tier, pid):
    q = tier == "quick"
    if pid == "C01":
        return [{"module": "PreprocMC", "cfg": "PreprocMC.cfg", "consts": {"MaxLen": 6 if q else 8}, "min_behaviours": 1000,
                 "limit": 2400 if q else 40000, "what": "every directive sequence up to the bound; stack machine = declarative reading"}]
    if pid == "C02":
        n = {"bool": 7, "cmp": 6, "ord": 7} if q else {"bool": 9, "cmp": 7, "ord": 8}
        return [{"module": "ExprMC", "cfg": f"ExprMC_{m}.cfg", "consts": {"MaxLen": n[m]}, "min_behaviours": 50,
                 "limit": 120 if q else 1500, "what": "every token string up to the bound; stack machine = denotation"} for m in n]
    if pid == "C03":
        return [{"module": "MacroMC", "cfg": "MacroMC.cfg", "consts": {"MaxLen": (4 if m == "dsc" else 3) if q else (5 if m == "dsc" else 4), "Mode": f'"{m}"'}, "min_behaviours": 1000, "limit": 1200 if q else 25000,
                 "what": f"every {m.upper()} program of definitions, sections, PCD values, conditions and uses of two macros and a PCD up to the bound"} for m in ("dsc", "fdf")]
    if pid == "C04":
        return [{"module": "IncludeMC", "cfg": "IncludeMC.cfg", "min_behaviours": 1000, "limit": 700 if q else None,
                 "what": "every placement of two included files over five directories"}]
    return []


_buf = {}


def from_model(doc, m, pid):
    if pid == "C03":
        return [{"mode": doc["mode"], "prog": doc["prog"], "seed": hash_of(doc) % 1000}]
    if pid == "C04":
        mode = ["dsc", "fdf"][hash_of(doc) % 2]
        head = [{"k": "section", "s": "Defines", "q": ""},
                {"k": "define", "kw": False, "n": "SUPPORTED_ARCHITECTURES", "p": [lit("X64")]},
                {"k": "section", "s": "UserExtensions", "q": "z"}] if mode == "dsc" else [{"k": "section", "s": "FV", "q": "MAIN"}]
        for f in doc["files"]:
            for x in f["lines"]:
                x["pre"] = "INF " if mode == "fdf" else ""
        doc["files"][0]["lines"] = head + doc["files"][0]["lines"]
        return [{"mode": mode, "prog": doc, "seed": hash_of(doc) % 1000}]
    if pid == "C01":
        lines = []
        n = 0
        for d in doc:
            for t in [d]:
                if t["k"] in ("if", "elif"):
                    t = {"k": t["k"], "e": t["e"]}
                lines.append(t)
                n += 1
                lines.append({"k": "text", "p": [lit(f"t{n}")]})
        via = ["base", "dsc", "fdf"][hash_of(doc) % 3]
        if via == "base":
            return [{"hists": [{"inputs": [], "env": [{"n": "DEF", "p": [lit("")]}], "lines": lines}], "seed": 1}]
        if via == "fdf":
            lines = [dict(x, pre="INF ") if x["k"] == "text" else x for x in lines]
        return [whole(via, {"main": lines}, [{"n": "DEF", "p": [lit("x")]}], seed=hash_of(doc) % 1000)]
    # expressions: batches of one-line histories
    b = _buf.setdefault(m["cfg"], [])
    toks = [dict(t, p=[lit(t["s"])], pcd=False) if t["k"] == "val" else t for t in doc["ts"]]
    for t in toks:
        if t["k"] == "val":
            t.pop("s")
    b.append({"inputs": [], "env": [], "lines": [{"k": "if", "e": toks}]})
    if len(b) == 20:
        out = list(b)
        b.clear()
        return [{"hists": out, "seed": hash_of(doc) % 1000}]
    return []


def hash_of(doc):
    import json
    import zlib

    return zlib.crc32(json.dumps(doc, sort_keys=True).encode())


def whole(mode, files, inputs, seed, ws="/ws", pps=("/ws/Pkgs", "/ws/Common"), main=None):
    """files: {relative path from the workspace or absolute abstract path: lines}; first one is the main file."""
    fs = []
    for path, lines in files.items():
        p = path if path.startswith("/") else "/ws/" + path
        ls = []
        if not fs:
            if mode == "dsc":
                ls += [{"k": "section", "s": "Defines", "q": ""},
                       {"k": "define", "kw": False, "n": "SUPPORTED_ARCHITECTURES", "p": [lit("X64")]}]
                if not any(x["k"] == "section" for x in lines):
                    ls += [{"k": "section", "s": "UserExtensions", "q": "x"}]
            else:
                if not any(x["k"] == "section" for x in lines):
                    ls += [{"k": "section", "s": "FV", "q": "MAIN"}]
        fs.append({"path": p, "dir": os.path.dirname(p), "lines": ls + [fix(x) for x in lines]})
    return {"mode": mode, "seed": seed,
            "prog": {"files": fs, "main": fs[0]["path"], "ws": ws, "pps": list(pps), "inputs": inputs}}


def fix(x):
    return x


def gen(rng, tier, pid):
    big = tier != "quick"
    cases = []
    if pid == "C02":
        for i in range(160 if not big else 4000):
            hists = []
            for _ in range(12):
                env, g = env_of(rng)
                e = g.expr(rng.choice([1, 2, 2, 3, 3, 4]))
                if rng.random() < 0.2:
                    e = g.broken(e)
                    if not e:
                        continue
                lines = [{"k": "if", "e": e}]
                if rng.random() < 0.15:
                    lines = [{"k": "if", "e": [val([lit("0")])]}, {"k": "elif", "e": e}]
                inp, own = split_env(rng, env)
                hists.append({"inputs": inp, "env": own, "lines": lines})
            cases.append({"hists": hists, "seed": rng.randrange(10**6)})
        return cases
    n = {"C01": 300, "C03": 420, "C04": 420}[pid] * (1 if not big else 25)
    for i in range(n):
        mode = rng.choice(["dsc", "fdf"]) if pid != "C01" or rng.random() < 0.7 else "base"
        if pid == "C03" and rng.random() < 0.35:
            mode = "base"
        if mode == "base":
            cases.append(base_case(rng, pid))
        else:
            cases.append(prog_case(rng, pid, mode))
    return cases


def split_env(rng, env):
    inp, own = [], []
    for e in env:
        k = rng.random()
        if k < 0.3:
            inp.append(e)
        elif k < 0.4:
            inp.append(e)
            own.append({"n": e["n"], "p": [lit("shadowed")]})
        else:
            own.append(e)
    rng.shuffle(inp)
    return inp, own


def env_of(rng, nested=True):
    words = [f"W{i}" for i in range(3)]
    strs = [f"S{i}" for i in range(2)]
    env = [{"n": w, "p": [lit(rng.choice(WORDS + [""]))]} for w in words]
    env += [{"n": s, "p": [lit(rng.choice(["abc", "a b", "x/y z", "TRUE", ""]))]} for s in strs]
    if nested:
        # names used only inside other macros' values, so one line never names both
        env.append({"n": "IN0", "p": [lit(rng.choice(["1", "abc", "5"]))]})
        words2 = words + ["N0"]
        env.append({"n": "N0", "p": [mac("IN0")]})
    else:
        words2 = words
    return env, G(rng, words2, strs, ["UNDEF_A", "UNDEF_B"])


def base_case(rng, pid):
    hists = []
    for _ in range(3):
        env, g = env_of(rng)
        inp, own = split_env(rng, env)
        n = [0]

        def emit():
            res = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                n[0] += 1
                if pid == "C03" and rng.random() < 0.3:
                    w = rng.choice(["W0", "W1", "UNDEF_A", "SELF"])
                    res.append({"k": "set", "n": w, "p": [lit(rng.choice(WORDS))] if w != "SELF" else [mac("SELF"), lit("/q")]})
                else:
                    p = g.text(f"t{n[0]}")
                    if pid == "C03" and rng.random() < 0.2:
                        p += [lit("+"), mac("SELF")]
                    res.append({"k": "text", "p": p})
            return res

        if pid == "C01" and rng.random() < 0.2:
            lines = deep(g, rng.choice([4, 5, 6, 8, 12]), emit)
        else:
            lines = directives(g, rng.choice([0, 1, 2]), emit, 0.01, rng.choice([1, 2]))
        if rng.random() < 0.04:
            lines.insert(rng.randrange(len(lines) + 1), {"k": rng.choice(["else", "endif"])})
        hists.append({"inputs": inp, "env": own, "lines": lines})
    return {"hists": hists, "seed": rng.randrange(10**6)}


DSC_SECTS = [("UserExtensions", "a"), ("LibraryClasses", "common"), ("SkuIds", ""), ("BuildOptions", ""), ("Defines", ""),
             ("PcdsFixedAtBuild", ""), ("PcdsFeatureFlag", "X64"), ("LibraryClasses", "")]
FDF_SECTS = [("FV", "MAIN"), ("FV", "ALT"), ("Defines", ""), ("FV", "LAST"), ("Rule", "Common.A"), ("FD", "Img")]
PCDS = ["gTokenSpaceGuid.PcdOne", "gTokenSpaceGuid.PcdTwo", "gAbcTokenSpaceGuid.PcdThree"]


def prog_case(rng, pid, mode):
    dsc = mode == "dsc"
    env, g = env_of(rng)
    g.pcds = PCDS if dsc and rng.random() < 0.6 else []
    inputs = []
    local = []
    for e in env:
        if rng.random() < 0.3:
            inputs.append(dict(e, b=True) if e["p"][0]["v"] in ("TRUE", "FALSE") and rng.random() < 0.5 else e)
            if rng.random() < 0.3:
                local.append({"n": e["n"], "p": [lit("over")]})
        else:
            local.append(e)
    cnt = [0]
    files = {}
    inc_w = {"C01": 0.03, "C03": 0.06, "C04": 0.3}[pid]
    def_w = {"C01": 0.06, "C03": 0.35, "C04": 0.08}[pid]
    pcd_w = 0.12 if pid == "C03" and rng.random() < 0.4 else 0
    late_w = 0.15 if pid == "C04" and rng.random() < 0.3 else 0
    late, r_choice = [False], rng.choice
    names = ["a.inc", "b.inc", "sub/c.inc", "sub/d.inc", "e.dsc.inc"]
    ws, pps, mains = "/ws", ["/ws/Pkgs", "/ws/Common"], ["/ws/Plat/P.x", "/ws/Plat/P.x", "/ws/P.x"]
    if pid == "C04" and rng.random() < 0.4:
        # descriptions and packages outside of the workspace, folders of other lengths, files of the same name
        names += ["sub/a.inc", "sub/sub/a.inc"]
        ws, pps, mains = rng.choice([("/ws", ["/p", "/ws/Common"], ["/ws/Plat/P.x", "/o/P.x", "/p/Plat/P.x"]),
                                     ("/workspace/of/mine", ["/w", "/workspace"], ["/o/P.x", "/workspace/of/mine/P.x", "/workspace/P.x"]),
                                     ("/w", ["/workspace/pkgs", "/w/Pkgs"], ["/workspace/pkgs/Plat/P.x", "/w/Pkgs/P.x", "/elsewhere/far/P.x"])])
    mainp = rng.choice(mains)
    places = [ws] + pps
    dirs = [x + y for x in places for y in ("", "/sub")] + [os.path.dirname(mainp), os.path.dirname(mainp) + "/sub"]
    budget = [rng.choice([2, 3, 5]) if pid == "C04" else 2]

    def sect():
        s, q = rng.choice(DSC_SECTS if dsc else FDF_SECTS)
        res = [{"k": "section", "s": s, "q": q}]
        if dsc and s in ("Defines", "BuildOptions"):
            res += [define() for _ in range(rng.choice([0, 1, 2]))]
            res.append({"k": "section", "s": "UserExtensions", "q": "b"})
        return res

    def define(names_=None):
        w = rng.choice(names_ or ["W0", "W1", "W2", "N0", "D0", "SELF", "UNDEF_A", "DIR"] + (["MY_DEFINE", "DEFINE_X", "REDEFINED"] if pid == "C03" else []))
        if w == "N0":
            p = [mac("IN0")] + ([lit("1")] if rng.random() < 0.3 else [])
        elif w == "SELF":
            p = [mac("SELF"), lit("/s")] if rng.random() < 0.7 else [lit("s")]
        elif w == "D0":
            p = [lit("v-"), mac("IN0"), lit("-"), mac(rng.choice(["IN1", "IN0"]))]
        elif w == "DIR":
            p = [lit(rng.choice(["sub", "sub", "sub", "b"]))]
        elif "DEFINE" in w:
            p = [lit(rng.choice(ODD))]
        else:
            p = [lit(rng.choice(WORDS))]
        return {"k": "define", "kw": True, "n": w, "p": p}

    def text():
        cnt[0] += 1
        p = g.text(f"t{cnt[0]}", strs=True)
        if rng.random() < 0.25:
            p += [lit("+"), mac(rng.choice(["D0", "SELF", "DIR", "N0"] + (["MY_DEFINE", "DEFINE_X", "REDEFINED"] if pid == "C03" else [])))]
        return {"k": "text", "p": p, "pre": "" if dsc else "INF "}

    def pcd():
        return {"k": "pcd", "n": rng.choice(PCDS), "p": [lit(rng.choice(["TRUE", "FALSE", "0x5", "1", "0"]))]}

    def pcd_history():
        """Assignments of one PCD (some in branches not taken) and conditions on it in between."""
        n, vals = r_choice(PCDS), ["TRUE", "FALSE", "0x5", "1", "0", "7"]
        res = [{"k": "section", "s": r_choice(["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamicDefault"]), "q": ""}]
        for i in range(rng.choice([2, 2, 3, 4])):
            v = r_choice(vals)
            a = {"k": "pcd", "n": n, "p": [lit(v)]}
            if i and rng.random() < 0.25:
                res += [{"k": "if", "e": [val([lit(r_choice(["0", "1"]))])]}, a, {"k": "endif"}]
            else:
                res.append(a)
            if rng.random() < 0.6:
                e = [val([lit(n)], pcd=True)]
                if rng.random() < 0.7:
                    e += [op(r_choice(["==", "!="])), val([lit(v if rng.random() < 0.5 else r_choice(vals))])]
                res += [{"k": "if", "e": e}, text(), {"k": "else"}, text(), {"k": "endif"}]
        return res + [{"k": "section", "s": "UserExtensions", "q": "p"}]

    def include(level, cur):
        nm = rng.choice(names)
        if rng.random() < 0.02:
            nm = rng.choice(["missing.inc", "sub/missing.inc"])
        elif budget[0] > 0 and level < 3:
            budget[0] -= 1
            for d in rng.sample([ws, cur, cur] + pps + [rng.choice(dirs)], rng.choice([1, 2, 3])):
                path = d + "/" + nm
                if path not in files:
                    files[path] = None
                    files[path] = body(level + 1, os.path.dirname(path))
        elif files:
            full = rng.choice(sorted(files))
            nm = "/".join(full.split("/")[-2:]) if "/sub/" in full else full.split("/")[-1]
            if pid == "C04" and full.startswith(ws + "/") and rng.random() < 0.25:
                return {"k": "include", "p": [mac("WORKSPACE"), lit(full[len(ws):])]}
        else:
            return text()
        p = [lit(nm)]
        if nm.startswith("sub/") and rng.random() < 0.3:
            p = [mac("DIR"), lit(nm[3:])]
        return {"k": "include", "p": p}

    def body(level, cur):
        def emit():
            res = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                x = rng.random()
                if x < inc_w and level < 3:
                    ln = include(level, cur)
                    # only take includes that cannot recurse
                    res.append(ln)
                elif x < inc_w + def_w:
                    res.append(define())
                elif x < inc_w + def_w + 0.12:
                    res += sect()
                elif dsc and x < inc_w + def_w + 0.12 + pcd_w:
                    res += pcd_history()
                elif dsc and x < inc_w + def_w + 0.12 + pcd_w + late_w and level < 3:
                    late[0] = True
                    res += [{"k": "ifdef", "n": "LATE"}, include(level, cur), {"k": "endif"}]
                elif dsc and x < inc_w + def_w + 0.2:
                    res.append(pcd())
                else:
                    res.append(text())
            return res
        if level > 0 or rng.random() < 0.15:
            r = emit()
            if rng.random() < 0.4:
                r += directives(g, 0, emit, 0, 1)
            return r
        if pid == "C01" and rng.random() < 0.25:
            return deep(g, rng.choice([4, 4, 5, 6, 8, 12]), emit)
        depth = rng.choice([0, 1, 2]) if pid == "C01" else rng.choice([0, 0, 1])
        return directives(g, depth, emit, 0.01 if pid == "C01" else 0, rng.choice([1, 2]))

    first = [{"k": "section", "s": "Defines", "q": ""}]
    if dsc:
        first.append({"k": "define", "kw": False, "n": "SUPPORTED_ARCHITECTURES", "p": [lit("X64")]})
    for e in local:
        first.append({"k": "define", "kw": rng.random() < 0.8, "n": e["n"], "p": e["p"]})
        if rng.random() < 0.15:
            first.append({"k": "define", "kw": True, "n": e["n"], "p": [lit(rng.choice(WORDS))]})
    if rng.random() < 0.85:
        first.append({"k": "define", "kw": True, "n": "DIR", "p": [lit("sub")]})
    if pid == "C03" and rng.random() < 0.3:
        first.append({"k": "define", "kw": rng.random() < 0.6, "n": rng.choice(["MY_DEFINE", "DEFINE_X", "REDEFINED"]), "p": [lit(rng.choice(ODD))]})
    first.append({"k": "section", "s": "UserExtensions", "q": "z"} if dsc else {"k": "section", "s": "FV", "q": "MAIN"})
    main = first + body(0, os.path.dirname(mainp))
    if pid == "C04" and "sub/a.inc" in names and rng.random() < 0.4:
        # files of one name in folders below each other, each naming what stands next to it
        at = os.path.dirname(mainp) if rng.random() < 0.5 else rng.choice(places)
        n = rng.choice(["a.inc", "b.inc"])
        chain = [at + "/" + n, at + "/sub/" + n, at + "/sub/sub/" + n][: rng.choice([2, 3])]
        if not any(c in files for c in chain):
            for i, c in enumerate(chain):
                files[c] = [{"k": "include", "p": [lit("leaf.inc")]}] if rng.random() < 0.3 else []
                if i + 1 < len(chain):
                    files[c] += [{"k": "include", "p": [lit("sub/" + n)]}]
                if rng.random() < 0.8:
                    files[c] += [{"k": "include", "p": [lit("leaf.inc")]}]
            for c in chain:
                if rng.random() < 0.8 or c == chain[0]:
                    files[os.path.dirname(c) + "/leaf.inc"] = [{"k": "text", "p": [lit("leaf" + str(len(c)))], "pre": "" if dsc else "INF "}]
            main.append({"k": "include", "p": [lit(n)]})
    if pid == "C04" and rng.random() < 0.06:
        # files that include each other many levels deep, with lines behind the includes
        n = rng.choice([5, 6, 8, 9, 17, 33])
        for i in range(n):
            at = rng.choice([os.path.dirname(mainp), ws] + pps)
            c = f"{at}/deep{i}.inc"
            t = lambda: [{"k": "text", "p": [lit(f"deep{i}")], "pre": "" if dsc else "INF "}] if rng.random() < 0.6 else []
            files[c] = t() + ([{"k": "include", "p": [lit(f"deep{i + 1}.inc")]}] if i + 1 < n else t()) + t()
        main.append({"k": "include", "p": [lit("deep0.inc")]})
        main += [{"k": "text", "p": [lit("behind")], "pre": "" if dsc else "INF "}]
    if late[0]:
        main += [{"k": "section", "s": "Defines", "q": ""}, {"k": "define", "kw": True, "n": "LATE", "p": [lit("1")]}]
    if rng.random() < 0.03:
        main.insert(rng.randrange(len(first), len(main) + 1), {"k": rng.choice(["else", "endif"])})
    fs = {mainp: main}
    for k, v in files.items():
        if v is not None and k != mainp:
            fs[k] = v
    if rng.random() < 0.06:
        # long files: a thousand lines that are blank, comments or not selected in a row
        ln = rng.choice(rng.choice(list(fs.values())) or main)
        ln["pad"], ln["padk"] = rng.choice([1300, 2500]), rng.choice(["comment", "blank", "pair"])
        at = [(f, i) for f in fs.values() for i, x in enumerate(f) if x["k"] == "text"]
        if at and rng.random() < 0.6:
            f, i = rng.choice(at)
            f[i] = dict(f[i], times=rng.choice([1100, 1500]))
            if rng.random() < 0.7:
                f[i:i + 1] = [{"k": "if", "e": [val([lit("0")])]}, f[i], {"k": "endif"}]
    # no recursion: drop includes that could reach a file already open
    prog = {"files": [{"path": p, "dir": os.path.dirname(p), "lines": ls} for p, ls in fs.items()],
            "main": mainp, "ws": ws, "pps": pps, "inputs": inputs + ([{"n": "WORKSPACE", "p": [lit(ws)], "place": True}] if pid == "C04" else [])}
    _break_cycles(prog)
    return {"mode": mode, "prog": prog, "seed": rng.randrange(10**6)}


def _break_cycles(prog):
    """An include is kept only if every file it may name comes later in the file list."""
    order = {f["path"]: i for i, f in enumerate(prog["files"])}
    for f in prog["files"]:
        keep = []
        for ln in f["lines"]:
            if ln["k"] == "include":
                named = "".join({"DIR": "sub", "WORKSPACE": prog["ws"]}[x["v"]] if x["m"] else x["v"] for x in ln["p"])
                cands = [p for p in order if p == named or p.endswith("/" + named)]
                if any(order[p] <= order[f["path"]] for p in cands):
                    continue
            keep.append(ln)
        f["lines"] = keep


# ------------------------------------------------------------------ execution


def run(case, d):
    from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser

    rng = random.Random(case.get("seed", 0))
    if "hists" in case:
        events = []
        for h in case["hists"]:
            events.append({"k": "start", "inputs": h["inputs"], "obs": {"st": "ok"}})
            ps = HashFileParser("x")
            ps.SetInputVars({e["n"]: r_pieces(e["p"]) for e in h["inputs"]})
            for e in h["env"]:
                ps.LocalVars[e["n"]] = r_pieces(e["p"])
                events.append({"k": "set", "n": e["n"], "p": e["p"], "obs": {"st": "ok"}})
            for ln in h["lines"]:
                if ln["k"] == "set":
                    ps.LocalVars[ln["n"]] = r_pieces(ln["p"])
                    events.append({"k": "set", "n": ln["n"], "p": ln["p"], "obs": {"st": "ok"}})
                    continue
                text = r_line(ln, rng, indent=False)
                direct = ln["k"] in ("if", "elif") and rng.random() < 0.5
                ev = {"k": "line", "line": ln, "src": text, "direct": direct}
                try:
                    t2 = text if direct else ps.ReplaceVariables(text)
                    c = ps.ProcessConditional(t2)
                    ev["obs"] = {"st": "ok", "text": t2, "cond": bool(c), "active": bool(ps.InActiveCode())}
                except Exception as ex:
                    ev["obs"] = {"st": "err", "text": type(ex).__name__, "cond": False, "active": False}
                events.append(ev)
                if ev["obs"]["st"] == "err":
                    break
        return events
    prog, mode = case["prog"], case["mode"]
    for x in [prog["ws"]] + prog["pps"]:
        os.makedirs(d + x, exist_ok=True)
    for f in prog["files"]:
        os.makedirs(d + f["dir"], exist_ok=True)
        text = r_file(f["lines"], rng)
        with open(d + f["path"], "w", newline=spell.ends(text)) as fh:
            fh.write(text)
    from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
    from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    ps = DscParser() if mode == "dsc" else FdfParser()
    ev = {"k": "start", "mode": mode, "prog": prog}
    # the blanks of a definition are no part of it
    names = {ln["n"] for f in prog["files"] for ln in f["lines"] if ln["k"] == "define"}
    defs = re.compile(r"^(DEFINE\s+|)(%s)\s*=\s*" % "|".join(map(re.escape, sorted(names))))
    try:
        sd = case.get("seed", 0)
        if sd % 4 == 3:
            # the older way to say the same
            ps.SetBaseAbsPath(d + prog["ws"]).SetPackagePaths([d + p for p in prog["pps"]])
        else:
            ps.SetEdk2Path(Edk2Path(d + prog["ws"], [d + p for p in prog["pps"]]))
        ps.SetInputVars({e["n"]: d + r_pieces(e["p"]) if e.get("place") else ((e["p"][0]["v"] == "TRUE") if e.get("b") else r_pieces(e["p"])) for e in prog["inputs"]})
        ps.ParseFile(os.path.relpath(prog["main"], prog["ws"]) if sd % 5 == 2 else d + prog["main"])
        if mode == "dsc":
            ev["obs"] = {"st": "ok", "out": [defs.sub(lambda m: (m[1] and "DEFINE ") + m[2] + " = ", x, count=1).rstrip() for x in ps.Lines], "dict": [],
                         "seen": sorted(p[len(d):] if p.startswith(d) else p for p in ps.GetAllDscPaths())}
        else:
            ev["obs"] = {"st": "ok", "out": [fv + ":" + i for fv, v in ps.FVs.items() for i in v["Infs"]],
                         "dict": [[k, v] for k, v in ps.Dict.items()], "seen": []}
        # where the finished parser finds a file: by its name in one or in several parts
        asks = sorted({"/".join(f["path"].split("/")[-k:]) for f in prog["files"] for k in (1, 2)} | {"missing.inc"})
        asks = rng.sample(asks, min(len(asks), 5)) + [prog["main"]]
        cut = lambda p: "none" if p is None else str(p)[len(d):]
        ev["finds"] = [{"rel": a, "at": cut(ps.FindPath(d + a)) if a[0] == "/" else cut(ps.FindPath(*a.split("/"))), "one": cut(ps.FindPath(d + a if a[0] == "/" else a))} for a in asks]
        if ps.FindPath(None) is not None:
            ev["obs"]["st"] = "FindPath(None)"
        if mode == "dsc":
            # the expanded lines, written and read again, say the same
            ps.WriteLinesToFile(d + "/flat.dsc")
            with open(d + "/flat.dsc") as fh:
                ev["obs"]["flat"] = [x.rstrip() for x in fh.read().split("\n")[:-1]] == [x.rstrip() for x in ps.Lines]
            q = DscParser().SetEdk2Path(Edk2Path(d + prog["ws"], [d + p for p in prog["pps"]]))
            q.SetInputVars(ps.InputVars)
            q.ParseFile(d + "/flat.dsc")
            # (what stands for nothing defined may mean something in a file of another order)
            ev["obs"]["again"] = q.Lines == ps.Lines or any("$(" in x for x in ps.Lines)
    except Exception as ex:
        ev["obs"] = {"st": "err", "out": [], "dict": [], "seen": [], "why": f"{type(ex).__name__}: {ex}"[:200]}
    return [ev]


def classify(case, events):
    t = set()
    for e in events:
        t.add("rejected" if e["obs"]["st"] == "err" else "accepted")
        if e["k"] == "line" and e["line"]["k"] in ("if", "elif") and e["obs"]["st"] == "ok":
            t.add("cond-true" if e["obs"]["active"] else "cond-false")
        if e.get("mode"):
            t.add(e["mode"])
            if len(e["prog"]["files"]) > 1:
                t.add("includes")
            if any(x.get("pad") or x.get("times") for f in e["prog"]["files"] for x in f["lines"]):
                t.add("long")
            ks = {x["k"] for f in e["prog"]["files"] for x in f["lines"]}
            t |= {"line-" + k for k in ks}
    return t


REQUIRED_CLASSES = {"C01": ["dsc", "fdf", "accepted", "long"], "C02": ["cond-true", "cond-false", "rejected"], "C03": ["dsc", "fdf"],
                    "C04": ["includes", "rejected", "dsc", "fdf"]}
