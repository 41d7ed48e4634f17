"""C09: comments, quotes and key/value lines (base parser, target.txt)."""

import os

TRACE = ("CommentTrace", "CommentTrace.cfg")
CASE_SECONDS = 20
SAME_DIR = True
BATCH = []


def models(tier, pid):
    n = 5 if tier == "quick" else 6
    return [{"module": "CommentMC", "cfg": "CommentMC.cfg", "consts": {"MaxLen": n}, "min_behaviours": 10000,
             "what": f"every line of up to {n} characters over 7 characters"}]


def from_model(doc, m, pid):
    # one case per 40 lines
    BATCH.append(doc)
    if len(BATCH) == 40:
        case = {"lines": list(BATCH)}
        BATCH.clear()
        return [case]
    return []


def gen(rng, tier, pid):
    cases = []
    if BATCH:
        cases.append({"lines": list(BATCH)})
        BATCH.clear()
    al = list("abk1. \t=|#\"'\\") + ["#", '"', '\\"', "\\\\", " = "]
    for _ in range(250 if tier == "quick" else 6000):
        cases.append({"lines": [list("".join(rng.choice(al) for _ in range(rng.randint(0, 24)))) for _ in range(12)]})
    return cases


def run(case, d):
    from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
    from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    lines = ["".join(x) for x in case["lines"]]
    ev = {"k": "start", "lines": case["lines"]}
    try:
        p = HashFileParser("x")
        out = [p.StripComment(x) for x in lines]
        for x in ("/ws/Conf", "/pp/Conf"):
            os.makedirs(d + x)
            with open(d + x + "/target.txt", "w") as f:
                f.write("\n".join(lines) + "\n" if x == "/ws/Conf" else "DECOY = 1\n")
        t = TargetTxtParser()
        t.SetEdk2Path(Edk2Path(d + "/ws", [d + "/pp"]))
        # asked for by its whole path or by its path in the workspace
        t.ParseFile(d + "/ws/Conf/target.txt" if len(lines) % 2 or len(lines[0]) % 2 else "Conf/target.txt")
        ev["obs"] = {"st": "ok", "out": out, "dict": [{"key": k, "v": v} for k, v in t.Dict.items()]}
    except Exception as e:
        ev["obs"] = {"st": "raise", "what": repr(e)[:200]}
    return [ev]
