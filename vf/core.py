"""Common machinery: TLC runs, implementation workers, conformance verdicts, evidence."""

import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class MachineryError(Exception):
    """The check itself failed (never a verdict about the code)."""


def tail(out):
    keep = [x for x in out.splitlines() if x.strip() and not x.startswith(('"@', "Parsing file", "Semantic processing", "Linting"))]
    return "\n".join(keep)[-2500:]


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc = rc
        self.out = out
        self.wall = wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ms = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        m = ms[-1] if ms else None
        self.generated = int(m[0]) if m else 0
        self.distinct = int(m[1]) if m else 0
        if not m:
            m2 = re.findall(r"(\d+) states checked|The number of states generated: (\d+)", out)
            if m2:
                self.generated = max(int(a or b) for a, b in m2)

    @property
    def emitted(self):
        """JSON documents printed by the specification as "@@..." strings."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        return res


def run_tlc(module, cfg, scratch, workers=4, env=None, extra=(), timeout=600, heap="3g", consts=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>; consts override "CONSTANT x = .." lines of the cfg."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cfg_path = os.path.join(SPEC, cfg)
    if consts:
        with open(cfg_path) as f:
            text = f.read()
        for k, v in consts.items():
            text, cnt = re.subn(rf"(?m)^CONSTANT {k} = .*$", f"CONSTANT {k} = {v}", text)
            if cnt != 1:
                raise MachineryError(f"{cfg}: no constant {k}")
        cfg_path = os.path.join(meta, "run.cfg")
        with open(cfg_path, "w") as f:
            f.write(text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock",
           "-workers", str(workers), "-metadir", meta, "-config", cfg_path]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out after {timeout}s on {module}/{cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(p.returncode, p.stdout.decode("utf-8", "replace"), time.time() - t0)


def model_check(module, cfg, scratch, coverage_actions=True, **kw):
    """Exhaustive (or -simulate) model run; a design violation is a machinery error: the spec is ours."""
    r = run_tlc(module, cfg, scratch, **kw)
    if r.rc != 0:
        raise MachineryError(f"TLC on {module}/{cfg} exited {r.rc}:\n{tail(r.out)}")
    return r


# ---------------------------------------------------------------------------------------------
# executing the implementation


def run_impl(area, cases, scratch, seed, timeout=600):
    """Execute cases against /repo in worker processes; returns list of event lists (one per case)."""
    n = min(NPROC, max(1, len(cases) // 4))
    chunks = [cases[i::n] for i in range(n)]
    pyc = os.path.join(scratch, "pyc")
    os.makedirs(pyc, exist_ok=True)
    procs = []
    for i, ch in enumerate(chunks):
        d = tempfile.mkdtemp(prefix=f"w{i}-", dir=scratch)
        inp, outp = os.path.join(d, "in.jsonl"), os.path.join(d, "out.jsonl")
        with open(inp, "w") as f:
            for c in ch:
                f.write(json.dumps(c) + "\n")
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "HOME", "VERIF_SEED", "VERIF_TIER")}
        env.update(PYTHONPATH=REPO + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 1000),
                   TMPDIR=d, VF_PYC=pyc, GIT_CONFIG_NOSYSTEM="1", HOME=d, PYTHONWARNINGS="ignore", VF_REPO=REPO)
        errf = open(os.path.join(d, "err.txt"), "wb")
        p = subprocess.Popen([PY, "-m", "vf.worker", area, inp, outp, os.path.join(d, "scratch")],
                             cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf)
        procs.append((p, outp, len(ch), errf, d))
    res = [None] * n
    t_end = time.time() + timeout
    for i, (p, outp, cnt, errf, d) in enumerate(procs):
        try:
            p.wait(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        errf.close()
        got = []
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    if line.endswith("\n"):
                        got.append(json.loads(line))
        if p.returncode == 3:
            with open(os.path.join(d, "err.txt"), errors="replace") as f:
                raise MachineryError("worker failed:\n" + f.read()[-3000:])
        if len(got) < cnt:
            # The code under test ended the process or hung beyond the watchdog: that is an observation.
            with open(os.path.join(d, "err.txt"), errors="replace") as f:
                note = f.read()[-500:]
            if not got and "Error" in note and "vf/worker" in note and "edk2toollib" not in note:
                raise MachineryError("worker failed:\n" + note)
            got.append({"died": True, "note": note})
        res[i] = got
        shutil.rmtree(d, ignore_errors=True)
    out = [None] * len(cases)
    for i in range(n):
        for j, g in enumerate(res[i]):
            out[i + j * n] = g
    return out


# ---------------------------------------------------------------------------------------------
# conformance: TLC decides whether recorded executions are behaviours of the specification


class Mismatch:
    def __init__(self, case_idx, event, expected, why):
        self.case_idx, self.event, self.expected, self.why = case_idx, event, expected, why


def conform(module, cfg, results, scratch, timeout=600, nchunks=NPROC):
    """results: list of {"events": [...]} per case. Returns (mismatches, events_validated, states)."""
    mismatches = []
    live = []
    for ci, r in enumerate(results):
        if r is None:
            continue
        if r.get("died"):
            mismatches.append(Mismatch(ci, {}, None, "the implementation ended or hung the process: " + r.get("note", "")[-300:]))
            continue
        if r.get("hang"):
            mismatches.append(Mismatch(ci, {}, None, "the implementation did not return within the watchdog time"))
            continue
        if r.get("crash"):
            mismatches.append(Mismatch(ci, {}, None, "the implementation raised unexpectedly: " + r["crash"]))
            continue
        live.append((ci, r["events"]))
    total = sum(len(e) for _, e in live)
    if total == 0:
        return mismatches, 0, 0
    n = max(1, min(nchunks, total // 20))
    # balance by event count
    chunks = [[] for _ in range(n)]
    sizes = [0] * n
    for ci, ev in sorted(live, key=lambda x: -len(x[1])):
        k = sizes.index(min(sizes))
        chunks[k].append((ci, ev))
        sizes[k] += len(ev)

    def one(chunk):
        bad, validated, states = [], 0, 0
        todo = chunk
        while todo:
            path = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=scratch)
            index = []
            with open(path, "w") as f:
                for ci, ev in todo:
                    for e in ev:
                        f.write(json.dumps(e) + "\n")
                        index.append(ci)
            r = run_tlc(module, cfg, scratch, workers=1, env={"TRACE": path}, timeout=timeout)
            os.unlink(path)
            evs = [e for _, ev in todo for e in ev]
            for m in r.emitted:
                bad.append(Mismatch(index[m["l"] - 1], evs[m["l"] - 1], m["exp"], m.get("why", "")))
            states += r.generated
            if r.rc == 0 and re.search(r'"@done (\d+)"', r.out):
                k = int(re.search(r'"@done (\d+)"', r.out).group(1))
                if k != len(index):
                    raise MachineryError(f"conformance run of {module} consumed {k} of {len(index)} events")
                validated += len(index)
                return bad, validated, states
            # TLC could not evaluate the spec against an observed value: that event is not explainable.
            ats = re.findall(r'"@at (\d+)"', r.out)
            if not ats:
                raise MachineryError(f"TLC conformance on {module} failed rc={r.rc}:\n{tail(r.out)}")
            k = int(ats[-1])
            err = [x for x in r.out.splitlines() if x.startswith("Error:") or "Attempted" in x or "attempted" in x]
            if not any("ttempt" in x or "evaluat" in x or "not in the domain" in x or "CHOOSE" in x for x in err):
                raise MachineryError(f"TLC conformance on {module} failed rc={r.rc}:\n{tail(r.out)}")
            ci = index[k - 1]
            bad.append(Mismatch(ci, evs[k - 1], None, "observation not comparable with the specification: " + " ".join(err)[:300]))
            if len([b for b in bad if b.expected is None]) > 3:
                return bad, validated, states
            pos = [i for i, (c, _) in enumerate(todo) if c == ci][0]
            validated += sum(len(ev) for _, ev in todo[:pos])
            bad = bad[:]  # mismatches before this case were already recorded
            todo = todo[pos + 1:]
        return bad, validated, states

    validated = states = 0
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        for b, v, s in ex.map(one, chunks):
            mismatches += b
            validated += v
            states += s
    mismatches.sort(key=lambda m: m.case_idx)
    return mismatches, validated, states


def rng_for(seed, tag):
    return random.Random(f"{seed}/{tag}")
