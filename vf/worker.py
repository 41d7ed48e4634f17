"""Runs abstract cases of one area against the code in /repo and records what it did.

usage: python -m vf.worker AREA IN.jsonl OUT.jsonl SCRATCH
"""

import importlib
import json
import logging
import os
import shutil
import signal
import sys
import traceback
import warnings


class Hang(BaseException):
    """The watchdog fired."""


def main():
    area, inp, outp, scratch = sys.argv[1:5]
    os.makedirs(scratch, exist_ok=True)
    out = open(outp, "w")
    warnings.simplefilter("ignore")
    # third-party modules first, with their own byte code; then nothing stale for the code under test
    for m in ("sqlalchemy", "sqlalchemy.orm", "git", "pyasn1.codec.der.decoder", "pyasn1_modules.rfc2315", "joblib", "cryptography"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    sys.pycache_prefix = os.environ["VF_PYC"]
    try:
        mod = importlib.import_module("vf.areas." + area)
    except BaseException as e:
        # the code under test no longer imports: an observation for every case
        tb = traceback.format_exc()
        if "edk2toollib" in tb:
            out.write(json.dumps({"crash": "import: " + repr(e)[:300]}) + "\n")
            out.close()
            return 0
        raise
    import edk2toollib

    repo = os.environ.get("VF_REPO", "/repo")
    if not os.path.realpath(edk2toollib.__file__).startswith(os.path.realpath(repo) + "/"):
        raise RuntimeError("edk2toollib imported from " + edk2toollib.__file__)
    if not getattr(mod, "KEEP_LOGGING", False):
        logging.disable(logging.CRITICAL)

    def on_alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    limit = getattr(mod, "CASE_SECONDS", 30)
    hangs = 0
    with open(inp) as f:
        for k, line in enumerate(f):
            case = json.loads(line)
            # an area can have all its cases at the same place, so that nothing remembered of an earlier file of that name may matter
            d = os.path.join(scratch, "same" if getattr(mod, "SAME_DIR", False) else f"c{k}")
            if os.path.lexists(d):
                d = os.path.join(scratch, f"c{k}")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            try:
                signal.setitimer(signal.ITIMER_REAL, limit if hangs < 2 else 2)
                ev = mod.run(case, d)
                res = {"events": ev}
            except Hang:
                hangs += 1
                res = {"hang": True}
            except mod.MachineryError if hasattr(mod, "MachineryError") else ZeroDivisionError:
                raise
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                if isinstance(e, (SystemExit, KeyboardInterrupt)) or any("edk2toollib" in fr.filename for fr in tb):
                    res = {"crash": f"{type(e).__name__}: {e}"[:300]}
                else:
                    # harness bug, or an observation of an unexpected shape
                    last = tb[-1]
                    res = {"crash": f"{type(e).__name__}: {e} at {os.path.basename(last.filename)}:{last.lineno}"[:300]}
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                os.chdir("/")
                shutil.rmtree(d, ignore_errors=True)
            out.write(json.dumps(res) + "\n")
            out.flush()
    out.close()
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
