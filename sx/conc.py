"""Concrete worker: reads one JSON request per line, runs the scenario on the unmodified code of the repository in a fresh
import of its packages, answers one JSON line. Runs under the repository's own interpreter environment."""
import gc
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx import common, instrument, scen  # noqa: E402
from sx.consession import ConSession, Skip  # noqa: E402


class Watchdog(BaseException):
    pass


SESSION = [None]


def _alarm(*a):
    w = Watchdog()
    if SESSION[0] is not None:
        SESSION[0].ended = w
    raise w


def setup():
    import logging
    logging.disable(logging.CRITICAL)
    roots = dict((t, common.REPO) for t in common.REPO_TOPS)
    roots["harness"] = common.VERIF
    instrument.install(roots, False)
    sys.modules["uvloop"] = None


def run(req):
    import importlib
    gc.collect()
    instrument.purge(common.REPO_TOPS)
    mod = importlib.import_module("harness." + req["module"])
    sc = None
    for s in scen.REG.get(req["prop"], []):
        if s.name == req["scenario"]:
            sc = s
    S = ConSession(req["inputs"])
    out = {"status": "done"}
    signal.signal(signal.SIGALRM, _alarm)
    SESSION[0] = S
    signal.setitimer(signal.ITIMER_REAL, req.get("timeout", 20), 1)
    try:
        from harness import stubs
        stubs.install(S)
        try:
            sc.fn(S, **req["params"])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 10, 1)
            for f in reversed(S.cleanups):
                f()
            stubs.uninstall()
    except Skip as e:
        out["status"] = "skip"
        out["why"] = str(e)
    except Watchdog:
        out["status"] = "hang"
    except Exception as e:
        out["status"] = "exc"
        out["exc"] = type(e).__name__
        out["trace"] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["fails"] = S.fails
    out["covers"] = S.covers
    out["obs"] = S.observations
    out["known"] = S.known
    return out


def main():
    setup()
    gc.disable()
    real = os.dup(1)
    os.dup2(2, 1)
    w = os.fdopen(real, "w")
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = run(req)
        except BaseException as e:
            res = {"status": "error", "trace": traceback.format_exc()[-3000:], "fails": [], "covers": [], "obs": [], "known": []}
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        w.write(json.dumps(res) + "\n")
        w.flush()


if __name__ == "__main__":
    main()
