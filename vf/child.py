"""Child process: runs the cases it is told to, one at a time."""
import faulthandler
import gc
import importlib
import json
import os
import sys
import time
import traceback


def main():
    prop = sys.argv[1]
    out = os.fdopen(int(os.environ["VF_OUT"]), "w", buffering=1)
    os.set_inheritable(out.fileno(), False)
    faulthandler.enable()
    import signal
    faulthandler.register(signal.SIGUSR2, all_threads=True)

    from vf import core
    mod = importlib.import_module(f"checks.{prop}")
    scen = {s.name: s for s in mod.SCENARIOS}
    out.write(json.dumps({"ready": 1}) + "\n")

    for line in sys.stdin:
        task = json.loads(line)
        case = core.Case(prop, task["scenario"], task["seed"], task["tier"])
        t0 = time.monotonic()
        res = {"status": "ok"}
        try:
            scen[task["scenario"]].func(case)
        except core.Soft as e:
            res = {"status": "soft", "mech": e.mech, "msg": str(e)}
        except core.Violation as e:
            res = {"status": "violation", "mech": e.mech, "msg": str(e)}
        except core.Inconclusive as e:
            res = {"status": "inconclusive", "msg": str(e)}
        except BaseException as e:
            v = core.find_violation(e)
            if v is not None:
                res = {
                    "status": "soft" if isinstance(v, core.Soft)
                    else "violation", "mech": v.mech, "msg": str(v),
                }
            else:
                res = {
                    "status": "error", "mech": f"error:{type(e).__name__}",
                    "msg": "".join(traceback.format_exception(e))[-3000:],
                }
        # A violation noted by a monitor while something else went wrong
        if case.noted and res["status"] not in ("violation",):
            v = case.noted[0]
            res = {"status": "violation", "mech": v.mech, "msg": str(v)}
        case.cleanup()
        res["t"] = round(time.monotonic() - t0, 4)
        res["counters"] = dict(case.counters)
        res["sig"] = case.signature()
        res["nontrivial"] = case.nontrivial
        if task.get("want_sample"):
            res["sample"] = case.sample
        gc.collect(1 if res["t"] < 0.05 else 2)
        out.write(json.dumps(res, default=repr) + "\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
