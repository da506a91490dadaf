"""Run the run-time contracts of a property on the real code.

    run.py ID --tier T --seed N --out FILE [--budget S] [--extra FILE]   sampled cases, then the extra ones
    run.py ID --case FILE                                                one case (replay)
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("PYOTF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


def run_case(mod, case):
    from rt.core import Fail
    try:
        mod.check(case)
    except Fail as e:
        return str(e)
    except Exception as e:
        return f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exc().splitlines(True)[-6:])
    return None


def main():
    a = argparse.ArgumentParser()
    a.add_argument("id")
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--budget", type=float, default=1e9)
    a.add_argument("--out")
    a.add_argument("--extra")
    a.add_argument("--case")
    o = a.parse_args()
    import numpy as np
    np.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import pyotf
    assert os.path.realpath(pyotf.__file__).startswith(os.path.realpath(REPO)), pyotf.__file__
    mod = importlib.import_module("rt." + o.id.lower())
    if o.case:
        case = json.load(open(o.case))
        case = case.get("case", case)
        msg = run_case(mod, case)
        print("FAIL: " + msg if msg else "ok")
        sys.exit(1 if msg else 0)
    rng = np.random.default_rng(o.seed)
    t0 = time.time()
    n, seen, fails, samples = 0, set(), [], []
    stop = False

    def one(case, origin):
        nonlocal n
        n += 1
        seen.add(json.dumps(case, sort_keys=True, default=str))
        msg = run_case(mod, case)
        if len(samples) < 3:
            samples.append(case)
        if msg:
            fails.append(dict(case=case, message=msg, origin=origin))
    if o.extra:
        for case in json.load(open(o.extra)):
            one(case, "counterexample")
    passes = 0
    while not stop:
        # the first pass is always complete; then new random cases until the budget is used up
        for case in mod.cases(rng, o.tier):
            if passes and time.time() - t0 > o.budget or len(fails) >= 3:
                stop = True
                break
            if passes and json.dumps(case, sort_keys=True, default=str) in seen:
                continue
            one(case, "sample")
        passes += 1
        stop = stop or o.budget >= 1e9 or time.time() - t0 > o.budget
    res = dict(evaluations=n, distinct=len(seen), fails=fails, samples=samples, passes=passes, wall=time.time() - t0)
    txt = json.dumps(res, default=str)
    if o.out:
        open(o.out, "w").write(txt)
    else:
        print(json.dumps(dict(res, samples=None), indent=1, default=str)[:4000])


if __name__ == "__main__":
    main()
