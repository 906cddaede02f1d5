"""Concrete replay: the same harness on the real, unpatched code.

python -m symex.replay FILE.json        prints what happens
python -m symex.replay IN.json OUT.json (batch, used by the checks)
"""
from __future__ import annotations

import contextlib
import io
import json
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")

from .harness import AssumeFailed, Concrete, Violation, setup_path


def run_small(case, params, inputs):
    """inputs in very small units: only relative differences count, and only
    those that are not rounding (stable under a perturbation of the inputs)"""
    runs = []
    for eps in (0, 3e-11, -7e-11):
        h = Concrete(params, {k: v * (1 + eps * (1 + i % 7)) if isinstance(v, float) and v != round(v) else v for i, (k, v) in enumerate(inputs.items())})
        h.soft = []
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                case["fn"](h)
        except AssumeFailed as e:
            return {"outcome": "assume", "detail": str(e)}
        except Violation:
            pass
        except Exception as e:
            return {"outcome": "error", "detail": f"{type(e).__name__}: {e}"[:300]}
        runs.append({k: (l, x, y) for k, l, x, y in h.soft})
    for k, (l, x, y) in runs[0].items():
        if all(k in r and abs((r[k][1] - r[k][2]) - (x - y)) <= 0.05 * abs(x - y) for r in runs[1:]):
            return {"outcome": "violated", "label": l, "detail": f"{x!r} / {y!r}"}
    return {"outcome": "held", "trace": [], "worst": 0, "checks": h.nchecks}


def run_one(case, params, inputs, rtol=None):
    if inputs.get("__small"):
        return run_small(case, params, inputs)
    kw = {}
    if case.get("rtol"):
        kw["rtol"] = case["rtol"]
    if case.get("atol"):
        kw["atol"] = case["atol"]
    if rtol is not None:
        kw["rtol"] = rtol
        kw["atol"] = rtol
    h = Concrete(params, inputs, **kw)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            case["fn"](h)
    except AssumeFailed as e:
        return {"outcome": "assume", "detail": str(e)}
    except Violation as e:
        return {"outcome": "violated", "label": e.label, "detail": str(e.detail)[:600]}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{x.filename.rsplit('/', 1)[-1]}:{x.lineno}" for x in reversed(tb[-5:]))
        return {"outcome": "violated", "label": "exception " + type(e).__name__, "detail": f"{str(e)[:300]} at {where}"}
    return {"outcome": "held", "trace": [None if x != x else x for x in h.trace[:150]], "worst": h.worst, "checks": h.nchecks}


def main():
    setup_path()
    from .case import load, find_case

    f = json.load(open(sys.argv[1]))
    case = find_case(load(f["property"]), f["case"])
    ins = f["inputs"] if isinstance(f["inputs"], list) else [f["inputs"]]
    outs = []
    for i in ins:
        o = run_one(case, f["params"], i)
        if o["outcome"] == "violated":
            g = run_one(case, f["params"], i, rtol=1e-3)
            o["gross"] = g["outcome"] == "violated"
        outs.append(o)
    if len(sys.argv) > 2:
        json.dump(outs, open(sys.argv[2], "w"), default=str)
        return
    for i, o in zip(ins, outs):
        o.pop("trace", None)
        print(json.dumps({"inputs": i, "result": o}, indent=1, default=str))
    sys.exit(1 if any(o["outcome"] == "violated" for o in outs) else 0)


if __name__ == "__main__":
    main()
