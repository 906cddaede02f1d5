"""Runs one case of one check symbolically.  python -m symex.case CXX case tier out.json"""
from __future__ import annotations

import importlib
import json
import math
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

warnings.filterwarnings("ignore")

from . import engine
from .engine import Engine, Found, PathDead, Budget, STATS, SIGNS, NZ, z3
from . import alg, shim
from .alg import Sym, SymBool, Unsupported, TooBig, lift
from .harness import Symbolic, setup_path, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOAT_NOISE = 1e-12  # coefficients below this are rounding of float constants


def replay_batch(prop, case, params, inputs, timeout=300):
    """run the harness concretely on each input set, in a fresh process with
    unpatched libraries -> list of outcomes"""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "in.json")
        o = os.path.join(d, "out.json")
        json.dump({"property": prop, "case": case, "params": params, "inputs": inputs}, open(f, "w"))
        try:
            p = subprocess.run([sys.executable, "-B", "-m", "symex.replay", f, o], cwd=HERE, capture_output=True,
                               text=True, timeout=timeout)
            return json.load(open(o))
        except Exception as e:
            tail = ""
            try:
                tail = p.stderr[-800:]
            except Exception:
                pass
            return [{"outcome": "error", "detail": f"{e} {tail}"} for _ in inputs]


def replay_inputs(xs):
    """without duplicates"""
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


class Runner:
    def __init__(self, prop, case, tier, seed=1):
        self.prop, self.case, self.tier, self.seed = prop, case, tier, seed
        self.params = dict(case["params"])
        self.params.update(case.get(tier, {}))
        self.cands = []
        self.problems = []
        self.witness = []
        self.witnessed = 0
        self.asserts = 0
        self.functions = set()
        self.reached = 0
        self.samples = []
        self.timeout = case.get("timeout", 10000)
        alg.ROOTS[0] = case.get("roots", False)
        self.budget = case.get("budget", 240 if tier == "quick" else 900)
        self.t0 = time.time()

    # ---- proving
    def prove_eq(self, H, label, x, y):
        p = H.path
        try:
            x, y = shim.tosym(x), shim.tosym(y)
        except Unsupported:
            if x is None and y is None:
                return
            return self.structural(H, label, f"{x!r} / {y!r}")
        self.asserts += 1
        if H.tracing and len(H.trace) < 300:
            H.trace.append(x)
        if isinstance(x, float) or isinstance(y, float):
            if isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y)):
                STATS.by_normal_form += 1
                return
            return self.structural(H, label, f"{x!r} / {y!r}")
        d = x - y
        if p.zero(d):
            if x.is_const() and y.is_const():
                STATS.by_normal_form += 1
            elif self.confirm(p, x, y):
                STATS.by_search += 1
            else:
                STATS.by_normal_form += 1
            return
        if not d.den and all(abs(c) <= FLOAT_NOISE for c in d.num.values()):
            STATS.by_normal_form += 1  # rounding of float constants
            return
        # the residual goes to the solver
        try:
            num = p.reduce(d.num)
            dd = Sym(num)
        except TooBig:
            dd = d
        if not num_close_guard(p, d):
            pass
        goal = p.zsign(dd, NZ)
        self._decide(H, label, goal, p.closure(dd), lambda: abs(p.numeric(d)) > 1e-7 * (1e-3 + abs(p.numeric(x)) + abs(p.numeric(y))),
                     f"difference {alg.show(d, 4)}", lambda: abs(p.numeric(d)) / (1e-3 + abs(p.numeric(x)) + abs(p.numeric(y))))

    def confirm(self, p, x, y):
        """independent solver verdict on an equality the normal form closed:
        the two sides as encoded, cross-multiplied, before any cancellation"""
        if time.time() - self.t0 > 0.5 * self.budget:
            return False
        dx, dy = x.den, y.den
        size = len(x.num) + len(y.num)
        for i, e in dx + dy:
            size += len(p.atoms[i].arg)
        if size > 400:
            return False
        bits = max((int(c).bit_length() if not isinstance(c, Fraction) else c.denominator.bit_length()) for q in (x.num, y.num) for c in q.values())
        if bits > 600:
            return False
        need = {}
        for q in (x.num, y.num):
            for i, e in alg._pcontent(q):
                if e < 0:
                    need[i] = max(need.get(i, 0), -e)
        m = tuple(sorted(need.items()))
        X, Y = p.zpoly(alg.pmulm(x.num, m)), p.zpoly(alg.pmulm(y.num, m))
        for i, e in dy:
            for _ in range(e):
                X = X * p.zpoly(p.atoms[i].arg)
        for i, e in dx:
            for _ in range(e):
                Y = Y * p.zpoly(p.atoms[i].arg)
        clo = p.closure(x) | p.closure(y)
        cons = [X != Y] + p.definitions(sorted(clo))
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*cons)
        t = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        STATS.solver_s += time.time() - t
        if r == "unsat":
            STATS.q_unsat += 1
            return True
        STATS.confirm_open += 1
        return False

    def prove(self, H, label, c):
        p = H.path
        self.asserts += 1
        if isinstance(c, Sym):
            c = alg.compare("ne", c, 0)
        if not isinstance(c, SymBool):
            if bool(c):
                STATS.by_normal_form += 1
                return
            return self.structural(H, label, "condition is false")
        if c.op in engine.TRUE_SET:
            d, = c.args
            ps = p.possible(d)
            if ps <= engine.TRUE_SET[c.op]:
                STATS.by_normal_form += 1
                return
            # d may reduce to a constant
            if c.op != "lt" and p.zero(d):
                STATS.by_normal_form += 1
                return
        self._decide(H, label, z3.Not(p.zbool(c)), p.closure_b(c), lambda: not p.numeric_bool(c), "inequality")

    def _decide(self, H, label, goal, clo, numviol, detail, size=None):
        p = H.path
        st, model = p.solve([(goal, clo)])
        if st == "unsat":
            STATS.by_search += 1
            return
        if st == "unknown" and p.sign_saturate(goal, clo):
            STATS.by_search += 1
            return
        cands = []
        if self.sample_for(p, numviol):
            cands.append(p.model_inputs(None))
        if st == "sat":
            full, m2 = p.solve([(goal, clo)], all_pc=True)
            if full == "unsat":  # the rest of the path condition is inconsistent
                raise PathDead()
            if full == "sat" and m2 is not None:
                cands.append(p.model_inputs(m2))
            if model is not None:
                cands.append(p.model_inputs(model))
            # a comfortable model
            box = []
            for n, i in p.vars.items():
                if not p.atoms[i].dom:
                    z = p.zvar(i)
                    box += [(z <= 8, frozenset((i,))), (z >= -8, frozenset((i,))), (z3.Or(z >= z3.Q(1, 8), z <= -z3.Q(1, 8)), frozenset((i,)))]
            full, m2 = p.solve([(goal, clo)] + box, all_pc=True, timeout=4000)
            if full == "sat" and m2 is not None:
                cands.append(p.model_inputs(m2))
        elif not cands:
            self.problems.append({"kind": "unknown", "label": label, "detail": detail})
            return
        if size is not None:
            for c in list(cands):
                q = self.polish(p, c, size)
                if q is not None:
                    cands.append(q)
        units = [n for n, i in p.vars.items() if not p.atoms[i].dom]
        self.cands.append({"label": label, "detail": detail, "inputs": cands, "sat": st == "sat", "units": units})
        raise Found()

    def polish(self, p, inputs, size, limit=4.0):
        """move a counterexample, within its path, to where the two sides
        differ by more than rounding"""
        end = time.time() + limit
        keep = dict(p.sample)
        vs = [i for n, i in p.vars.items() if not (isinstance(p.atoms[i].dom, list))]
        for n, i in p.vars.items():
            if n in inputs:
                p.sample[i] = Fraction(inputs[n])

        def value():
            p.reset_numeric()
            p._sv = -1
            try:
                v = size() if p.sample_ok() else math.nan
            except (TypeError, ValueError, OverflowError, ZeroDivisionError):
                v = math.nan
            return v

        best = start = value()
        out = None
        if best == best:
            better = True
            while better and best < 0.05 and time.time() < end:
                better = False
                for i in vs:
                    s = p.atoms[i].sgn
                    v0 = p.sample[i]
                    mv = [v0 / 2, v0 / 16, v0 * 2, v0 * 16, v0 / 1024]
                    if s not in ("+", "-"):
                        mv.append(Fraction(0))
                    mv += [p.sample[j] for j in vs[:8] if j != i and (s is None or p.atoms[j].sgn == s)]
                    for v in mv:
                        if time.time() > end:
                            break
                        if v == v0:
                            continue
                        p.sample[i] = v
                        x = value()
                        if x == x and x > best * 1.05:
                            best, v0, better = x, v, True
                        else:
                            p.sample[i] = v0
                    p.sample[i] = v0
            if best > start * 1.05 or out is None and best == best and best > 1e-7:
                out = p.model_inputs(None)
        p.sample = keep
        p.reset_numeric()
        return out

    def sample_for(self, p, pred=None, tries=60):
        """find input values satisfying the path condition (and pred), by
        rejection; leaves them in p.sample"""
        base = dict(p.sample)
        rng = random.Random(self.seed * 7919 + 13)
        for k in range(tries):
            if k:
                for n, i in p.vars.items():
                    a = p.atoms[i]
                    if a.dom and isinstance(a.dom, list):
                        forced = p.forced_value(i)
                        p.sample[i] = Fraction(forced if forced is not None else rng.choice(a.dom))
                        continue
                    v = base[i]
                    s = rng.choice([Fraction(1, 4), Fraction(1, 2), 1, 1, 2, 3, 5])
                    v = abs(base[i]) * s + Fraction(rng.randint(-9, 9), 97)
                    if a.sgn == "+" or a.sgn == "0+":
                        v = abs(v) + Fraction(1, 50)
                    elif a.sgn in ("-", "0-"):
                        v = -abs(v) - Fraction(1, 50)
                    elif rng.random() < 0.5:
                        v = -v
                    p.sample[i] = v
            else:
                for n, i in p.vars.items():
                    a = p.atoms[i]
                    if a.dom and isinstance(a.dom, list):
                        forced = p.forced_value(i)
                        if forced is not None:
                            p.sample[i] = Fraction(forced)
            p.reset_numeric()
            p._sv = -1
            try:
                if p.sample_ok() and (pred is None or pred()):
                    return True
            except (TypeError, ValueError, OverflowError):
                pass
        p.sample = base
        p.reset_numeric()
        return False

    def structural(self, H, label, detail):
        """the property fails on this whole path"""
        p = H.path
        cands = []
        if self.sample_for(p):
            cands.append(p.model_inputs(None))
        st, m = p.solve([], all_pc=True)
        if st == "unsat":
            raise PathDead()
        if m is not None:
            cands.append(p.model_inputs(m))
        if not cands:
            cands.append(p.model_inputs(None))
        self.cands.append({"label": label, "detail": str(detail)[:500], "inputs": cands, "sat": st == "sat"})
        raise Found()

    # ---- one path
    def path_fn(self, p):
        H = Symbolic(p, self.params, self)
        fn = self.case["fn"]
        first = not self.functions
        if first:
            sys.setprofile(self._prof)
        try:
            fn(H)
        except (Found, PathDead, Budget):
            raise
        except (Unsupported, TooBig) as e:
            self._trouble(H, p, "unsupported", e)
            return
        except Exception as e:
            self._trouble(H, p, "exception", e)
            return
        finally:
            if first:
                sys.setprofile(None)
        self.finish(H, p)

    def _prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(REPO + os.sep) and not f.startswith("/repo_none"):
                self.functions.add(f"{os.path.relpath(f, REPO)}:{frame.f_code.co_qualname}")

    def _trouble(self, H, p, kind, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(tb[-6:]))
        ins = []
        if self.sample_for(p):
            ins.append(p.model_inputs(None))
        st, m = p.solve([], all_pc=True)
        if st == "unsat":
            raise PathDead()
        if m is not None:
            ins.append(p.model_inputs(m))
        self.cands.append({"label": kind, "detail": f"{type(e).__name__}: {str(e)[:300]} at {where}", "inputs": ins or [p.model_inputs(None)], "sat": False})
        raise Found()

    def finish(self, H, p):
        ok = self.sample_for(p, tries=25)
        ins = None
        if ok:
            ins = p.model_inputs(None)
        else:
            st, m = p.solve([], all_pc=True, timeout=3000)
            if st == "unsat":
                raise PathDead()
            if st == "sat" and m is not None:
                ins = p.model_inputs(m)
        if ins is not None:
            self.witnessed += 1
        if H.nchecks:
            self.reached += 1
        if ins is not None and len(self.witness) < self.case.get("validate", 6) and (ok or len(self.witness) < 3):
            tr = None
            if ok:
                tr = [p.numeric(x) for x in H.trace[:120]]
            self.witness.append({"inputs": ins, "trace": tr, "checks": H.nchecks, "sampled": ok})

    def _alarm(self, *_):
        raise Budget("time budget exhausted")

    def run(self):
        setup_path()
        shim.install()
        t0 = time.time()
        e = Engine(max_paths=self.case.get("max_paths", 600), budget=self.budget,
                   timeout=self.timeout, merge=self.case.get("merge", False), seed=self.seed)
        status = "held"

        def fn(p):
            try:
                self.path_fn(p)
            except Found:
                # stop the whole case once something was found
                if len(self.cands) >= 1:
                    p.pending = []
                    raise

        found = False
        # budget is looked at between branches; a single step may take longer
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.budget + 20, 15)
        try:
            e.explore(fn)
        except Found:
            found = True
        except Budget as b:
            self.problems.append({"kind": "budget", "label": "", "detail": str(b)})
            p = alg.CTX
            try:
                # where the unfinished path leads on the real code
                signal.setitimer(signal.ITIMER_REAL, 20, 5)
                if p is not None and not self.cands and self.sample_for(p, tries=10):
                    self.cands.append({"label": "unfinished", "detail": "witness of the unfinished path", "inputs": [p.model_inputs(None)], "sat": False})
            except (Budget, Exception):
                pass
        except Exception:
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise
        signal.setitimer(signal.ITIMER_REAL, 0)
        alg.CTX = None
        res = {"case": self.case["name"], "params": self.params, "violations": [], "problems": self.problems}
        ncand = 0
        for c in self.cands:
            outs = replay_batch(self.prop, self.case["name"], self.params, c["inputs"])
            ncand += len(outs)
            hit = None
            for i, o in enumerate(outs):
                if o["outcome"] == "violated":
                    hit = (i, o)
                    break
            if not hit and c.get("units"):
                # too small to see in these units: the same point in others
                more = []
                for x in c["inputs"][:2]:
                    for names in (c["units"], [n for n in c["units"] if "_" in n]):
                        for k in (10, 20, 27):
                            more.append({**{n: v * 2.0**-k if n in names else v for n, v in x.items()}, "__small": 1})
                more = replay_inputs(more)
                c["inputs"] = c["inputs"] + more
                outs = outs + replay_batch(self.prop, self.case["name"], self.params, more)
                ncand += len(more)
                for i, o in enumerate(outs):
                    if o["outcome"] == "violated":
                        hit = (i, o)
                        break
            if hit:
                res["violations"].append({"label": hit[1]["label"], "detail": hit[1]["detail"], "solver_label": c["label"],
                                          "solver_detail": c["detail"], "inputs": c["inputs"][hit[0]]})
            elif c["label"] != "unfinished":
                self.problems.append({"kind": "unreproduced" if c["label"] not in ("unsupported", "exception") else c["label"],
                                      "label": c["label"], "detail": c["detail"],
                                      "replays": [{k: (str(v)[:600]) for k, v in o.items() if k != "trace"} for o in outs],
                                      "inputs": c["inputs"][:1]})
        # validate the encoding: run witnesses of explored paths on the real code
        validated = 0
        mism = []
        if self.witness and not res["violations"]:
            outs = replay_batch(self.prop, self.case["name"], self.params, [w["inputs"] for w in self.witness])
            for w, o in zip(self.witness, outs):
                if o["outcome"] == "held":
                    validated += 1
                    if w["trace"] is not None:
                        for a, b in zip(w["trace"], o["trace"]):
                            if a is None or b is None or a != a and b != b:
                                continue
                            if not abs(a - b) <= 1e-5 * (1e-2 + abs(a) + abs(b)):
                                mism.append({"inputs": w["inputs"], "symbolic": a, "real": b})
                                break
                elif o["outcome"] == "violated" and w["sampled"] and o.get("gross", False):
                    res["violations"].append({"label": o["label"], "detail": o["detail"], "solver_label": "concrete witness of an explored path",
                                              "solver_detail": "", "inputs": w["inputs"]})
                elif o["outcome"] in ("violated", "error"):
                    mism.append({"inputs": w["inputs"], "outcome": {k: v for k, v in o.items() if k != "trace"}})
            if mism and not res["violations"]:
                hard = [m for m in mism if "symbolic" in m or m["outcome"]["outcome"] == "error"]
                if hard:
                    self.problems.append({"kind": "validation", "label": "encoding and real run differ", "detail": hard[0]})
        if not found and self.reached == 0:
            self.problems.append({"kind": "vacuous", "label": "", "detail": "no path reached an assertion"})
        if not found and self.witnessed == 0 and not any(pb["kind"] == "budget" for pb in self.problems):
            self.problems.append({"kind": "vacuous", "label": "", "detail": "no explored path has a confirmed witness"})
        res.update(paths=STATS.paths, infeasible=STATS.infeasible, branches=STATS.branches, asserts=self.asserts,
                   q_sat=STATS.q_sat, q_unsat=STATS.q_unsat, q_unknown=STATS.q_unknown, solver_s=round(STATS.solver_s, 3),
                   normal_form=STATS.by_normal_form, confirm_open=STATS.confirm_open, by_search=STATS.by_search, cvc5=STATS.cvc5,
                   unknown_feasible=STATS.unknown_feasible, max_pc=STATS.max_pc, witnessed=self.witnessed,
                   validated=validated, replayed=ncand, functions=sorted(self.functions), wall_s=round(time.time() - t0, 2),
                   sample_inputs=[w["inputs"] for w in self.witness[:2]])
        return res


def num_close_guard(p, d):
    return True


def load(prop):
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    mod = importlib.import_module("checks." + prop.lower())
    out = []
    for c in mod.CASES:  # "also": the same case with other sizes
        out.append(c)
        for i, q in enumerate(c.get("also", ()), 1):
            x = {k: v for k, v in c.items() if k not in ("also", "thorough", "quick")}
            out.append(dict(x, name=f"{c['name']}_also{i}", params=dict(c["params"], **q)))
    mod.CASES[:] = [dict({k: v for k, v in c.items() if k != "also"}) for c in out]
    return mod


def find_case(mod, name):
    for c in mod.CASES:
        if c["name"] == name:
            return c
    raise KeyError(name)


def main():
    prop, name, tier, out = sys.argv[1:5]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(prop)
    case = find_case(mod, name)
    sys.setrecursionlimit(20000)
    try:
        r = Runner(prop, case, tier, seed).run()
    except BaseException as e:
        r = {"case": name, "params": case["params"], "violations": [], "problems": [{"kind": "crash", "label": type(e).__name__, "detail": traceback.format_exc()[-1500:]}],
             "wall_s": 0}
    json.dump(r, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
