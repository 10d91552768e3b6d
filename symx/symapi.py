"""The harness interface in its symbolic version, and the driver of one job."""
import importlib
import json
import re
import os
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from . import loader
from . import poly as P
from . import shim_np as SN
from . import symstr as SS
from .api import ALPHABET, NUMBER, SkipCase, flat_numbers, Violation, char_kind, encode, _flat
from .engine import Cond, Sym, SymBool, as_cond, cand, cnot, cor, mk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"


class PathViolation(E.EngineStop):
    pass


class Symbolic:
    symbolic = True

    def __init__(self, job):
        self.job = job
        self.ctx = job.ctx
        self.observed = []

    # -- inputs
    def _range(self, v, lo, hi):
        if lo is not None:
            self.ctx.assume(as_cond(v >= lo))
        if hi is not None:
            self.ctx.assume(as_cond(v <= hi))
        return v

    def real(self, name, lo=None, hi=None):
        new = name not in self.ctx.byname
        v = self.ctx.named(name)
        return self._range(v, lo, hi) if new else v

    def int(self, name, lo=None, hi=None):
        new = name not in self.ctx.byname
        v = self.ctx.named(name, integer=True)
        return self._range(v, lo, hi) if new else v

    def bool(self, name):
        return bool(E.concretize(self.int(name, 0, 1)))

    def choice(self, name, options):
        return options[E.concretize(self.int(name, 0, len(options) - 1))]

    def vec(self, name, n, **k):
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = self.real(f"{name}{i}", **k)
        return a.view(SN.SymArray)

    def mat(self, name, m, n, **k):
        a = np.empty((m, n), dtype=object)
        for i in range(m):
            for j in range(n):
                a[i, j] = self.real(f"{name}{i}_{j}", **k)
        return a.view(SN.SymArray)

    def array(self, x):
        return SN.sarr(np.array(SN.plain(x), dtype=object))

    def num(self, x):
        return Sym.lift(x)

    def text(self, name, n, like=None):
        if like is not None:
            return SS.SymStr([self.int(f"{name}{i}", 0, len(ALPHABET) - 1) if c == "?" else c for i, c in enumerate(like)])
        return SS.SymStr([self.int(f"{name}{i}", 0, len(ALPHABET) - 1) for i in range(n)])

    def char_is(self, text, i, kind):
        return SS.member(text.c[i], SS.where(char_kind(kind), kind))

    def digit(self, text, i):
        return SS.digit_value(text.c[i])

    def chars(self, text):
        """Its characters; a digit that depends on the inputs as the digit's value."""
        return [c if isinstance(c, str) else c - 48 for c in SS.SymStr.of(text).c]

    def same_text(self, a, b):
        a = SS.SymStr.of(a)
        return False if a is None else a.same(b)

    def shows(self, text, values):
        """Condition: the numbers shown in a text are these, in order (arrays by their entries)."""
        if not isinstance(text, str) or "<symbolic" in text:
            return True                    # numbers put into the text one by one: judged on the real code only
        got = []
        for a, number in re.findall(r"<array:(\d+)>|" + NUMBER, text):
            got += E.CTX().shown[int(a)] if a else [Fraction(number)]
        want = flat_numbers(values)
        if len(got) != len(want):
            return False
        return cand([as_cond(Sym.lift(u) == Sym.lift(v)) for u, v in zip(got, want)])

    def define(self, c):
        return SS.define(as_cond(c))

    def mod(self, name):
        return importlib.import_module(name)

    def name(self, ident):
        return ident

    # -- conditions
    def _c(self, a, b, op):
        a = a if isinstance(a, SymBool) else Sym.lift(a)
        b = b if isinstance(b, SymBool) else Sym.lift(b)
        if a is None or b is None:
            return False
        if isinstance(a, float) and isinstance(b, float):
            return {"<": a < b, "<=": a <= b, "==": a == b}[op]
        if isinstance(a, float):
            return as_cond(b._cmp(a, {"<": ">", "<=": ">=", "==": "=="}[op]))
        return as_cond(a._cmp(b, op))

    def eq(self, a, b):
        if not SN.has_sym(a) and not SN.has_sym(b) and (E.to_fraction(a) is None or E.to_fraction(b) is None):
            return bool(a == b)
        return self._c(a, b, "==")

    def ne(self, a, b):
        return cnot(self.eq(a, b))

    def lt(self, a, b):
        return self._c(a, b, "<")

    def le(self, a, b):
        return self._c(a, b, "<=")

    def gt(self, a, b):
        return self._c(b, a, "<")

    def ge(self, a, b):
        return self._c(b, a, "<=")

    def truth(self, x):
        return as_cond(x)

    def Not(self, a):
        return cnot(as_cond(a))

    def And(self, *cs):
        return cand([as_cond(c) for c in _flat(cs)])

    def Or(self, *cs):
        return cor([as_cond(c) for c in _flat(cs)])

    def Implies(self, a, b):
        return cor([cnot(as_cond(a)), as_cond(b)])

    def Iff(self, a, b):
        a, b = as_cond(a), as_cond(b)
        return cand([cor([cnot(a), b]), cor([a, cnot(b)])])

    def is_int(self, x):
        x = Sym.lift(x)
        if x.k is not None:
            return Fraction(x.k).denominator == 1
        return as_cond(x == E.floor(x))

    def unsure(self, c):
        return False

    def holds(self, c):
        return self.ctx.decide(as_cond(c)) if not isinstance(c, bool) else c

    # -- effects
    def assume(self, c):
        self.ctx.assume(as_cond(c))

    def check(self, c, label):
        self.job.check(as_cond(c), label)

    def fail(self, label, detail=""):
        self.job.check(False, label)

    def call(self, fn, *args, raises=(), **kw):
        try:
            return "ok", fn(*args, **kw)
        except raises as e:
            return "raise", e

    def observe(self, name, value):
        self.observed.append((name, value))

    def as_float(self, x):
        return x

    def some_choices(self, free, pattern):
        """Of the choices drawn from the random source, only the `free` ones are arbitrary; choice k of n is pattern(k, n)."""
        E.CTX().memo["choice_pattern"] = (set(free), pattern)

    def plot_calls(self):
        return loader.PLOT.calls


def _sym_encode(v, model):
    if isinstance(v, SymBool):
        r = v.c.eval(model)
        if r is None:
            raise E.Unsupported("observe")
        return r
    if isinstance(v, Sym):
        s = v.res()
        n = P.peval(s.n, model)
        d = P.peval(s.d, model) if s.d else 1
        if n is None or d is None or d == 0:
            raise E.Unsupported("observe")
        return float(Fraction(n) / d)
    if isinstance(v, SS.SymStr):
        return "".join(c if isinstance(c, str) else ALPHABET[int(P.peval(c.n, model))] for c in v.c)
    if isinstance(v, np.ndarray):
        return _sym_encode(v.view(np.ndarray).tolist() if v.dtype == object else v.tolist(), model)
    if isinstance(v, (list, tuple)):
        return [_sym_encode(x, model) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((_sym_encode(x, model) for x in v), key=str)
    if isinstance(v, dict):
        return sorted(([_sym_encode(k, model), _sym_encode(x, model)] for k, x in v.items()), key=str)
    return encode(v)


class Wall(E.Budget):
    pass


def _on_alarm(*_):
    raise Wall()


class Job:
    """One harness with fixed parameters, explored completely (or up to the first reproduced violation)."""
    stop_first = False

    def __init__(self, prop, case, tier, seed, deadline):
        self.prop = prop
        self.case = case
        self.tier = tier
        self.seed = seed
        self.deadline = deadline
        o = self.opts = case.get("opts", {})
        self.ctx = E.Context(timeout_ms=o.get("timeout_ms", 20000),
                             max_decisions=o.get("max_decisions", 600),
                             exact_tol=o.get("exact_tol", False), nonlinear=o.get("nonlinear", False))
        self.labels = {}
        self.violations = []
        self.unreproduced = []
        self.inconclusive = []
        self.samples = []
        self.functions = set()
        self.max_samples = o.get("samples", 12)
        self.tried = 0
        self.failed_labels = {}

    # -- checks
    def check(self, c, label):
        st = self.ctx.stats
        st.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if c is True:
            st.trivial_checks += 1
            return
        if c is False:
            self.candidate([], label)
            raise PathViolation()
        neg = cnot(c)
        r, m = self.ctx.query([neg])
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.inconclusive.append(f"{label}: solver gave no answer")
            return
        self.candidate([neg], label, m)
        raise PathViolation()

    def nice_model(self, extra, budget_s=6.0, want=None):
        """Models of the path and the extra conditions with simple values, best first."""
        ctx = self.ctx
        t0 = time.time()
        out = []
        s = ctx.solver
        for margin in (Fraction(1, 4), Fraction(1, 64), None):
            if time.time() - t0 > budget_s:
                break
            zm = z3.RealVal(str(margin)) if margin else None
            cons = [c.z3(ctx, zm) for c in list(ctx.cons) + list(extra)]
            if margin is None:
                cons = [c.z3(ctx) for c in extra]
            s.set("timeout", 1500 if margin else 8000)
            s.push()
            try:
                for c in cons:
                    s.add(c)
                r = s.check()
                m = ctx.extract(s.model()) if r == z3.sat else None
                if r == z3.sat and m is None:
                    m = self._algebraic(s.model())
                if m is None:
                    if r != z3.unsat:
                        r, m = ctx._escalate(cons, 3000)
                    if m is None:
                        continue
                for i in list(ctx.inputs.values()):
                    if time.time() - t0 > budget_s:
                        break
                    v = Fraction(m[i])
                    cands = []
                    for k in (Fraction(round(v)), Fraction(round(v * 2), 2), Fraction(round(v * 4), 4)):
                        if k not in cands and abs(k) < 50:
                            cands.append(k)
                    for k in (0, 1, -1, 2, 3, -2, 5):
                        if abs(v) >= 50 or v.denominator > 4:
                            if Fraction(k) not in cands:
                                cands.append(Fraction(k))
                    done = False
                    for k in cands:
                        e = ctx.zvars[i] == z3.RealVal(str(k))
                        if k == v:
                            s.add(e)
                            done = True
                            break
                        s.set("timeout", 700)
                        s.push()
                        s.add(e)
                        if s.check() == z3.sat:
                            m2 = ctx.extract(s.model())
                            s.pop()
                            if m2 is None:
                                continue
                            m = m2
                            s.add(e)
                            done = True
                            break
                        s.pop()
                    if not done:
                        pass
                out.append(m)
                if want and len(out) >= want:
                    break
            finally:
                s.pop()
                s.set("timeout", ctx.timeout_ms)
        return out

    def _algebraic(self, model):
        """Approximate an algebraic model by rationals (only used to look for replays)."""
        ctx = self.ctx
        out = {}
        for i, (name, integer) in enumerate(ctx.vars[:len(ctx.names)]):
            e = ctx.zvars[i].arg(0) if integer else ctx.zvars[i]
            v = model.eval(e, model_completion=True)
            if z3.is_int_value(v):
                out[i] = v.as_long()
            elif z3.is_rational_value(v):
                out[i] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                out[i] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                return None
        return out

    def values(self, model):
        return {n: str(Fraction(model.get(i, 0))) for n, i in self.ctx.inputs.items()}

    def item(self, model):
        return {"prop": self.prop, "fn": self.case["fn"], "params": self.case.get("params", {}),
                "values": self.values(model), "opts": {k: v for k, v in self.opts.items()
                                                         if k in ("tol", "random", "plot")}}

    def candidate(self, extra, label, model=None):
        n = self.failed_labels.get(label, 0)
        self.failed_labels[label] = n + 1
        if self.violations or n >= 6:
            if not self.violations:
                self.unreproduced.append({"label": label, "more": True})
            return
        models = self.nice_model(extra)
        if model is not None:
            models.append(model)
        seen = []
        last = None
        for m in models:
            it = self.item(m)
            if it["values"] in seen:
                continue
            seen.append(it["values"])
            r = replay_one(it)
            last = r
            if r["status"] == "violation" and not r.get("harness_error"):
                it["label"] = r["label"]
                it["symbolic_label"] = label
                it["detail"] = r["detail"]
                it["case"] = self.case["name"]
                self.violations.append(it)
                self.ctx.halt = self.stop_first
                return
        self.unreproduced.append({"label": label, "values": seen, "last": last})

    # -- running
    def run(self):
        t0 = time.time()
        mod = importlib.import_module("props." + self.prop)
        loader.install(getattr(mod, "TEXTS", False))
        fn = getattr(mod, self.case["fn"])
        params = self.case.get("params", {})
        if hasattr(mod, "decode"):
            params = mod.decode(params)
        first = [True]
        wall = self.opts.get("path_wall", 60)

        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if c.co_filename.startswith(loader.REPO):
                    self.functions.add(os.path.relpath(c.co_filename, loader.REPO) + ":" + c.co_qualname)

        def body():
            api = self.api = Symbolic(self)
            loader.PLOT.calls.clear()
            if first[0] or self.ctx.stats.paths % 25 == 0:
                sys.setprofile(prof)
            signal.setitimer(signal.ITIMER_REAL, wall)
            try:
                fn(api, **params)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.setprofile(None)
                first[0] = False

        def on_path(kind, val):
            if kind == "ok":
                self.sample()
            elif kind == "stop" and isinstance(val, PathViolation):
                pass
            elif kind == "exception":
                if isinstance(val, (Violation,)):
                    self.candidate([], val.label)
                    return
                lab = f"unexpected {type(val).__name__}: {val}"
                self.tb = "".join(traceback.format_exception(val)[-4:])
                self.candidate([], lab)
                if self.unreproduced and not self.violations:
                    self.unreproduced[-1]["tb"] = self.tb
            elif kind == "budget":
                lab = "does not terminate within the decision budget"
                n = len(self.unreproduced)
                self.candidate([], lab)
                if len(self.unreproduced) > n:
                    # the real code terminates on these inputs: the path was merely too expensive
                    del self.unreproduced[n:]
                    self.inconclusive.append("path left undecided: over its time or decision budget")
            elif kind == "unsupported":
                self.inconclusive.append(f"unsupported: {val}" + "".join(traceback.format_tb(val.__traceback__)[-2:]))
            else:
                self.inconclusive.append(f"path ended with {type(val).__name__}")

        signal.signal(signal.SIGALRM, _on_alarm)
        old = sys.getrecursionlimit()
        complete = False
        err = None
        try:
            try:
                complete = self.ctx.explore(_catch_exit(body), self.deadline, on_path,
                                            self.opts.get("max_paths"))
            except BaseException as e:
                err = "".join(traceback.format_exception(e)[-6:])
        finally:
            sys.setrecursionlimit(old)
        st = self.ctx.stats
        return {
            "case": self.case["name"], "complete": complete, "error": err, "paths": st.paths,
            "decisions": st.decisions, "queries": st.queries, "unknown": st.unknown,
            "solver_s": round(st.solver_s, 3), "checks": st.checks, "trivial": st.trivial_checks,
            "aborted": st.aborted, "labels": self.labels, "violations": self.violations,
            "unreproduced": self.unreproduced, "inconclusive": self.inconclusive,
            "samples": self.samples, "functions": sorted(self.functions),
            "wall_s": round(time.time() - t0, 3)}

    def sample(self):
        if len(self.samples) >= self.max_samples:
            return
        # thin out: keep sampling sparse on large trees
        n = self.ctx.stats.paths
        if n > 6 and n % (1 + n // 6):
            return
        ms = self.nice_model([], budget_s=1.0, want=1)
        if not ms:
            return
        m = ms[0]
        try:
            obs = [[n, _sym_encode(v, m)] for n, v in self.api.observed]
        except E.EngineStop:
            return
        self.samples.append({"item": self.item(m), "observed": obs})


def _catch_exit(f):
    def g():
        try:
            return f()
        except SystemExit as e:
            raise RuntimeError("the code under test called exit()") from e
        except SkipCase:
            raise E.PathInfeasible()
    return g


def replay_one(item):
    return replay_batch([item])[0]


def replay_batch(items, timeout=None):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_NOEXEC="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    t = timeout or (180 + 12 * min(len(items), 8))
    try:
        p = subprocess.run([VENV, os.path.join(HERE, "replay.py"), "--batch"], input=json.dumps(items),
                           capture_output=True, text=True, timeout=t, env=env)
        return json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        if len(items) == 1:
            return [{"status": "violation", "label": "does not terminate", "detail": "", "observed": [], "labels": []}]
        return [{"status": "error", "label": "batch timed out", "detail": "", "observed": [], "labels": []}] * len(items)
    except json.JSONDecodeError:
        crash = {"status": "error", "label": "replay crashed", "detail": p.stderr[-800:], "observed": [], "labels": []}
        if len(items) == 1 and p.returncode < 0:
            crash["status"] = "violation"
            crash["label"] = f"interpreter died with signal {-p.returncode}"
        return [crash] * len(items)
