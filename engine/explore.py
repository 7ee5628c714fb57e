"""Path-forking symbolic execution core shared by the two engines.

A harness is a Python callable run once per feasible path.  `Ctx.branch` asks the SMT
solver which outcomes of a symbolic condition are feasible under the current path
condition; when both are, the path forks (by re-execution from a decision prefix).
`Ctx.check` is an assertion: the solver must show it for every value of the symbolic
variables on the path, otherwise a counterexample (a model) is recorded.
"""
import math
import os
import sys
import time
from fractions import Fraction

sys.setrecursionlimit(100000)


def _import_z3():
    try:
        import z3  # noqa
    except ImportError:
        here = os.path.dirname(os.path.abspath(__file__))
        link = os.path.join(os.path.dirname(here), '.build', 'z3path')
        sys.path.append(link)
        import z3  # noqa
    return z3


z3 = _import_z3()


from .explore_lite import EngineError, PathAbort  # noqa: E402


class CounterExample:
    def __init__(self, label, values, detail=''):
        self.label = label
        self.values = values
        self.detail = detail

    def __repr__(self):
        return f'<CE {self.label} {self.values} {self.detail}>'


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.checks = 0
        self.checks_solver = 0
        self.solver_s = 0.0
        self.steps = 0

    def add(self, o):
        for k, v in o.as_dict().items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        return dict(self.__dict__)


CURRENT = None


def ctx():
    return CURRENT


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def val_to_py(v):
    """z3 value -> python (int, Fraction, bool, float)."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_bv_value(v):
        return v.as_signed_long()
    if z3.is_fp_value(v):
        if v.isNaN():
            return float('nan')
        if v.isInf():
            return float('-inf') if v.isNegative() else float('inf')
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        m = z3.simplify(z3.fpToReal(v))
        return float(m.as_fraction())
    if z3.is_app_of(v, z3.Z3_OP_TO_INT) and z3.is_algebraic_value(v.arg(0)):
        return math.floor(v.arg(0).approx(30).as_fraction())
    raise EngineError(f'cannot convert model value {v}')


class Ctx:
    def __init__(self, prefix=(), timeout_ms=60000, stats=None, deadline=None, maxdec=4000):
        self.prefix = list(prefix)
        self.decisions = []          # list of (kind, choice, data)
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.pc = []
        self.inputs = {}             # name -> z3 const or python value
        self.stats = stats or Stats()
        self.deadline = deadline
        self.maxdec = maxdec
        self.fresh_n = 0
        self.side = []               # side obligations (BoolRef that must hold, label)
        self.ces = []
        self.notes = []
        self.prefer = []             # soft preferences for nice models
        self._uf = {}
        self._quot = {}
        self.uf_apps = {}
        self.want_ce = True

    # -- variables ---------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return v

    def fp(self, name, size=8):
        v = z3.FP(name, z3.Float64() if size == 8 else z3.Float32())
        self.inputs[name] = v
        return v

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const(f'{base}!{self.fresh_n}', sort)

    def record(self, name, value):
        """Record a per-path value (concrete or symbolic) to report with a model."""
        self.inputs[name] = value

    # -- solver ------------------------------------------------------------
    def _check(self, *extra, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise EngineError('deadline reached: inconclusive')
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # retry non incrementally (nlsat and the full tactic pipeline)
            for mk in (z3.Solver, lambda: z3.Tactic('qfnra-nlsat').solver()):
                try:
                    s = mk()
                    s.set('timeout', self.timeout_ms)
                    s.add(*self.pc)
                    s.add(*extra)
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r != z3.unknown:
                    if r == z3.sat:
                        self._last_model = s.model()
                    break
        elif r == z3.sat:
            self._last_model = None
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        return r

    def _model(self):
        return self._last_model if self._last_model is not None else self.solver.model()

    def _add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        if not is_sym(cond):
            if not cond:
                raise PathAbort()
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self._add(c)

    def assume_checked(self, cond):
        self.assume(cond)
        if self._check() == z3.unsat:
            raise PathAbort()

    def branch(self, cond, label=''):
        if isinstance(cond, bool):
            return cond
        if not is_sym(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.decisions)
        if k < len(self.prefix):
            choice = self.prefix[k][0]
            self.decisions.append(self.prefix[k])
            self._add(c if choice else z3.simplify(z3.Not(c)))
            return choice
        if k >= self.maxdec:
            raise EngineError('too many decisions on one path: bound hit')
        n = z3.simplify(z3.Not(c))
        rt = self._check(c)
        if rt == z3.unsat:
            self._add(n)
            self.decisions.append((False, None))
            return False
        rf = self._check(n)
        if rf == z3.unsat:
            self._add(c)
            self.decisions.append((True, None))
            return True
        if rt == z3.unknown or rf == z3.unknown:
            # keep both sides: over-approximates feasibility, sound for proofs
            self.notes.append('unknown feasibility kept')
        self.pending.append(self.decisions + [(False, None)])
        self.decisions.append((True, None))
        self._add(c)
        return True

    def concretize(self, e):
        """Fork over every feasible value of an integer expression."""
        if not is_sym(e):
            return e
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            k = len(self.decisions)
            n += 1
            if n > 400:
                raise EngineError('too many values when concretising an integer')
            if k < len(self.prefix):
                choice, v = self.prefix[k]
                self.decisions.append(self.prefix[k])
                if v is None:
                    raise EngineError('non-deterministic replay')
            else:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise EngineError('unknown while concretising')
                v = val_to_py(self._model().eval(e, model_completion=True))
                rf = self._check(e != v)
                choice = True
                if rf != z3.unsat:
                    self.pending.append(self.decisions + [(False, v)])
                self.decisions.append((True, v))
            if choice:
                self._add(e == v)
                return v
            self._add(e != v)

    def choose(self, name, options):
        """A symbolic choice among a finite list (a configuration variable)."""
        options = list(options)
        v = self.int(name, 0, len(options) - 1)
        i = self.concretize(v)
        self.record(name, options[i])
        return options[i]

    # -- obligations -------------------------------------------------------
    def check(self, cond, label, detail=''):
        """Assert: the solver must prove cond on this path."""
        self.stats.checks += 1
        if not is_sym(cond):
            if cond:
                return True
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise EngineError(f'unknown path feasibility at {label}')
            self._record_ce(label, detail, [])
            return False
        n = z3.simplify(z3.Not(cond), som=True)
        if z3.is_false(n):
            self.stats.checks_solver += 1
            return True
        self.stats.checks_solver += 1
        r = self._check(n)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            raise EngineError(f'solver answered unknown for {label}')
        self._record_ce(label, detail, [n])
        return False

    def _record_ce(self, label, detail, extra):
        m = self._model()
        # try for a nicer model
        for pref in self.prefer:
            try:
                p = pref(self, extra) if callable(pref) else pref
                if p is not None and self._check(*(list(extra) + list(p))) == z3.sat:
                    m = self._model()
                    break
            except EngineError:
                break
        else:
            if self.prefer and extra:
                if self._check(*extra) == z3.sat:
                    m = self._model()
        ce = CounterExample(label, self.extract(m), detail)
        ce.alts = self._alternatives(extra)
        self.ces.append(ce)

    def _alternatives(self, extra, n=4):
        """More models of the same counterexample (random nice reals): the replay of a model
        that leans on an uninterpreted function may not reproduce, another one does."""
        import random
        rnd = random.Random(7)
        reals = [v for v in self.inputs.values() if is_sym(v) and v.sort_kind() == z3.Z3_REAL_SORT]
        out = []
        if not reals:
            return out
        for _ in range(n):
            cs = list(extra)
            for r in reals:
                q = Fraction(rnd.choice([-1, 1]) * rnd.randint(3, 60), 16)
                cs.append(r == X_Q(q))
            try:
                t = self.timeout_ms
                if self._check(*cs) == z3.sat:
                    out.append(self.extract(self._model()))
            except EngineError:
                break
        return out

    def extract(self, m):
        out = {}
        for k, v in self.inputs.items():
            if is_sym(v):
                out[k] = val_to_py(m.eval(v, model_completion=True))
            else:
                out[k] = v
        return out

    def flush_side(self):
        """Discharge the collected side obligations (overflow, ...)."""
        if not self.side:
            return
        todo = self.side
        self.side = []
        self.stats.checks += 1
        bad = z3.Or(*[z3.Not(c) for c, _ in todo]) if len(todo) > 1 else z3.Not(todo[0][0])
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            return
        self.stats.checks_solver += 1
        r = self._check(bad)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise EngineError('solver answered unknown for the side obligations')
        for c, lab in todo:
            if self._check(z3.Not(c)) == z3.sat:
                self._record_ce('side:' + lab, '', [z3.Not(c)])
                break


class Result:
    def __init__(self):
        self.stats = Stats()
        self.ces = []
        self.notes = set()
        self.completed = 0
        self.sample = None


def explore(harness, *, timeout_ms=60000, deadline=None, max_paths=200000, stop_on_ce=True,
            max_ces=8, cfg=()):
    """Run harness(ctx, *cfg) over all feasible paths."""
    global CURRENT
    res = Result()
    stack = [[]]
    while stack:
        prefix = stack.pop()
        if res.stats.paths >= max_paths:
            raise EngineError(f'more than {max_paths} paths: bound hit')
        c = Ctx(prefix, timeout_ms, res.stats, deadline)
        old, CURRENT = CURRENT, c
        try:
            c.stats.paths += 1
            harness(c, *cfg)
            c.flush_side()
            if res.completed == 0 or res.sample is None:
                # reachability witness: the end of the harness is feasible
                r = c._check()
                if r == z3.sat:
                    res.sample = {k: v for k, v in c.extract(c._model()).items()}
            res.completed += 1
        except PathAbort:
            c.stats.aborted += 1
        except EngineError:
            # findings made before the engine gave up are kept
            if c.ces or res.ces:
                res.ces.extend(c.ces)
                res.notes.add('engine gave up after a finding')
                return res
            raise
        except Exception as e:
            # an exception the harness did not expect: a finding, if the path is feasible
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if tb[-1].filename.startswith(os.path.dirname(os.path.abspath(__file__))) and \
                    type(e).__name__ != 'F2pyError' and not getattr(e, 'genuine', False) and \
                    not isinstance(e, ZeroDivisionError):
                raise EngineError(f'{type(e).__name__} in the engine: {e} '
                                  f'at {tb[-1].filename}:{tb[-1].lineno}') from e
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[::-1][:5])
            try:
                c.check(False, f'exception:{type(e).__name__}', f'{e} at {where}')
            except PathAbort:
                pass
        finally:
            CURRENT = old
        stack.extend(c.pending)
        res.notes.update(c.notes)
        res.ces.extend(c.ces)
        if stop_on_ce and len(res.ces) >= max_ces:
            break
    return res


def X_Q(f):
    return z3.Q(f.numerator, f.denominator)


def R(x):
    """Exact z3 rational from a python number."""
    if is_sym(x):
        return x
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def is_zero(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == 0
