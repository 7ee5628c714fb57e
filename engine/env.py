"""Environments a harness runs in: symbolic (solver) or concrete (replay on the real build)."""
import json
import math
import os
import random
from fractions import Fraction

import numpy as np

from .explore_lite import PathAbort, EngineError


class Violated(Exception):
    pass


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(_flat(v))
        return out
    return [x]


def _untiny(z3, X, a, b):
    """a - b without the monomials that are differences of rounded constants, or None."""
    d = z3.simplify(a - b, som=True)
    ch = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
    keep, n = [], 0
    for m in ch:
        k = m if z3.is_rational_value(m) else m.arg(0) if m.decl().kind() == z3.Z3_OP_MUL else None
        if k is not None and z3.is_rational_value(k):
            f = k.as_fraction()
            if 0 < abs(f) < Fraction(1, 10 ** 9) and f.denominator > 1 << 40:
                n += 1
                continue
        keep.append(m)
    if not n:
        return None
    return z3.Sum(keep) if keep else X.R(0)


class ConEnv:
    """Concrete replay: the values come from a model, the code under test is the real build."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.nchecks = 0
        self.mod = math

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))
    symint = int

    def real(self, name):
        v = self._get(name, 0)
        return float(v)

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, name, options):
        i = int(self._get(name + '?', 0))
        return list(options)[i]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise PathAbort()

    def arr(self, values, dtype=float):
        return np.array(values, dtype)

    def oarr(self, values):
        return np.array(values, float)

    def f(self, value):
        """a NumPy scalar"""
        return np.float64(value)

    def vals(self, x):
        return [v if isinstance(v, (bool, np.bool_, int, np.integer)) else float(v) for v in _flat(x)]

    def val(self, x):
        return self.vals(x)[0]

    def threads(self, n):
        pass

    def true(self, cond, label, detail=''):
        self.nchecks += 1
        if not bool(cond):
            raise Violated(f'{label} {detail}')

    def eq(self, got, want, label, tol=1e-6):
        got, want = self.vals(got), self.vals(want)
        self.true(len(got) == len(want), label, f'lengths {len(got)} != {len(want)}')
        for i, (g, w) in enumerate(zip(got, want)):
            self.nchecks += 1
            g, w = float(g), float(w)
            if g != g and w != w or g == w:
                continue
            if not abs(g - w) <= tol * (1 + abs(g) + abs(w)):
                raise Violated(f'{label}[{i}]: got {g!r}, expected {w!r}')

    def close(self, got, want, label, tol=1e-6):
        self.eq(got, want, label, max(tol, 1e-6))

    def le(self, a, b, label, tol=1e-6):
        for i, (g, w) in enumerate(zip(self.vals(a), self.vals(b))):
            self.nchecks += 1
            if not g <= w + tol * (1 + abs(g) + abs(w)):
                raise Violated(f'{label}[{i}]: {g!r} > {w!r}')

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def fn(self, name, *a):
        return getattr(math, name)(*a)

    def const(self, x):
        return x

    def fail(self, label, detail=''):
        raise Violated(f'{label} {detail}')

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.nchecks += 1
            return
        raise Violated(f'{label}: no exception')


class SymEnv:
    """Symbolic run under an explore.Ctx."""
    symbolic = True

    def __init__(self, ctx):
        from . import shim, sym
        self.c = ctx
        self.sym = sym
        self.shim = shim
        self.codec = sym.Codec()
        sym.TOKENS = self.codec
        shim.State.codec = self.codec
        shim.State.nthreads = 1
        shim.State.symbolic_results = False
        ctx.prefer = [self._pref_small]
        self.reals = []

    def _pref_small(self, c, extra):
        out = []
        for i, r in enumerate(self.reals):
            out += [r >= -9, r <= 9]
        return out

    def int(self, name, lo=None, hi=None):
        return self.c.concretize(self.c.int(name, lo, hi))

    def symint(self, name, lo=None, hi=None):
        return self.sym.mkint(self.c.int(name, lo, hi))

    def real(self, name):
        v = self.c.real(name)
        self.reals.append(v)
        return self.sym.SymReal(v)

    def bool(self, name):
        return self.c.branch(self.c.bool(name))

    def choose(self, name, options):
        options = list(options)
        v = self.c.int(name + '?', 0, len(options) - 1)
        i = self.c.concretize(v)
        self.c.record(name, str(options[i]))
        return options[i]

    def assume(self, cond):
        if isinstance(cond, self.sym.SymBool):
            self.c.assume_checked(cond.e)
        else:
            from .explore import is_sym
            self.c.assume_checked(cond) if is_sym(cond) else self.c.assume(bool(cond))

    def arr(self, values, dtype=float):
        a = np.array(values, dtype=object)
        dt = np.dtype(dtype)
        out = np.empty(a.shape, dt)
        for i in np.ndindex(*a.shape):
            out[i] = float(a[i]) if dt.kind == 'f' else a[i]
        return out

    def f(self, value):
        return np.float64(float(value))

    def oarr(self, values):
        a = np.array(values, dtype=object)
        out = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            out[i] = v if isinstance(v, self.sym.SymReal) else self.sym.SymReal(self.sym.raw(v))
        return out

    def vals(self, x):
        out = []
        for v in _flat(x):
            if isinstance(v, (self.sym.SymReal, self.sym.SymInt, self.sym.SymBool, bool, np.bool_)):
                out.append(v)
            elif isinstance(v, (int, np.integer)):
                out.append(int(v))
            elif isinstance(v, (float, np.floating)):
                out.append(self.sym.SymReal(self.codec.dec(float(v))))
            elif isinstance(v, Fraction):
                out.append(self.sym.SymReal(v))
            else:
                raise EngineError(f'value {v!r}')
        return out

    def val(self, x):
        return self.vals(x)[0]

    def threads(self, n):
        self.shim.State.nthreads = n

    def true(self, cond, label, detail=''):
        if isinstance(cond, self.sym.SymBool):
            cond = cond.e
        elif not isinstance(cond, bool):
            from .explore import is_sym
            if not is_sym(cond):
                cond = bool(cond)
        ok = self.c.check(cond, label, str(detail))
        if not ok:
            raise PathAbort()

    def eq(self, got, want, label, tol=1e-6):
        from . import explore as X, laurent
        got, want = self.vals(got), self.vals(want)
        self.true(len(got) == len(want), label, f'lengths {len(got)} != {len(want)}')
        z3 = X.z3
        for i, (g, w) in enumerate(zip(got, want)):
            a, b = self.sym.raw(g), self.sym.raw(w)
            lab = f'{label}[{i}]'
            if isinstance(a, float) or isinstance(b, float):
                same = isinstance(a, float) and isinstance(b, float) and (a == b or a != a and b != b)
                self.true(same, lab, f'{a} != {b}')
                continue
            if not X.is_sym(a) and not X.is_sym(b):
                if a != b and abs(a - b) <= Fraction(1, 10 ** 9) * (1 + abs(a) + abs(b)):
                    # constants: the code rounds, the reference does not
                    self.c.stats.checks += 1
                    continue
                self.true(a == b, lab, f'{a} != {b}')
                continue
            a, b = X.R(a), X.R(b)
            d = _untiny(z3, X, a, b)
            if d is not None:
                a, b = d, X.R(0)
            elif laurent.reducible(a - b) and laurent.equal(a, b):
                a, b = X.R(0), X.R(0)
            old = self.c.prefer
            sep = z3.Or(a - b >= X.R(Fraction(1, 4)), b - a >= X.R(Fraction(1, 4)))
            self.c.prefer = [lambda c, e: self._pref_small(c, e) + [sep], lambda c, e: [sep]] + list(old)
            try:
                self.true(a == b, lab)
            finally:
                self.c.prefer = old

    def close(self, got, want, label, tol=1e-6):
        """|got - want| <= tol, for bounded values: constants are rounded by the code"""
        got, want = self.vals(got), self.vals(want)
        self.true(len(got) == len(want), label, f'lengths {len(got)} != {len(want)}')
        z3 = self.sym.X.z3
        R = self.sym.X.R
        t = R(Fraction(tol))
        for i, (g, w) in enumerate(zip(got, want)):
            a, b = R(self.sym.raw(g)), R(self.sym.raw(w))
            self.true(z3.And(a - b <= t, b - a <= t), f'{label}[{i}]')

    def le(self, a, b, label, tol=1e-6):
        for i, (g, w) in enumerate(zip(self.vals(a), self.vals(b))):
            self.true(g <= w, f'{label}[{i}]')

    def ite(self, c, a, b):
        if isinstance(c, self.sym.SymBool):
            from . import explore as X
            return self.sym.SymReal(X.z3.If(c.e, X.R(self.sym.raw(a)), X.R(self.sym.raw(b))))
        return a if c else b

    def sqrt(self, x):
        return x.sqrt()

    def fn(self, name, *a):
        return self.sym.SymReal(self.sym.DOM.fn(name, [self.sym.raw(v) for v in a]))

    def const(self, x):
        return self.sym.SymReal(self.sym.raw(x))

    def fail(self, label, detail=''):
        self.true(False, label, detail)

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.true(True, label)
            return
        self.true(False, f'{label}: no exception')
