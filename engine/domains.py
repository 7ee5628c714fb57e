"""Scalar domains for reals: exact reals with NaN/inf specials, or IEEE floats."""
import math
from fractions import Fraction

from . import explore as X
from .explore import EngineError, is_sym

z3 = X.z3
NAN = float('nan')
INF = float('inf')


def is_nan(x):
    return isinstance(x, float) and x != x


def is_inf(x):
    return isinstance(x, float) and x in (INF, -INF)


def snap_const(f):
    """A constant that is the result of roundings: the 12 first digits."""
    if f.denominator < 1 << 20 and abs(f.numerator) < 1 << 40:
        return f
    return Fraction('%.12e' % float(f)) if abs(f) < 1e300 else f


def _coef(z):
    """k * term -> (k, term)"""
    s = snap(z3.simplify(z, som=True))
    if s.decl().kind() == z3.Z3_OP_MUL and s.num_args() == 2 and z3.is_rational_value(s.arg(0)):
        return s.arg(0).as_fraction(), s.arg(1)
    return Fraction(1), s


def _plain(a):
    """a term which is a constant -> a fraction"""
    if is_sym(a):
        s = z3.simplify(a, som=True)
        if z3.is_rational_value(s):
            return s.as_fraction()
    return a


def _noturn(a):
    """an angle without the integer multiples of the turn"""
    if not is_sym(a):
        return a
    s = z3.simplify(a, som=True)
    if s.decl().kind() != z3.Z3_OP_ADD:
        return a
    keep = []
    for m in s.children():
        if m.decl().kind() == z3.Z3_OP_MUL and m.num_args() == 2 and z3.is_rational_value(m.arg(0)) \
                and m.arg(1).decl().kind() == z3.Z3_OP_TO_REAL:
            k = m.arg(0).as_fraction() / Fraction(2 * math.pi)
            n = round(k)
            if n and abs(k - n) < Fraction(1, 10 ** 11) * abs(n):
                continue
        keep.append(m)
    return a if len(keep) == s.num_args() else z3.Sum(keep)


def snap(z):
    """Replace the ugly constants of a term by rounded ones: rounding differences of equivalent code."""
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        if z3.is_rational_value(t):
            f = t.as_fraction()
            g = snap_const(f)
            r = t if g == f else X.R(g)
        elif z3.is_app(t) and t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            ch = t.children()
            new = [go(x) for x in ch]
            r = t if all(a is b for a, b in zip(ch, new)) else t.decl()(*new)
            if r is not t and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
                r = new[0]
                for x in new[1:]:
                    r = r + x if t.decl().kind() == z3.Z3_OP_ADD else r * x
        else:
            r = t
        cache[k] = r
        return r
    return go(z)


class RealDomain:
    """Fraction | z3 Real | float('nan'|'inf'|'-inf')."""
    name = 'real'

    def isreal(self, v):
        return isinstance(v, (Fraction, float)) or (is_sym(v) and v.sort_kind() == z3.Z3_REAL_SORT)

    def const(self, v, size=8):
        if isinstance(v, float):
            if v != v or v in (INF, -INF):
                return v
            return Fraction(v)
        return Fraction(v)

    def convert(self, v, size):
        return v

    def from_int(self, v, size=8):
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int):
            return Fraction(v)
        return z3.ToReal(v)

    def neg(self, a):
        if isinstance(a, float):
            return -a
        return -a

    def add(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            return fa + fb
        if not is_sym(a) and not is_sym(b):
            return a + b
        if not is_sym(a):
            if a == 0:
                return b
            a = X.R(a)
        if not is_sym(b):
            if b == 0:
                return a
            b = X.R(b)
        return a + b

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def sign_split(self, a):
        """-1, 0, 1 of a finite value, forking."""
        if not is_sym(a):
            return (a > 0) - (a < 0)
        c = X.ctx()
        if c.branch(a > 0):
            return 1
        return 0 if c.branch(a == 0) else -1

    def mul(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if is_nan(a) or is_nan(b):
                return NAN
            sa = (1 if a > 0 else -1) if isinstance(a, float) else self.sign_split(a)
            sb = (1 if b > 0 else -1) if isinstance(b, float) else self.sign_split(b)
            s = sa * sb
            return NAN if s == 0 else (INF if s > 0 else -INF)
        if not is_sym(a) and not is_sym(b):
            return a * b
        for u, v in ((a, b), (b, a)):
            if not is_sym(u):
                if u == 0:
                    return Fraction(0)
                if u == 1:
                    return v
                return X.R(u) * v
        for u, v in ((a, b), (b, a)):
            # (n / d) * d = n: `div` has split on d = 0
            n, d = X.ctx()._quot.get(u.get_id(), (None, None))[:2]
            if n is not None and z3.is_false(z3.simplify(d != v, som=True)):
                return n
        if getattr(X.ctx(), 'abstract', False):
            # products of two terms as an uninterpreted commutative function
            (k, u), (l, v) = _coef(a), _coef(b)
            u, v = sorted((u, v), key=lambda z: z.get_id())
            return X.R(k * l) * self.uf('mul', [u, v])
        return a * b

    def div(self, a, b):
        if is_nan(a) or is_nan(b):
            return NAN
        if is_inf(b):
            return NAN if is_inf(a) else Fraction(0)
        if is_inf(a):
            s = self.sign_split(b)
            return a if s >= 0 else -a
        zero = X.ctx().branch(b == 0) if is_sym(b) else b == 0
        if zero:
            s = self.sign_split(a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        if not is_sym(a) and not is_sym(b):
            return a / b
        if is_sym(b):
            n, d = X.ctx()._quot.get(b.get_id(), (None, None))[:2]
            if d is not None:          # a / (n / d), n is not zero
                return self.div(self.mul(a, d), n)
        if is_sym(b) and getattr(X.ctx(), 'abstract', False):
            return self.uf('div', [a, b])
        if not is_sym(a):
            if a == 0:
                return Fraction(0)
            r = X.R(a) / b
            X.ctx()._quot[z3.simplify(r).get_id()] = X.ctx()._quot[r.get_id()] = a, b, r, z3.simplify(r)
            return r
        if not is_sym(b):
            return a * X.R(1 / b)
        r = a / b
        X.ctx()._quot[z3.simplify(r).get_id()] = X.ctx()._quot[r.get_id()] = a, b, r, z3.simplify(r)
        return r

    def abs(self, a):
        if is_sym(a):
            if getattr(X.ctx(), 'split_abs', False):
                return a if X.ctx().branch(a >= 0) else -a
            return z3.If(a >= 0, a, -a)
        return abs(a)

    def cmp(self, op, a, b):
        if is_nan(a) or is_nan(b):
            return op in ('!=', 'u<', 'u>', 'u<=', 'u>=', 'unord', 'u==')
        if op == 'ord':
            return True
        if op == 'unord':
            return False
        op = {'u<': '<', 'u>': '>', 'u<=': '<=', 'u>=': '>=', 'u==': '==', '<>': '!='}.get(op, op)
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            a, b = fa, fb
        elif is_sym(a) or is_sym(b):
            a, b = X.R(a), X.R(b)
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        raise EngineError(f'real comparison {op}')

    def minmax(self, mx, a, b):
        if is_nan(a):
            return b
        if is_nan(b):
            return a
        c = self.cmp('>=' if mx else '<=', a, b)
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, float) or isinstance(b, float):
            return a if X.ctx().branch(c) else b
        return z3.If(c, X.R(a), X.R(b))

    def trunc(self, a):
        """to int, toward zero"""
        if isinstance(a, float):
            X.ctx().check(False, 'side:conversion of NaN or infinity to an integer')
            raise X.PathAbort()
        if not is_sym(a):
            return math.trunc(a)
        if X.ctx().branch(a >= 0):
            return z3.ToInt(a)
        return -z3.ToInt(-a)

    def nint(self, a):
        if isinstance(a, float):
            X.ctx().check(False, 'side:conversion of NaN or infinity to an integer')
            raise X.PathAbort()
        h = Fraction(1, 2)
        if not is_sym(a):
            return math.floor(a + h) if a >= 0 else -math.floor(-a + h)
        if X.ctx().branch(a >= 0):
            return z3.ToInt(a + X.R(h))
        return -z3.ToInt(-a + X.R(h))

    def floor(self, a):
        if not is_sym(a):
            return math.floor(a)
        return z3.ToInt(a)

    def uf(self, name, args):
        """An uninterpreted application, made functional, with axioms."""
        c = X.ctx()
        from . import laurent
        zargs = [snap(z3.simplify(X.R(a), som=True)) for a in args]
        if name not in ('mul', 'div'):
            zargs = [snap(z3.simplify(laurent.normal(a), som=True)) if laurent.has_div(a) else a for a in zargs]
        # a fixed point of simplify: terms are simplified at other places
        zargs = [z3.simplify(a, som=True) for a in zargs]
        key = (name,) + tuple(z.get_id() for z in zargs)
        if key in c._uf:
            return c._uf[key][0]
        if name not in ('mul', 'div'):
            # the same application, up to the rounding of the constants
            form = c.__dict__.setdefault('_form', laurent.Form())
            for zs, v in c.uf_apps.get(name, ())[:100]:
                if all(laurent.same(form, x, y, Fraction(1, 10 ** 11)) for x, y in zip(zs, zargs)):
                    c._uf[key] = (v, zargs)
                    return v
        f = z3.Function('u_' + name, *([z3.RealSort()] * (len(args) + 1)))
        v = f(*zargs)
        c._uf[key] = (v, zargs)
        c.uf_apps.setdefault(name, []).append((zargs, v))
        return v

    def fn(self, name, args, size=8):
        c = X.ctx()
        if name in ('sqrt', 'sqrtf'):
            a, = args
            if isinstance(a, float):
                return NAN if a != a or a < 0 else a
            if not is_sym(a):
                if a < 0:
                    return NAN
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    return Fraction(n, d)
                a = X.R(a)
            elif c.branch(a < 0):
                return NAN
            s = self.uf('sqrt', [a])
            c.assume(z3.And(s >= 0, s * s == a) if not getattr(c, 'abstract', False) else s >= 0)
            return s
        if name in ('fabs', 'fabsf'):
            return self.abs(args[0])
        if name in ('fmod', 'fmodf'):
            a, b = args
            if isinstance(a, float) or is_nan(b):
                return NAN
            q = self.div(a, b)
            if isinstance(q, float):
                return NAN
            t = self.trunc(q)
            return self.sub(a, self.mul(self.from_int(t), b))
        if name in ('powi',):
            a, n = args
            n = c.concretize(n) if is_sym(n) else n
            if n < 0:
                return self.div(Fraction(1), self.fn('powi', [a, -n]))
            r = Fraction(1)
            for _ in range(n):
                r = self.mul(r, a)
            return r
        if name in ('floor', 'floorf'):
            if isinstance(args[0], float):
                return args[0]
            return self.from_int(self.floor(args[0]))
        if name in ('ceil', 'ceilf'):
            if isinstance(args[0], float):
                return args[0]
            f = self.floor(self.neg(args[0]))
            return self.neg(self.from_int(f))
        if name in ('trunc', 'truncf'):
            return self.from_int(self.trunc(args[0]))
        if name in ('round', 'roundf'):
            return self.from_int(self.nint(args[0]))
        if name in ('copysign', 'copysignf'):
            a, b = args
            a = self.abs(a)
            return a if self.sign_split(b) >= 0 else self.neg(a)
        if name in ('expm1', 'log1p'):
            if name == 'expm1':
                return self.sub(self.fn('exp', args), Fraction(1))
            return self.fn('log', [self.add(args[0], Fraction(1))])
        base = name[:-1] if name.endswith('f') and name[:-1] in (
            'cos', 'sin', 'tan', 'exp', 'log', 'atan', 'acos', 'asin', 'atan2', 'sinh', 'cosh', 'log10', 'pow') else name
        if base in ('cos', 'sin', 'tan', 'exp', 'log', 'atan', 'acos', 'asin', 'atan2', 'log10', 'pow'):
            if any(isinstance(a, float) for a in args):
                if any(is_nan(a) for a in args):
                    return NAN
                if base == 'exp':
                    return INF if args[0] > 0 else Fraction(0)
                if base in ('acos', 'asin', 'cos', 'sin', 'tan'):
                    return NAN
                raise EngineError(f'{name} of infinity')
            args = [_plain(a) for a in args]
            if base in ('cos', 'sin', 'tan'):
                args = [_noturn(a) for a in args]
            if base == 'exp' and not is_sym(args[0]) and args[0] == 0:
                return Fraction(1)
            if base in ('cos', 'sin', 'tan', 'atan', 'asin') and not is_sym(args[0]) and args[0] == 0:
                return Fraction(1 if base == 'cos' else 0)
            if base in ('cos', 'sin') and not is_sym(args[0]):
                # multiples of the right angle
                n = round(args[0] / Fraction(math.pi / 2))
                if n and abs(n) <= 8 and abs(args[0] - n * Fraction(math.pi / 2)) < Fraction(1, 10**14):
                    return Fraction((0, 1, 0, -1)[n % 4] if base == 'sin' else (1, 0, -1, 0)[n % 4])
            if base in ('atan', 'acos', 'asin', 'atan2', 'log', 'log10') and not any(is_sym(a) for a in args):
                return Fraction(getattr(math, base)(*[float(a) for a in args]))
            if base == 'acos':
                a = X.R(args[0])
                if c.branch(z3.Or(a > 1, a < -1)):
                    return NAN
            if base in ('cos', 'sin') and is_sym(args[0]):
                # even and odd functions
                m = snap(z3.simplify(X.R(args[0]), som=True))
                for (z,), r in c.uf_apps.get(base, ()):
                    if X.is_zero(z3.simplify(z + m, som=True)):
                        return r if base == 'cos' else -r
            if base == 'atan2' and not is_sym(args[0]) and args[0] == 0 and is_sym(args[1]):
                return Fraction(0) if c.branch(X.R(args[1]) >= 0) else Fraction(math.pi)
            v = self.uf(base, args)
            if base == 'acos':
                pi = X.R(Fraction(math.pi))
                c.assume(z3.And(v >= 0, v <= pi, (v == 0) == (a == 1), (v == pi) == (a == -1)))
            if base == 'atan2':
                pi = X.R(Fraction(math.pi))
                c.assume(z3.And(v >= -pi, v <= pi))
                if getattr(c, 'atan2_polar', False):
                    # the polar angle: (y, x) = r (sin v, cos v)
                    y, x = args
                    r = self.fn('sqrt', [self.add(self.mul(x, x), self.mul(y, y))])
                    c.assume(z3.And(X.R(self.mul(r, self.fn('cos', [v]))) == X.R(x), X.R(self.mul(r, self.fn('sin', [v]))) == X.R(y)))
            if base in ('cos', 'sin'):
                o = self.uf('sin' if base == 'cos' else 'cos', args)
                if not getattr(c, 'abstract', False):
                    c.assume(v * v + o * o == 1)
                if getattr(c, 'angle_zero', False) and is_sym(args[0]):
                    cos, sin = (v, o) if base == 'cos' else (o, v)
                    c.assume(z3.Implies(X.R(args[0]) == 0, z3.And(X.R(cos) == 1, X.R(sin) == 0)))
            if base == 'exp':
                a = X.R(args[0])
                c.assume(z3.And(v > 0, v >= 1 + a, (a < 0) == (v < 1), (a == 0) == (v == 1)))
            return v
        raise EngineError(f'math function {name}')


class FPDomain:
    """IEEE-754 values (z3 floating-point terms), round to nearest even."""
    name = 'ieee'

    def __init__(self):
        self.rm = z3.RNE()

    def sort(self, size):
        return z3.Float64() if size == 8 else z3.Float32()

    def isreal(self, v):
        return is_sym(v) and v.sort_kind() == z3.Z3_FLOATING_POINT_SORT

    def const(self, v, size=8):
        if isinstance(v, float):
            return z3.FPVal(v, self.sort(size))
        return z3.FPVal(float(v), self.sort(size))

    def _s(self, e):
        return z3.simplify(e)

    def convert(self, v, size):
        if v.sort() == self.sort(size):
            return v
        return self._s(z3.fpFPToFP(self.rm, v, self.sort(size)))

    def from_int(self, v, size=8):
        if isinstance(v, (bool, int)):
            return z3.FPVal(int(v), self.sort(size))
        raise EngineError('symbolic integer to float in the IEEE domain')

    def neg(self, a):
        return self._s(z3.fpNeg(a))

    def add(self, a, b):
        return self._s(z3.fpAdd(self.rm, a, b))

    def sub(self, a, b):
        return self._s(z3.fpSub(self.rm, a, b))

    def mul(self, a, b):
        return self._s(z3.fpMul(self.rm, a, b))

    def div(self, a, b):
        return self._s(z3.fpDiv(self.rm, a, b))

    def abs(self, a):
        return self._s(z3.fpAbs(a))

    def cmp(self, op, a, b):
        if op == '!=':
            r = z3.Not(z3.fpEQ(a, b))
        elif op == 'ord':
            r = z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)))
        elif op == 'unord':
            r = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        elif op in ('u<', 'u<=', 'u>', 'u>='):
            r = z3.Not(self.cmp({'u<': '>=', 'u<=': '>', 'u>': '<=', 'u>=': '<'}[op], a, b))
        else:
            r = {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ}[op](a, b)
        r = z3.simplify(r)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def minmax(self, mx, a, b):
        return z3.If(self.cmp('>=' if mx else '<=', a, b), a, b)

    def _toint(self, rm, a, bits=32):
        c = X.ctx()
        lo, hi = -(2 ** (bits - 1)), 2 ** (bits - 1) - 1
        r = z3.fpRoundToIntegral(rm, a)
        ok = z3.And(z3.Not(z3.fpIsNaN(a)), z3.fpLEQ(r, z3.FPVal(float(hi), a.sort())),
                    z3.fpGEQ(r, z3.FPVal(float(lo), a.sort())))
        c.check(ok, 'side:float to integer conversion out of range')
        return FPInt(r)

    def fn(self, name, args, size=8):
        a = args[0]
        if name in ('sqrt', 'sqrtf'):
            return z3.fpSqrt(self.rm, a)
        if name in ('floor', 'floorf'):
            return z3.fpRoundToIntegral(z3.RTN(), a)
        if name in ('ceil', 'ceilf'):
            return z3.fpRoundToIntegral(z3.RTP(), a)
        if name in ('trunc', 'truncf'):
            return z3.fpRoundToIntegral(z3.RTZ(), a)
        if name in ('fabs', 'fabsf'):
            return z3.fpAbs(a)
        raise EngineError(f'{name} in the IEEE domain')


class FPInt:
    """An integer held as an integral floating-point value (result of a conversion)."""

    def __init__(self, r):
        self.r = r
