"""Symbolic Python numbers: the real Python code of /repo runs on these proxies.

SymReal wraps Fraction | z3 Real | float nan/inf (see domains.RealDomain); comparisons give
SymBool, whose truth value forks the path.  SymInt wraps z3 integers; `__index__`
concretises by solver-driven forking over every feasible value.
"""
import math
import numbers
from fractions import Fraction

import numpy as np

from . import explore as X
from .domains import RealDomain, is_nan
from .explore import EngineError, is_sym

z3 = X.z3
DOM = RealDomain()
TOKENS = None      # the active codec (float(SymReal) gives its token)
PI = None


def pi_val():
    """pi is the exact value of the double the code uses."""
    return Fraction(math.pi)


class SymBool:
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return X.ctx().branch(self.e)

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        return NotImplemented

    def __and__(self, o):
        b = self._b(o)
        if b is NotImplemented:
            return b
        return mkbool(z3.And(self.e, b)) if is_sym(self.e) or is_sym(b) else self.e and b
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        if b is NotImplemented:
            return b
        return mkbool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        if b is NotImplemented:
            return b
        return mkbool(z3.Xor(self.e, b if is_sym(b) else z3.BoolVal(b)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        b = self._b(o)
        if b is NotImplemented:
            return b
        return mkbool(self.e == (b if is_sym(b) else z3.BoolVal(b)))

    def __ne__(self, o):
        b = self._b(o)
        if b is NotImplemented:
            return b
        return mkbool(self.e != (b if is_sym(b) else z3.BoolVal(b)))

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + (o._i() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * (o._i() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return f'SymBool({self.e})'


def mkbool(e):
    if not is_sym(e):
        return bool(e)
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkreal(v):
    return SymReal(v)


def raw(v):
    """Python/numpy/proxy number -> domain value, or NotImplemented."""
    if isinstance(v, SymReal):
        return v.v
    if isinstance(v, SymInt):
        return z3.ToReal(v.e) if is_sym(v.e) else Fraction(v.e)
    if isinstance(v, SymBool):
        return raw(v._i())
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return raw(v.item() if v.dtype != object else v[()])
    if isinstance(v, (bool, int, np.integer, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f or f in (math.inf, -math.inf):
            return f
        if TOKENS is not None:
            return TOKENS.dec(f)
        return Fraction(f)
    if isinstance(v, Fraction):
        return v
    if is_sym(v):
        return z3.ToReal(v) if v.sort_kind() == z3.Z3_INT_SORT else v
    return NotImplemented


class SymReal:
    """Not registered as a numbers.Number subclass: numpy keeps it in object arrays."""
    __slots__ = ('v',)
    __array_priority__ = -1

    def __init__(self, v):
        self.v = v

    dtype = np.dtype(float)
    real = property(lambda s: s)
    imag = property(lambda s: SymReal(Fraction(0)))
    itemsize = 8
    shape = ()
    ndim = 0

    def conjugate(self):
        return self
    conj = conjugate

    def __hash__(self):
        return hash(str(self.v))

    def _bin(self, o, f, swap=False):
        w = raw(o)
        if w is NotImplemented:
            return NotImplemented
        return SymReal(f(w, self.v) if swap else f(self.v, w))

    def __add__(self, o):
        return self._bin(o, DOM.add)

    def __radd__(self, o):
        return self._bin(o, DOM.add, True)

    def __sub__(self, o):
        return self._bin(o, DOM.sub)

    def __rsub__(self, o):
        return self._bin(o, DOM.sub, True)

    def __mul__(self, o):
        return self._bin(o, DOM.mul)

    def __rmul__(self, o):
        return self._bin(o, DOM.mul, True)

    def __truediv__(self, o):
        return self._bin(o, DOM.div)

    def __rtruediv__(self, o):
        return self._bin(o, DOM.div, True)

    def __floordiv__(self, o):
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _floordiv, True)

    def __mod__(self, o):
        return self._bin(o, _mod)

    def __rmod__(self, o):
        return self._bin(o, _mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, n):
        w = raw(n)
        if w is NotImplemented:
            return w
        return SymReal(_pow(self.v, w))

    def __rpow__(self, b):
        w = raw(b)
        if w is NotImplemented:
            return w
        return SymReal(_pow(w, self.v))

    def __neg__(self):
        return SymReal(DOM.neg(self.v))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(DOM.abs(self.v))
    fabs = __abs__

    def _cmp(self, op, o):
        w = raw(o)
        if w is NotImplemented:
            return NotImplemented
        return mkbool(DOM.cmp(op, self.v, w))

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        return self._cmp('!=', o)

    def __bool__(self):
        return X.ctx().branch(DOM.cmp('!=', self.v, Fraction(0)))

    def __float__(self):
        if isinstance(self.v, float):
            return self.v
        if TOKENS is None:
            raise EngineError('float() of a symbolic real')
        return TOKENS.enc(self.v)

    def __int__(self):
        v = DOM.trunc(self.v)
        return X.ctx().concretize(v) if is_sym(v) else v
    __trunc__ = __int__

    def __floor__(self):
        return SymReal(DOM.fn('floor', [self.v]))

    def __ceil__(self):
        return SymReal(DOM.fn('ceil', [self.v]))

    def __round__(self, n=None):
        if n:
            raise EngineError('round with digits')
        return self.rint()

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def trunc(self):
        return SymReal(DOM.fn('trunc', [self.v]))

    def rint(self):
        """Round half to even."""
        if isinstance(self.v, float):
            return self
        f = DOM.floor(self.v)
        d = DOM.sub(self.v, DOM.from_int(f))
        h = Fraction(1, 2)
        c = X.ctx()
        if c.branch(DOM.cmp('<', d, h)):
            r = f
        elif c.branch(DOM.cmp('>', d, h)):
            r = f + 1
        else:
            even = (f % 2 == 0)
            r = f if c.branch(even) else f + 1
        return SymReal(DOM.from_int(r))

    def item(self):
        return self

    def astype(self, t):
        return self

    def copy(self):
        return self

    def sqrt(self):
        return SymReal(DOM.fn('sqrt', [self.v]))

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def degrees(self):
        return self * Fraction(180) / pi_val()
    rad2deg = degrees

    def radians(self):
        return self * pi_val() / Fraction(180)
    deg2rad = radians

    def arctan2(self, o):
        return SymReal(DOM.fn('atan2', [self.v, raw(o)]))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def log2(self):
        return SymReal(DOM.fn('log', [self.v])) / math.log(2)

    def log10(self):
        return SymReal(DOM.fn('log10', [self.v]))

    def expm1(self):
        return self.exp() - 1

    def sign(self):
        c = X.ctx()
        return SymReal(Fraction(DOM.sign_split(self.v)))

    def isnan(self):
        return is_nan(self.v)

    def isfinite(self):
        return not isinstance(self.v, float)

    def isinf(self):
        return isinstance(self.v, float) and not is_nan(self.v)

    def __repr__(self):
        return f'SymReal({self.v})'

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mkfn(numpy_name, fn):
    def f(self):
        return SymReal(DOM.fn(fn, [self.v]))
    setattr(SymReal, numpy_name, f)


for _a, _b in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('exp', 'exp'), ('log', 'log'),
               ('arctan', 'atan'), ('arccos', 'acos'), ('arcsin', 'asin')):
    _mkfn(_a, _b)


def _floordiv(a, b):
    q = DOM.div(a, b)
    if isinstance(q, float):
        return q
    return DOM.from_int(DOM.floor(q))


def _mod(a, b):
    q = _floordiv(a, b)
    if isinstance(q, float):
        return math.nan
    return DOM.sub(a, DOM.mul(q, b))


def _pow(a, n):
    if not is_sym(n) and not isinstance(n, float) and n.denominator == 1 and abs(n) <= 16:
        return DOM.fn('powi', [a, int(n)])
    if not is_sym(n) and not isinstance(n, float) and n == Fraction(1, 2):
        return DOM.fn('sqrt', [a])
    return DOM.fn('pow', [a, n])


class SymInt:
    __slots__ = ('e',)
    __array_priority__ = -1

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _raw(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, SymBool):
            return o._i().e
        if isinstance(o, (int, np.integer, bool, np.bool_)):
            return int(o)
        return NotImplemented

    def _bin(self, o, f, swap=False):
        w = self._raw(o)
        if w is NotImplemented:
            if isinstance(o, (float, Fraction, SymReal, np.floating)):
                return _REALOP[f](SymReal(raw(o)), SymReal(raw(self))) if swap else \
                    _REALOP[f](SymReal(raw(self)), SymReal(raw(o)))
            return NotImplemented
        a, b = (w, self.e) if swap else (self.e, w)
        return mkint(f(a, b))

    def __add__(self, o):
        return self._bin(o, _iadd)

    def __radd__(self, o):
        return self._bin(o, _iadd, True)

    def __sub__(self, o):
        return self._bin(o, _isub)

    def __rsub__(self, o):
        return self._bin(o, _isub, True)

    def __mul__(self, o):
        return self._bin(o, _imul)

    def __rmul__(self, o):
        return self._bin(o, _imul, True)

    def __floordiv__(self, o):
        return self._bin(o, _ifdiv)

    def __rfloordiv__(self, o):
        return self._bin(o, _ifdiv, True)

    def __mod__(self, o):
        return self._bin(o, _imod)

    def __rmod__(self, o):
        return self._bin(o, _imod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SymReal(DOM.div(raw(self), raw(o)))

    def __rtruediv__(self, o):
        return SymReal(DOM.div(raw(o), raw(self)))

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n):
        if isinstance(n, int) and 0 <= n < 10:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        return NotImplemented

    def _cmp(self, o, f, op):
        w = self._raw(o)
        if w is NotImplemented:
            if isinstance(o, (float, Fraction, SymReal, np.floating)):
                return SymReal(raw(self))._cmp(op, o)
            return NotImplemented
        return mkbool(f(self.e, w))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, '<')

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, '<=')

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, '>')

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, '>=')

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, '==')

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, '!=')

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return X.ctx().branch(self.e != 0)

    def __index__(self):
        return X.ctx().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return f'SymInt({self.e})'

    def __format__(self, spec):
        return repr(self)


def mkint(e):
    if not is_sym(e):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _iadd(a, b):
    return a + b


def _isub(a, b):
    return a - b


def _imul(a, b):
    return a * b


def _ifdiv(a, b):
    if not is_sym(b) and b == 0 or is_sym(b) and X.ctx().branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if not is_sym(a) and not is_sym(b):
        return a // b
    az = a if is_sym(a) else z3.IntVal(a)
    pos = X.ctx().branch(b > 0) if is_sym(b) else b > 0
    if pos:
        return az / b
    return (-az) / (-b)


def _imod(a, b):
    q = _ifdiv(a, b)
    return a - b * q


_REALOP = {_iadd: SymReal.__add__, _isub: SymReal.__sub__, _imul: SymReal.__mul__, _ifdiv: SymReal.__floordiv__,
           _imod: SymReal.__mod__}


# ---------------------------------------------------------------------------- tokens
class Codec:
    """Symbolic reals held in real float memory as unique tokens.

    A token is an integer in [2**22, 2**23), exactly representable in single and double
    precision; sums, differences, multiples and quotients of tokens are outside the range,
    so that a token can only have been *moved* by the Python code.
    """
    BASE = 1 << 22
    STRIDE = 2654435761 % (1 << 22) | 1

    def __init__(self, seed=0):
        self.n = 0
        self.off = (seed * 7919 + 12345) % self.BASE
        self.by_tok = {}
        self.by_id = {}
        self.keep = []

    def enc(self, v):
        """domain value -> python float"""
        if isinstance(v, float):
            return v
        if not is_sym(v):
            f = float(v)
            if abs(v) < (1 << 18) and Fraction(f) == v and Fraction(float(_f32(f))) == v:
                return f
            key = ('c', v)
        else:
            s = z3.simplify(v)
            if z3.is_rational_value(s):
                return self.enc(s.as_fraction())
            key = ('e', s.get_id())
            self.keep.append(s)
            v = s
        t = self.by_id.get(key)
        if t is None:
            t = float(self.BASE + (self.off + self.n * self.STRIDE) % self.BASE)
            self.n += 1
            self.by_id[key] = t
            self.by_tok[t] = v
        return t

    def dec(self, f):
        f = float(f)
        if f != f or f in (math.inf, -math.inf):
            return f
        v = self.by_tok.get(f)
        if v is not None:
            return v
        v = self.by_tok.get(-f)
        if v is not None:
            return -v
        return Fraction(f)

    # raw memory
    FMT = {('real', 4): 'f', ('real', 8): 'd', ('int', 1): 'b', ('int', 2): 'h', ('int', 4): 'i', ('int', 8): 'q'}

    def decode(self, b, t):
        import struct
        if t.k == 'real':
            return self.dec(struct.unpack(self.FMT['real', t.size], b)[0])
        if t.k in ('int', 'char'):
            n = t.size or 1
            return int.from_bytes(b, 'little', signed=t.signed)
        if t.k == 'logical':
            return any(b)
        raise EngineError(f'decoding raw memory as {t}')

    def encode(self, v, t):
        import struct
        if t.k == 'real' or isinstance(v, Fraction) or is_sym(v) and v.sort_kind() == z3.Z3_REAL_SORT:
            # (an integer type: the word of an atomic update carries a real)
            return struct.pack(self.FMT['real', t.size], self.enc(v))
        if t.k in ('int', 'char', 'logical'):
            if isinstance(v, bool) or (is_sym(v) and v.sort_kind() == z3.Z3_BOOL_SORT):
                v = int(X.ctx().branch(v))
            if is_sym(v):
                v = X.ctx().concretize(v)
            return int(v).to_bytes(t.size or 1, 'little', signed=v < 0 or t.signed)
        raise EngineError(f'encoding {t}')


def _f32(f):
    return np.float32(f) if abs(f) < 3e38 else f
