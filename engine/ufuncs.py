"""Symbolic arithmetic inside NumPy: the inner loops of the float ufuncs are replaced.

Floating-point arrays hold tokens (see sym.Codec).  When a harness asks for it (option
`ufunc`), the float32/float64 inner loops of NumPy's ufuncs and the arithmetic slots of
np.float64/np.float32 scalars decode the tokens, compute with sym.DOM (exact reals, z3 terms) and
store tokens; comparisons fork the path.  Whatever the Python code under test does with plain
arrays is thereby executed symbolically, without knowing how it is written.
"""
import ctypes as C
import math
import re
import struct
from fractions import Fraction

import sys

import numpy as np

from . import explore as X
from . import sym
from .explore import EngineError, is_sym

DOM = sym.DOM
PENDING = None
ACTIVE = False
_keep = []
_done = False


class Interrupted(BaseException):
    """Raised asynchronously in the Python code after an exception in an inner loop."""


def _raise_later(e):
    global PENDING
    if PENDING is None:
        PENDING = e


_set_async = C.PyDLL(None).PyThreadState_SetAsyncExc
_set_async.argtypes = [C.c_ulong, C.py_object]


class _Fire:
    """`FIRE[thread] = exception class`, as the last statement of a callback, interrupts the
    caller: a subscript assignment is not an evaluation point where the callback itself would be."""
    __setitem__ = _set_async


FIRE = _Fire()


def _tid():
    import threading
    return threading.get_ident()


TID = _tid()


def start():
    global ACTIVE, PENDING, TID
    TID = _tid()
    PENDING = None
    ACTIVE = True


def stop():
    """Deactivate; raise what an inner loop could not."""
    global ACTIVE, PENDING
    ACTIVE = False
    e, PENDING = PENDING, None
    if e is not None:
        C.pythonapi.PyThreadState_SetAsyncExc(C.c_ulong(TID), None)
        raise e


# ------------------------------------------------------------------ scalar operations
def dec(f):
    return sym.TOKENS.dec(f)


def enc(v):
    if isinstance(v, float):
        return v
    if not is_sym(v):
        f = float(v)
        if f == v and not 4194304 <= abs(f) < 8388608:
            return f
    return sym.TOKENS.enc(v)


def _b(c):
    if isinstance(c, bool):
        return c
    return X.ctx().branch(c)


def _real(f):
    return lambda *a: f(*a)


def _S(f):
    """from a function of SymReal"""
    return lambda *a: f(*[sym.SymReal(v) for v in a]).v


def _integral(f):
    """floor, ceil...: the result is an integer, forked over its values"""
    def g(a):
        if isinstance(a, float):
            return a
        if not is_sym(a):
            return Fraction(f(a))
        r = DOM.fn({math.floor: 'floor', math.ceil: 'ceil', math.trunc: 'trunc'}[f], [a])
        if getattr(X.ctx(), 'floors', False):
            return r
        return _conc(r)
    return g


def _conc(r):
    if not is_sym(r):
        return r
    z = X.z3
    i = z.simplify(z.ToInt(r))
    if z.is_int_value(i):
        return Fraction(i.as_long())
    return Fraction(X.ctx().concretize(i))


def _rint(a):
    return _conc(sym.SymReal(a).rint().v)


def _nz(a):
    return DOM.cmp('!=', a, Fraction(0))


def _nan(a):
    return isinstance(a, float) and a != a


def _mm(mx, nanwins):
    def f(a, b):
        if _nan(a) or _nan(b):
            if nanwins:
                return math.nan
            return b if _nan(a) else a
        return DOM.minmax(mx, a, b)
    return f


def _trap(name):
    def f(*a):
        raise EngineError(f'NumPy function {name} on symbolic values')
    return f


_K = Fraction(math.pi) / 180
_LN2 = Fraction(math.log(2))


def _fn(name):
    return lambda *a: DOM.fn(name, list(a))


def _unit(name):
    """a function with an exact special value at some constants, otherwise uninterpreted"""
    def f(a):
        if not is_sym(a) and not isinstance(a, float):
            r = getattr(math, name)(float(a))
            if r in (0.0, 1.0) and a in (0, 1):
                return Fraction(int(r))
        return DOM.fn(name, [a])
    return f


def _sign(a):
    if _nan(a):
        return a
    return Fraction(DOM.sign_split(a))


def _cbrt(a):
    raise EngineError('cbrt')


def _log1p(a):
    return DOM.fn('log', [DOM.add(Fraction(1), a)])


def _expm1(a):
    return DOM.sub(DOM.fn('exp', [a]), Fraction(1))


REAL = {
    'add': DOM.add, 'subtract': DOM.sub, 'multiply': DOM.mul, 'divide': DOM.div, 'true_divide': DOM.div,
    'floor_divide': sym._floordiv, 'remainder': sym._mod, 'mod': sym._mod, 'fmod': _fn('fmod'),
    'power': sym._pow, 'float_power': sym._pow, 'negative': DOM.neg, 'positive': lambda a: a,
    'absolute': DOM.abs, 'fabs': DOM.abs, 'square': lambda a: DOM.mul(a, a), 'conjugate': lambda a: a,
    'reciprocal': lambda a: DOM.div(Fraction(1), a), 'sqrt': _fn('sqrt'), 'cos': _unit('cos'), 'sin': _unit('sin'),
    'tan': _unit('tan'), 'exp': _unit('exp'), 'log': _fn('log'), 'log10': _fn('log10'), 'arctan': _unit('atan'),
    'arcsin': _unit('asin'), 'arccos': _fn('acos'), 'arctan2': _fn('atan2'),
    'log2': lambda a: DOM.div(DOM.fn('log', [a]), _LN2), 'expm1': _expm1, 'log1p': _log1p,
    'hypot': lambda a, b: DOM.fn('sqrt', [DOM.add(DOM.mul(a, a), DOM.mul(b, b))]),
    'radians': lambda a: DOM.mul(a, _K), 'deg2rad': lambda a: DOM.mul(a, _K),
    'degrees': lambda a: DOM.mul(a, 1 / _K), 'rad2deg': lambda a: DOM.mul(a, 1 / _K),
    'floor': _integral(math.floor), 'ceil': _integral(math.ceil), 'trunc': _integral(math.trunc), 'rint': _rint,
    'sign': _sign, 'maximum': _mm(True, True), 'minimum': _mm(False, True), 'fmax': _mm(True, False),
    'fmin': _mm(False, False), 'copysign': _fn('copysign'), 'cbrt': _cbrt,
}
BOOL = {
    'equal': lambda a, b: _b(DOM.cmp('==', a, b)), 'not_equal': lambda a, b: _b(DOM.cmp('!=', a, b)),
    'less': lambda a, b: _b(DOM.cmp('<', a, b)), 'less_equal': lambda a, b: _b(DOM.cmp('<=', a, b)),
    'greater': lambda a, b: _b(DOM.cmp('>', a, b)), 'greater_equal': lambda a, b: _b(DOM.cmp('>=', a, b)),
    'logical_and': lambda a, b: _b(_nz(a)) and _b(_nz(b)), 'logical_or': lambda a, b: _b(_nz(a)) or _b(_nz(b)),
    'logical_xor': lambda a, b: _b(_nz(a)) != _b(_nz(b)), 'logical_not': lambda a: not _b(_nz(a)),
    'isnan': _nan, 'isfinite': lambda a: not isinstance(a, float),
    'isinf': lambda a: isinstance(a, float) and a == a,
    'signbit': lambda a: _b(DOM.cmp('<', a, Fraction(0))),
}

LOOP = C.CFUNCTYPE(None, C.POINTER(C.c_void_p), C.POINTER(C.c_ssize_t), C.POINTER(C.c_ssize_t), C.c_void_p)
CH = {'d': (C.c_double, 12), 'f': (C.c_float, 11), '?': (C.c_bool, 0), 'D': (C.c_double, 15)}


def _loop(name, f, sig, old):
    ins, outs = sig.split('->')
    nin = len(ins)
    ct = [CH[c][0] for c in ins + outs]
    n_ = nin + len(outs)
    orig = C.cast(old[0], LOOP)
    single = outs == 'f'

    def loop(args, dims, steps, data):
        if not ACTIVE:
            orig(args, dims, steps, data)
            return
        n = dims[0]
        a = [args[j] for j in range(n_)]
        s = [steps[j] for j in range(n_)]
        try:
            if PENDING is not None:
                raise PENDING
            for k in range(n):
                v = [dec(ct[j].from_address(a[j] + k * s[j]).value) for j in range(nin)]
                r = f(*v)
                if outs != '?':
                    r = sym.TOKENS.enc(r) if single else enc(r)
                ct[nin].from_address(a[nin] + k * s[nin]).value = r
        except BaseException as e:  # noqa
            _raise_later(e)
            for k in range(n):
                ct[nin].from_address(a[nin] + k * s[nin]).value = 0
            FIRE[TID] = Interrupted
    return LOOP(loop)


def _cmul(a, b):
    (p, q), (r, s) = a, b
    return DOM.sub(DOM.mul(p, r), DOM.mul(q, s)), DOM.add(DOM.mul(p, s), DOM.mul(q, r))


def _cdiv(a, b):
    n = DOM.add(DOM.mul(b[0], b[0]), DOM.mul(b[1], b[1]))
    p, q = _cmul(a, (b[0], DOM.neg(b[1])))
    return DOM.div(p, n), DOM.div(q, n)


COMPLEX = {
    'add': lambda a, b: (DOM.add(a[0], b[0]), DOM.add(a[1], b[1])),
    'subtract': lambda a, b: (DOM.sub(a[0], b[0]), DOM.sub(a[1], b[1])),
    'multiply': _cmul, 'divide': _cdiv, 'square': lambda a: _cmul(a, a),
    'negative': lambda a: (DOM.neg(a[0]), DOM.neg(a[1])), 'conjugate': lambda a: (a[0], DOM.neg(a[1])),
    'absolute': lambda a: (DOM.fn('sqrt', [DOM.add(DOM.mul(a[0], a[0]), DOM.mul(a[1], a[1]))]),),
}


def _complex_loop(f, sig, old):
    """double complex operands as pairs of tokens"""
    ins, outs = sig.split('->')
    nin, nout = len(ins), 1 if outs == 'd' else 2
    orig = C.cast(old[0], LOOP)
    D = C.c_double

    def loop(args, dims, steps, data):
        if not ACTIVE:
            orig(args, dims, steps, data)
            return
        n = dims[0]
        a = [args[j] for j in range(nin + 1)]
        s = [steps[j] for j in range(nin + 1)]
        try:
            if PENDING is not None:
                raise PENDING
            for k in range(n):
                v = [(dec(D.from_address(a[j] + k * s[j]).value), dec(D.from_address(a[j] + k * s[j] + 8).value))
                     for j in range(nin)]
                for m, r in enumerate(f(*v)):
                    D.from_address(a[nin] + k * s[nin] + 8 * m).value = enc(r)
        except BaseException as e:  # noqa
            _raise_later(e)
            for k in range(n):
                for m in range(nout):
                    D.from_address(a[nin] + k * s[nin] + 8 * m).value = 0
            FIRE[TID] = Interrupted
    return LOOP(loop)


def _matmul_loop(sig, old):
    ct = CH[sig[0]][0]
    orig = C.cast(old[0], LOOP)

    def loop(args, dims, steps, data):
        if not ACTIVE:
            orig(args, dims, steps, data)
            return
        N, m, n, p = dims[0], dims[1], dims[2], dims[3]
        st = [steps[j] for j in range(9)]
        try:
            if PENDING is not None:
                raise PENDING
            for k in range(N):
                A, B, O = [args[j] + k * st[j] for j in range(3)]
                for i in range(m):
                    for j in range(p):
                        t = Fraction(0)
                        for q in range(n):
                            t = DOM.add(t, DOM.mul(dec(ct.from_address(A + i * st[3] + q * st[4]).value),
                                                   dec(ct.from_address(B + q * st[5] + j * st[6]).value)))
                        ct.from_address(O + i * st[7] + j * st[8]).value = enc(t) if ct is C.c_double else sym.TOKENS.enc(t)
        except BaseException as e:  # noqa
            _raise_later(e)
            FIRE[TID] = Interrupted
    return LOOP(loop)


def _api():
    cap = np._core._multiarray_umath._UFUNC_API
    g = C.pythonapi.PyCapsule_GetPointer
    g.restype, g.argtypes = C.c_void_p, [C.py_object, C.c_char_p]
    api = C.cast(g(cap, None), C.POINTER(C.c_void_p))
    h = open(np.get_include() + '/numpy/__ufunc_api.h').read()
    i = int(re.search(r'#define PyUFunc_ReplaceLoopBySignature.*?PyUFunc_API\[(\d+)\]', h, re.S)[1])
    return C.PYFUNCTYPE(C.c_int, C.py_object, C.c_void_p, C.POINTER(C.c_int), C.POINTER(C.c_void_p))(api[i])


NOLOOP = {'ldexp', 'frexp', 'nextafter', 'spacing', 'modf', 'divmod', 'logaddexp', 'logaddexp2', 'heaviside', 'exp2',
          'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'cbrt'}


def install():
    global _done
    if _done:
        return
    _done = True
    rep = _api()

    def replace(uf, sig, make):
        ids = [CH[c][1] for c in sig.replace('->', '')]
        arr = (C.c_int * len(ids))(*ids)
        old = C.c_void_p()
        # a first call to learn the original loop
        dummy = LOOP(lambda *a: None)
        if rep(uf, C.cast(dummy, C.c_void_p), arr, C.byref(old)) != 0 or not old.value:
            return
        box = [C.c_void_p(old.value)]
        f = make(sig, box)
        _keep.append((f, dummy, box))
        rep(uf, C.cast(f, C.c_void_p), arr, C.byref(C.c_void_p()))

    seen = set()
    for table, out in ((REAL, None), (BOOL, '?')):
        for name, fn in table.items():
            uf = getattr(np, name)
            if uf in seen or uf.signature is not None:
                continue
            seen.add(uf)
            for sig in uf.types:
                ins, outs = sig.split('->')
                if not set(ins) <= set('df') or len(outs) != 1:
                    continue
                if out == '?' and outs != '?' or out is None and outs != ins[0]:
                    continue
                replace(uf, sig, lambda s, o, name=name, fn=fn: _loop(name, fn, s, o))
    for name in ('exp2', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'spacing', 'nextafter'):
        uf = getattr(np, name)
        for sig in uf.types:
            ins, outs = sig.split('->')
            if set(ins) <= set('df') and outs == ins[0]:
                replace(uf, sig, lambda s, o, name=name: _loop(name, _trap(name), s, o))
    for name, fn in COMPLEX.items():
        uf = getattr(np, name)
        sig = 'D' * uf.nin + ('->d' if name == 'absolute' else '->D')
        replace(uf, sig, lambda s, o, fn=fn: _complex_loop(fn, s, o))
    for sig in ('dd->d', 'ff->f'):
        replace(np.matmul, sig, _matmul_loop)
    _scalars()
    _functions()


# ------------------------------------------------------------------ np.float64 scalars
BIN = C.PYFUNCTYPE(C.py_object, C.py_object, C.py_object)
UN = C.PYFUNCTYPE(C.py_object, C.py_object)
TERN = C.PYFUNCTYPE(C.py_object, C.py_object, C.py_object, C.py_object)
CMP = C.PYFUNCTYPE(C.py_object, C.py_object, C.py_object, C.c_int)
INQ = C.PYFUNCTYPE(C.c_int, C.py_object)
OPS = ['<', '<=', '==', '!=', '>', '>=']


def _num(x):
    """a plain number -> domain value, else None"""
    if isinstance(x, (float, np.floating)):
        return dec(float.__float__(x)) if isinstance(x, float) else dec(float(x))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return Fraction(int(x))
    return None


def _istok(x):
    if isinstance(x, (float, np.floating)):
        f = float.__float__(x) if isinstance(x, float) else float(np.float64(x))
        return 4194304 <= abs(f) < 8388608
    return False


def _scalars():
    def patch(tp):
        typ = C.cast(id(tp), C.POINTER(C.c_void_p))
        nm = C.cast(typ[12], C.POINTER(C.c_void_p))
        double = tp is np.float64

        def out(v):
            if isinstance(v, bool):
                return np.bool_(v)
            return tp(enc(v) if double else sym.TOKENS.enc(v))

        def wide(a, b, v):
            """the type of the result of an operation between scalars"""
            if not double and (isinstance(a, np.float64) or isinstance(b, np.float64)):
                return np.float64(enc(v))
            return out(v)

        def bino(i, f):
            orig = BIN(nm[i])

            def g(a, b):
                if ACTIVE and (_istok(a) or _istok(b)):
                    try:
                        u, v = _num(a), _num(b)
                        if u is not None and v is not None:
                            return wide(a, b, f(u, v))
                    except BaseException as e:  # noqa
                        _raise_later(e)
                        r = tp(0)
                        FIRE[TID] = Interrupted
                        return r
                return orig(a, b)
            cb = BIN(g)
            _keep.append((cb, orig))
            nm[i] = C.cast(cb, C.c_void_p).value

        def uno(i, f):
            orig = UN(nm[i])

            def g(a):
                if ACTIVE and _istok(a):
                    try:
                        return f(_num(a))
                    except BaseException as e:  # noqa
                        _raise_later(e)
                        r = tp(0)
                        FIRE[TID] = Interrupted
                        return r
                return orig(a)
            cb = UN(g)
            _keep.append((cb, orig))
            nm[i] = C.cast(cb, C.c_void_p).value
        bino(0, DOM.add)
        bino(1, DOM.sub)
        bino(2, DOM.mul)
        bino(3, sym._mod)
        bino(29, sym._floordiv)
        bino(30, DOM.div)
        uno(6, lambda a: out(DOM.neg(a)))
        uno(8, lambda a: out(DOM.abs(a)))
        uno(16, lambda a: int(_integral(math.trunc)(a)))
        porig = TERN(nm[5])

        def power(a, b, m):
            if ACTIVE and (_istok(a) or _istok(b)):
                try:
                    u, v = _num(a), _num(b)
                    if u is not None and v is not None:
                        return wide(a, b, sym._pow(u, v))
                except BaseException as e:  # noqa
                    _raise_later(e)
                    r = tp(0)
                    FIRE[TID] = Interrupted
                    return r
            return porig(a, b, m)
        cb = TERN(power)
        _keep.append((cb, porig))
        nm[5] = C.cast(cb, C.c_void_p).value
        borig = INQ(nm[9])

        def boo(a):
            if ACTIVE and _istok(a):
                try:
                    return int(_b(_nz(_num(a))))
                except BaseException as e:  # noqa
                    _raise_later(e)
                    FIRE[TID] = Interrupted
                    return 0
            return borig(a)
        cb = INQ(boo)
        _keep.append((cb, borig))
        nm[9] = C.cast(cb, C.c_void_p).value
        corig = CMP(typ[25])

        def rich(a, b, op):
            if ACTIVE and (_istok(a) or _istok(b)):
                try:
                    u, v = _num(a), _num(b)
                    if u is not None and v is not None:
                        return np.bool_(_b(DOM.cmp(OPS[op], u, v)))
                except BaseException as e:  # noqa
                    _raise_later(e)
                    FIRE[TID] = Interrupted
                    return False
            return corig(a, b, op)
        cb = CMP(rich)
        _keep.append((cb, corig))
        typ[25] = C.cast(cb, C.c_void_p).value
        C.pythonapi.PyType_Modified(C.py_object(tp))
    patch(np.float64)
    patch(np.float32)


# ------------------------------------------------------------------ discrete Fourier transforms
def _turn(k, n):
    """cos and sin of k/n turns"""
    k = Fraction(k % n, n)
    e = {Fraction(0): (1, 0), Fraction(1, 4): (0, 1), Fraction(1, 2): (-1, 0), Fraction(3, 4): (0, -1)}.get(k)
    if e is not None:
        return Fraction(e[0]), Fraction(e[1])
    t = 2 * math.pi * float(k)
    return Fraction(math.cos(t)), Fraction(math.sin(t))


def _dft(a, n, axis, sign, scale):
    a = np.asarray(a)
    n = a.shape[axis] if n is None else n
    a = np.moveaxis(a, axis, -1)
    r = np.zeros(a.shape[:-1] + (n,), complex)
    for i in np.ndindex(*a.shape[:-1]):
        row = [(dec(complex(x).real), dec(complex(x).imag)) for x in a[i].tolist()][:n]
        for k in range(n):
            t = (Fraction(0), Fraction(0))
            for j, x in enumerate(row):
                c, s = _turn(j * k, n)
                t = COMPLEX['add'](t, _cmul(x, (c, sign * s)))
            w = r[i].view(float)
            w[2 * k], w[2 * k + 1] = enc(DOM.mul(t[0], scale)), enc(DOM.mul(t[1], scale))
    return np.moveaxis(r, -1, axis)


def _fft(patch):
    """the Fourier transforms are replaced by their definition"""
    mods = [np.fft]
    try:
        import pyfftw.interfaces.numpy_fft as m
        mods.append(m)
    except ImportError:
        pass

    def fft(orig, a, n=None, axis=-1, norm=None, *r, **k):
        return _dft(a, n, axis, -1, Fraction(1))

    def ifft(orig, a, n=None, axis=-1, norm=None, *r, **k):
        return _dft(a, n, axis, 1, Fraction(1, n or np.shape(a)[axis]))

    def rfft(orig, a, n=None, axis=-1, norm=None, *r, **k):
        f = np.moveaxis(_dft(a, n, axis, -1, Fraction(1)), axis, -1)
        return np.moveaxis(f[..., :f.shape[-1] // 2 + 1], -1, axis)

    def irfft(orig, a, n=None, axis=-1, norm=None, *r, **k):
        a = np.moveaxis(np.asarray(a), axis, -1)
        n = 2 * (a.shape[-1] - 1) if n is None else n
        m = n // 2 + 1
        f = np.zeros(a.shape[:-1] + (n,), complex)
        f[..., :m] = a[..., :m]
        f[..., m:] = np.conjugate(f[..., n - m:0:-1])
        return np.moveaxis(_dft(f, n, -1, 1, Fraction(1, n)).real, -1, axis)
    for mod in mods:
        for f in (fft, ifft, rfft, irfft):
            patch(mod, f.__name__, lambda *a, norm=None, **k: True, f)
        for name in ('fft2', 'ifft2', 'fftn', 'ifftn', 'rfft2', 'rfftn', 'irfft2', 'irfftn', 'hfft', 'ihfft'):
            if hasattr(mod, name):
                patch(mod, name, lambda *a, **k: True, lambda orig, *a, name=name, **k: _trap(name)())


# ------------------------------------------------------------------ functions that are not ufuncs
def _isf(x):
    return isinstance(x, np.ndarray) and x.dtype.kind == 'f' or isinstance(x, (np.floating, float))


def _sorted_index(v):
    """stable order of domain values, by forking comparisons"""
    idx = []
    for i in range(len(v)):
        j = len(idx)
        while j > 0 and _b(DOM.cmp('<', v[i], v[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return idx


def _functions():
    import functools

    def patch(mod, name, cond, new):
        orig = getattr(mod, name)

        def implementation(*a, **k):
            if ACTIVE and cond(*a, **k):
                return new(orig, *a, **k)
            return getattr(orig, '_implementation', orig)(*a, **k)

        @functools.wraps(orig)
        def f(*a, **k):
            if ACTIVE:
                for x in list(a) + list(k.values()):
                    for y in x if isinstance(x, (list, tuple)) else (x,):
                        t = type(y)
                        if t is not np.ndarray and isinstance(y, np.ndarray) and t.__array_function__ is not np.ndarray.__array_function__:
                            return y.__array_function__(f, (t,), a, k)
                if cond(*a, **k):
                    return new(orig, *a, **k)
            return orig(*a, **k)
        f._implementation = implementation
        setattr(mod, name, f)
        for m in list(sys.modules.values()):
            # tables indexed by the functions
            t = getattr(m, 'FUNCTIONS', None) if getattr(m, '__name__', '').startswith('pysimulators') else None
            if isinstance(t, dict) and orig in t:
                t[f] = t[orig]

    def dot(orig, a, b, out=None):
        a, b = np.asarray(a), np.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            r = a * b
        else:
            bb = b if b.ndim == 1 else np.moveaxis(b, -2, -1)
            r = np.empty(a.shape[:-1] + bb.shape[:-1], np.result_type(a, b))
            for i in np.ndindex(*a.shape[:-1]):
                for j in np.ndindex(*bb.shape[:-1]):
                    r[i + j] = np.add.reduce(a[i] * bb[j])
            r = r[()]
        if out is not None:
            if not out.flags.c_contiguous or out.dtype != np.result_type(a, b) or out.shape != np.shape(r):
                e = ValueError('output array is not acceptable (must have the right datatype, number of dimensions, '
                               'and be a C-Array)')
                e.genuine = True
                raise e
            out[...] = r
            return out
        return r
    patch(np, 'dot', lambda a, b, out=None: np.asarray(a).dtype.kind == 'f' or np.asarray(b).dtype.kind == 'f', dot)

    def argsort(orig, a, axis=-1, **k):
        a = np.asarray(a)
        if a.ndim != 1:
            raise EngineError('argsort of a multidimensional array')
        return np.array(_sorted_index([dec(float(x)) for x in a.tolist()]), np.intp)
    patch(np, 'argsort', lambda a, *r, **k: np.asarray(a).dtype.kind == 'f', argsort)

    def sort(orig, a, axis=-1, **k):
        a = np.asarray(a)
        return a[np.argsort(a)]
    patch(np, 'sort', lambda a, *r, **k: np.asarray(a).dtype.kind == 'f', sort)

    def einsum(orig, spec, *ops, out=None, **k):
        # operands aligned on all the labels, multiplied and summed
        if not isinstance(spec, str) or '->' not in spec:
            raise EngineError('einsum without an explicit output')
        ops = [np.asarray(o) for o in ops]
        ins, res = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        nell = max([o.ndim - len(i.replace('...', '')) for o, i in zip(ops, ins) if '...' in i], default=0)
        ell = [f'.{j}' for j in range(nell)]

        def labels(t, n):
            a, d, b = t.partition('...')
            return list(a) + (ell[nell - (n - len(a) - len(b)):] if d else []) + list(b)
        labs = [labels(i, o.ndim) for o, i in zip(ops, ins)]
        last = labels(res, nell + len(res.replace('...', '')))
        every = last + sorted({x for l in labs for x in l} - set(last))
        prod = None
        for o, l in zip(ops, labs):
            if len(set(l)) != len(l):
                raise EngineError('einsum with a repeated label')
            o = o.transpose([l.index(x) for x in every if x in l])
            o = o[tuple(slice(None) if x in l else None for x in every)]
            prod = o if prod is None else prod * o
        for _ in every[len(last):]:
            prod = np.add.reduce(prod, axis=-1)
        if out is not None:
            out[...] = prod
            return out
        return prod
    patch(np, 'einsum', lambda *a, **k: any(_isf(x) for x in a), einsum)

    try:
        import numexpr
    except ImportError:
        numexpr = None
    if numexpr is not None:
        def evaluate(orig, expr, local_dict=None, global_dict=None, out=None, **k):
            import sys as _sys
            frame = _sys._getframe(2)
            scope = {n: getattr(np, n) for n in ('sin', 'cos', 'tan', 'exp', 'expm1', 'log', 'sqrt', 'abs', 'where')}
            scope.update(frame.f_globals if global_dict is None else global_dict)
            scope.update(frame.f_locals if local_dict is None else local_dict)
            r = np.asarray(eval(expr, {'__builtins__': {}}, scope))
            if out is not None:
                out[...] = r
                return out
            return r
        patch(numexpr, 'evaluate', lambda *a, **k: True, evaluate)

    _fft(patch)

    def inner(orig, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return np.dot(a, b if b.ndim < 2 else np.moveaxis(b, -1, -2))
    patch(np, 'inner', lambda a, b: np.asarray(a).dtype.kind == 'f' or np.asarray(b).dtype.kind == 'f', inner)

    def median(orig, a, axis=None, **k):
        if axis is not None or k:
            _trap('median')()
        order = []
        a = np.asarray(a).ravel()
        for i in range(a.size):
            x = a[i:i + 1]
            j = 0
            while j < len(order) and bool(np.less(order[j], x)[0]):
                j += 1
            order.insert(j, x)
        m = a.size // 2
        return order[m][0] if a.size % 2 else ((order[m - 1] + order[m]) / 2)[0]

    def tokens(*a, **k):
        return any(isinstance(x, np.ndarray) and x.dtype.kind == 'f' and any(_istok(v) for v in x.ravel().tolist()) for x in a)
    patch(np, 'median', tokens, median)

    for name in ('vdot', 'interp', 'histogram', 'searchsorted', 'partition', 'argmin', 'argmax',
                 'digitize', 'bincount', 'unique', 'convolve', 'correlate', 'percentile', 'nonzero', 'count_nonzero'):
        def cond(*a, **k):
            return any(isinstance(x, np.ndarray) and x.dtype.kind == 'f' and any(_istok(v) for v in x.ravel().tolist())
                       for x in a)
        patch(np, name, cond, lambda orig, *a, name=name, **k: _trap(name)())
