"""Quantities: the values in base units follow the arithmetic, whatever the units."""
import copy
import math
import pickle
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}
PI = F(math.pi)
BASE = {
    'm': (F(1), {'m': 1}), 'km': (F(1000), {'m': 1}), 'mm': (F(1, 1000), {'m': 1}), 'um': (F(1, 10**6), {'m': 1}),
    's': (F(1), {'s': 1}), 'ms': (F(1, 1000), {'s': 1}), 'Hz': (F(1), {'s': -1}), 'kg': (F(1), {'kg': 1}),
    'A': (F(1), {'A': 1}), 'C': (F(1), {'A': 1, 's': 1}), 'V': (F(1), {'kg': 1, 'm': 2, 'A': -1, 's': -3}),
    'Ohm': (F(1), {'kg': 1, 'm': 2, 'A': -2, 's': -3}),
    'N': (F(1), {'kg': 1, 'm': 1, 's': -2}), 'J': (F(1), {'kg': 1, 'm': 2, 's': -2}),
    'W': (F(1), {'kg': 1, 'm': 2, 's': -3}), 'Pa': (F(1), {'kg': 1, 'm': -1, 's': -2}),
    'bar': (F(10**5), {'kg': 1, 'm': -1, 's': -2}), 'atm': (F(101325), {'kg': 1, 'm': -1, 's': -2}),
    'mmHg': (F(101325, 760), {'kg': 1, 'm': -1, 's': -2}), 'cmHg': (F(1013250, 760), {'kg': 1, 'm': -1, 's': -2}),
    'Torr': (F(101325, 760), {'kg': 1, 'm': -1, 's': -2}),
    'Jy': (F(1, 10**26), {'kg': 1, 's': -2}), 'mJy': (F(1, 10**29), {'kg': 1, 's': -2}),
    'uJy': (F(1, 10**32), {'kg': 1, 's': -2}), 'MJy': (F(1, 10**20), {'kg': 1, 's': -2}),
    'rad': (F(1), {'rad': 1}), 'deg': (PI / 180, {'rad': 1}), 'arcmin': (PI / 180 / 60, {'rad': 1}),
    'arcsec': (PI / 180 / 3600, {'rad': 1}), "'": (PI / 180 / 60, {'rad': 1}), '"': (PI / 180 / 3600, {'rad': 1}),
    'sr': (F(1), {'rad': 2}), 'AU': (F(149597870700), {'m': 1}), 'pc': (F(30857 * 10**12), {'m': 1}),
    'us': (F(1, 10**6), {'s': 1}), 'K': (F(1), {'K': 1}), '?': (F(1), {'?': 1}), 'detector': (F(1), {'detector': 1}),
    'mol': (F(1), {'mol': 1}), 'cd': (F(1), {'cd': 1}),
}


def parse(unit):
    """-> (factor, dimensions) of a printed unit"""
    f, d, sign = F(1), {}, 1
    for w in unit.split():
        if w == '/':
            sign = -1
            continue
        u, _, e = w.partition('^')
        e = sign * F(e or 1)
        sign = 1
        f0, d0 = BASE[u]
        f = f * f0 ** int(e) if e == int(e) else f * F(float(f0) ** float(e))
        for k, v in d0.items():
            d[k] = d.get(k, 0) + v * e
    return f, {k: v for k, v in d.items() if abs(v) > F(1, 10**9)}


def inverse(unit):
    """the text of the inverse of a unit"""
    out, sign = [], 1
    for w in unit.split():
        if w == '/':
            sign = -1
            continue
        out += [w] if sign < 0 else ['/', w]
        sign = 1
    return ' '.join(out)


def num(env, x):
    return x if env.symbolic else float(x)


def physical(env, q):
    """-> (values in base units, dimensions)"""
    f, d = parse(getattr(q, 'unit', ''))
    v = env.vals(q.view(np.ndarray) if isinstance(q, np.ndarray) else q)
    return [num(env, f) * x for x in v], d


def samedim(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < F(1, 10**9) for k in a)


def holds(env, q, unit, values, label, close=False):
    """The quantity q has the dimension of `unit` and its values are `values` times this unit."""
    from pysimulators import Quantity
    env.true(isinstance(q, Quantity), f'{label}: type', type(q))
    f, d = parse(getattr(q, 'unit', ''))
    f0, d0 = parse(unit)
    env.true(samedim(d, d0), f'{label}: dimension', (getattr(q, 'unit', ''), unit))
    r = f / f0
    x = env.vals(q.view(np.ndarray) if isinstance(q, np.ndarray) else q)
    (env.close if close else env.eq)([num(env, r) * v for v in x], values, label)


def make(env, name, shape, unit, dtype='f8', how='C'):
    """-> (quantity with symbolic values, the values)"""
    from pysimulators import Quantity
    n = int(np.prod(shape))
    v = [env.real(f'{name}{i}') for i in range(n)]
    a = env.arr(v, dtype).reshape(shape)
    if how == 'F':
        a = np.array(a, order='F')
    elif how == 'strided':
        b = np.zeros(tuple(2 * s for s in shape), a.dtype)
        b[tuple(slice(None, None, 2) for s in shape)] = a
        a = b[tuple(slice(None, None, 2) for s in shape)]
    if unit is None:
        return a, v
    if how == 'strided':
        q = a.view(Quantity)
        q.unit = unit
        return q, v
    return Quantity(a, unit), v


def conversion(env, u1, u2, shape, dtype, how):
    from pysimulators import Quantity
    from pysimulators.quantities import UnitError
    q, v = make(env, 'v', shape, u1, dtype, how)
    env.true(q.shape == shape and q.dtype == np.dtype(dtype), 'quantity')
    eq = env.eq
    if '.5' in u1:
        eq = env.close
        for x in v:
            env.assume((x > -100) & (x < 100) if env.symbolic else abs(x) < 100)
    f1, d1 = parse(u1)
    f2, d2 = parse(u2)
    unit = q.unit
    if not samedim(d1, d2):
        env.raises(UnitError, lambda: q.tounit(u2), 'incompatible units')
        env.raises(UnitError, lambda: q.inunit(u2), 'incompatible units, in place')
        env.true(q.unit == unit, 'unit after a refused conversion')
        env.eq(q.magnitude, v, 'values after a refused conversion')
        return
    t = q.tounit(u2)
    r = num(env, f2 / f1)
    env.true(isinstance(t, Quantity) and t.shape == shape and t.dtype == q.dtype, 'type of the conversion')
    env.true(parse(t.unit) == parse(u2), 'unit of the conversion', t.unit)
    eq([r * x for x in env.vals(t.magnitude)], v, 'conversion')
    env.true(q.unit == unit, 'unit of the original')
    eq(q.magnitude, v, 'values of the original')
    b = t.tounit(u1)
    eq(b.magnitude, v, 'conversion forth and back')
    s = q.SI
    fs, ds = parse(s.unit)
    env.true(samedim(ds, d1) and fs == 1, 'base units', s.unit)
    eq([num(env, 1 / f1) * x for x in env.vals(s.magnitude)], v, 'value in base units')
    eq(q.magnitude, v, 'values after the conversion in base units')
    c = q.copy()
    c.inunit(u2)
    env.true(parse(c.unit) == parse(u2), 'unit of the conversion in place')
    eq([r * x for x in env.vals(c.magnitude)], v, 'conversion in place')
    q.inunit(u2)
    eq([r * x for x in env.vals(q.magnitude)], v, 'conversion in place of a view')
    q.unit = u1
    env.true(parse(q.unit) == parse(u1), 'unit set')


BINARY = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b,
    'maximum': lambda a, b: np.maximum(a, b), 'minimum': lambda a, b: np.minimum(a, b),
    'fmax': lambda a, b: np.fmax(a, b), 'fmin': lambda a, b: np.fmin(a, b), 'hypot': lambda a, b: np.hypot(a, b),
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'copysign': lambda a, b: np.copysign(a, b),
}
HOMOGENEOUS = ('add', 'subtract', 'maximum', 'minimum', 'fmax', 'fmin', 'hypot', 'lt', 'le', 'gt', 'ge', 'eq', 'ne')

BOUNDED = ('maximum', 'minimum', 'fmax', 'fmin')      # within rounding


def broadcast(s1, s2, v1, v2):
    n = np.broadcast_shapes(s1, s2)
    i1 = np.broadcast_to(np.arange(len(v1)).reshape(s1), n).ravel()
    i2 = np.broadcast_to(np.arange(len(v2)).reshape(s2), n).ravel()
    return n, [v1[i] for i in i1], [v2[i] for i in i2]


def binary(env, op, u1, u2, s1, s2, how):
    from pysimulators import Quantity
    from pysimulators.quantities import UnitError
    a, va = make(env, 'a', s1, u1)
    b, vb = make(env, 'b', s2, u2)
    if s1 == () and u1 is None:
        a = env.f(va[0])
    if s2 == () and u2 is None:
        b = env.f(vb[0])
    f1, d1 = parse(u1 or '')
    f2, d2 = parse(u2 or '')
    if op == 'divide':
        for x in vb:
            env.assume((x > 0.01) | (x < -0.01) if env.symbolic else abs(x) > 0.01)
    if op in BOUNDED:
        for x in va + vb:
            env.assume((x > -100) & (x < 100) if env.symbolic else abs(x) < 100)
    f = BINARY[op]
    hom = op in HOMOGENEOUS
    if hom and u1 and u2 and not samedim(d1, d2):
        env.raises(UnitError, lambda: f(a, b), f'{op} of incompatible units')
        if how == 'inplace':
            env.raises(UnitError, lambda: getattr(a, f'__i{op[:3]}__')(b), f'in-place {op} of incompatible units')
        env.eq(a.magnitude, va, 'first operand')
        return
    shape, xa, xb = broadcast(s1, s2, va, vb)
    unit = u1 or u2 or ''
    if hom:
        # a number without unit takes the unit of the other one
        fa = F(1)
        fb = f2 / f1 if u1 and u2 else F(1)
        xb = [num(env, fb) * y for y in xb]
    got = None
    if how == 'inplace':
        n = {'add': '__iadd__', 'subtract': '__isub__', 'multiply': '__imul__', 'divide': '__itruediv__'}[op]
        view = a.magnitude
        got = getattr(a, n)(b)
        env.true(got is a, f'in-place {op} returns the same object')
        env.true(np.shares_memory(got, view), f'in-place {op} in the same memory')
    elif how == 'out':
        out = Quantity(np.zeros(shape), 'kg')
        got = getattr(np, op)(a, b, out=out)
        env.true(got is out, f'{op} in the output')
    elif how == 'plainout':
        o = np.zeros(shape)
        got = getattr(np, op)(a, b, out=o)
        env.true(np.shares_memory(got, o), f'{op} in the output')
    else:
        got = f(a, b)
    env.true(np.shape(got) == shape, f'shape of {op}', np.shape(got))
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        got = [bool(g) for g in np.ravel(got)]
        for g, x, y in zip(got, xa, xb):
            w = {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[op]
            env.true(w if g else ~w if env.symbolic else not w, f'{op}: comparison')
        return
    if op == 'multiply':
        unit = ' '.join(x for x in (u1, u2) if x)
        want = [x * y for x, y in zip(xa, xb)]
    elif op == 'divide':
        unit = f'{u1 or ""} {inverse(u2 or "")}'
        want = [x / y for x, y in zip(xa, xb)]
    elif op == 'add':
        want = [x + y for x, y in zip(xa, xb)]
    elif op == 'subtract':
        want = [x - y for x, y in zip(xa, xb)]
    elif op in ('maximum', 'fmax'):
        want = [env.ite(x >= y, x, y) for x, y in zip(xa, xb)]
    elif op in ('minimum', 'fmin'):
        want = [env.ite(x <= y, x, y) for x, y in zip(xa, xb)]
    elif op == 'hypot':
        want = [env.sqrt(x * x + y * y) for x, y in zip(xa, xb)]
    elif op == 'copysign':
        unit = u1 or ''
        for y in vb:
            env.assume((y > 0.01) | (y < -0.01) if env.symbolic else abs(y) > 0.01)
        want = [env.ite(y > 0, env.ite(x > 0, x, -x), env.ite(x > 0, -x, x)) for x, y in zip(xa, xb)]
    holds(env, got, unit, want, op, op in BOUNDED)
    if hom:
        env.true(parse(got.unit)[0] == parse(unit)[0], f'{op}: unit of the first quantity', got.unit)
    if how != 'inplace':
        for q, u, v in ((a, u1, va), (b, u2, vb)):
            if u:
                env.true(parse(q.unit) == parse(u), f'{op}: unit of the operands', q.unit)
            env.eq(q.magnitude if u else q, v, f'{op}: operands')


UNARY = {
    'negative': (1, lambda q: -q, lambda e, x: -x), 'positive': (1, lambda q: +q, lambda e, x: x),
    'absolute': (1, abs, lambda e, x: e.ite(x > 0, x, -x)), 'fabs': (1, np.fabs, lambda e, x: e.ite(x > 0, x, -x)),
    'square': (2, np.square, lambda e, x: x * x), 'power2': (2, lambda q: q ** 2, lambda e, x: x * x),
    'power3': (3, lambda q: q ** 3, lambda e, x: x * x * x), 'power-1': (-1, lambda q: q ** -1, lambda e, x: 1 / x),
    'power-2': (-2, lambda q: q ** -2., lambda e, x: 1 / (x * x)), 'power1': (1, lambda q: q ** 1, lambda e, x: x),
    'power0': (0, lambda q: q ** 0, lambda e, x: e.const(1)), 'reciprocal': (-1, np.reciprocal, lambda e, x: 1 / x),
    'rdivide': (-1, lambda q: 3 / q, lambda e, x: 3 / x), 'ldivide': (1, lambda q: q / 4, lambda e, x: x / 4),
    'times': (1, lambda q: 3 * q, lambda e, x: 3 * x), 'timesone': (1, lambda q: q * [2.], lambda e, x: 2 * x),
    'sqrt': (F(1, 2), np.sqrt, lambda e, x: e.sqrt(x)), 'power.5': (F(1, 2), lambda q: q ** .5, lambda e, x: e.sqrt(x)),
    'conjugate': (1, np.conjugate, lambda e, x: x), 'real': (1, lambda q: q.real, lambda e, x: x),
    'floatpower': (2, lambda q: np.float_power(q, 2), lambda e, x: x * x),
    'powerq': (2, lambda q: q ** type(q)(2.), lambda e, x: x * x),
    'copy': (1, copy.copy, lambda e, x: x), 'deepcopy': (1, copy.deepcopy, lambda e, x: x),
    'pickle': (1, lambda q: pickle.loads(pickle.dumps(q)), lambda e, x: x), 'T': (1, lambda q: q.T.T, lambda e, x: x),
    'ellipsis': (1, lambda q: q[...], lambda e, x: x), 'view': (1, lambda q: q.view(), lambda e, x: x),
    'float32': (1, lambda q: q.astype(np.float32), lambda e, x: x),
    'quantity': (1, lambda q: type(q)(q), lambda e, x: x), 'nocopy': (1, lambda q: type(q)(q, copy=None), lambda e, x: x),
}


def unary(env, op, unit, shape):
    q, v = make(env, 'v', shape, unit)
    if op in ('power-1', 'power-2', 'reciprocal', 'rdivide'):
        for x in v:
            env.assume((x > 0.01) | (x < -0.01) if env.symbolic else abs(x) > 0.01)
    if op in ('sqrt', 'power.5'):
        for x in v:
            env.assume(x > 0.01)
    e, f, ref = UNARY[op]
    got = f(q)
    env.true(got.shape == (np.broadcast_shapes(shape, (1,)) if op == 'timesone' else shape), f'shape of {op}', got.shape)
    words, sign, want = unit.split(), 1, []
    for w in words:
        if w == '/':
            sign = -1
            continue
        u, _, p = w.partition('^')
        p = e * sign * F(p or 1)
        sign = 1
        if p:
            want.append(f'{u}^{float(p)!r}' if p != int(p) else f'{u}^{int(p)}')
    env.true(parse(got.unit) == parse(' '.join(want)), f'unit of {op}', got.unit)
    env.eq(got.magnitude, [ref(env, x) for x in v], op)
    env.true(parse(q.unit) == parse(unit), f'{op}: unit of the operand')
    env.eq(q.magnitude, v, f'{op}: operand')


# functions which only move the values or are covariant: (number of dimensions, function)
MOVES = {
    'reshape': (2, lambda f, q: f.reshape(q, (3, 2))), 'ravel': (2, lambda f, q: f.ravel(q)),
    'transpose': (2, lambda f, q: f.transpose(q)), 'roll': (1, lambda f, q: f.roll(q, 1)),
    'take': (1, lambda f, q: f.take(q, [2, 0, 0])), 'repeat': (1, lambda f, q: f.repeat(q, 2)),
    'tile': (1, lambda f, q: f.tile(q, (2, 2))), 'flip': (2, lambda f, q: f.flip(q)),
    'expand_dims': (1, lambda f, q: f.expand_dims(q, 0)), 'broadcast_to': (1, lambda f, q: f.broadcast_to(q, (2, 3))),
    'diag': (2, lambda f, q: f.diag(q)), 'diagonal': (2, lambda f, q: f.diagonal(q)), 'diagflat': (1, lambda f, q: f.diagflat(q)),
    'delete': (1, lambda f, q: f.delete(q, [1])), 'resize': (1, lambda f, q: f.resize(q, (2, 2))),
    'copy': (2, lambda f, q: f.copy(q)), 'moveaxis': (2, lambda f, q: f.moveaxis(q, 0, 1)),
    'swapaxes': (2, lambda f, q: f.swapaxes(q, 0, 1)), 'rot90': (2, lambda f, q: f.rot90(q)),
    'atleast_2d': (1, lambda f, q: f.atleast_2d(q)), 'atleast_3d': (2, lambda f, q: f.atleast_3d(q)),
    'pad': (1, lambda f, q: f.pad(q, 1)), 'compress': (1, lambda f, q: f.compress([True, False, True], q)),
    'extract': (1, lambda f, q: f.extract([True, False, True], q)), 'squeeze': (1, lambda f, q: f.squeeze(q[None, :])),
    'sum': (2, lambda f, q: f.sum(q)), 'sum0': (2, lambda f, q: f.sum(q, axis=0)), 'mean': (2, lambda f, q: f.mean(q)),
    'mean1': (2, lambda f, q: f.mean(q, axis=1)), 'cumsum': (1, lambda f, q: f.cumsum(q)), 'diff': (1, lambda f, q: f.diff(q)),
    'max': (1, lambda f, q: f.max(q)), 'min': (1, lambda f, q: f.min(q)), 'ptp': (1, lambda f, q: f.ptp(q)),
    'trace': (2, lambda f, q: f.trace(q)), 'average': (1, lambda f, q: f.average(q)), 'sort': (1, lambda f, q: f.sort(q)),
    'averagew': (1, lambda f, q: f.average(q, weights=[1, 2, 1])), 'nansum': (1, lambda f, q: f.nansum(q)),
    'nanmean': (1, lambda f, q: f.nanmean(q)), 'array_split': (1, lambda f, q: f.array_split(q, 2)),
    'split': (2, lambda f, q: f.split(q, 2)), 'hsplit': (2, lambda f, q: f.hsplit(q, 3)), 'vsplit': (2, lambda f, q: f.vsplit(q, 2)),
    'method_sum': (2, lambda f, q: q.sum(axis=1)), 'method_mean': (2, lambda f, q: q.mean()), 'method_max': (1, lambda f, q: q.max()),
    'method_min': (1, lambda f, q: q.min()), 'method_reshape': (2, lambda f, q: q.reshape(6)),
    'method_ravel': (2, lambda f, q: q.ravel()), 'method_flatten': (2, lambda f, q: q.flatten()),
    'method_take': (1, lambda f, q: q.take([1, 1])), 'method_repeat': (1, lambda f, q: q.repeat(2)),
    'method_cumsum': (1, lambda f, q: q.cumsum()), 'add_reduce': (2, lambda f, q: f.add.reduce(q)),
    'add_accumulate': (1, lambda f, q: f.add.accumulate(q)), 'maximum_reduce': (1, lambda f, q: f.maximum.reduce(q)),
    'slice': (2, lambda f, q: q[1:, ::-1]), 'row': (2, lambda f, q: q[0]), 'mask': (1, lambda f, q: q[np.array([True, False, True])]),
    'list': (1, lambda f, q: q[[2, 0]]), 'newaxis': (1, lambda f, q: q[:, None]), 'clipn': (1, lambda f, q: f.clip(q, -1, 2)),
    'method_clip': (1, lambda f, q: q.clip(-1, 2)),
}
SQUARES = {'var': (1, lambda f, q: f.var(q)), 'var0': (2, lambda f, q: f.var(q, axis=0)), 'method_var': (1, lambda f, q: q.var()),
           'nanvar': (1, lambda f, q: f.nanvar(q))}


def moves(env, name, unit):
    from pysimulators import Quantity
    ndim, f = {**MOVES, **SQUARES}[name]
    shape = (3,) if ndim == 1 else (2, 3)
    q, v = make(env, 'v', shape, unit)
    a = q.magnitude.copy()
    want = f(np, a)
    got = f(np, q)
    seq = isinstance(want, (list, tuple))
    env.true(not seq or len(got) == len(want), f'{name}: number of outputs')
    for g, w in zip(got if seq else [got], want if seq else [want]):
        env.true(isinstance(g, Quantity) and g.shape == np.shape(w), f'{name}: type', (type(g), np.shape(g)))
        u = parse(unit)
        if name in SQUARES:
            u = u[0] ** 2, {k: 2 * e for k, e in u[1].items()}
        env.true(parse(g.unit) == u, f'{name}: unit', g.unit)
        env.eq(g.magnitude, np.asarray(w), name)
    env.true(parse(q.unit) == parse(unit), f'{name}: unit of the operand')
    env.eq(q.magnitude, v, f'{name}: operand')


# functions of several quantities: the operands are converted
MIXED = {
    'append': lambda f, a, b: f.append(a, b), 'concatenate': lambda f, a, b: f.concatenate([a, b]),
    'hstack': lambda f, a, b: f.hstack((a, b)), 'vstack': lambda f, a, b: f.vstack([a, b]),
    'stack': lambda f, a, b: f.stack([a, b, a], axis=1), 'dstack': lambda f, a, b: f.dstack([a, b]),
    'column_stack': lambda f, a, b: f.column_stack([a, b]), 'insert': lambda f, a, b: f.insert(a, [0, 2], b),
    'where': lambda f, a, b: f.where([True, False], a, b), 'select': lambda f, a, b: f.select([[True, False], [True, True]], [a, b]),
    'choose': lambda f, a, b: f.choose([1, 0], [a, b]), 'fill_diagonal': lambda f, a, b: fill(f, a, b),
    'add_outer': lambda f, a, b: f.add.outer(a, b), 'subtract_outer': lambda f, a, b: f.subtract.outer(a, b),
}
PRODUCTS = {
    'dot': lambda f, a, b: f.dot(a, b), 'inner': lambda f, a, b: f.inner(a, b), 'outer': lambda f, a, b: f.outer(a, b),
    'matmul': lambda f, a, b: a @ b, 'kron': lambda f, a, b: f.kron(a, b), 'multiply_outer': lambda f, a, b: f.multiply.outer(a, b),
    'cross3': lambda f, a, b: f.cross(f.append(a, a[:1]), f.append(b, b[:1])),
    'tensordot': lambda f, a, b: f.tensordot(a, b, 1), 'method_dot': lambda f, a, b: a[None].dot(b) if hasattr(a, 'unit') else f.dot(a[None], b),
}


def fill(f, a, b):
    c = f.tile(a, (2, 1))
    f.fill_diagonal(c, b)
    return c


def mixed(env, name, u1, u2):
    from pysimulators import Quantity
    f = {**MIXED, **PRODUCTS}[name]
    a, va = make(env, 'a', (2,), u1)
    b, vb = make(env, 'b', (2,), u2)
    if name in MIXED:
        fb = parse(u2)[0] / parse(u1)[0] if u1 and u2 else F(1)
        x, y = env.arr(va), env.arr([num(env, fb) * v for v in vb])
        unit = u1 or u2 or ''
    else:
        x, y = env.arr(va), env.arr(vb)
        unit = f'{u1 or ""} {u2 or ""}'
    got, want = f(np, a, b), f(np, x, y)
    env.true(isinstance(got, Quantity) and got.shape == np.shape(want), f'{name}: type', (type(got), np.shape(got)))
    holds(env, got, unit, env.vals(want), name)
    if name in MIXED:
        env.true(parse(got.unit)[0] == parse(unit)[0], f'{name}: unit of the first quantity', got.unit)
    for q, u, v in ((a, u1, va), (b, u2, vb)):
        env.true(parse(getattr(q, 'unit', '')) == parse(u or ''), f'{name}: unit of the operands')
        env.eq(np.asarray(q), v, f'{name}: operands')


def derived(env, kind, shape):
    """Units of which the value is known by row (rightward), by column (leftward) or for all."""
    from pysimulators import Quantity
    v = [env.real(f'v{i}') for i in range(int(np.prod(shape)))]
    m, n = shape
    a = env.arr(v).reshape(shape)
    if kind == 'scalar':
        d = [env.real('d')] * (m * n)
        du = {'unit': Quantity(env.f(d[0]), 'km')}
    elif kind == 'callable':
        d = [env.real('d')] * (m * n)
        du = {'unit': lambda q: Quantity(env.f(d[0]), 'km')}
    elif kind == 'leftward':
        x = [env.real(f'd{i}') for i in range(n)]
        d = x * m
        du = {'unit[leftward]': Quantity(env.arr(x), 'km')}
    else:
        x = [env.real(f'd{i}') for i in range(m)]
        d = [x[i] for i in range(m) for j in range(n)]
        du = {'unit[rightward]': Quantity(env.arr(x), 'km')}
    for x in d:
        env.assume((x > 0.01) | (x < -0.01) if env.symbolic else abs(x) > 0.01)
    before = list(du)
    q = Quantity(a, 'unit / s', du)
    w = [x * y for x, y in zip(v, d)]
    holds(env, q.SI, 'km / s', w, 'base units')
    env.true(q.unit == 'unit / s', 'unit of the original', q.unit)
    t = q.tounit('km / s')
    env.true(t.unit == 'km / s', 'unit of the conversion')
    env.eq(t.magnitude, w, 'conversion from a derived unit')
    b = t.tounit('unit / s')
    env.eq(b.magnitude, v, 'conversion to a derived unit')
    env.eq(q.magnitude, v, 'values of the original')
    r = env.choose('item', ('row', 'column', 'sub', 'rows', 'last', 'ellipsis', 'list', 'new', 'newlast', 'mask', 'new0'))
    key = {'row': 1, 'column': (slice(None), 1), 'sub': (slice(1, None), slice(None, None, -1)), 'rows': slice(0, 2),
           'last': (Ellipsis, 0), 'ellipsis': (0, Ellipsis), 'list': [1, 0], 'new': (slice(None), None), 'newlast': (Ellipsis, None),
           'mask': (slice(None), np.arange(n) != 1), 'new0': (None, 0, None)}[r]
    p = q[key]
    i = np.arange(m * n).reshape(shape)[key]
    holds(env, p.SI, 'km / s', [w[j] for j in i.ravel()], 'base units of a part')
    holds(env, p.tounit('m / s'), 'km / s', [w[j] for j in i.ravel()], 'conversion of a part')
    holds(env, (q * q).SI, 'km^2 / s^2', [x * x for x in w], 'product of derived units')
    env.true(list(du) == before and list(q.derived_units) == before, 'derived units unchanged')
    holds(env, q.SI, 'km / s', w, 'base units after selections')


def algebra(env, e1, e2):
    """Exponents are symbolic: the units of products, quotients and powers."""
    from pysimulators import Quantity
    x = {k: env.real(f'x{k}') for k in e1}
    y = {k: env.real(f'y{k}') for k in e2}
    p = env.real('p')
    env.assume((p > 0.01) | (p < -0.01) if env.symbolic else abs(p) > 0.01)
    for e in list(x.values()) + list(y.values()):
        env.assume((e > 0.1) | (e < -0.1) if env.symbolic else abs(e) > 0.1)
    va, vb = env.real('a'), env.real('b')
    env.assume(vb > 0.1)
    a, b = Quantity(env.f(va)), Quantity(env.f(vb))
    a.unit = dict(x)
    b.unit = dict(y)
    keys = sorted(set(x) | set(y))

    def units(q, want, label):
        u = q._unit
        for k in keys:
            env.eq([u[k] if k in u else 0], [want(k)], f'{label}: exponent')
            if k in u:
                env.true(u[k] != 0, f'{label}: no zero exponent')
        env.true(set(u) <= set(keys), f'{label}: units', u)
    units(a * b, lambda k: x.get(k, 0) + y.get(k, 0), 'product')
    units(a / b, lambda k: x.get(k, 0) - y.get(k, 0), 'quotient')
    units(b / a if False else 1 / b, lambda k: -y.get(k, 0), 'inverse')
    units(np.square(a), lambda k: 2 * x.get(k, 0), 'square')
    units(np.sqrt(b), lambda k: 0.5 * y.get(k, 0), 'square root')
    units(a * b / b, lambda k: x.get(k, 0), 'product then quotient')
    units(a, lambda k: x.get(k, 0), 'first operand')
    units(b, lambda k: y.get(k, 0), 'second operand')
    env.eq([np.asarray(a * b)], [va * vb], 'value of the product')


PAIRS = [('m', 'km'), ('km', 'm'), ('mm', 'um'), ('km / s', 'm / ms'), ('m^2', 'mm^2'), ('m^-2', 'km^-2'), ('J', 'kg m^2 / s^2'),
         ('W', 'J / s'), ('bar', 'Pa'), ('atm', 'mmHg'), ('Torr', 'cmHg'), ('Jy', 'W / Hz / m^2'), ('mJy', 'uJy'), ('MJy / sr', 'Jy / sr'),
         ('deg', 'rad'), ('arcmin', 'arcsec'), ("'", 'deg'), ('"', 'arcmin'), ('deg^2', 'sr'), ('sr', 'arcmin^2'), ('Hz', '1s^-1'[1:]),
         ('V', 'Ohm A'), ('C', 'A s'), ('N', 'J / m'), ('AU', 'pc'), ('K', 'K'), ('Hz m', 'km / s'), ('us', 'ms'), ('detector / s', 'detector / ms'),
         ('Jy / arcsec^2', 'MJy / sr'), ('J', 'N m'), ('m^0.5 / s', 'km^0.5 / ms'), ('deg^-2', '1sr^-1'[1:]), ('Pa^2', 'bar^2'), ('?', '?')]
BAD = [('m', 's'), ('m', 'm^2'), ('J', 'W'), ('Jy', 'W'), ('deg', 'sr'), ('?', 'm'), ('m / s', 's / m')]


def _conversion(tier):
    out = []
    shapes = (((), 'f8', 'C'), ((2, 2), 'f8', 'strided'), ((2, 1), 'f4', 'F'))
    for i, (a, b) in enumerate(PAIRS + BAD):
        for s in (shapes if tier != 'quick' else (shapes[i % 3],) if i else shapes):
            out.append((a, b) + s)
            out.append((b, a) + s)
    return out


def _binary(tier):
    out = []
    sh = [((2,), (2,)), ((), ()), ((2, 1), (2,)), ((2,), ())]
    for i, op in enumerate(BINARY):
        for j, (a, b) in enumerate((('m', 'm'), ('m', 'km'), ('mm', 'km'), ('m / s', 'km / ms') if op != 'hypot' else ('m', 'm'), ('m', None), (None, 'm'),
                                    ('m', ''), ('', 'mm'), ('m', 's'), ('km', 'mm'), ('m / s', 'm / s^2'), ('m^2 s', 's m'), ('m', 'm^-1'), ('m s', 's m'))):
            if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and (a, b) in (('km', 'mm'), ('m / s', 'km / ms')):
                continue        # the conversion factor is rounded: the comparison is exact only for exact factors
            if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and (a, b) == ('mm', 'km'):
                continue
            if op == 'copysign' and a is None:
                pass
            for k, (s1, s2) in enumerate(sh):
                if tier == 'quick' and (k + i + j) % 2:
                    continue
                if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'maximum', 'minimum', 'fmax', 'fmin') and k == 2:
                    continue
                out.append((op, a, b, s1, s2, 'new'))
        if op in ('add', 'subtract', 'multiply', 'divide'):
            for a, b in (('m', 'km'), ('m', 's'), ('m', 'm'), ('', 'm'), ('m', None)):
                out.append((op, a, b, (2,), (2,), 'inplace'))
                out.append((op, a, b, (), (), 'inplace'))
                if op in ('multiply', 'divide') or (a, b) != ('m', 's'):
                    out.append((op, a, b, (2,), (2,), 'out'))
                    out.append((op, a, b, (2,), (2,), 'plainout'))
    return out


HARNESSES = [
    Harness('conversion', conversion, _conversion, '42 pairs of units, arrays of up to 4 values', opts=OPTS),
    Harness('binary', binary, _binary, 'arrays of up to 4 values, 14 pairs of units', opts=OPTS),
    Harness('unary', unary, lambda t: [(op, u, s) for op in UNARY for u, s in (('m', ()), ('km / s^2', (2,)), ('Jy^0.5', (2, 1)))],
            'arrays of up to 2 values', opts=OPTS),
    Harness('moves', moves, lambda t: [(n, u) for n in list(MOVES) + list(SQUARES) for u in ('m', 'km / s^2')], 'arrays of 3 or 2 x 3 values', opts=OPTS),
    Harness('mixed', mixed, lambda t: [(n, a, b) for n in list(MIXED) + list(PRODUCTS) for a, b in
                                       (('m', 'km'), ('mm', 'm'), ('m / s', 'km / ms'), ('m', 'm'), ('m', None), (None, 'km'))
                                       if n != 'fill_diagonal' or a],
            'arrays of 2 values', opts=OPTS),
    Harness('derived', derived, lambda t: [(k, s) for k in ('scalar', 'callable', 'leftward', 'rightward') for s in ((2, 3), (3, 2))],
            'arrays of 6 values', opts=OPTS),
    Harness('algebra', algebra, lambda t: [(('m',), ('m',)), (('m', 's'), ('s', 'K')), (('m', 's'), ('m', 's')), (('m',), ('K',))],
            'two units of up to two symbols with symbolic exponents', opts=OPTS),
]
