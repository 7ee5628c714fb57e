"""Maps and time-ordered data: the coverage, the error and the mask follow the values."""
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}


def reals(env, name, shape):
    v = [env.real(f'{name}{i}') for i in range(int(np.prod(shape)))]
    for x in v:
        env.assume((x >= -1000) & (x <= 1000) if env.symbolic else -1000 <= x <= 1000)
    return env.arr(v).reshape(shape)


def bools(env, name, shape):
    n = int(np.prod(shape))
    return np.array([bool(env.bool(f'{name}{i}')) for i in range(n)], bool).reshape(shape)


KEYS = {
    'row': 1, 'last': (-1,), 'rows': slice(1, None), 'reversed': slice(None, None, -1), 'step': (slice(None), slice(None, None, 2)),
    'column': (Ellipsis, 1), 'new': (None, slice(None), 0), 'list': [1, 0, 1], 'pairs': ([0, 1], [2, 0]), 'array': (slice(None), np.array([2, 1])),
    'block': (slice(0, 1), slice(1, 3)), 'empty': slice(0, 0), 'all': Ellipsis,
}
MOVES = {
    'ravel': lambda x: x.ravel(), 'ravelF': lambda x: x.ravel('F'), 'np.ravel': lambda x: np.ravel(x), 'np.ravelF': lambda x: np.ravel(x, order='F'),
    'reshape': lambda x: x.reshape(3, 2), 'reshape1': lambda x: x.reshape((1, -1)), 'reshapeF': lambda x: x.reshape((3, 2), order='F'),
    'np.reshape': lambda x: np.reshape(x, (3, 2)), 'np.reshapeF': lambda x: np.reshape(x, (-1, 2), order='F'), 'reshape2': lambda x: x[1:].reshape(3, 1),
    'ravel2': lambda x: x[:, ::-1].ravel(), 'ravelF2': lambda x: x[::-1, 1:].ravel('F'), 'twice': lambda x: x.ravel('F')[1:].reshape(5, 1)[::2],
}


def move(name, mask):
    if name in MOVES:
        return MOVES[name]
    if name == 'bool':
        return lambda x: x[mask]
    if name == 'boolrow':
        return lambda x: x[mask[:, 0]]
    return lambda x: x[KEYS[name]]


ALL = list(KEYS) + list(MOVES) + ['bool', 'boolrow']


def maps(env, name, attrs, order):
    from pysimulators import Map
    shape = 2, 3
    v, c, e = (np.array(reals(env, k, shape), order=order) for k in 'vce')
    given = [np.array(a, order=order) for a in (v, c, e)]
    f = move(name, bools(env, 'k', shape) if name == 'bool' else bools(env, 'k', (2, 1)) if name == 'boolrow' else None)
    m = Map(given[0], coverage=given[1] if 'c' in attrs else None, error=given[2] if 'e' in attrs else None, unit='Jy', origin='upper')
    got = f(m)
    env.true(type(got) is Map and got.shape == f(v).shape and got.unit == 'Jy' and got.origin == 'upper', f'{name}: type', (type(got), np.shape(got)))
    env.eq(np.asarray(got.magnitude), f(v), f'{name}: values')
    for k, a in (('coverage', c), ('error', e)):
        w = getattr(got, k)
        if k[0] not in attrs:
            env.true(w is None, f'{name}: no {k}')
            continue
        env.true(w is not None and np.shape(w) == f(a).shape, f'{name}: shape of the {k}', np.shape(w))
        env.eq(np.asarray(w), f(a), f'{name}: {k}')
    env.eq(m.magnitude, v, f'{name}: operand')
    if 'c' in attrs:
        env.eq(m.coverage, c, f'{name}: coverage of the operand')


def tods(env, name, order):
    from pysimulators import Tod
    shape = 2, 3
    v = np.array(reals(env, 'v', shape), order=order)
    mask = np.array(bools(env, 'm', shape), order=order)
    k = np.array([[True, False, True], [False, True, True]]) if name == 'bool' else np.array([[False], [True]])
    f = move(name, k)
    t = Tod(v, mask=mask.copy('K'), unit='Jy')
    env.true(np.array_equal(t.mask, mask), 'mask', (t.mask, mask))
    got = f(t)
    env.true(type(got) is Tod and got.shape == f(v).shape and got.unit == 'Jy', f'{name}: type', (type(got), np.shape(got)))
    env.eq(np.asarray(got.magnitude), f(v), f'{name}: values')
    env.true(got.mask is not None and got.mask.dtype == bool and got.mask.shape == f(mask).shape and np.array_equal(got.mask, f(mask)), f'{name}: mask', (got.mask, f(mask)))
    env.true(np.array_equal(t.mask, mask), f'{name}: mask of the operand')
    n = f(Tod(v, unit='Jy'))
    env.true(n.mask is None and n.shape == f(v).shape, f'{name}: no mask')


def definition(env, name, v):
    """of the values which are not masked (at least one)"""
    n = len(v)
    if name == 'sum':
        return sum(v[1:], v[0])
    if name == 'mean':
        return sum(v[1:], v[0]) / n
    if name == 'var':
        m = sum(v[1:], v[0]) / n
        return sum([(x - m) * (x - m) for x in v[1:]], (v[0] - m) * (v[0] - m)) / n
    if name in ('min', 'max'):
        r = v[0]
        for x in v[1:]:
            r = x if bool(x < r if name == 'min' else x > r) else r
        return r
    raise KeyError(name)


def reductions(env, name, axis, shape):
    from pysimulators import Tod
    v = reals(env, 'v', shape)
    mask = bools(env, 'm', shape)
    t = Tod(v, mask=mask.copy(), unit='m')
    got = getattr(np, name)(t, axis=axis)
    vals = np.array(env.vals(v.ravel()) + [None], object)[:-1].reshape(shape)
    if axis is None:
        rows, outshape = [(vals.ravel(), mask.ravel())], ()
    else:
        w, k = np.moveaxis(vals, axis, -1), np.moveaxis(mask, axis, -1)
        rows, outshape = [(w[i], k[i]) for i in np.ndindex(*w.shape[:-1])], w.shape[:-1]
    env.true(type(got) is Tod and got.shape == outshape and got.unit == ('m^2' if name == 'var' else 'm'), f'{name}: type', (type(got), np.shape(got), got.unit))
    x = np.asarray(got.magnitude).ravel()
    gm = np.zeros(len(rows), bool) if got.mask is None else np.asarray(got.mask).ravel()
    for i, (w, k) in enumerate(rows):
        keep = [a for a, b in zip(w, k) if not b]
        env.true(bool(gm[i]) == (not keep), f'{name}: mask of the result', (i, gm, mask))
        if keep:
            env.eq([env.vals(x[i:i + 1])[0]], [definition(env, name, keep)], name)
    env.true(np.array_equal(t.mask, mask), f'{name}: mask of the operand')
    env.eq(t.magnitude, v, f'{name}: operand')


def setmask(env, kind):
    from pysimulators import Tod
    shape = 2, 2
    v = reals(env, 'v', shape)
    mask = bools(env, 'm', shape)
    old = bools(env, 'o', (1,))[0]
    for first in (None, np.full(shape, old)):
        t = Tod(v, mask=first)
        if kind in ('true', 'false', 'one', 'zero'):
            t.mask = {'true': True, 'false': False, 'one': 1, 'zero': np.int8(0)}[kind]
            want = np.full(shape, kind in ('true', 'one'))
        elif kind == 'none':
            t.mask = None
            env.true(t.mask is None, 'removed mask')
            continue
        elif kind == 'nomask':
            t.mask = np.ma.nomask
            env.true(t.mask is None, 'removed mask')
            continue
        elif kind == 'wrong':
            env.raises(ValueError, lambda: setattr(t, 'mask', mask[:1]), 'shape of the mask')
            want = first
        else:
            t.mask = {'bool': lambda: mask, 'list': lambda: mask.tolist(), 'i1': lambda: mask.astype('i1'), 'u1': lambda: mask.astype('u1'),
                      'i8': lambda: mask.astype('i8') * 3, 'f8': lambda: mask.astype(float), 'fortran': lambda: np.asfortranarray(mask)}[kind]()
            want = mask
        ok = t.mask is None if want is None else t.mask is not None and t.mask.dtype == bool and np.array_equal(t.mask, want)
        env.true(ok, 'mask', (t.mask, want))
        env.eq(t.magnitude, v, 'values')


def copies(env, kind):
    from pysimulators import FitsArray, Map, Tod
    from astropy.io import fits
    shape = 2, 2
    given = [reals(env, k, shape) for k in 'vcew']
    v, c, e, w = (a.copy() for a in given)       # the definition does not share memory with what is given
    mask = bools(env, 'm', shape)
    h = fits.Header()
    h['KEY'] = 3
    if kind == 'map':
        m = Map(given[0], coverage=given[1], error=given[2], unit='K', header=h)
        n = Map(m)
        env.true(n.unit == 'K' and n.header['KEY'] == 3, 'unit and header')
        n[...] = w
        n.coverage[...] = w
        n.error[0] = w[0]
        n.header['KEY'] = 4
        for g, x in ((m.magnitude, v), (m.coverage, c), (m.error, e), (n.magnitude, w), (n.coverage, w), (n.error[1:], e[1:])):
            env.eq(g, x, 'copy of a map')
        env.true(m.header['KEY'] == 3, 'header of the original')
    elif kind == 'map-share':
        m = Map(given[0], coverage=given[1], error=given[2], unit='K')
        n = Map(m, copy=False)
        n[0] = w[0]
        n.coverage[1] = w[1]
        env.eq(m.magnitude[0], w[0], 'shared values')
        env.eq(m.coverage[1], w[1], 'shared coverage')
    elif kind == 'tod':
        t = Tod(v, mask=mask.copy(), unit='K', header=h)
        u = Tod(t)
        env.true(np.array_equal(u.mask, mask) and u.unit == 'K' and u.header['KEY'] == 3, 'copy')
        u.mask[...] = ~mask
        u[...] = w
        env.true(np.array_equal(t.mask, mask), 'mask of the original')
        env.eq(t.magnitude, v, 'values of the original')
    elif kind == 'masked':
        t = Tod(np.ma.MaskedArray(v, mask=mask))
        env.true(t.mask is not None and np.array_equal(t.mask, mask), 'mask of a masked array', (t.mask, mask))
        env.eq(t.magnitude, v, 'values of a masked array')
        t = Tod(np.ma.MaskedArray(v, mask=mask), mask=~mask)
        env.true(np.array_equal(t.mask, ~mask), 'given mask')
        env.true(Tod(np.ma.MaskedArray(v)).mask is None, 'no mask')
    elif kind in ('f4', 'f8', 'i4'):
        dt = np.dtype(kind)
        z = np.array([[1.5, -2], [3, 0]])
        t = Tod(z, mask=mask, unit='K', header=h).astype(dt)
        m = Map(z, coverage=z + 1, error=2 * z, header=h).astype(dt)
        env.true(t.dtype == dt and np.array_equal(t.mask, mask) and t.unit == 'K', 'conversion of the type of a Tod')
        bits = {'f4': -32, 'f8': -64, 'i4': 32}[kind]
        env.true(t.header['BITPIX'] == bits == m.header['BITPIX'] and 'BITPIX' not in h, 'BITPIX')
        for g, x in ((m, z), (m.coverage, z + 1), (m.error, 2 * z), (t, z)):
            env.true(g.dtype == dt and np.array_equal(np.asarray(g), x.astype(dt)), 'conversion of the type of a map')
    elif kind in ('ones', 'zeros', 'empty'):
        t = getattr(Tod, kind)(shape, mask=mask, unit='s', header=h)
        m = getattr(Map, kind)(shape, coverage=given[1], error=given[2], unit='s', header=h, origin='upper')
        a = getattr(FitsArray, kind)(shape, unit='s', dtype='f4')
        env.true(type(t) is Tod and t.shape == shape and t.dtype == float and np.array_equal(t.mask, mask) and t.unit == 's' and t.header['KEY'] == 3, 'new Tod')
        env.true(type(m) is Map and m.shape == shape and m.dtype == float and m.unit == 's' and m.origin == 'upper' and m.header['KEY'] == 3, 'new Map')
        env.true(type(a) is FitsArray and a.dtype == np.float32 and a.unit == 's', 'new FitsArray')
        env.eq(m.coverage, c, 'coverage')
        env.eq(m.error, e, 'error')
        if kind != 'empty':
            env.true(all(np.all(np.asarray(x) == (kind == 'ones')) for x in (t, m, a)), 'values')
    else:
        m = Map(given[0], coverage=given[1], error=given[2], unit='K')
        t = Tod(v, mask=mask.copy(), unit='K')
        for g in (m + m, 2 * m, -m, m - 1):
            env.eq(g.coverage, c, 'coverage of an expression')
            env.eq(g.error, e, 'error of an expression')
        for g in (t + t, 2 * t, -t):
            env.true(np.array_equal(g.mask, mask), 'mask of an expression')
        env.raises(ValueError, lambda: Map(v, origin='left'), 'origin')
        env.raises(TypeError, lambda: setattr(m, 'header', {}), 'header')
        env.true(Map(v, origin=' Upper ').origin == 'upper' and Map(v).origin == 'lower', 'origin')


HARNESSES = [
    Harness('maps', maps, lambda t: [(n, a, o) for n in ALL for a, o in (('ce', 'C'), ('c', 'F'), ('e', 'C'))], '2 x 3 maps; any values, selections by any mask', opts=OPTS),
    Harness('tods', tods, lambda t: [(n, o) for n in ALL for o in 'CF'], '2 x 3 samples; any values and mask', opts=OPTS),
    Harness('reductions', reductions, lambda t: [(n, ax, s) for n in ('sum', 'mean', 'var') for ax, s in ((None, (2, 2)), (0, (2, 2)), (1, (2, 3)), (-1, (2, 2)), (None, (3,)), (0, (2, 1, 2)))] +
            [(n, ax, s) for n in ('min', 'max') for ax, s in ((None, (3,)), (0, (2, 2)), (-1, (1, 3)))], 'up to 6 samples; any values and mask', opts=OPTS),
    Harness('setmask', setmask, [(k,) for k in ('true', 'false', 'one', 'zero', 'none', 'nomask', 'wrong', 'bool', 'list', 'i1', 'u1', 'i8', 'f8', 'fortran')], '2 x 2 samples', opts=OPTS),
    Harness('copies', copies, [(k,) for k in ('map', 'map-share', 'tod', 'masked', 'f4', 'f8', 'i4', 'ones', 'zeros', 'empty', 'expressions')], '2 x 2 values', opts=OPTS),
]
