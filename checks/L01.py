"""Layouts and grids keep the indices, the centers and the vertices of their cells together."""
from fractions import Fraction

import numpy as np

from engine.runner import Harness
from checks import tablelib as L
from checks.G02 import rot, trig

OPTS = {'ufunc': True}
NAN = float('nan')
CORNERS = ((1, 1), (-1, 1), (-1, -1), (1, -1))


def cells(env, shape, sp, origin, angle, xr, yr, half=None, z=None):
    """Centers (or corners) of the cells, as lists of coordinates."""
    m, n = shape
    cs = trig(env, angle)
    fx, fy = -1 if xr else 1, -1 if yr else 1
    out = []
    for i in range(m):
        for j in range(n):
            x, y = (j - Fraction(n - 1, 2)), (Fraction(m - 1, 2) - i)
            if not env.symbolic:
                x, y = float(x), float(y)
            v = []
            for kx, ky in ((0, 0),) if half is None else CORNERS:
                p = [x * sp, y * sp]
                if half is not None:
                    p = [p[0] + kx * half, p[1] + ky * half]
                q = rot([p[0] * fx, p[1] * fy], cs)
                v += [origin[0] + q[0], origin[1] + q[1]]
                if z is not None:
                    v += [z]
            out.append(v)
    return out


def flat(cells, rows):
    return [v for r in rows for v in cells[r]]


def unpacked(cells, rows, n):
    k = len(cells[0]) if cells else 0
    out = []
    for i in range(n):
        out += cells[i] if i in rows else [NAN] * k
    return out


def plain(env, x, unit, label):
    """-> the values of a quantity or an array, whose unit must be `unit`"""
    env.true(getattr(x, 'unit', '') == unit, f'{label}: unit', getattr(x, 'unit', ''))
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else x


def checktable(env, t, shape, rows, attrs, unit, label):
    n = int(np.prod(shape))
    env.true(len(t) == len(rows) and [int(i) for i in t.index] == rows, f'{label}: components', [int(i) for i in t.index])
    env.true(t.shape == shape and len(t.all) == n, f'{label}: shape')
    for name, (vals, rest) in attrs.items():
        a = getattr(t, name)
        env.true(a.shape == (len(rows),) + rest, f'{label}: shape of {name}', a.shape)
        u = getattr(t.all, name)
        env.true(u.shape == shape + rest, f'{label}: shape of all.{name}', u.shape)
        if a.dtype.kind == 'i':
            env.true([int(v) for v in a.ravel()] == flat(vals, rows), f'{label}: {name}', a)
            env.true([int(v) for v in u.ravel()] == [vals[i][0] if i in rows else -1 for i in range(n)], f'{label}: all.{name}', u)
            continue
        env.eq(plain(env, a, unit, f'{label}: {name}'), flat(vals, rows), f'{label}: {name}')
        env.eq(plain(env, u, unit, f'{label}: all.{name}'), unpacked(vals, rows, n), f'{label}: all.{name}')
    r = t.all.removed
    env.true(r.shape == shape and [bool(v) for v in r.ravel()] == [i not in rows for i in range(n)], f'{label}: removed')
    env.true(not bool(t.removed), f'{label}: removed components')


def grid(env, shape, kind, sq, unit, how):
    from pysimulators import Quantity
    from pysimulators.packedtables import LayoutGrid, LayoutGridSquares
    sp = env.real('spacing')
    o = [env.real('ox'), env.real('oy')]
    kw, rows = L.chosen(env, kind, shape)
    angle = env.real('angle') if how == 'all' else 30 if how == 'angle' else 0
    xr = env.choose('xr', (False, True)) if how == 'all' else False
    yr = env.choose('yr', (False, True)) if how == 'all' else False
    few = kind in ('slice', 'order', 'ordersel')
    one = True if few else env.choose('one', (False, True))
    if how == 'all':
        kw.update(xreflection=xr, yreflection=yr)
    if how in ('all', 'angle'):
        kw['angle'] = env.f(angle) if how == 'all' else angle
    if one:
        kw['startswith1'] = True
    spacing = env.f(sp)
    oo = [env.f(v) for v in o]
    res = unit.split('/')[0]
    if unit == 'none':
        res = ''
        kw['origin'] = env.choose('o', ('tuple', 'array'))
        kw['origin'] = tuple(oo) if kw['origin'] == 'tuple' else env.arr(o)
    elif unit == 'noorigin':
        res = 'mm'
        spacing, o = Quantity(spacing, 'mm'), [0, 0]
    elif unit == 'radius':
        res = 'mm'
        kw['origin'] = tuple(oo)
        r = env.real('r')
        kw['radius'] = Quantity(env.f(r), 'mm')
    else:                       # unit of the spacing / unit of the origin
        us, uo = unit.split('/')
        if us:
            spacing = Quantity(spacing, us)
        else:
            res = uo
        kw['origin'] = Quantity(env.arr(o), uo) if uo else env.arr(o)
        factor = {('mm', 'm'): 1000, ('m', 'mm'): Fraction(1, 1000)}.get((us, uo), 1)
        if not env.symbolic:
            factor = float(factor)
        o = [factor * v for v in o]
    attrs = {}
    if sq:
        ff = 1
        if how == 'all':
            ff = env.real('ff')
            env.assume(ff > 0)
            kw['filling_factor'] = env.f(ff)
        half = sp * env.sqrt(env.const(ff)) / 2 if how == 'all' else sp / 2
        attrs['vertex'] = cells(env, shape, sp, o, angle, xr, yr, half), (4, 2)
        t = LayoutGridSquares(shape if how == 'all' else list(shape), spacing, **kw)
        env.true(t.nvertices == 4, 'number of vertices')
    else:
        t = LayoutGrid(shape if how == 'all' else list(shape), spacing, **kw)
    attrs['center'] = cells(env, shape, sp, o, angle, xr, yr), (2,)
    m, n = shape
    attrs['row'] = [[i // n + one] for i in range(m * n)], ()
    attrs['column'] = [[i % n + one] for i in range(m * n)], ()
    checktable(env, t, shape, rows, attrs, res, 'grid')
    env.eq([plain(env, t.spacing, res, 'spacing')], [sp], 'spacing')
    env.eq(plain(env, np.asanyarray(t.origin), res if unit != 'none' else '', 'origin'), o, 'origin')
    if unit == 'radius':
        env.eq([plain(env, t.radius, res, 'radius')], [r], 'radius')
    # a part of the grid
    k = len(rows)
    sub = ('s+2', 's-1', 'ii', 'm')[sum(rows) % 4] if kind != 'full' else env.choose('sub', ('s+2', 's-1', 'ii', 'm'))
    if k:
        sel = L.FIXED[sub](k)
        part = [rows[int(i)] for i in np.arange(k)[sel]]
        if len(set(part)) == len(part):
            checktable(env, t[sel], shape, part, attrs, res, 'selection of the grid')
        else:
            s = t[sel]
            env.true([int(i) for i in s.index] == part, 'selection of the grid: components')
            env.eq(plain(env, s.center, res, 'center'), flat(attrs['center'][0], part), 'selection of the grid: center')
            env.true([int(i) for i in s.row] == flat(attrs['row'][0], part), 'selection of the grid: row')
        checktable(env, t, shape, rows, attrs, res, 'grid after a selection')


def layout(env, shape, kind, what, unit, nv, z):
    """A layout given by its centers, its vertices or both."""
    from pysimulators import Quantity
    from pysimulators.packedtables import Layout
    n = int(np.prod(shape))
    d = 3 if z else 2
    kw, rows = L.chosen(env, kind, shape)
    v = [[env.real(f'v{i}_{j}') for j in range(d * nv)] for i in range(n)]
    c = [[env.real(f'c{i}_{j}') for j in range(d)] for i in range(n)]
    attrs = {}

    def q(x):
        return Quantity(x, unit) if unit else x
    if 'v' in what:
        kw['vertex'] = q(env.arr([y for x in v for y in x]).reshape(shape + (nv, d)))
        attrs['vertex'] = v, (nv, d)
    if 'c' in what:
        kw['center'] = q(env.arr([y for x in c for y in x]).reshape(shape + (d,)))
    else:
        c = []
        for x in v:
            c.append([sum((x[k * d + j] for k in range(1, nv)), x[j]) / nv for j in range(d)])
    attrs['center'] = c, (d,)
    t = Layout(shape, **kw)
    if 'v' in what:
        env.true(t.nvertices == nv, 'number of vertices')
    else:
        env.true(not hasattr(t, 'vertex') and not hasattr(t, 'nvertices'), 'no vertices')
    checktable(env, t, shape, rows, attrs, unit, 'layout')
    for name in ('vertex', 'center'):
        if name in kw:
            env.eq(plain(env, kw[name], unit, name), flat(attrs[name][0], range(n)), f'{name} given to the layout')
    # the attributes can be replaced through the packed or unpacked table
    if what == 'c':
        return
    w = [[env.real(f'w{i}_{j}') for j in range(d * nv)] for i in range(n)]
    wa = env.arr([y for x in w for y in x]).reshape(shape + (nv, d))
    if env.choose('set', ('all', 'packed')) == 'all':
        t.all.vertex = q(wa)
    else:
        t.vertex = q(wa.reshape((n, nv, d))[rows])
    attrs['vertex'] = w, (nv, d)
    if 'c' not in what:
        attrs['center'] = [[sum((x[k * d + j] for k in range(1, nv)), x[j]) / nv for j in range(d)] for x in w], (d,)
    checktable(env, t, shape, rows, attrs, unit, 'layout with other vertices')


def scene(env, shape, start, dtype, ndim):
    from pysimulators.packedtables import Scene, SceneGrid
    n = int(np.prod(shape))
    val = env.real('val')
    if ndim is None:
        s = SceneGrid(shape, startswith1=start, dtype=dtype)
        m = shape[1]
        row, col = s.row(), s.column()
        env.true([int(i) for i in row] == [i // m + start for i in range(n)], 'rows of the scene', row)
        env.true([int(i) for i in col] == [i % m + start for i in range(n)], 'columns of the scene', col)
        k = env.choose('sub', ('s+2', 's-1', 'm', 'ii'))
        sel = L.FIXED[k](n)
        part = [int(i) for i in np.arange(n)[sel]]
        p = s[sel]
        env.true([int(i) for i in p.row()] == [i // m + start for i in part], 'rows of a part of the scene')
        env.true([int(i) for i in p.column()] == [i % m + start for i in part], 'columns of a part of the scene')
        env.true([int(i) for i in s.index] == list(range(n)), 'the scene is unchanged')
    else:
        s = Scene(shape, ndim=ndim, dtype=dtype, other=env.f(val))
        env.eq([s.other], [val], 'scene attribute')
    for f, w in ((s.ones, 1), (s.zeros, 0)):
        a = f()
        env.true(a.shape == shape and a.dtype == dtype, 'array described by the scene')
        env.eq(a, [w] * n, f'{f.__name__} of the scene')
    env.true(s.empty().shape == shape and s.empty().dtype == dtype, 'empty array')


def _grid(tier):
    out = []
    shapes = ((1, 1), (1, 3), (2, 2), (3, 2)) if tier == 'quick' else ((1, 1), (1, 3), (2, 2), (3, 2), (2, 4), (3, 3))
    for sq in (False, True):
        for shape in shapes:
            n = shape[0] * shape[1]
            for unit in ('none', 'noorigin', 'mm/m', 'm/mm', '/mm', 'mm/', 'mm/mm') + (('radius',) if not sq else ()):
                out.append((shape, 'full', sq, unit, 'all' if shape in ((1, 3), (2, 2)) else 'default'))
            out.append((shape, 'full', sq, 'none', 'angle'))
            if n <= 4 or tier != 'quick':
                out.append((shape, 'bool', sq, 'none', 'default'))
                out.append((shape, 'ints', sq, 'mm/', 'default'))
            if n <= 3:
                out.append((shape, 'order', sq, 'none', 'default'))
            if n <= 4:
                out.append((shape, 'ordersel', sq, 'none', 'default'))
        out.append(((1, 3), 'slice', sq, 'none', 'default'))
    return out


def _layout(tier):
    out = []
    for shape in ((3,), (2, 2)) + (() if tier == 'quick' else ((4,), (3, 2))):
        for kind in ('full', 'bool', 'ints', 'ordersel'):
            for what in ('c', 'v', 'cv'):
                for unit in ('', 'mm'):
                    out.append((shape, kind, what, unit, 4 if kind == 'full' else 3, kind == 'bool'))
    return out


HARNESSES = [
    Harness('grid', grid, _grid, 'grids of up to 3 x 2 cells, all spacings, origins, angles, reflections, filling factors '
            'and selections', opts=OPTS),
    Harness('layout', layout, _layout, 'layouts of up to 4 components of 3 or 4 vertices, in 2 or 3 dimensions', opts=OPTS),
    Harness('scene', scene, lambda t: [(s, st, dt, None) for s in ((1, 1), (2, 3), (4, 1)) for st in (False, True) for dt in ('f8', 'f4')] +
            [((2, 3), False, 'f8', 1), ((2, 3), False, 'i4', 2)], 'scenes of up to 6 pixels', opts=OPTS),
]
