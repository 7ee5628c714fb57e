"""Grids, polygons, rotations and areas satisfy their defining identities."""
import math
from fractions import Fraction

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}
DEG = math.pi / 180


def trig(env, angle):
    """cos, sin of an angle in degrees"""
    if env.symbolic:
        env.c.angle_zero = True
    a = env.const(angle) * (Fraction(DEG) if env.symbolic else DEG)
    return env.fn('cos', a), env.fn('sin', a)


def anangle(env, kind):
    return env.real('angle') if kind == 'any' else kind


def rot(p, cs):
    c, s = cs
    return [c * p[0] - s * p[1], s * p[0] + c * p[1]]


def outarr(env, shape, dtype, how):
    """an output of the required memory layout, with a view on the surrounding memory"""
    dt = np.dtype(dtype)
    if how == 'F':
        return np.zeros(shape, dt, order='F')
    if how == 'strided':
        return np.zeros(tuple(2 * s for s in shape), dt)[tuple(slice(None, None, 2) for _ in shape)]
    return np.zeros(shape, dt)


def grid(env, shape, kind, xr, yr, how, sq):
    from pysimulators.geometry import create_grid, create_grid_squares
    sp = env.real('spacing')
    cx, cy = env.real('cx'), env.real('cy')
    angle = anangle(env, kind)
    kw = {}
    env.threads(env.choose('threads', [1, 2]) if shape[0] > 1 else 1)
    m, n = shape
    if how == 'out':
        kw['out'] = np.zeros(shape + ((4, 2) if sq else (2,)))
    elif how == 'row':          # a contiguous part of a bigger array
        kw['out'] = np.zeros((2,) + shape + ((4, 2) if sq else (2,)))[1]
    if how != 'default':
        kw.update(xreflection=xr, yreflection=yr, center=env.arr([cx, cy]) if how == 'arr' else (env.f(cx), env.f(cy)),
                  angle=env.f(angle))
    else:
        cx = cy = 0
        angle = 0
        xr = yr = False
    cs = trig(env, angle)
    half = None
    if sq:
        if how == 'default':
            ff = 1
            half = sp / 2
        else:
            ff = env.real('ff')
            env.assume(ff > 0)
            half = sp * env.sqrt(ff) / 2
            kw['filling_factor'] = env.f(ff)
        got = create_grid_squares(shape, env.f(sp), **kw)
        env.true(got.shape == shape + (4, 2), 'shape of the squares')
    else:
        got = create_grid(shape, env.f(sp), **kw)
        env.true(got.shape == shape + (2,), 'shape of the grid')
    if 'out' in kw:
        env.true(got is kw['out'], 'output of the grid')
    fx, fy = -1 if xr else 1, -1 if yr else 1
    want = []
    for i in range(m):
        for j in range(n):
            x, y = (j - Fraction(n - 1, 2)), (Fraction(m - 1, 2) - i)
            if not env.symbolic:
                x, y = float(x), float(y)
            for kx, ky in ((1, 1), (-1, 1), (-1, -1), (1, -1)) if sq else ((0, 0),):
                p = [x * sp, y * sp]
                if sq:
                    p = [p[0] + kx * half, p[1] + ky * half]
                q = rot([p[0] * fx, p[1] * fy], cs)
                want += [cx + q[0], cy + q[1]]
    env.eq(got, want, 'squares' if sq else 'grid')
    if how == 'row':
        env.true(not np.any(got.base[0]), 'memory outside the output')


def rotation(env, shape, dtype, layout, how):
    from pysimulators.geometry import rotate
    n = int(np.prod(shape[:-1]))
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        v = [env.real(f'v{i}') for i in range(2 * n)]
    else:
        v = [(-1 if dt.kind == 'i' else 1) ** i * (i + 1) for i in range(2 * n)]
    angle = env.real('angle')
    env.threads(2 if n > 2 else 1)
    a = outarr(env, shape, dtype, layout)
    a[...] = (env.arr(v, dtype) if dt.kind == 'f' else np.array(v, dt)).reshape(shape)
    cs = trig(env, angle)
    want = []
    for i in range(n):
        want += rot(v[2 * i:2 * i + 2], cs)
    odt = np.dtype('f8') if dt.kind != 'f' else dt
    if how.startswith('as '):            # an output of another type
        odt, how = np.dtype(how[3:]), 'C'
    if how == 'inplace':
        out = a
    elif how == 'none':
        out = None
    elif how == 'alias':         # another view of the same memory
        out = a.view()
    else:
        out = outarr(env, shape, odt, how)
    if how == 'list':
        out = None
        got = rotate([[env.f(z) for z in q] for q in a], env.f(angle))
    else:
        got = rotate(a, env.f(angle)) if out is None else rotate(a, env.f(angle), out=out)
    env.true(got.shape == shape and (how == 'list' or got.dtype == odt), 'rotated coordinates')
    env.eq(got, want, 'rotation')
    if out is not None:
        env.eq(out, want, 'rotation in the output')
    if how not in ('inplace', 'alias'):
        env.eq(a, v, 'the input is unchanged')


def polygon(env, what, size, center, kind, how):
    import pysimulators.geometry as g
    angle = anangle(env, kind)
    cs = trig(env, angle)
    n = int(np.prod(size))
    if center == 'none':
        kw, c = {}, lambda i: [0, 0]
    elif center == 'one':
        cc = [env.real('cx'), env.real('cy')]
        kw, c = {'center': tuple(env.f(z) for z in cc)}, lambda i: cc
    else:
        cc = [env.real(f'c{i}') for i in range(2 * n)]
        ca = env.arr(cc).reshape(size + (2,))
        if what in ('square', 'rectangle'):
            ca = ca[..., None, :]
        kw, c = {'center': ca}, lambda i: cc[2 * i:2 * i + 2]
    if kind != 0:
        kw['angle'] = env.f(angle)
    want = []
    sq = ((0.5, 0.5), (-0.5, 0.5), (-0.5, -0.5), (0.5, -0.5))
    if what in ('square', 'rectangle'):
        two = what == 'rectangle'
        s = [env.real(f's{i}') for i in range(n * (1 + two))]
        nv = 4
        for i in range(n):
            w, h = (s[2 * i], s[2 * i + 1]) if two else (s[i], s[i])
            for kx, ky in sq:
                p = rot([w * kx, h * ky], cs)
                want += [p[0] + c(i)[0], p[1] + c(i)[1]]
        arg = env.arr(s).reshape(size + ((2,) if two else ())) if size or two else env.f(s[0])
        f = g.create_rectangle if two else g.create_square
        args = (arg,)
    else:
        r = [env.real(f'r{i}') for i in range(n)]
        arg = env.arr(r).reshape(size) if size else env.f(r[0])
        if what == 'circle':
            nv = 5
            f, args = g.create_circle, (arg,)
            kw['n'] = nv
        else:
            nv = env.int('n', 3, 6)
            f, args = g.create_regular_polygon, (nv, arg)
        for i in range(n):
            for k in range(nv):
                a0 = (Fraction(2 * math.pi) if env.symbolic else 2 * math.pi) / nv * k
                a = env.const(angle) * (Fraction(DEG) if env.symbolic else DEG) + a0
                want += [r[i] * env.fn('cos', a) + c(i)[0], r[i] * env.fn('sin', a) + c(i)[1]]
    shape = size + (nv, 2)
    if how == 'out':
        kw['out'] = np.zeros(shape)
    elif how == 'outstrided':
        kw['out'] = outarr(env, shape, float, 'strided')
    elif how == 'single':
        kw['dtype'] = np.float32
    got = f(*args, **kw)
    env.true(got.shape == shape, f'shape of the {what}', got.shape)
    env.true(got.dtype == (np.float32 if how == 'single' else float), f'type of the {what}')
    env.eq(got, want, what)
    if 'out' in kw:
        env.eq(kw['out'], want, f'{what} in the output')


def area(env, shape, layout, how):
    from pysimulators.geometry import surface_simple_polygon
    n = int(np.prod(shape[:-2]))
    nv = shape[-2]
    v = [env.real(f'v{i}') for i in range(2 * n * nv)]
    a = outarr(env, shape, np.float32 if layout == 'single' else float, layout)
    a[...] = env.arr(v, a.dtype).reshape(shape)
    env.threads(2 if n > 1 else 1)
    out = np.zeros(shape[:-2]) if how == 'out' else None
    s = env.choose('start', range(nv))
    if s:
        a[...] = np.roll(a, s, axis=-2)
    got = surface_simple_polygon(a) if out is None else surface_simple_polygon(a, out=out)
    want = []
    for i in range(n):
        t = 0
        for k in range(nv):
            x1, y1 = v[2 * (i * nv + k):2 * (i * nv + k) + 2]
            k2 = (k + 1) % nv
            x2, y2 = v[2 * (i * nv + k2):2 * (i * nv + k2) + 2]
            t = t + (x1 * y2 - x2 * y1)
        want.append(t * 0.5)
    env.true(np.shape(got) == shape[:-2], 'shape of the areas', np.shape(got))
    env.eq(got, want, 'area')
    if out is not None:
        env.eq(out, want, 'area in the output')
    env.eq(np.roll(a, -s, axis=-2), v, 'the vertices are unchanged')


def segments(env, nv, free, dtype):
    """The edge after vertex `free` is horizontal or vertical with a symbolic length."""
    from pysimulators.geometry import segment_polygon
    d = env.real('max')
    env.assume(d > 0)
    L = env.real('L')
    env.assume(L >= 0)
    x0, y0 = env.real('x0'), env.real('y0')
    env.assume(L <= 2 * d)
    # a rectangle (or a degenerated triangle) of sides L and d
    if nv == 4:
        p = [[x0, y0], [x0 + L, y0], [x0 + L, y0 + d], [x0, y0 + d]]
        lens = [L, d, L, d]
    else:
        p = [[x0, y0], [x0 + L, y0], [x0 + L / 2, y0]]
        lens = [L, L / 2, L / 2]
    p = p[free:] + p[:free]
    lens = lens[free:] + lens[:free]
    a = env.arr([z for q in p for z in q]).reshape(nv, 2)
    got = segment_polygon(a, env.f(d))
    want = []
    for i in range(nv):
        q, r = p[i], p[(i + 1) % nv]
        k = 0
        while bool(lens[i] > k * d):
            k += 1
        for j in range(k):
            f = Fraction(j, k) if env.symbolic else j / k
            want += [q[0] + (r[0] - q[0]) * f, q[1] + (r[1] - q[1]) * f]
    env.true(got.shape == (len(want) // 2, 2), 'number of segments', got.shape)
    env.eq(got, want, 'segments')


def _grid(tier):
    out = []
    for shape in ((1, 1), (1, 3), (2, 2), (3, 2)) + (() if tier == 'quick' else ((3, 4), (4, 3), (5, 2))):
        for sq in (False, True):
            for xr in (False, True):
                for yr in (False, True):
                    out.append((shape, 'any', xr, yr, 'tuple', sq))
            for how in ('default', 'out', 'row', 'arr'):
                out.append((shape, 'any', True, False, how, sq))
            out.append((shape, 0, False, False, 'tuple', sq))
    return out


def _rotation(tier):
    out = []
    for dt in ('f8', 'f4', 'g'):
        for layout in ('C', 'F', 'strided'):
            for how in ('none', 'inplace', 'C', 'F', 'strided', 'alias', 'list'):
                if dt != 'f8' and how in ('list', 'alias') or dt == 'g':
                    continue
                out.append(((3, 2), dt, layout, how))
    out += [((2,), 'f8', 'C', h) for h in ('none', 'inplace', 'C')] + [((2, 2, 2), 'f8', 'C', h) for h in ('none', 'inplace', 'F')]
    out += [((2, 2, 2), 'f8', 'F', h) for h in ('none', 'inplace', 'C')]
    out += [((3, 2), dt, l, h) for dt in ('i8', 'i4', 'u1') for l in ('C', 'strided') for h in ('none', 'C', 'F', 'strided') if dt != 'u1' or h == 'none']
    out += [((3, 2), 'f8', 'C', 'as f4'), ((3, 2), 'f4', 'C', 'as f8'), ((3, 2), 'i8', 'C', 'as f4'), ((3, 2), 'f4', 'F', 'as f8')]
    return out


def _polygon(tier):
    out = []
    for what in ('square', 'rectangle', 'polygon', 'circle'):
        for size in ((), (2,), (2, 1)):
            for center in ('none', 'one', 'each'):
                for kind in ((0, 'any') if what != 'circle' else (0,)):
                    for how in ('none', 'out', 'outstrided', 'single'):
                        if how != 'none' and (center == 'none' or size == (2, 1)) and tier == 'quick':
                            continue
                        out.append((what, size, center, kind, how))
    return out


def _area(tier):
    out = []
    for shape in ((3, 2), (4, 2), (1, 3, 2), (2, 3, 2), (3, 4, 2)) + (() if tier == 'quick' else ((5, 2), (2, 6, 2))):
        for layout, how in (('C', 'none'), ('F', 'none'), ('strided', 'out'), ('single', 'none'), ('C', 'out')):
            out.append((shape, layout, how))
    return out


HARNESSES = [
    Harness('grid', grid, _grid, 'grids of up to 3 x 2 nodes, all spacings, angles, centers and filling factors', opts=OPTS),
    Harness('rotation', rotation, _rotation, 'up to 4 points, all angles', opts=OPTS),
    Harness('polygon', polygon, _polygon, 'up to 2 polygons of 3 to 6 vertices', opts=OPTS),
    Harness('area', area, _area, 'up to 3 polygons of up to 4 vertices, every starting vertex', opts=OPTS),
    Harness('segments', segments, lambda t: [(n, f, 'f8') for n in (3, 4) for f in range(n)],
            'triangles and rectangles, up to 2 segments per edge', opts=OPTS),
]
