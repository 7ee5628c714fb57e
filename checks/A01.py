"""Statistics of angles and directions: mean and extrema in degrees, barycenter, angular distance."""
import math
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

D2R = F(math.pi / 180)
R2D = F(180 / math.pi)


def num(env, x):
    return x if env.symbolic else float(x)


def angles(env, n, nan, turns):
    """-> (base, offsets of the valid values, array of base + offset + turns): an arc of at most 90 degrees"""
    base = env.real('base')
    env.assume((base >= 0) & (base < 360) if env.symbolic else 0 <= base < 360)
    d, v = [], []
    for i in range(n):
        if nan[i]:
            v.append(float('nan'))
            continue
        x = env.real(f'd{i}')
        env.assume((x >= 0) & (x < 90) if env.symbolic else 0 <= x < 90)
        d.append(x)
        v.append(base + x + 360 * turns[i])
    return base, d, env.arr(v)


def circular(env, got, want, label, lo=0):
    """got is in [0, 360] and differs from want by turns"""
    got = env.val(got)
    env.true((got >= lo) & (got <= 360) if env.symbolic else lo <= got <= 360, f'{label}: between 0 and 360')
    if env.symbolic:
        k = env.bool(label + ': turn')
        a = (want >= 360) if k else (want < 360)
        env.assume(a)
        env.eq(got, [want - 360 if k else want], label)
    else:
        x = (got - want) / 360
        env.true(abs(x - round(x)) < 1e-6, f'{label}: got {got}, expected {want} modulo 360')


def mean(env, n, nan, turns, threads):
    from pysimulators import _flib as flib
    base, d, v = angles(env, n, nan, turns)
    env.threads(threads)
    got = flib.wcsutils.mean_degrees(v)
    if not d:
        env.eq(got, [float('nan')], 'mean of no angle')
        return
    s = 0
    for x in d:
        s = s + x
    circular(env, got, base + s / len(d), 'mean')


def minmax(env, n, nan, turns, threads):
    from pysimulators import _flib as flib
    base, d, v = angles(env, n, nan, turns)
    env.threads(threads)
    lo, hi = flib.wcsutils.minmax_degrees(v)
    if not d:
        env.eq([lo, hi], [float('nan')] * 2, 'extrema of no angle')
        return
    a = b = d[0]
    for x in d[1:]:
        a = env.ite(x < a, x, a)
        b = env.ite(x > b, x, b)
    circular(env, lo, base + a, 'minimum')
    circular(env, hi, base + b, 'maximum')


def barycenter(env, n, nan, kind, threads):
    from pysimulators import barycenter_lonlat
    if env.symbolic:
        env.c.abstract = True       # products are uninterpreted: the result does not depend on their properties
    lon, lat, x, y, z = [], [], 0, 0, 0
    for i in range(n):
        o, a = env.real(f'lon{i}'), env.real(f'lat{i}')
        if kind in ('fortran', 'mixed'):
            # given longitudes, so that the pairing is what matters
            o = num(env, F((0, 20, 60, 80)[i]))
            env.assume((a >= 10) & (a <= 80) if env.symbolic else 10 <= a <= 80)
        else:
            env.assume((a >= -90) & (a <= 90) & (o >= -360) & (o <= 360) if env.symbolic else abs(a) <= 90 and abs(o) <= 360)
        if nan[i]:
            o, a = ((float('nan'), a), (o, float('nan')))[nan[i] - 1]
        else:
            p, t = o * num(env, D2R), a * num(env, D2R)
            c = env.fn('cos', t)
            x = x + c * env.fn('cos', p)
            y = y + c * env.fn('sin', p)
            z = z + env.fn('sin', t)
        lon.append(o)
        lat.append(a)
    env.threads(threads)
    if all(nan):
        lon0, lat0 = barycenter_lonlat(env.arr(lon), env.arr(lat))
        env.eq(lat0, [float('nan')], 'latitude of no direction')
        return
    if kind in ('fortran', 'mixed'):
        a, b = env.arr(lon).reshape((2, -1)), np.asfortranarray(env.arr(lat).reshape((2, -1)))
        lon0, lat0 = barycenter_lonlat(np.asfortranarray(a) if kind == 'fortran' else a, b)
        g, p = env.val(lon0), env.fn('atan2', y, x) * num(env, R2D)
        t = num(env, F(1, 10 ** 6))
        env.true((g - p <= t) & (p - g <= t) | (g - p - 360 <= t) & (p + 360 - g <= t), 'longitude', (g, p))
        return
    # two opposite directions have no barycenter
    r2 = x * x + y * y
    env.assume((r2 > 0.0001) & ((z > 0.01) | (z < -0.01)) if env.symbolic else r2 > 1e-4 and abs(z) > 0.01)
    p = env.fn('atan2', y, x) * num(env, R2D)
    if env.symbolic:
        c = env.sqrt(r2 / (r2 + z * z))
        env.assume((c >= 0) & (c < 1))
        t = env.fn('acos', c) * num(env, R2D)
    if kind == 'scalar':
        lon0, lat0 = barycenter_lonlat(env.f(lon[0]), env.f(lat[0]))
    else:
        a, b = env.arr(lon), env.arr(lat)
        if kind == '2d':
            a, b = a.reshape((2, -1)), b.reshape((2, -1))
        elif kind == 'strided':
            c = np.zeros((n, 2))
            c[:, 0], c[:, 1] = a, b
            a, b = c[:, 0], c[:, 1]
        elif kind == 'list':
            a, b = list(a), list(b)
        lon0, lat0 = barycenter_lonlat(a, b)
    got = env.val(lon0)
    if env.symbolic:
        env.true((got >= 0) & (got <= 360), 'longitude between 0 and 360')
        env.true((got == p) | (got == p + 360), 'longitude')
        env.true(env.val(lat0) == env.ite(z < 0, -t, t), 'latitude')
    else:
        k = (got - p) / 360
        env.true(-1e-9 <= got <= 360 + 1e-9 and abs(k - round(k)) < 1e-6, 'longitude', (got, p))
        env.eq(lat0, [math.degrees(math.atan2(z, math.sqrt(r2)))], 'latitude')


def angle(env, kind):
    from pysimulators import angle_lonlat
    shapes = {'scalar': ((), ()), 'first': ((), (2,)), 'second': ((2,), ()), 'pairs': ((2,), (2,)), 'one': ((1,), (2,)),
              'tuple': ((), ()), 'tuples': ((2,), (2,)), '2d': ((2, 1), (2, 1)), 'fortran': ((2, 2), (2, 2)), 'mixed': ((2, 2), (2, 2)), 'strided': ((2,), (2,)),
              'mismatch': ((2,), (3,))}[kind]

    def coord(name, shape):
        n = int(np.prod(shape))
        v = [env.real(f'{name}{i}') for i in range(n)]
        for x in v:
            env.assume((x >= -360) & (x <= 360) if env.symbolic else abs(x) <= 360)
        return v
    lon1, lat1 = coord('lon1', shapes[0]), coord('lat1', shapes[0])
    lon2, lat2 = coord('lon2', shapes[1]), coord('lat2', shapes[1])
    if kind in ('fortran', 'mixed'):
        # given longitudes, so that the pairing is what matters
        lon1, lat1, lon2 = [num(env, F(0))] * 4, [num(env, F(0))] * 4, [num(env, F(x)) for x in (0, 20, 60, 80)]

    def wrap(v, shape):
        if shape == ():
            return env.f(v[0])
        a = env.arr(v).reshape(shape)
        if kind == 'fortran' or kind == 'mixed' and v[0] is lat2[0]:
            a = np.asfortranarray(a)
        if kind == 'strided':
            b = np.zeros(2 * len(v))
            b[::2] = a
            a = b[::2]
        return a
    args = [wrap(v, s) for v, s in zip((lon1, lat1, lon2, lat2), shapes[:1] * 2 + shapes[1:] * 2)]
    if kind == 'mismatch':
        env.raises(ValueError, lambda: angle_lonlat(*args), 'incompatible numbers of directions')
        return
    n = max(len(lon1), len(lon2))
    want = []
    for i in range(n):
        a, b = (lon1[i % len(lon1)], lat1[i % len(lat1)]), (lon2[i % len(lon2)], lat2[i % len(lat2)])
        k = num(env, D2R)
        c = (env.fn('cos', a[1] * k) * env.fn('cos', b[1] * k) * env.fn('cos', (b[0] - a[0]) * k)
             + env.fn('sin', a[1] * k) * env.fn('sin', b[1] * k))
        if env.symbolic:
            env.assume((c >= -1) & (c <= 1))        # a scalar product of unit vectors
            want.append(env.fn('acos', c) * num(env, R2D))
        else:
            want.append(math.degrees(math.acos(max(-1, min(1, c)))))
    if kind.startswith('tuple'):
        got = angle_lonlat((args[0], args[1]), (args[2], args[3]))
        back = angle_lonlat((args[2], args[3]), (args[0], args[1]))
    else:
        got = angle_lonlat(*args)
        back = angle_lonlat(args[2], args[3], args[0], args[1])
    env.true(np.ndim(got) == (0 if shapes == ((), ()) else 1) and np.size(got) == n, 'shape of the angles', np.shape(got))
    env.eq(got, want, 'angle')
    if kind not in ('fortran', 'mixed'):
        env.eq(back, want, 'angle in the other direction')
    for g in env.vals(got):
        if env.symbolic:
            env.true((g >= 0) & (g <= 180 + F(1, 10 ** 9)), 'angle between 0 and 180')
        else:
            env.true(0 <= g <= 180 + 1e-9, 'angle between 0 and 180', g)
    zero = angle_lonlat(args[0], args[1], args[0], args[1])
    if env.symbolic:
        env.eq(zero, [0] * len(lon1), 'angle of a direction with itself')
    else:
        env.true(all(0 <= g < 1e-5 for g in env.vals(zero)), 'angle of a direction with itself', zero)


def _sets(tier):
    t = [(0, 0, 0, 0), (0, 1, -1, 0), (2, 0, 1, -1)]
    out = []
    for n in range(0, 4 if tier == 'quick' else 5):
        for nan in ((0,) * n, (0, 1, 0, 0)[:n], (1, 0, 0, 1)[:n], (1,) * n):
            for k in t:
                if (n, nan, k[:n], 1) not in out:
                    out.append((n, nan, k[:n], 1))
    out += [(3, (0, 0, 0), (0, 1, 0), 2), (4, (0, 1, 0, 0), (0, 0, 0, 0), 2), (3, (0, 0, 0), (0, 0, 0), 3)]
    return out


HARNESSES = [
    Harness('mean', mean, _sets, 'up to 3 (thorough: 4) angles within 90 degrees, up to two turns apart, any of them missing, 1 to 3 threads'),
    Harness('minmax', minmax, _sets, 'up to 3 (thorough: 4) angles within 90 degrees, up to two turns apart, any of them missing, 1 to 3 threads'),
    Harness('barycenter', barycenter, lambda t: [
        (1, (0,), 'scalar', 1), (1, (0,), 'array', 1), (2, (0, 0), 'array', 1), (2, (0, 0), '2d', 1), (2, (0, 0), 'list', 1), (2, (0, 1), 'strided', 1),
        (3, (0, 2, 0), 'array', 1), (3, (1, 0, 0), 'array', 2), (2, (1, 2), 'array', 1), (3, (0, 0, 0), 'array', 2),
        (4, (0, 0, 0, 0), 'mixed', 1), (4, (0, 0, 0, 1), 'fortran', 1)],
            'up to 4 directions, any of them missing, 1 or 2 threads'),
    Harness('angle', angle, lambda t: [(k,) for k in ('scalar', 'first', 'second', 'pairs', 'one', 'tuple', 'tuples', '2d', 'fortran', 'mixed', 'strided', 'mismatch')],
            'up to 4 pairs of directions'),
]
