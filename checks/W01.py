"""Samplings: dates, coordinates and center of the pointings."""
import math
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}
DEG = F(math.pi) / 180


def mag(x):
    return np.asarray(x).view(np.ndarray)


def num(env, f):
    return f if env.symbolic else float(f)


def between(env, x, lo, hi):
    env.assume((x >= lo) & (x <= hi) if env.symbolic else lo <= x <= hi)
    return x


SELECTIONS = {'all': lambda n: (slice(None), range(n)), 'first': lambda n: (slice(0, 1), range(1)), 'rest': lambda n: (slice(1, None), range(1, n)),
              'reversed': lambda n: (slice(None, None, -1), range(n - 1, -1, -1)), 'list': lambda n: ([n - 1, 0], [n - 1, 0]),
              'mask': lambda n: (np.arange(n) % 2 == 0, range(0, n, 2)), 'int': lambda n: (n - 1, [n - 1])}


def times(env, n, given, sel):
    """the time of a sample is its index multiplied by the period, unless the times are given"""
    from pysimulators import Sampling
    p = between(env, env.real('p'), F(1, 1000) if env.symbolic else 0.001, 1000)
    t = [env.real(f't{i}') for i in range(n)]
    key, rows = SELECTIONS[sel](n)
    if given == 'period':
        s = Sampling(n, period=env.f(p))
        period, want = p, [i * p for i in rows]
    elif given == 'default':
        s = Sampling(n)
        period, want = 1, list(rows)
    elif given == 'both':
        s = Sampling(n, period=env.f(p), time=env.arr(t))
        period, want = p, [t[i] for i in rows]
    else:
        s = Sampling(n, time=env.arr(t))
        want = [t[i] for i in rows]
        d = [b - a for a, b in zip(t, t[1:])]
        if len(d) > 2:
            d = sorted(d, key=__import__('functools').cmp_to_key(lambda a, b: -1 if bool(a < b) else 1 if bool(a > b) else 0))
        m = len(d) // 2
        period = 1 if not d else d[m] if len(d) % 2 else (d[m - 1] + d[m]) / 2
    env.eq([env.val(s.period)], [period], 'period')
    r = s[key]
    env.true(len(r) == len(want), 'number of samples', len(r))
    env.eq([env.val(r.period)], [period], 'period of the selection')
    env.eq(mag(r.time), want, 'times')


def dates(env, kind):
    from astropy.time import Time
    from pysimulators import Sampling
    ref = Time('2010-02-03T04:05:06.25', scale='utc')
    if kind == 'refused':
        env.raises(TypeError, lambda: Sampling(2, date_obs=3), 'date')
        return
    given, want = {'default': lambda: (None, Time('2000-01-01', scale='utc')), 'text': lambda: ('2010-02-03T04:05:06.25', ref), 'scalar': lambda: (ref, ref),
                   'tai': lambda: (ref.tai, ref), 'jd': lambda: (Time(ref.jd, format='jd', scale='utc'), ref), 'array': lambda: (ref.reshape(1), ref),
                   'short': lambda: (Time('2010-02-03T04:05:06.250000001', scale='utc'), Time('2010-02-03T04:05:06.250000001', scale='utc'))}[kind]()
    s = Sampling(2, date_obs=given)
    env.true(s.date_obs.shape == (1,), 'shape of the date', s.date_obs.shape)
    env.true(abs((s.date_obs[0] - want).sec) < (1e-10 if kind != 'jd' else 1e-4), 'date', (s.date_obs, want))
    env.true(abs((s[1:].date_obs[0] - want).sec) < 1e-4, 'date of a selection')


def vector(env, az, el):
    a, e = az * num(env, DEG), el * num(env, DEG)
    if env.symbolic:          # same terms as those of the zenith angle
        c, s = env.fn('sin', F(math.pi) / 2 - e), env.fn('cos', F(math.pi) / 2 - e)
    else:
        c, s = math.cos(e), math.sin(e)
    return [c * env.fn('cos', a), c * env.fn('sin', a), s]


def pointing(env, kind, how, n):
    from pysimulators import SamplingEquatorial, SamplingHorizontal
    az = [between(env, env.real(f'a{i}'), 0, 359) for i in range(n)]
    el = [between(env, env.real(f'e{i}'), -89, 89) for i in range(n)]
    if how == 'broadcast':
        el = el[:1] * n
    pa = [env.real(f'p{i}') for i in range(n)] if how != 'two' else [0] * n
    names = ('ra', 'dec', 'pa') if kind == 'equatorial' else ('azimuth', 'elevation', 'pitch')
    cls = SamplingEquatorial if kind == 'equatorial' else SamplingHorizontal
    kw = {} if kind == 'equatorial' else {'latitude': 40, 'longitude': 10}
    A, E, P = env.arr(az), env.arr(el), env.arr(pa)
    if how == 'broadcast':
        E = env.f(el[0])
    if how == 'two':
        s = cls(A, E, **kw)
    elif how == 'keywords':
        s = cls(**dict(zip(names, (A, E, P))), **kw)
    elif how == 'after':
        s = cls(n, **kw)
        for k, x in zip(names, (A, E, P)):
            setattr(s, k, x)
    else:
        s = cls(A, E, P, **kw)
    return s, az, el, pa, names


def coordinates(env, kind, how, n, sel):
    if env.symbolic:
        env.c.abstract = True
    s, az, el, pa, names = pointing(env, kind, how, n)
    key, rows = SELECTIONS[sel](n)
    r = s[key]
    env.true(len(s) == n and len(r) == len(rows), 'sizes', (len(s), len(r)))
    for k, v in zip(names, (az, el, pa)):
        env.eq(np.broadcast_to(mag(getattr(r, k)), len(rows)), [v[i] for i in rows], k)
    env.true(r.spherical.shape == (len(rows), 2) and r.cartesian.shape == (len(rows), 3), 'shapes', (r.spherical.shape, r.cartesian.shape))
    env.eq(mag(r.spherical), [v[i] for i in rows for v in (az, el)], 'spherical coordinates')
    env.eq(mag(r.cartesian), [c for i in rows for c in vector(env, az[i], el[i])], 'cartesian coordinates')
    env.eq(mag(s.spherical), [v[i] for i in range(n) for v in (az, el)], 'original')


def center(env, n, masked, free, side):
    """direction of the sum of the unit vectors of the valid pointings"""
    from pysimulators import SamplingEquatorial
    if env.symbolic:
        env.c.abstract = True
    az = [between(env, env.real(f'a{i}'), 0, 359) if free else num(env, F((10, 50, 90)[i])) for i in range(n)]
    lo, hi = {'north': (20, 80), 'south': (-80, -20), 'both': (-89, 89)}[side]
    el = [between(env, env.real(f'e{i}'), lo, hi) for i in range(n)]
    kw = {}
    mask = [False] * n
    if masked == 'array':
        mask = [bool(env.bool(f'm{i}')) for i in range(n)]
        kw = {'masked': np.array(mask)}
    elif masked == 'all':
        mask = [True] * n
        kw = {'masked': True}
    s = SamplingEquatorial(env.arr(az), env.arr(el), **kw)
    if all(mask):
        env.raises(ValueError, lambda: s.get_center(), 'center of no pointing')
        return
    x, y, z = 0, 0, 0
    for a, e, m in zip(az, el, mask):
        if not m:
            v = vector(env, a, e)
            x, y, z = x + v[0], y + v[1], z + v[2]
    r2 = x * x + y * y + z * z
    if not env.symbolic:
        env.assume(r2 > 1e-4 and x * x + y * y > 1e-4)
    r = env.sqrt(r2)
    if env.symbolic:
        env.assume((r > F(1, 100)) & (r <= n))
        u = [x / r, y / r, z / r]
        env.assume((u[2] >= -1) & (u[2] <= 1))
    else:
        u = [x / r, y / r, z / r]
    e = num(env, F(math.pi)) / 2 - env.fn('acos', u[2])
    p = env.fn('atan2', u[1], u[0])
    p = env.ite(p < 0, p + 2 * num(env, F(math.pi)), p)
    got = mag(s.get_center())
    env.true(got.shape == (2,), 'shape', got.shape)
    want = [p / num(env, DEG), e / num(env, DEG)]
    if env.symbolic:
        env.close(got, want, 'center')
    else:
        env.true(abs((got[0] - want[0] + 180) % 360 - 180) < 1e-4, 'longitude of the center', (got, want))
        env.true(abs(got[1] - want[1]) < 1e-4, 'latitude of the center', (got, want))


def frames(env, kind, n, sel, clock, where):
    """conversion of each pointing at its own time (the conversions themselves are decided by O01)"""
    import pysimulators as ps
    from astropy.time import Time, TimeDelta
    from pysimulators.operators import CartesianHorizontal2EquatorialOperator as H2E
    if env.symbolic:
        env.c.abstract = True
    k, pi = num(env, DEG), num(env, F(math.pi))
    az = [between(env, env.real(f'a{i}'), 0, 359) for i in range(n)]
    el = [between(env, env.real(f'e{i}'), -89, 89) for i in range(n)]
    key, rows = SELECTIONS[sel](n)
    if kind == 'equatorial':
        s, ms = ps.SamplingEquatorial(env.arr(az), env.arr(el)), None
    else:
        lat = between(env, env.real('lat'), -89, 89) if where == 'anywhere' else 48.5
        lon = between(env, env.real('lon'), -179, 179) if where == 'anywhere' else -71.25
        flat, flon = (env.f(x) if where == 'anywhere' else x for x in (lat, lon))
        kw = {'date_obs': '2011-05-06T07:08:09', 'period': 1800} if clock == 'period' else {'date_obs': Time('2013-01-02T23:00:00', scale='utc'), 'time': np.array([5., 4000., 2000.])[:n]}
        date = kw['date_obs'] if clock != 'period' else Time([kw['date_obs']], scale='utc')
        secs = kw.get('time', 1800. * np.arange(n))
        s = ps.SamplingHorizontal(env.arr(az), env.arr(el), latitude=flat, longitude=flon, **kw)
    r = s[key]

    def check(got, label, galactic):
        want = []
        for i in rows:
            if galactic:
                op = ps.CartesianEquatorial2GalacticOperator()
            else:
                op = H2E('NE', (date + TimeDelta(secs[i:i + 1], format='sec'))[0], flat, flon)
            u = env.vals(mag(op(env.arr(vector(env, az[i], el[i])))))
            if env.symbolic:
                env.assume((u[2] >= -1) & (u[2] <= 1))
            else:
                env.assume(abs(u[2]) < 1 - 1e-9 and abs(u[0]) + abs(u[1]) > 1e-7)
            p = env.fn('atan2', u[1], u[0])
            want += [env.ite(p < 0, p + 2 * pi, p) / k, (pi / 2 - env.fn('acos', u[2])) / k]
        env.true(got.shape == (len(rows), 2), 'shape of ' + label, got.shape)
        if env.symbolic:
            env.close(got, want, label)
        else:
            for g, w in zip(env.vals(got), env.vals(want)):
                env.true(min(abs(g - w), abs(abs(g - w) - 360)) < 1e-3, label, (g, w))

    if kind != 'equatorial':
        check(mag(r.equatorial), 'equatorial coordinates', False)
    else:
        check(mag(r.galactic), 'galactic coordinates', True)
    env.eq(mag(s.spherical), [v for i in range(n) for v in (az[i], el[i])], 'original')


def refused(env, _):
    from pysimulators import SamplingEquatorial as E, SamplingHorizontal as H
    a = np.arange(3.)
    env.raises(ValueError, lambda: E(ra=a), 'declination')
    env.raises(ValueError, lambda: E(dec=a), 'right ascension')
    env.raises(ValueError, lambda: E(a), 'one array')
    env.raises(ValueError, lambda: E(a, a, a, a), 'four arguments')
    env.raises(ValueError, lambda: E(a, a[:2]), 'different numbers of samples')
    env.raises(ValueError, lambda: E(a[None], a), 'two dimensions')
    env.raises(ValueError, lambda: H(a, a, longitude=3), 'latitude')
    env.raises(ValueError, lambda: H(a, a, latitude=3), 'longitude')
    env.true(len(E(5)) == 5 and len(E(1., 2.)) == 1 and len(E(1., a)) == 3, 'numbers of samples')


HARNESSES = [
    Harness('times', times, lambda t: [(n, g, s) for n in (1, 2, 3, 4) for g in ('period', 'default', 'both', 'time') for s in SELECTIONS if n > 1 or s in ('all', 'first')],
            'up to 4 samples at any times', opts=OPTS),
    Harness('dates', dates, [(k,) for k in ('default', 'text', 'scalar', 'tai', 'jd', 'array', 'short', 'refused')], 'given dates', opts=OPTS),
    Harness('coordinates', coordinates, lambda t: [(k, h, n, s) for k in ('equatorial', 'horizontal') for h in ('two', 'three', 'keywords', 'broadcast', 'after') for n, s in
            ((2, 'all'), (3, 'reversed'), (3, 'mask'), (2, 'list'), (3, 'rest'))], 'up to 3 pointings', opts=OPTS),
    Harness('center', center, lambda t: [(n, m, f, s) for n in (3, 2, 1) for m in ('no', 'array', 'all') for f, s in ((False, 'north'), (False, 'south'), (True, 'both'))], 'up to 3 pointings, any of them masked', opts=OPTS),
    Harness('frames', frames, lambda t: [(k, n, x, c, w) for k in ('equatorial', 'horizontal') for n, x in ((1, 'all'), (2, 'all'), (3, 'rest'), (3, 'reversed')) for c in ('period', 'time')
            for w in ('fixed', 'anywhere') if k == 'horizontal' or (c, w) == ('period', 'fixed')], 'up to 3 pointings, two clocks, any place', opts=OPTS),
    Harness('refused', refused, [(0,)], '', opts=OPTS),
]
