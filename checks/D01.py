"""Maps of distances, circular apertures, Gaussian maps and axisymmetric profiles."""
import math
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}


def bounded(env, x, lo, hi):
    env.assume((x >= lo) & (x <= hi) if env.symbolic else lo <= x <= hi)
    return x


def mag(x):
    return np.asarray(x).view(np.ndarray)


def coords(env, shape, center, scale, dtype):
    """-> (arguments, center along the dimensions, scale along the dimensions)"""
    n = len(shape)
    kw = {}
    if center == 'default':
        c = [F(s - 1, 2) for s in shape]
    else:
        c = [bounded(env, env.real(f'c{i}'), -20, 20) for i in range(n)]
        a = env.arr(c[::-1])
        kw['center'] = {'array': lambda: a, 'list': lambda: list(a), 'float32': lambda: env.arr(c[::-1], 'f4')}[center]()
    if scale == 'default':
        s = [F(1)] * n
    elif scale in ('scalar', 'quantity'):
        s = [bounded(env, env.real('s'), F(1, 100), 100)] * n
        kw['scale'] = env.f(s[0])
        if scale == 'quantity':
            from pysimulators import Quantity
            kw['scale'] = Quantity(kw['scale'], 'm')
    else:
        s = [bounded(env, env.real(f's{i}'), F(1, 100), 100) for i in range(n)]
        kw['scale'] = env.arr(s[::-1])
    if not env.symbolic:
        c, s = [float(x) for x in c], [float(x) for x in s]
    return kw, c, s


def squares(env, shape, c, s):
    out = []
    for i in np.ndindex(*shape):
        d = 0
        for k, p in enumerate(i):
            t = p - c[k]
            d = d + s[k] * s[k] * (t * t)
        out.append(d)
    return out


def distance(env, which, shape, center, scale, dtype, out):
    from pysimulators import datautils as du
    kw, c, s = coords(env, shape, center, scale, dtype)
    d2 = squares(env, shape, c, s)
    buf = None
    if out == 'new':
        kw['dtype'] = dtype
    else:
        if out == 'strided':
            buf = np.zeros(tuple(2 * n for n in shape), dtype)
            o = buf[tuple(slice(None, None, 2) for n in shape)]
        else:
            o = np.zeros(shape, dtype, order='F' if out == 'F' else 'C')
        kw['out'] = o
    fn = du.distance if which == 'distance' else du.distance2
    got = fn(shape[0] if len(shape) == 1 else shape, **kw)
    env.true(got.shape == shape and got.dtype == np.dtype(dtype), f'{which}: shape and type', (got.shape, got.dtype))
    if which == 'distance':
        if len(shape) == 1:
            want = []
            for i in range(shape[0]):
                t = s[0] * (i - c[0])
                want.append(env.ite(t < 0, -t, t) if not isinstance(t, (int, float, F)) else abs(t))
        else:
            want = [x.sqrt() if hasattr(x, 'sqrt') else env.fn('sqrt', x) for x in d2] if env.symbolic else [math.sqrt(x) for x in d2]
    else:
        want = d2
    env.eq(mag(got), want, which)
    if out != 'new':
        env.eq(o, want, f'{which}: output')
    if out == 'strided':
        w = np.ones(buf.shape, bool)
        w[tuple(slice(None, None, 2) for n in shape)] = False
        env.true(bool(np.all(buf[w] == 0)), f'{which}: only the output is written')
    unit = got.unit
    env.true(unit == ({'distance': 'm', 'distance2': 'm^2'}[which] if scale == 'quantity' else ''), f'{which}: unit', unit)


def aperture(env, shape, center, scale, dtype):
    from pysimulators import aperture_circular
    kw, c, s = coords(env, shape, center, scale, dtype)
    d2 = squares(env, shape, c, s)
    r = bounded(env, env.real('r'), F(1, 10), 20)
    for x in d2:
        # not on the border, within rounding
        y = x - r * r
        env.assume((y > F(1, 1000)) | (y < -F(1, 1000)) if env.symbolic else abs(y) > 1e-3)
    d = env.f(2 * r)
    if scale == 'quantity':
        from pysimulators import Quantity
        d = Quantity(env.f(F(2, 1000) * r if env.symbolic else r / 500), 'km')
    got = aperture_circular(shape, d, dtype=dtype, **kw)
    env.true(got.shape == shape and got.dtype == np.dtype(dtype), 'shape and type of the aperture', (got.shape, got.dtype))
    for g, x in zip(mag(got).ravel(), d2):
        env.true(g in (0, 1), 'aperture: 0 or 1', g)
        inside = x <= r * r
        if env.symbolic:
            env.true(inside if g else ~inside, 'aperture')
        else:
            env.true(bool(g) == bool(inside), 'aperture', (g, x, r))


def gaussian(env, shape, center, width, dtype):
    from pysimulators import gaussian as gauss
    n = len(shape)
    kw, c, _ = coords(env, shape, center, 'default', dtype)
    sig = {'one': [F(1)] * n, 'half': [F(1, 2), F(2), F(1)][:n], 'fwhm': None, 'fwhms': None, 'symbolic': None}[width]
    if width == 'one':
        kw['sigma'] = 1
    elif width == 'half':
        kw['sigma'] = [float(x) for x in sig[::-1]]
    elif width == 'symbolic':
        sig = [bounded(env, env.real(f'sigma{i}'), F(1, 2), 3) for i in range(n)]
        kw['sigma'] = env.arr(sig[::-1])
    else:
        k = math.sqrt(8 * math.log(2))
        w = [2.0, 1.0, 3.0][:n] if width == 'fwhms' else [2.0] * n
        kw['fwhm'] = w[::-1] if width == 'fwhms' else w[0]
        sig = [F(x / k) for x in w]
    if not env.symbolic:
        sig = [float(x) for x in sig]
    got = gauss(shape if n > 1 else shape[0], dtype=dtype, **kw)
    env.true(got.shape == shape, 'shape of the gaussian', got.shape)
    want = []
    for i in np.ndindex(*shape):
        w = F((2 * math.pi) ** (-n / 2)) if env.symbolic else (2 * math.pi) ** (-n / 2)
        for k, p in enumerate(i):
            t = p - c[k]
            a = t * t / (2 * sig[k] * sig[k])
            w = w / sig[k] * (env.fn('exp', -a) if not env.symbolic or not isinstance(a, (int, F)) else env.fn('exp', env.const(-a)))
        want.append(w)
    # in single precision, the normalisation is rounded
    (env.close if dtype == 'f4' else env.eq)(mag(got), want, 'gaussian')


def profile(env, shape, mode, center, nbins, scale, nan, dtype, threads):
    from pysimulators import profile as prof, integrated_profile
    ny, nx = shape
    v = [env.real(f'v{i}') for i in range(nx * ny)]
    vals = list(v)
    for i in nan:
        vals[i] = float('nan')
    a = env.arr(vals, dtype).reshape(shape)
    env.threads(threads)
    kw = {}
    if center is not None:
        kw['center'] = center
        c = [F(x) for x in center]
    else:
        c = [F(nx - 1, 2), F(ny - 1, 2)]
    if mode == 'center':
        c = [bounded(env, env.real('x0'), 0, nx - 1), bounded(env, env.real('y0'), 0, ny - 1)]
        kw['center'] = env.arr(c)
    w = F(mode) if mode not in ('bin', 'center') else F(1)
    if mode == 'bin':
        w = bounded(env, env.real('bin'), F(2, 5), 3)
    if scale != 1:
        kw['scale'] = scale
    kw['bin'] = env.f(w * scale if env.symbolic else float(w) * scale) if mode == 'bin' else float(w * scale)
    default = nbins is None
    if default:
        # up to the farthest side
        nbins = int(max(ny - c[1], c[1], nx - c[0], c[0]) / w)
    dist = []
    for j in range(ny):
        for i in range(nx):
            if j * nx + i in nan:
                continue
            d2 = (i - c[0]) * (i - c[0]) + (j - c[1]) * (j - c[1])
            dist.append((v[j * nx + i], d2))
    if env.symbolic:
        dist = [(x, env.sqrt(env.const(d))) for x, d in dist]
        # not at the boundary of a bin, within rounding
        for _, d in dist:
            for k in range(1, nbins + 1):
                y = d - k * w
                env.assume((y > F(1, 1000)) | (y < -F(1, 1000))) if mode in ('bin', 'center') else None
    else:
        dist = [(x, math.sqrt(d)) for x, d in dist]
        for _, d in dist:
            for k in range(1, nbins + 1):
                if mode in ('bin', 'center'):
                    env.assume(abs(d - k * float(w)) > 9e-4)
    if not default:
        kw['nbins'] = nbins
    if not env.symbolic:
        w = float(w)
    x, y, n = prof(a, histogram=True, **kw)
    x2, y2 = prof(a, **kw)
    env.true(x.shape == y.shape == n.shape == (nbins,), 'number of bins', (x.shape, n.shape))
    xi, yi = integrated_profile(a, **kw)
    total = 0
    for k in range(nbins):
        inside = [(d >= k * w) & (d < (k + 1) * w) if env.symbolic else k * w <= d < (k + 1) * w for _, d in dist]
        cnt = sx = sy = 0
        for b, (val, d) in zip(inside, dist):
            cnt = cnt + env.ite(b, 1, 0)
            sx = sx + env.ite(b, d, 0)
            sy = sy + env.ite(b, val, 0)
        m = int(n[k])
        env.eq([m], [cnt], f'number of pixels in bin {k}')
        if m == 0:
            env.eq([x[k], y[k]], [(k + F(1, 2)) * w * scale if env.symbolic else (k + .5) * w * scale, float('nan')], f'empty bin {k}')
        else:
            env.eq([env.val(x[k]) * m], [sx * scale], f'distance in bin {k}')
            env.eq([env.val(y[k]) * m], [sy], f'profile in bin {k}')
            total = total + sy
        env.eq([yi[k]], [total * scale ** 2], f'integrated profile up to bin {k}')
        env.eq([x2[k], y2[k]], [x[k], y[k]], 'profile without histogram')


def psd(env, n, kind):
    from pysimulators import psd2, profile_psd2
    fs = bounded(env, env.real('fs'), F(1, 10), 10)
    a = np.zeros((n, n))
    if kind == 'constant':
        a[...] = 3
    else:
        a[1, 2 % n] = 2
    f = env.f(fs)
    p = psd2(a, sampling_frequency=f)
    # total power: sum psd * bandwidth = mean(array^2)
    s = 0
    for v in env.vals(mag(p)):
        s = s + v
    env.close([s * fs * fs], [n * n * float((a ** 2).mean())], 'total power', tol=1e-6)
    x, y = profile_psd2(a, sampling_frequency=f)
    env.true(len(x) > 0 and len(x) == len(y), 'bins of the profile')
    env.close([env.val(x[0])], [0], 'frequency of the first bin')
    # the zero frequency
    dc = float(a.mean()) ** 2 * n * n
    env.close([env.val(y[0]) * fs * fs], [dc], 'power at the zero frequency')


def _distance(tier):
    out = []
    for w in ('distance', 'distance2'):
        for shape in ((3,), (2, 3), (1, 2, 2), (3, 1)) + (() if tier == 'quick' else ((4,), (3, 4), (2, 2, 2))):
            for center, scale, dtype, o in (('default', 'default', 'f8', 'new'), ('array', 'scalar', 'f8', 'new'), ('list', 'array', 'f8', 'new'),
                                            ('array', 'array', 'f8', 'strided'), ('list', 'quantity', 'f8', 'new'), ('array', 'array', 'f4', 'new'),
                                            ('default', 'array', 'f8', 'F'), ('array', 'default', 'f8', 'C'), ('float32', 'scalar', 'f4', 'C')):
                out.append((w, shape, center, scale, dtype, o))
    return out


HARNESSES = [
    Harness('distance', distance, _distance, 'up to 6 (thorough: 12) pixels in 1, 2 or 3 dimensions', opts=OPTS),
    Harness('aperture', aperture, lambda t: [((2, 2), 'array', 'default', 'f8'), ((2, 2), 'default', 'scalar', 'bool'), ((1, 3), 'list', 'default', 'i4'),
                                             ((2, 2), 'default', 'array', 'u1'), ((2, 2), 'default', 'quantity', 'f8'), ((4,), 'array', 'default', 'bool'),
                                             ((3, 3), 'default', 'scalar', 'f4'), ((1, 2, 2), 'default', 'array', 'f8')],
            'up to 9 pixels', opts=OPTS),
    Harness('gaussian', gaussian, lambda t: [
        (s, c, w, d) for s in ((3,), (2, 3), (1, 2, 2), (1, 1)) for c, w, d in (('default', 'one', 'f8'), ('array', 'half', 'f8'), ('list', 'fwhms', 'f8'),
                                                                        ('default', 'fwhm', 'f8'), ('default', 'symbolic', 'f8'), ('array', 'one', 'f4'))],
            'up to 6 pixels in 1, 2 or 3 dimensions', opts=OPTS),
    Harness('profile', profile, lambda t: [
        ((2, 3), '1', None, 2, 1, (), 'f8', 1), ((2, 3), '1/2', (1, 0), 5, 1, (2,), 'f8', 1), ((3, 2), 'bin', None, 3, 1, (), 'f8', 1),
        ((2, 2), 'bin', (0, 1), 4, 3, (), 'f8', 1), ((2, 2), 'center', None, 2, 1, (), 'f8', 1), ((2, 3), '3/2', (0, 0), 2, 2, (0, 4), 'f4', 1),
        ((3, 3), '1', (1, 1), 2, 1, (), 'f8', 2), ((2, 2), '1/10000000000', (0, 0), 2, 1, (), 'f8', 1), ((2, 3), '1', (5, 5), 3, 1, (), 'f8', 1),
        ((2, 2), 'center', None, 1, 2, (3,), 'f4', 2), ((2, 3), '7/10', (-1, 2), 4, 1, (), 'f8', 3),
        ((2, 3), '1', (0, 1), None, 1, (), 'f8', 1), ((3, 2), '1', (1, 0), None, 2, (), 'f8', 1), ((2, 3), '1/2', (2, 1), None, 1, (), 'f8', 1),
        ((3, 2), '1', (0, 2), None, 1, (), 'f8', 1), ((2, 3), '3/4', None, None, 1, (), 'f8', 1), ((4, 1), '1', None, None, 2, (), 'f4', 1)],
            'up to 9 pixels and 5 bins, 1 to 3 threads', opts=OPTS),
    Harness('psd', psd, lambda t: [(4, 'constant'), (5, 'constant'), (4, 'point'), (5, 'point')], 'images of 4 x 4 or 5 x 5 given pixels, any sampling frequency', opts=OPTS),
]
