"""Noise power spectra: folding, unfolding, interpolation, noise samples, inverse correlation."""
import math
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}


def bounded(env, x, lo, hi):
    env.assume((x >= lo) & (x <= hi) if env.symbolic else lo <= x <= hi)
    return x


def mag(x):
    return np.asarray(x).view(np.ndarray)


def turn(env, k, n):
    """cos and sin of k/n turns"""
    if env.symbolic:
        from engine.ufuncs import _turn
        return _turn(k, n)
    t = 2 * math.pi * (k % n) / n
    return math.cos(t), math.sin(t)


def reals(env, name, n, lo=-10, hi=10):
    return [bounded(env, env.real(f'{name}{i}'), lo, hi) for i in range(n)]


def even(env, name, n, lo=F(1, 100), hi=10):
    """values of an even function of the frequency over n bins"""
    half = reals(env, name, n // 2 + 1, lo, hi)
    return [half[min(k, n - k)] for k in range(n)]


def rows(env, name, pre, n, make):
    return [make(env, f'{name}{i}_', n) for i in range(int(np.prod(pre)))]


def arr(env, rs, pre, dtype='f8'):
    a = env.arr([x for r in rs for x in r], dtype)
    return a.reshape(pre + (len(rs[0]),))


def fold_rows(rs):
    out = []
    for p in rs:
        n = len(p)
        out.append([p[0]] + [p[k] + p[n - k] if 2 * k != n else p[k] for k in range(1, n // 2 + 1)])
    return out


def fold(env, pre, n, dtype, how):
    from pysimulators.noises import _fold_psd, _unfold_psd
    rs = rows(env, 'p', pre, n, even)
    x = arr(env, rs, pre, dtype)
    if how == 'strided':
        b = np.zeros(pre + (2 * n,), dtype)[..., ::2]
        b[...] = x
        x = b
    got = _fold_psd(list(x) if how == 'list' else x)
    env.true(got.shape == pre + (n // 2 + 1,), 'number of bins of the folded spectrum', got.shape)
    want = fold_rows(rs)
    env.eq(mag(got), sum(want, []), 'folded spectrum')
    got = env.vals(mag(got))
    m = n // 2 + 1
    for i, r in enumerate(rs):
        env.eq([sum(got[i * m + 1:(i + 1) * m], got[i * m])], [sum(r[1:], r[0])], 'total power of the folded spectrum')
    env.eq(mag(x), sum(rs, []), 'input unchanged')
    if n % 2 == 0:
        env.eq(mag(_unfold_psd(_fold_psd(x))), sum(rs, []), 'unfolding of the folded spectrum')


def unfold(env, pre, m, dtype):
    from pysimulators.noises import _fold_psd, _unfold_psd
    rs = rows(env, 'q', pre, m, lambda e, nm, n: reals(e, nm, n))
    x = arr(env, rs, pre, dtype)
    got = _unfold_psd(x)
    n = 2 * (m - 1)
    env.true(got.shape == pre + (n,), 'number of bins of the unfolded spectrum', got.shape)
    want = []
    for q in rs:
        want += [q[0]] + [q[m - 1] if k == m - 1 else q[min(k, n - k)] / 2 for k in range(1, n)]
    env.eq(mag(got), want, 'unfolded spectrum')
    env.eq(mag(_fold_psd(got)), sum(rs, []), 'folding of the unfolded spectrum')
    env.eq(mag(x), sum(rs, []), 'input unchanged')


def analytic_rows(env, n, fs, sigma, fknee, slope):
    out = []
    for s, f in zip(sigma, fknee):
        row = []
        for k in range(n):
            j = min(k, n - k)
            x = 1
            for _ in range(slope):
                x = x * f * n / (j * fs) if k else 0
            if k == 0:
                x = 1 if slope == 0 else 0
            row.append(s * s * (1 + x) / fs)
        out.append(row)
    return out


def analytic(env, n, slope, array, twosided):
    """sigma**2 (1 + (fknee/f)**slope) / fs, without 1/f noise at the zero frequency"""
    from pysimulators.noises import _gaussian_psd_1f
    fs = bounded(env, env.real('fs'), F(1, 10), 100)
    m = 2 if array else 1
    sigma, fknee = reals(env, 's', m, F(1, 10), 10), reals(env, 'f', m, F(1, 10), 10)
    if array:
        args = env.arr(sigma), env.arr(fknee), slope
    else:
        args = env.f(sigma[0]), env.f(fknee[0]), slope
    kw = {'twosided': True} if twosided else {}
    got = _gaussian_psd_1f(n, env.f(fs), *args, **kw)
    want = analytic_rows(env, n, fs, sigma, fknee, slope)
    if not twosided:
        want = fold_rows(want)
    env.true(got.shape == ((m,) if array else ()) + (len(want[0]),), 'number of bins', got.shape)
    env.eq(mag(got), sum(want, []), 'power spectrum density')


def dft(env, x, sign):
    n = len(x)
    re, im = [], []
    for k in range(n):
        a = b = 0
        for j in range(n):
            c, s = turn(env, j * k, n)
            a, b = a + x[j][0] * c - x[j][1] * s * sign, b + x[j][0] * s * sign + x[j][1] * c
        re.append(a)
        im.append(b)
    return list(zip(re, im))


class Randn:
    """a generator of given normal deviates"""

    def __init__(self, env, values):
        self.env, self.values, self.calls = env, list(values), 0

    def __call__(self, *shape):
        n = int(np.prod(shape))
        v, self.values = self.values[:n], self.values[n:]
        if len(v) != n:
            self.env.fail('more random numbers than samples', shape)
        return self.env.arr(v).reshape(shape)

    def normal(self, size=None):
        return self(*((size,) if np.isscalar(size) else size))

    def __enter__(self):
        self.old = np.random.randn, np.random.standard_normal
        np.random.randn, np.random.standard_normal = self, self.normal

    def __exit__(self, *a):
        np.random.randn, np.random.standard_normal = self.old


def filtered(env, x, p, fs):
    """x filtered by sqrt(p fs), without its mean"""
    n = len(x)
    f = dft(env, [(v, 0) for v in x], -1)
    g = [(0, 0)]
    for k in range(1, n):
        a = env.fn('sqrt', p[k])
        g.append((f[k][0] * a, f[k][1] * a))
    h = dft(env, g, 1)
    return [v[0] / n * env.fn('sqrt', fs) for v in h]


def unfold_row(q, n):
    return [q[0]] + [q[k] if 2 * k == n else q[min(k, n - k)] / 2 for k in range(1, n)]


def sample(env, n, twosided, out, array):
    from pysimulators.noises import _gaussian_sample
    fs = bounded(env, env.real('fs'), F(1, 10), 100)
    m = n if twosided else n // 2 + 1
    pre = (2,) if array else ()
    rs = rows(env, 'p', pre, n, even) if twosided else rows(env, 'p', pre, m, lambda e, nm, k: reals(e, nm, k, F(1, 100), 10))
    x = [env.real(f'g{i}') for i in range(n * (2 if array else 1))]
    x = [bounded(env, v, -10, 10) for v in x]
    kw = {'twosided': True} if twosided else {}
    buf = None
    if out:
        kw['out'] = buf = np.zeros(pre + (n,))
    with Randn(env, x):
        got = _gaussian_sample(n, env.f(fs), arr(env, rs, pre), **kw)
    env.true(got.shape == pre + (n,), 'number of samples', got.shape)
    env.true(buf is None or got is buf, 'output buffer')
    want = []
    for i, p in enumerate(rs):
        p = p if twosided else unfold_row(p, n)
        want += filtered(env, x[i * n:(i + 1) * n], p, fs)
    env.close(mag(got), want, 'noise samples', 1e-6)
    got = env.vals(mag(got))
    for i in range(len(rs)):
        env.close([sum(got[i * n + 1:(i + 1) * n], got[i * n])], [0], 'zero mean', 1e-5)


def periodogram(env, n):
    from pysimulators.noises import _sampling2psd
    fs = bounded(env, env.real('fs'), F(1, 10), 100)
    x = reals(env, 'x', n)
    f, p = _sampling2psd(env.arr(x), env.f(fs))
    m = n // 2 + 1
    env.true(f.shape == p.shape == (m,), 'number of bins', (f.shape, p.shape))
    env.eq(mag(f), [k * fs / n for k in range(m)], 'frequencies')
    d = dft(env, [(v, 0) for v in x], -1)
    want = [0] + [(1 if 2 * k == n else 2) * (d[k][0] * d[k][0] + d[k][1] * d[k][1]) / (n * fs) for k in range(1, m)]
    env.close(mag(p), want, 'power spectrum density', 1e-4)
    p = env.vals(mag(p))
    mean = sum(x[1:], x[0]) / n
    var = sum([(v - mean) * (v - mean) for v in x[1:]], (x[0] - mean) * (x[0] - mean)) / n
    near(env, [sum(p[1:], p[0]) * fs / n], [var], 'power and variance', 1e-4)


def invntt_row(env, p, fs, ncorr):
    n = len(p)
    out = []
    for j in range(ncorr + 1):
        t = 0
        for k in range(n):
            t = t + turn(env, j * k, n)[0] / (p[k] * fs)
        out.append(t / n)
    return out


def invntt(env, pre, n, ncorr):
    from pysimulators.noises import _psd2invntt
    bw = bounded(env, env.real('b'), F(1, 10), 10)
    rs = rows(env, 'p', pre, n, even)
    got = _psd2invntt(arr(env, rs, pre), env.f(bw), ncorr)
    env.true(got.shape == pre + (ncorr + 1,), 'correlation length', got.shape)
    want = []
    for p in rs:
        want += invntt_row(env, p, bw * n, ncorr)
    env.close(mag(got), want, 'first row of the inverse correlation matrix', 1e-4)
    if ncorr == n // 2 and not pre:
        # the circulant matrix is the inverse of that of the spectrum
        got = env.vals(mag(got))
        c = []
        for j in range(n):
            t = 0
            for k in range(n):
                t = t + turn(env, j * k, n)[0] * rs[0][k]
            c.append(t * bw)
        for i in range(n):
            s = 0
            for j in range(n):
                s = s + got[min(j, n - j)] * c[(i - j) % n]
            env.close([s], [1 if i == 0 else 0], 'inverse of the correlation matrix', 1e-3)


def increasing(env, name, n, lo=-10, hi=10):
    v = reals(env, name, n, lo, hi)
    for a, b in zip(v, v[1:]):
        env.assume((b - a >= F(1, 10)) if env.symbolic else b - a >= 0.1 - 1e-12)
    return v


def segment(x, z):
    i = 1
    while i < len(x) - 1 and z > x[i]:
        i += 1
    return i


def interp(env, nz, nx, pre, out, scalar):
    from pysimulators.noises import _interp
    x = increasing(env, 'x', nx)
    z = reals(env, 'z', nz)
    for a, b in zip(z, z[1:]):
        env.assume(a <= b)
    rs = rows(env, 'y', pre, nx, lambda e, nm, n: reals(e, nm, n))
    kw = {}
    if out:
        kw['out'] = np.zeros(pre + (nz,))
    got = _interp(env.f(z[0]) if scalar else env.arr(z), env.arr(x), arr(env, rs, pre), **kw)
    env.true(got.shape == pre + (nz,), 'shape', got.shape)
    env.true(not out or got is kw['out'], 'output buffer')
    got = mag(got).reshape((-1, nz))
    for j, v in enumerate(z):
        i = segment(x, v)
        for k, y in enumerate(rs):
            env.eq([got[k, j]], [y[i - 1] + (v - x[i - 1]) * (y[i] - y[i - 1]) / (x[i] - x[i - 1])], 'line through the two nearest points')


def loglog_row(env, f, bw, q):
    """spectrum at the frequencies f (constants), from the bins of q"""
    xs = [math.log(k * bw) for k in range(1, len(q) - 1)]
    out = [q[0]]
    for v in f[1:]:
        z = math.log(v)
        i = segment(xs, z)
        w = (z - xs[i - 1]) / (xs[i] - xs[i - 1])
        w = F(w) if env.symbolic else w
        a, b = env.fn('log', q[i]), env.fn('log', q[i + 1])
        out.append(env.fn('exp', a + w * (b - a)))
    out[-1] = out[-1] / 2
    return out


def near(env, got, want, label, tol=1e-4):
    """values made of exponentials that agree up to rounding"""
    if env.symbolic:
        tol = F(tol)
        from engine import laurent
        from engine import explore as X
        got, want = env.vals(got), env.vals(want)
        env.true(len(got) == len(want), label + ': size')
        for i, (g, r) in enumerate(zip(got, want)):
            g, r = X.R(env.sym.raw(g)), X.R(env.sym.raw(r))
            if laurent.near(g, r):           # bounded values
                r = g
            env.true(g - r <= tol, f'{label}[{i}]')
            env.true(r - g <= tol, f'{label}[{i}]')
    else:
        env.close(got, want, label, tol)


def loglog(env, nf, df, bw, m, pre, out):
    from pysimulators.noises import _logloginterp_psd
    rs = rows(env, 'q', pre, m, lambda e, nm, n: reals(e, nm, n, F(1, 100), 10))
    kw = {}
    if out:
        kw['out'] = np.zeros(pre + (nf,))
    f = np.arange(nf) * df
    got = _logloginterp_psd(f, bw, arr(env, rs, pre), **kw)
    env.true(got.shape == pre + (nf,), 'number of bins', got.shape)
    env.true(not out or got is kw['out'], 'output buffer')
    want = []
    for q in rs:
        want += loglog_row(env, f.tolist(), bw, q)
    near(env, mag(got), want, 'interpolated spectrum', 1e-3)


class Samples:
    def __init__(self, n, period):
        self.n, self.period = n, period

    def __len__(self):
        return self.n


def instrument(ndet):
    from pysimulators import Instrument, PackedTable
    return Instrument('instrument', PackedTable(ndet))


def noise(env, ndet, n, model, out):
    """noise of each detector: the generated deviates filtered by the spectrum"""
    if env.symbolic:
        env.c.split_abs = True
    import operator
    period = bounded(env, env.real('T'), F(1, 10), 10) if model not in ('psd', 'twosided') else F(1, 8)
    fs = 1 / period
    x = reals(env, 'g', ndet * n)
    kw = {}
    sigma = None
    if model in ('white', 'white-array'):
        s = reals(env, 's', ndet, F(1, 10), 10) if model == 'white-array' else reals(env, 's', 1, F(1, 10), 10) * ndet
        kw['sigma'] = env.arr(s) if model == 'white-array' else env.f(s[0])
        want = [s[i // n] * v for i, v in enumerate(x)]
    elif model == 'nep':
        p = bounded(env, env.real('nep'), F(1, 10), 10)
        kw['nep'] = env.f(p)
        want = [p / env.fn('sqrt', 2 * period) * v for v in x]
    else:
        if model == 'fknee':
            s, f = bounded(env, env.real('s'), F(1, 10), 10), bounded(env, env.real('f'), F(1, 10), 10)
            kw.update(sigma=env.f(s), fknee=env.f(f), fslope=2)
            p = analytic_rows(env, n, fs, [s], [f], 2)[0]
        else:
            bw = 1.5
            if model == 'twosided':
                q = even(env, 'q', 8)
                kw.update(psd=env.arr(q), bandwidth=bw, twosided=True)
                q = fold_rows([q])[0]
            else:
                q = reals(env, 'q', 5, F(1, 100), 10)
                kw.update(psd=env.arr(q), bandwidth=bw)
            q = loglog_row(env, [float(k * fs / n) for k in range(n // 2 + 1)], bw, q)
            if n % 2:
                q[-1] = q[-1] * 2
            p = unfold_row(q, n)
        want = []
        for i in range(ndet):
            want += filtered(env, x[i * n:(i + 1) * n], p, fs)
    if model in ('psd', 'twosided'):
        s = Samples(n, float(period))
    else:
        s = Samples(n, env.f(period))
    base = [0] * len(x)
    if out != 'new':
        base = reals(env, 'o', len(x)) if out == 'add' else base
        buf = env.arr(base if out == 'add' else reals(env, 'o', len(x))).reshape((ndet, n))
        kw['out'] = buf
        if out == 'add':
            kw['operation'] = operator.iadd
    with Randn(env, x):
        got = instrument(ndet).get_noise(s, **kw)
    env.true(got.shape == (ndet, n), 'shape', got.shape)
    if out != 'new':
        env.true(got is buf, 'output buffer')
    w = [a + b for a, b in zip(base, want)]
    if model in ('white', 'white-array', 'nep') or not env.symbolic:
        env.close(mag(got), w, 'noise', 1e-5)
    else:
        near(env, mag(got), w, 'noise')


class Toeplitz:
    """the product by a band Toeplitz matrix, in place of pyoperators' (by Fourier transforms in FFTW)"""

    def __init__(self, env):
        self.on = env.symbolic

    def __enter__(self):
        if not self.on:
            return
        from pyoperators import SymmetricBandToeplitzOperator as Op
        self.old = {k: Op.__dict__[k] for k in ('_get_kernel', 'direct')}
        Op._get_kernel = staticmethod(lambda firstrow, *a: np.array(firstrow))

        def direct(self, x, out):
            k = self.kernel.reshape((-1, self.kernel.shape[-1]))
            x, o = x.reshape((-1, self.nsamples)), out.reshape((-1, self.nsamples))
            for i in range(x.shape[0]):
                r = k[i % k.shape[0]]
                for a in range(self.nsamples):
                    t = 0.
                    for b in range(self.nsamples):
                        if abs(a - b) < r.size:
                            t = t + r[abs(a - b)] * x[i, b]
                    o[i, a] = t
        Op.direct = direct

    def __exit__(self, *a):
        if self.on:
            from pyoperators import SymmetricBandToeplitzOperator as Op
            for k, v in self.old.items():
                setattr(Op, k, v)


def inverse(env, ndet, n, model, ncorr):
    """inverse noise correlations as a band Toeplitz matrix for each detector"""
    if env.symbolic:
        env.c.split_abs = True
    period = bounded(env, env.real('T'), F(1, 10), 10) if model not in ('psd', 'twosided') else F(1, 8)
    fs = 1 / period
    kw = {'ncorr': ncorr}
    size = 2
    while size < n:
        size *= 2
    s = Samples(n, float(period) if model in ('psd', 'twosided') else env.f(period))
    if model in ('white', 'white-array', 'nep'):
        v = reals(env, 's', ndet, F(1, 10), 10) if model == 'white-array' else reals(env, 's', 1, F(1, 10), 10) * ndet
        if model == 'nep':
            kw['nep'] = env.f(v[0])
            rs = [[2 * period / (a * a)] for a in v]
        else:
            kw['sigma'] = env.arr(v) if model == 'white-array' else env.f(v[0])
            rs = [[1 / (a * a)] for a in v]
    else:
        if model == 'fknee':
            v, f = reals(env, 's', ndet, F(1, 10), 10), reals(env, 'f', 1, F(1, 10), 10)
            kw.update(sigma=env.arr(v), fknee=env.f(f[0]), fslope=1)
            ps = analytic_rows(env, size, fs, v, f * ndet, 1)
        else:
            bw = 1.5
            if model == 'twosided':
                q = even(env, 'q', 6)
                kw.update(psd=env.arr(q), bandwidth=bw, twosided=True)
                q = fold_rows([q])[0]
            else:
                q = reals(env, 'q', 4, F(1, 100), 10)
                kw.update(psd=env.arr(q), bandwidth=bw)
            ps = [unfold_row(loglog_row(env, [float(k * fs / size) for k in range(size // 2 + 1)], bw, q), size)] * ndet
        rs = []
        for p in ps:
            p = [p[1]] + p[1:]
            rs.append(invntt_row(env, p, fs, ncorr))
    x = reals(env, 'x', ndet * n)
    with Toeplitz(env):
        op = instrument(ndet).get_invntt_operator(s, **kw)
        env.true(op.shapein == op.shapeout == (ndet, n), 'shape of the operator', op.shapein)
        got = op(env.arr(x).reshape((ndet, n)))
    want = []
    for d in range(ndet):
        r = rs[d]
        for a in range(n):
            t = 0
            for b in range(n):
                if abs(a - b) < len(r):
                    t = t + r[abs(a - b)] * x[d * n + b]
            want.append(t)
    near(env, mag(got), want, 'product by the inverse correlations', 1e-3)


def refused(env):
    ins = instrument(2)
    s = Samples(4, 1.)
    for f in (ins.get_noise, ins.get_invntt_operator):
        env.raises(ValueError, lambda: f(s), 'no noise model')
        env.raises(ValueError, lambda: f(s, psd=np.ones(4)), 'spectrum without bandwidth')
        env.raises(ValueError, lambda: f(s, bandwidth=1., sigma=1.), 'bandwidth without spectrum')
    import operator
    env.raises(ValueError, lambda: ins.get_noise(s, sigma=1., operation=operator.iadd), 'operation without output')


def _q(t, l, step=2):
    return l[::step] if t == 'quick' else l


HARNESSES = [
    Harness('fold', fold, lambda t: [(p, n, d, h) for n in (2, 3, 4, 5, 6, 7, 8, 9, 16) for p, d, h in (
        ((), 'f8', 'C'), ((2,), 'f8', 'strided'), ((1, 2), 'f4', 'C'), ((2,), 'f8', 'list'))], '2 to 16 bins, up to 2 spectra', opts=OPTS),
    Harness('unfold', unfold, lambda t: [(p, n, d) for n in (2, 3, 4, 5, 9) for p, d in (((), 'f8'), ((2,), 'f8'), ((1, 2), 'f4'))],
            '2 to 9 bins, up to 2 spectra', opts=OPTS),
    Harness('analytic', analytic, lambda t: [(n, s, a, w) for n in (2, 3, 4, 5, 8) for s in (0, 1, 2) for a in (False, True) for w in (False, True)],
            '2 to 8 samples, slopes 0 to 2; any sampling frequency, deviation and knee', opts=OPTS),
    Harness('sample', sample, lambda t: [(n, w, o, a) for n in (2, 3, 4) + ((5, 6) if t != 'quick' else ()) for w in (True, False) for o, a in ((False, False), (True, False), (False, True))],
            '2 to 4 (thorough: 6) samples', opts=OPTS),
    Harness('periodogram', periodogram, lambda t: [(n,) for n in (2, 3, 4, 5, 6) + ((7, 8) if t != 'quick' else ())], '2 to 6 (thorough: 8) samples', opts=OPTS),
    Harness('invntt', invntt, lambda t: [(p, n, c) for n in (2, 4) + ((8,) if t != 'quick' else ()) for c in (0, 1, n // 2) for p in ((), (2,))], 'up to 4 (thorough: 8) bins', opts=OPTS),
    Harness('interp', interp, lambda t: [(nz, nx, p, o, s) for nz, nx, p, o, s in (
        (1, 2, (), False, True), (1, 3, (), False, False), (2, 3, (), False, False), (2, 4, (2,), False, False), (3, 3, (), True, False),
        (2, 2, (1, 2), True, False))] + ([(3, 4, (), False, False), (4, 4, (), False, False)] if t != 'quick' else []),
        'up to 3 values (thorough: 4), 4 points, in and outside the range', opts=OPTS),
    Harness('loglog', loglog, lambda t: [(nf, df, bw, m, p, o) for nf, df, bw, m in ((3, 1., 1., 5), (5, .5, 1., 4), (5, 1., .75, 6), (3, 3., 1., 4), (2, 1., .3, 5))
                                         for p, o in (((), False), ((2,), False), ((), True))], 'up to 5 bins from 4 to 6 bins, fixed frequencies', opts=OPTS),
    Harness('noise', noise, lambda t: [(d, n, m, o) for m in ('white', 'white-array', 'nep') for d, n in ((2, 3), (1, 2)) for o in ('new', 'out', 'add')] + [
        (d, n, m, o) for m in ('fknee', 'psd', 'twosided') for d, n in ((1, 4), (2, 3), (1, 2)) for o in ('new', 'out', 'add')],
        '1 or 2 detectors, 2 to 4 samples', opts=OPTS),
    Harness('inverse', inverse, lambda t: [(d, n, m, c) for m in ('white', 'white-array', 'nep') for d, n in ((2, 3), (1, 2)) for c in (0,)] + [
        (d, n, m, c) for m in ('fknee', 'psd', 'twosided') for d, n, c in ((1, 4, 1), (2, 3, 2), (1, 4, 0), (2, 2, 1))],
        '1 or 2 detectors, 2 to 4 samples, correlation length up to 2', opts=OPTS),
    Harness('refused', refused, [()], 'no, incomplete models', opts=OPTS),
]
