"""MADMAP1 observations: filters, time-ordered data and pointing matrix read from the files."""
import os
import shutil
import tempfile

import numpy as np

from checks.N01 import Toeplitz
from engine.runner import Harness

OPTS = {'ufunc': True}


def mag(x):
    return np.asarray(x).view(np.ndarray)


class Files:
    """An observation of `lengths` samples per block, written in a scratch directory."""

    def __init__(self, env, ndet, lengths, ncorr, npps, map_, big, missing, wide=False):
        self.env, self.ndet, self.lengths, self.ncorr, self.npps, self.big = env, ndet, lengths, ncorr, npps, big
        self.e = '>' if big else '<'
        self.name = os.path.join(self.dir, 'invntt.x')
        self.filters = []
        first = 0
        k = 0
        for ib, n in enumerate(lengths):
            row = []
            for d in range(ndet):
                v = [env.real(f'c{ib}_{d}_{i}') for i in range(ncorr + 1)]
                row.append(v)
                with open(f'{self.name}.{k}', 'wb') as f:
                    np.array([first, first + n - 1, ncorr], self.e + 'i8').tofile(f)
                    self.swap(env.arr(v)).tofile(f)
                k += 1
            first += n
            self.filters.append(row)
        # other files
        for other in (self.name, self.name + '.0.bak', self.name + '.a', self.name + 'b.1', os.path.join(self.dir, 'invntt')):
            with open(other, 'wb') as f:
                f.write(b'other')

    def swap(self, a):
        return a.byteswap() if self.big else a

    def data(self, mask):
        """samples, pixel indices and weights"""
        env = self.env
        self.tod = {}
        self.rows = {}
        self.npix = int(np.sum(~mask))
        self.todname = os.path.join(self.dir, 'tod')
        e = self.e
        rec = np.dtype([('t', e + 'f8'), ('m', [('v', e + 'f4'), ('i', e + 'i4')], (self.npps,))])
        with open(self.todname, 'wb') as f:
            n = sum(self.lengths)
            np.array([0, n - 1, self.npps, self.npix], self.e + 'i8').tofile(f)
            start = 0
            for ib, n in enumerate(self.lengths):
                r = np.zeros((self.ndet, n), rec)
                for d in range(self.ndet):
                    for s in range(n):
                        t = env.real(f't{d}_{start + s}')
                        self.tod[d, start + s] = t
                        r['t'][d, s] = env.arr([t])[0]
                        row = []
                        for k in range(self.npps):
                            w = env.real(f'w{d}_{start + s}_{k}')
                            i = (3 * d + start + 2 * s + k) % self.npix
                            row.append((i, w))
                            r['m']['v'][d, s, k] = env.arr([w], 'f4')[0]
                            r['m']['i'][d, s, k] = i
                        self.rows[d, start + s] = row
                start += n
                r.tofile(f)

    def __enter__(self):
        return self

    def __new__(cls, *args, **keywords):
        self = object.__new__(cls)
        self.dir = tempfile.mkdtemp(prefix='madmap1-')
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.dir, ignore_errors=True)


def filters(env, ndet, lengths, ncorr, big):
    """the filters are those of the files, in the order of the number of the file"""
    from pysimulators.interfaces.madmap1 import _read_filters
    with Files(env, ndet, lengths, ncorr, 1, None, big, None) as f:
        got = _read_filters(f.name, bigendian=big)
        env.true(len(got) == ndet * len(lengths), 'number of filters', len(got))
        start = 0
        k = 0
        for ib, n in enumerate(lengths):
            for d in range(ndet):
                g = got[k]
                env.true((int(g['first']), int(g['last'])) == (start, start + n - 1), 'time interval', (g['first'], g['last']))
                env.eq(np.array(g['data'], float), f.filters[ib][d], 'filter')
                k += 1
            start += n
        env.raises(FileNotFoundError, lambda: _read_filters(f.name + 'none'), 'no filter')
        with open(f.name + '.1', 'wb') as h:
            np.array([0, 1, ncorr + 1], f.e + 'i8').tofile(h)
            np.zeros(ncorr + 2).tofile(h)
        if k > 1:
            env.raises(ValueError, lambda: _read_filters(f.name, bigendian=big), 'different lengths')


def observation(env, ndet, lengths, ncorr, npps, big, missing):
    from astropy.io import fits
    from pysimulators.interfaces.madmap1 import MadMap1Observation
    mask = np.array([[False, True, False], [False, False, True]])
    with Files(env, ndet, lengths, ncorr, npps, None, big, missing) as f:
        f.data(mask)
        value = {None: 1., 'nan': np.nan, 'inf': np.inf, 'value': 3.}[missing]
        image = np.where(mask, value, 0. if missing is None else 2.)
        name = os.path.join(f.dir, 'mask.fits')
        if npps == 1:
            fits.PrimaryHDU(image).writeto(name)
        else:
            fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(1 - image, name='other'), fits.ImageHDU(image, name='cover')]).writeto(name)
            name += '[cover]'
        obs = MadMap1Observation('name', ndet, f.todname, f.name, name, bigendian=big, missing_value=None if missing is None else value)
        n = sum(lengths)
        env.true(len(obs.instrument) == ndet and obs.info.npixels_in_map == f.npix and obs.info.npixels_per_sample == npps, 'sizes')
        env.true(np.array_equal(obs.info.mapmask, mask), 'mask of the map', obs.info.mapmask)
        ends = np.cumsum(lengths)
        env.true([int(b.start) for b in obs.block] == [int(e - l) for e, l in zip(ends, lengths)] and
                 [int(b.stop) for b in obs.block] == [int(e) for e in ends] and [int(b.n) for b in obs.block] == list(lengths), 'blocks', obs.block)
        env.true(len(obs.pointing) == n, 'number of samples')
        tod = obs.get_tod(unit='Jy')
        env.true(tod.shape == (ndet, n) and tod.unit == 'Jy', 'shape of the data', tod.shape)
        env.eq(mag(tod), [f.tod[d, s] for d in range(ndet) for s in range(n)], 'data')
        got = obs.get_filter_uncorrelated()
        env.true(got.shape == (len(lengths), ndet, ncorr + 1), 'shape of the filters')
        env.eq(np.array(got, float), [v for b in f.filters for d in b for v in d], 'filters')
        x = [env.real(f'x{i}') for i in range(f.npix)]
        op = obs.get_operator()
        want = []
        for d in range(ndet):
            for s in range(n):
                t = 0
                for i, w in f.rows[d, s]:
                    t = t + w * x[i]
                want.append(t)
        env.eq(mag(op(env.arr(x))), want, 'projection', tol=1e-4)
        back = [0] * f.npix
        for (d, s), row in f.rows.items():
            for i, w in row:
                back[i] = back[i] + w * f.tod[d, s]
        env.eq(mag(op.T(env.arr([f.tod[d, s] for d in range(ndet) for s in range(n)]).reshape((ndet, n)))), back, 'backprojection', tol=1e-4)
        with Toeplitz(env):
            inv = obs.get_invntt_operator(fftw_flag='FFTW_ESTIMATE', nthreads=1)
            env.true(inv.shapein == (ndet, n), 'shape of the inverse noise', inv.shapein)
            got = inv(env.arr([f.tod[d, s] for d in range(ndet) for s in range(n)]).reshape((ndet, n)))
        want = []
        for d in range(ndet):
            start = 0
            for ib, l in enumerate(lengths):
                for a in range(l):
                    t = 0
                    for b in range(l):
                        if abs(a - b) <= ncorr:
                            t = t + f.filters[ib][d][abs(a - b)] * f.tod[d, start + b]
                    want.append(t)
                start += l
        env.eq(mag(got), want, 'inverse noise')


def refused(env, big):
    from astropy.io import fits
    from pysimulators.interfaces.madmap1 import MadMap1Observation
    mask = np.array([[False, True, False], [False, False, True]])
    with Files(env, 1, (2,), 1, 1, None, big, None) as f:
        f.data(mask)
        name = os.path.join(f.dir, 'mask.fits')
        fits.PrimaryHDU(mask * 1.).writeto(name)
        wrong = os.path.join(f.dir, 'wrong.fits')
        fits.PrimaryHDU(mask * 0.).writeto(wrong)
        env.raises(ValueError, lambda: MadMap1Observation('n', 1, f.todname, f.name, wrong, bigendian=big), 'incompatible mask')
        with open(f.todname, 'ab') as h:
            h.write(b'0')
        obs = MadMap1Observation('n', 1, f.todname, f.name, name, bigendian=big)
        env.raises(ValueError, lambda: obs.get_tod(), 'size of the file')
        env.raises(ValueError, lambda: obs.get_operator(), 'size of the file')


def _observation(tier):
    out = [(nd, l, c, p, big, m) for k, (nd, l, c, p) in enumerate((
        (1, (2,), 1, 1), (2, (2,), 1, 2), (1, (3, 2), 1, 1), (2, (2, 3), 1, 1), (2, (3, 1, 2), 2, 2), (3, (2, 2), 0, 1), (1, (4,), 3, 2), (1, (1, 2), 4, 1)))
        for big in (False, True) for m in ((None, 'nan', 'inf', 'value')[(k + big) % 4],)]
    if tier != 'quick':
        out += [(3, (4, 3, 2), 2, 3, big, 'nan') for big in (False, True)]
    return out


HARNESSES = [
    Harness('filters', filters, [(nd, l, c, b) for nd, l, c in ((1, (3,), 2), (2, (2, 3), 1), (4, (2, 1, 2), 0), (3, (1, 2), 2)) for b in (False, True)],
            'up to 12 files with up to 3 coefficients', opts=OPTS),
    Harness('observation', observation, _observation, 'up to 3 detectors, 3 blocks, 6 samples, 2 pixels per sample; any samples, weights and filters', opts=OPTS),
    Harness('refused', refused, [(False,), (True,)], '', opts=OPTS),
]
