"""FITS headers: scale and rotation, shapes, splitting and gathering; boresight rotation."""
import math
from fractions import Fraction as F

import numpy as np

from checks import mpilib
from engine.runner import Harness

OPTS = {'ufunc': True}


def mag(x):
    return np.asarray(x).view(np.ndarray)


class Cards(dict):
    """What the functions use of a pyfits.Header, which only stores Python numbers."""

    def __setitem__(self, k, v):
        dict.__setitem__(self, k.upper(), v[0] if isinstance(v, tuple) else v)

    def __getitem__(self, k):
        return dict.__getitem__(self, k.upper())

    def __contains__(self, k):
        return dict.__contains__(self, k.upper())

    def copy(self):
        return Cards(self)


def _det(a):
    a = np.asarray(a)
    return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]


class Dot(np.ndarray):
    """the dot method calls the linear algebra library, the matrix product is executed symbolically"""

    def dot(self, other, out=None):
        r = np.matmul(self.view(np.ndarray), other)
        if out is None:
            return r.view(Dot)
        out[...] = r
        return out


class Stand:
    """pyfits.Header, the determinant of 2x2 matrices and the dot method of new arrays, when the values are symbolic"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        import pysimulators.wcsutils as wu
        self.wu = wu
        if not self.env.symbolic:
            return self
        self.old = wu.pyfits, np.linalg.det, np.diag, np.array
        real = wu.pyfits
        _, _, diag, array = self.old
        np.diag = lambda *a, **k: diag(*a, **k).view(Dot)

        def asdot(*a, **k):
            r = array(*a, **k)
            return r.view(Dot) if type(r) is np.ndarray and r.shape == (2, 2) else r
        np.array = asdot

        class Module:
            Header = Cards
            DTYPE2BITPIX = real.DTYPE2BITPIX
        wu.pyfits = Module
        np.linalg.det = _det
        return self

    def __exit__(self, *args):
        if self.env.symbolic:
            self.wu.pyfits, np.linalg.det, np.diag, np.array = self.old


def header(env, cards):
    if env.symbolic:
        h = Cards()
    else:
        from astropy.io import fits
        h = fits.Header()
    for k, v in cards.items():
        h[k] = v
    return h


def positive(env, name, lo=F(1, 10), hi=10):
    x = env.real(name)
    env.assume((x >= lo) & (x <= hi) if env.symbolic else lo <= x <= hi)
    return x


def scale(env, name, sign):
    x = positive(env, name)
    return x if sign > 0 else -x


def cd(h):
    return [h['CD1_1'], h['CD1_2'], h['CD2_1'], h['CD2_2']]


def astrometry(env, naxes, ctype, signs, rotated, at):
    """the header reproduces the pixel size, angle and center; sizes and angle extracted from it make the same header"""
    if env.symbolic:
        env.c.atan2_polar = True
        env.c.split_abs = True
    k = {}
    if signs is None:
        d = positive(env, 'd')
        k['cdelt'] = env.f(d)
        want = [-d if ctype == 'RA' else d, d]
    else:
        want = [scale(env, f'd{i}', s) for i, s in enumerate(signs)]
        k['cdelt'] = env.arr(want)
    ct = ('RA---TAN', 'DEC--TAN') if ctype == 'RA' else ('GLON-CAR', 'GLAT-CAR')
    k['ctype'] = ct
    if rotated:
        pa = env.real('pa')
        env.assume((pa > -179) & (pa < 179) if env.symbolic else -179 < pa < 179)
        k['pa'] = env.f(pa)
        c, s = env.fn('cos', pa * F(math.pi) / 180), env.fn('sin', pa * F(math.pi) / 180)
    else:
        pa, c, s = 0, 1, 0
    center = [(n + 1) / 2 for n in naxes]
    if 'crpix' in at:
        center = [env.real(f'p{i}') for i in range(2)]
        k['crpix'] = env.arr(center)
    value = [0, 0]
    if 'crval' in at:
        value = [env.real(f'v{i}') for i in range(2)]
        k['crval'] = env.arr(value)
    with Stand(env) as m:
        h = m.wu.create_fitsheader(naxes, **k)
        env.true(m.wu.fitsheader2shape(h) == tuple(naxes[::-1]), 'shape', m.wu.fitsheader2shape(h))
        env.true(h['BITPIX'] == -64, 'type of the data')
        env.true((h['CTYPE1'], h['CTYPE2']) == ct and h['CUNIT1'] == h['CUNIT2'] == 'deg', 'axis types and units')
        env.true(('RADESYS' in h) == (ctype == 'RA'), 'reference frame')
        env.eq([h['CRVAL1'], h['CRVAL2']], value, 'center')
        env.eq([h['CRPIX1'], h['CRPIX2']], center, 'reference pixel')
        matrix = [want[0] * c, -want[0] * s, want[1] * s, want[1] * c]
        env.eq(cd(h), matrix, 'pixel matrix')
        # the matrix is that of the sizes and angle, which are unique for a positive second size
        cdelt, angle = m.wu.get_cdelt_pa(h)
        flip = 1 if signs is None or signs[1] > 0 else -1
        if not rotated:
            env.eq(cdelt, [flip * w for w in want], 'pixel sizes')
            env.close([angle], [0 if flip > 0 else 180], 'angle', 1e-6) if flip > 0 else None
        else:
            env.eq([x * x for x in env.vals(cdelt)], [w * w for w in want], 'pixel sizes')
            env.true(bool(cdelt[0] > 0) == (flip * want[0] > 0) and bool(cdelt[1] > 0), 'sign of the pixel sizes')
        kk = dict(k, cdelt=cdelt, pa=angle)
        g = m.wu.create_fitsheader(naxes, **kk)
        env.eq(cd(g), matrix, 'pixel matrix from the extracted sizes and angle')


def matrix(env, naxes, extname):
    """a pixel matrix is stored as given"""
    v = [env.real(f'c{i}') for i in range(4)]
    with Stand(env) as m:
        h = m.wu.create_fitsheader(naxes, cd=env.arr(v).reshape((2, 2)), extname=extname, crval=env.arr([env.real('a'), env.real('b')]),
                                   cunit=('deg', 'arcsec'), equinox=2000, radesys='fk5')
        env.eq(cd(h), v, 'pixel matrix')
        env.eq([h['CRVAL1'], h['CRVAL2']], [env.real('a'), env.real('b')], 'center')
        env.true((h['CUNIT1'], h['CUNIT2']) == ('deg', 'arcsec'), 'units')
        env.true(h['RADESYS'] == 'FK5' and h['EQUINOX'] == 2000, 'frame')
        if extname is None:
            env.true('EXTNAME' not in h and h['SIMPLE'] is True, 'primary header')
        else:
            env.true(h['EXTNAME'] == extname and h['XTENSION'] == 'IMAGE' and h['PCOUNT'] == 0 and h['GCOUNT'] == 1, 'extension header')


def legacy(env, sign):
    """sizes and angle from the keywords CDELT and CROTA2"""
    d = [scale(env, f'd{i}', sign[i]) for i in range(2)]
    a = env.real('a')
    with Stand(env) as m:
        h = header(env, {'CDELT1': env.f(d[0]), 'CDELT2': env.f(d[1]), 'CROTA2': env.f(a)})
        cdelt, pa = m.wu.get_cdelt_pa(h)
        env.eq(cdelt, d, 'pixel sizes')
        env.eq([pa], [-a], 'angle')
        for k in ('CDELT1', 'CDELT2', 'CROTA2'):
            g = header(env, {i: j for i, j in (('CDELT1', 1.), ('CDELT2', 1.), ('CROTA2', 0.)) if i != k})
            env.raises(KeyError, lambda: m.wu.get_cdelt_pa(g), f'no {k}')


def arrays(env, shape, dtype):
    """the header of an array has its dimensions and type"""
    import pysimulators.wcsutils as wu
    a = None if shape is None else np.zeros(shape, dtype)
    with Stand(env) as m:
        for ext in (None, '', 'name'):
            h = m.wu.create_fitsheader_for(a, extname=ext)
            want = () if shape is None else (shape or (1,))
            env.true(m.wu.fitsheader2shape(h) == want, 'shape', (m.wu.fitsheader2shape(h), want))
            bit = {'i1': 8, 'u1': 8, 'b1': 8, 'i2': 16, 'i4': 32, 'i8': 64, 'f4': -32, 'f8': -64, None: 32}[dtype]
            env.true(h['BITPIX'] == bit, 'type', (h['BITPIX'], bit))
            env.true(('EXTNAME' in h) == (ext is not None), 'extension')
            if ext:
                env.true(h['EXTNAME'] == ext, 'name of the extension')
        if shape and len(shape) == 2:
            d = positive(env, 'd')
            h = m.wu.create_fitsheader_for(a, cdelt=env.f(d))
            env.eq([h['CRPIX1'], h['CRPIX2']], [F(shape[1] + 1, 2), F(shape[0] + 1, 2)], 'reference pixel')
            env.eq(cd(h), [-d, 0, 0, d], 'pixel matrix')
            p = [env.real(f'p{i}') for i in range(2)]
            v = [env.real(f'v{i}') for i in range(2)]
            h = m.wu.create_fitsheader_for(a, cdelt=env.f(d), crpix=env.arr(p), crval=env.arr(v), ctype=('X', 'Y'), cunit=('Jy', 'K'), equinox=1950)
            env.eq([h['CRPIX1'], h['CRPIX2'], h['CRVAL1'], h['CRVAL2']], p + v, 'reference')
            env.eq(cd(h), [d, 0, 0, d], 'pixel matrix of another projection')
            env.true((h['CTYPE1'], h['CTYPE2'], h['CUNIT1'], h['CUNIT2'], h['EQUINOX']) == ('X', 'Y', 'Jy', 'K', 1950), 'keywords')


def split(env, size, ndim, wcs):
    """the local headers partition the last axis, keep the coordinates of the pixels, and are gathered to the original"""
    import pysimulators.mpiutils as mu
    n = int(env.int('n', 0, 5))
    cards = {'NAXIS': ndim}
    for i in range(ndim):
        cards[f'NAXIS{i + 1}'] = n if i == ndim - 1 else 3 + i
    pix = [env.real(f'p{i}') for i in range(ndim)]
    if wcs:
        for i in range(ndim):
            cards[f'CRPIX{i + 1}'] = env.f(pix[i])
            cards[f'CRVAL{i + 1}'] = float(10 + i)
            cards[f'CTYPE{i + 1}'] = ('RA---TAN', 'DEC--TAN', 'FREQ')[i]
    h = header(env, cards)

    def process(rank, comm):
        loc = mu.scatter_fitsheader(h, comm=comm)
        back = mu.gather_fitsheader(loc, comm=comm)
        maybe = again = None
        if wcs:
            maybe = mu.gather_fitsheader_if_needed(loc, comm=comm)
            again = mu.gather_fitsheader_if_needed(h, comm=comm)
        return loc, back, maybe, again

    import pyoperators.utils.mpi as pm
    start = 0
    last = f'{ndim}'
    for loc, back, maybe, again in mpilib.run(size, process):
        m = loc['NAXIS' + last]
        if wcs:
            # pixel number j of the process is pixel number start + j
            env.eq([loc['CRPIX' + last]], [pix[-1] - start], 'reference pixel of the process')
            env.eq([loc[f'CRPIX{i + 1}'] for i in range(ndim - 1)], pix[:-1], 'other reference pixels')
        env.true(m in (n // size, n // size + 1), 'balanced sizes', (m, n, size))
        start += m
        got = [('gathered', back)] + ([('gathered if needed', maybe), ('global header', again)] if wcs else [])
        for what, g in got:
            for k, v in cards.items():
                if k.startswith('CRPIX'):
                    env.eq([g[k]], [pix[int(k[5:]) - 1]], f'{what}: {k}')
                else:
                    env.true(g[k] == v, f'{what}: {k}', (g[k], v))
    env.true(start == n, 'sizes of the processes', (start, n))
    env.true(h['NAXIS' + last] == n, 'the original header is unchanged')
    if wcs:
        env.eq([h[f'CRPIX{i + 1}'] for i in range(ndim)], pix, 'the original header is unchanged')


def refused(env, size):
    import pysimulators.mpiutils as mu
    for f in (mu.scatter_fitsheader, mu.gather_fitsheader, mu.gather_fitsheader_if_needed):
        def process(rank, comm):
            env.raises(KeyError, lambda: f(header(env, {'CRPIX1': 1.}), comm=comm), 'no NAXIS')
            env.raises(KeyError, lambda: f(header(env, {'NAXIS': 0}), comm=comm), 'scalar')
        mpilib.run(size, process)
    if size > 1:
        for key in ('CRVAL1', 'CDELT1', 'NAXIS1', 'CRPIX1'):
            def process(rank, comm):
                h = header(env, {'NAXIS': 2, 'NAXIS1': 3, 'NAXIS2': 2, 'CRPIX1': 1., 'CRPIX2': 1., 'CRVAL1': 0., 'CRVAL2': 0., 'CTYPE1': 'X',
                                 'CTYPE2': 'Y', 'CDELT1': 1., 'CDELT2': 1.})
                h[key] = h[key] + rank
                env.raises(ValueError, lambda: mu.gather_fitsheader_if_needed(h, comm=comm), f'different {key}')
            mpilib.run(size, process)


def boresight(env, npointing, shape):
    """offsets in the instrument frame are rotated by the position angle and added to the pointing"""
    from pysimulators.wcsutils import RotationBoresightEquatorialOperator
    names = 'ra', 'dec', 'pa'
    v = {k: [env.real(f'{k}{i}') for i in range(npointing)] for k in names}
    if env.symbolic:
        for k in names:
            for x in v[k]:
                env.assume((x > -80) & (x < 80))
    else:
        env.assume(all(-80 < x < 80 for k in names for x in v[k]))
    p = np.recarray(npointing, dtype=[(k, float) for k in names])
    for k in names:
        p[k] = env.arr(v[k])
    n = int(np.prod(shape))
    x = [3600 * env.real(f'x{i}') for i in range(2 * n)]
    for y in x:
        env.assume((y > -360000) & (y < 360000) if env.symbolic else -360000 < y < 360000)
    k = F(math.pi) / 180
    want = []
    for i in range(npointing):
        c, s = env.fn('cos', v['pa'][i] * k), env.fn('sin', v['pa'][i] * k)
        for j in range(n):
            a, b = x[2 * j], x[2 * j + 1]
            dec = v['dec'][i] + (b * c - a * s) / 3600
            d = env.fn('cos', dec * k)
            env.assume(d > F(1, 1000))
            want += [v['ra'][i] + (a * c + b * s) / 3600 / d, dec]
    op = RotationBoresightEquatorialOperator(p)
    out = op(env.arr(x).reshape(shape + (2,)))
    env.true(out.shape == (npointing,) + shape + (2,), 'shape', out.shape)
    env.eq(mag(out), want, 'rotated offsets')


HARNESSES = [
    Harness('astrometry', astrometry, lambda t: [(n, c, s, r, at) for n, at in (((3, 4), ()), ((2, 2), ('crpix', 'crval')))
                                                 for c in ('RA', 'GLON') for s in (None, (1, 1), (-1, 1), (1, -1), (-1, -1)) for r in (False, True)],
            'any pixel sizes from 0.1 to 10, angle, reference pixel and center', opts=OPTS),
    Harness('matrix', matrix, [((3, 4), None), ((3, 4), 'ext'), ((5, 1), '')], 'any matrix', opts=OPTS),
    Harness('legacy', legacy, [((1, 1),), ((-1, 1),), ((1, -1),)], 'any sizes and angle', opts=OPTS),
    Harness('arrays', arrays, [(s, d) for s, d in (((2, 3), 'f8'), ((3, 2), 'f4'), ((2, 3, 4), 'i4'), ((4,), 'i8'), ((2, 2), 'i2'), ((2, 2), 'u1'),
                                                    ((2, 3), 'b1'), ((2, 2), 'i1'), ((), 'f8'), ((0, 3), 'f8'), (None, None))], 'up to 3 dimensions', opts=OPTS),
    Harness('split', split, lambda t: [(s, d, w) for s in (1, 2, 3, 4) for d in (1, 2, 3) for w in (True, False)][::1 if t != 'quick' else 1],
            'up to 4 processes, 3 dimensions and 5 elements along the last', opts=OPTS),
    Harness('refused', refused, [(1,), (2,), (3,)], 'up to 3 processes', opts=OPTS),
    Harness('boresight', boresight, [(1, (1,)), (2, (1,)), (1, (2,)), (2, (2,)), (1, (1, 2))], 'up to 2 pointings and 2 positions', opts=OPTS),
]
