"""Parallel kernels: absence of data races and results, with several threads."""
import importlib

import numpy as np

from checks import sparselib as L
from engine.runner import Harness

NOTE = ('Bounded: for every value within the stated sizes, in a parallel loop shared by 2 or 3 threads, every pair of accesses of different '
        'threads to the same byte with a write is ordered by an atomic, a critical section or a barrier, so that the results do not depend on the '
        'interleaving (sums up to their rounding); the result of one interleaving is compared with the definition. Real arithmetic; trusts gcc\'s '
        'GIMPLE dump, the executor and z3.')


def _harness(module, name):
    return next(h for h in importlib.import_module('checks.' + module).HARNESSES if h.name == name)


def kernels(env, module, name, threads, cfg):
    """the harness of another check, its parallel regions being shared by several threads"""
    env.threads(threads)
    real = env.threads
    env.threads = lambda n: None
    try:
        _harness(module, name).fn(env, *cfg)
    finally:
        env.threads = real


def stress(module, name, threads, cfg):
    """a result of many elements, by 4 threads, against its definition: exact integers do not depend on the order of the sums"""
    if module in ('S01', 'S02', 'S03', 'S04'):
        for it, rt, vt in (('int32', 'float32', 'float64'), ('int64', 'float64', 'float64')):
            kind = cfg[0]
            r = L.stress(kind, it, rt, vt)
            if r:
                return r
        if module == 'S03':
            return _reductions(cfg[0])
        return None
    if module in ('P01', 'P02'):
        from checks import P01
        return P01.stress((2,), 1, 2, 2) or _masks()
    return {'A01': _angles, 'D01': _images, 'G02': _geometry, 'L01': _geometry, 'T01': _convolution, 'G01': _polygons}[module]()


def _many(f, same=np.array_equal, n=30):
    want = None
    for _ in range(n):
        got = f()
        if want is not None and not same(got, want):
            return 'results differ from one run to another'
        want = got
    return None


def _reductions(kind):
    from pysimulators import ProjectionOperator
    rng = np.random.RandomState(0)
    if kind not in L.classes() or kind.startswith('fsc'):
        return None
    names = {'fsr': ('value',), 'fsr_rot2d': ('r11', 'r21'), 'fsr_rot3d': ('r11', 'r22', 'r32')}.get(kind)
    if names is None:
        return None
    for ncol in (2, 5000):
        d = np.zeros((20000, 2), dtype=[('index', 'i4')] + [(k, 'f8') for k in names])
        d['index'] = rng.randint(0, ncol, d.shape)
        for k in names:
            d[k] = rng.randint(-3, 4, d.shape)
        b = {'fsr': 1, 'fsr_rot2d': 2, 'fsr_rot3d': 3}[kind]
        p = ProjectionOperator(L.classes()[kind]((20000 * b, ncol * b), data=d))
        for f in (lambda: np.array(p.pT1()), lambda: np.array(p.canonical_basis_in_kernel())):
            r = _many(f)
            if r:
                return r
    return None


def _masks():
    from pysimulators.operators import PointingMatrix
    rng = np.random.RandomState(0)
    for npix in (3, 40000):
        m = PointingMatrix.empty((2, 20000, 3), (npix,), verbose=False)
        m['index'] = rng.randint(-1, npix, m.shape)
        m['value'] = rng.randint(0, 2, m.shape)
        for f in (m.get_mask, m.isvalid):
            r = _many(lambda: np.array(f()))
            if r:
                return r
    return None


def _angles():
    from pysimulators.wcsutils import angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees
    x = np.tile([350., 355., 0., 5., 10., np.nan], 20000)
    y = np.tile([-3., 3., 2., -2., 0., 0.], 20000)
    one = x[:6]
    for f, n in ((lambda v: np.array([mean_degrees(v)]), x), (lambda v: np.array(minmax_degrees(v)), x),
                 (lambda v: np.array(barycenter_lonlat(v, np.resize(y, v.shape))), x)):
        want = f(one)
        for _ in range(30):
            if not np.allclose(f(n), want, rtol=1e-9, atol=1e-9, equal_nan=True):
                return 'statistics of angles differ with several threads'
    return _many(lambda: angle_lonlat(x, y, 3., 4.), lambda a, b: np.allclose(a, b, equal_nan=True))


def _images():
    from pysimulators import distance, distance2, profile
    a = np.tile([1., 2.], (300, 150))
    i, j = np.mgrid[:300, :300]
    r = np.sqrt((i - 3.) ** 2 + (j - 7.) ** 2)
    n = np.bincount(np.floor(r).astype(int).ravel() if False else np.round(r).astype(int).ravel())
    for _ in range(20):
        if not np.allclose(distance((300, 300), center=(7, 3)), r):
            return 'distances differ with several threads'
        if not np.allclose(distance2((300, 300), center=(7, 3)), r ** 2):
            return 'squared distances differ with several threads'
    return _many(lambda: np.concatenate([np.ravel(v) for v in profile(a, center=(7, 3), histogram=True)]),
                 lambda u, v: np.allclose(u, v, equal_nan=True))


def _geometry():
    import pysimulators.geometry as g
    rng = np.random.RandomState(0)
    x = rng.randint(-9, 9, (30000, 2)).astype(float)
    want = np.stack([-x[:, 1], x[:, 0]], -1)
    p = np.tile([[0., 0], [2, 0], [2, 3], [0, 3]], (20000, 1, 1))
    for _ in range(20):
        if not np.allclose(g.rotate(x, 90), want):
            return 'rotations differ with several threads'
        if not np.allclose(g.surface_convex_polygon(p) if hasattr(g, 'surface_convex_polygon') else 6, 6):
            return 'areas differ with several threads'
    return _many(lambda: g.create_grid((200, 100), 2., center=(1., 2.), angle=30.)) or \
        _many(lambda: g.create_grid_squares((200, 100), 2., filling_factor=0.5, center=(1., 2.), angle=30.))


def _polygons():
    from pysimulators import SceneGrid
    s = SceneGrid((40, 50))
    k = np.arange(1500)
    c = np.stack([k % 48, k // 48], -1).astype(float)
    p = c[:, None] + [(0, 0), (1.5, 0), (1.5, 1.5), (0, 1.5)]
    for _ in range(20):
        m = s.get_integration_operator(p).matrix
        if m.ncolmax != 4 or not np.allclose(m.data.value, [0.5 * 0.5, 0.5, 0.5, 1]):
            return 'areas of the intersections differ with several threads'
        if not np.array_equal(m.data.index, (c[:, 1] * 50 + c[:, 0]).astype(int)[:, None] + [0, 1, 50, 51]):
            return 'intersected pixels differ with several threads'
    return None


def _convolution():
    from pysimulators import ConvolutionTruncatedExponentialOperator as C
    rng = np.random.RandomState(0)
    x = rng.randint(-9, 9, (400, 300)).astype(float)
    c = C(np.arange(1., 401))
    return _many(lambda: c(x), np.allclose) or _many(lambda: c.T(x), np.allclose)


PICK = {'S01': {'matvec': 11}, 'S02': {'adjoint': 29}, 'S03': {'coverage': 9, 'coverage2d': 5, 'backprojection': 13, 'normal': 9, 'kernel': 17},
        'S04': {'restrict': 37, 'corestrict': 23}, 'P01': {'apply': 5, 'backprojection': 5, 'normal': 3, 'diagonal': 3, 'weighted': 5, 'onfly': 2},
        'P02': {'mask': 5, 'pack': 5, 'isvalid': 3, 'intersects': 5}, 'T01': {'apply': 9, 'constant': 5},
        'A01': {'mean': 5, 'minmax': 5, 'barycenter': 3, 'angle': 3},
        'G01': {'polygons': 4}}
ARRAYS = {'D01': {'distance': 5, 'profile': 4}, 'G02': {'grid': 7, 'rotation': 7, 'polygon': 7, 'area': 5},
          'L01': {'grid': 40}}


def _configs(pick):
    def configs(tier):
        out = []
        for m, names in pick.items():
            for name, step in names.items():
                h = _harness(m, name)
                cfgs = h.configs('quick') if callable(h.configs) else h.configs
                k = 1 if tier != 'quick' and step < 7 else 2 if tier != 'quick' else step
                for i, c in enumerate(cfgs[::k]):
                    for n in ((2, 3)[i % 2],) if tier == 'quick' else (2, 3):
                        out.append((m, name, n, c))
        return out
    return configs


HARNESSES = [
    Harness('kernels', kernels, _configs(PICK), 'sparse products and reductions, pointing matrices, convolutions, angles: up to 4 elements, 2 or 3 threads',
            stress=stress),
    Harness('arrays', kernels, _configs(ARRAYS), 'distances, profiles, grids, rotations and areas: up to 9 elements, 2 or 3 threads', stress=stress,
            opts={'ufunc': True}),
]
