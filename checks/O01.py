"""Coordinate conversions, rolls, and diagonal spectral operators follow their definitions and are adjoint/inverse of their
transposes and inverses."""
import math
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness

OPTS = {'ufunc': True}
DEG = math.pi / 180


def bounded(env, x, lo, hi):
    env.assume((x >= lo) & (x <= hi) if env.symbolic else lo <= x <= hi)
    return x


def mag(x):
    return np.asarray(x).view(np.ndarray)


def galactic():
    """rows: the galactic axes in the equatorial frame, from the documented directions of the pole and center"""
    def direction(ra, dec):
        ra, dec = ra * DEG, dec * DEG
        return np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])
    z = direction(192.85948, 27.12825)
    x = direction(266.40510, -28.936175)
    x = x - x.dot(z) * z
    x /= math.sqrt(x.dot(x))
    y = np.array([z[1] * x[2] - z[2] * x[1], z[2] * x[0] - z[0] * x[2], z[0] * x[1] - z[1] * x[0]])
    return [[float(v) for v in r] for r in (x, y, z)]


GAL = galactic()


def vectors(env, shape, bound=10):
    n = int(np.prod(shape)) * 3
    v = [bounded(env, env.real(f'x{i}'), -bound, bound) for i in range(n)]
    return v


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)[..., ::2]
        b[...] = a
        return b
    return a


def apply(env, m, v):
    out = []
    for k in range(0, len(v), 3):
        for r in m:
            out.append(sum((r[j] * v[k + j] for j in range(1, 3)), r[0] * v[k]))
    return out


def gal(env, name, shape, how, dtype):
    import pysimulators as ps
    from pyoperators import IdentityOperator
    v = vectors(env, shape)
    x = layout(env.arr(v, dtype).reshape(shape + (3,)), how)
    names = ['CartesianEquatorial2GalacticOperator', 'CartesianGalactic2EquatorialOperator']
    kw = {'dtype': dtype} if dtype != 'f8' else {}
    op = getattr(ps, names[name != 'E2G'])(**kw)
    back = getattr(ps, names[name == 'E2G'])(**kw)
    m = [[F(e) if env.symbolic else e for e in r] for r in (GAL if name == 'E2G' else list(zip(*GAL)))]
    t = [list(r) for r in zip(*m)]
    tol = 1e-4
    tol2 = 1e-6 if dtype == 'f8' else 1e-4
    got = op(x)
    env.true(got.shape == x.shape and got.dtype == np.dtype(dtype), 'shape and type', (got.shape, got.dtype))
    env.close(mag(got), apply(env, m, v), 'documented axes', tol)
    y = env.vals(mag(got))
    for k in range(0, len(v), 3):
        for l in range(k, len(v), 3):
            env.close([y[k] * y[l] + y[k + 1] * y[l + 1] + y[k + 2] * y[l + 2]],
                      [v[k] * v[l] + v[k + 1] * v[l + 1] + v[k + 2] * v[l + 2]], 'scalar products', 1e-6 if dtype == 'f8' else 1e-3)
    for label, o in (('other operator', back), ('transpose', op.T), ('inverse', op.I)):
        env.close(mag(o(got)), v, f'{label}: there and back', tol2)
        env.close(mag(o(x)), apply(env, t, v), f'{label}: documented axes', tol)
    env.close(mag(op.T.T(x)), mag(got), 'transpose of the transpose', tol2)
    env.close(mag(op.I.T(x)), mag(got), 'transpose of the inverse', tol2)
    env.close(mag((op.T * op)(x)), v, 'product of the transpose and the operator', tol2)
    env.close(mag((back * op)(x)), v, 'composition with the other operator', tol2)
    env.close(mag((op * op)(x)), mag(op(got)), 'composition with itself', tol2)
    out = np.zeros(x.shape, dtype)
    op(x, out)
    env.eq(mag(out), mag(got), 'output argument')
    env.close(mag(x), v, 'input unchanged', tol2)


class Time:
    def __init__(self, jd):
        self.jd = jd


def floor(env, x):
    if env.symbolic:
        return env.sym.SymReal(env.sym.X.z3.ToReal(env.sym.X.z3.ToInt(env.sym.X.R(env.sym.raw(x)))))
    return math.floor(x)


def const(env, x):
    return F(x) if env.symbolic else x


def sidereal(env, jd, lon):
    """local sidereal time in radians, up to a multiple of the turn (Duffett-Smith)"""
    d = floor(env, jd - const(env, 0.5)) + const(env, 0.5)
    t = (d - const(env, 2451545)) / const(env, 36525)
    h = const(env, 6.697374558) + const(env, 2400.051336) * t + const(env, 0.000025862) * (t * t)
    h = h + (jd - d) * 24 * const(env, 1.002737909) + lon / const(env, 15)
    return h * 15 * (F(DEG) if env.symbolic else DEG)


def values(env, name, shape, lo, hi):
    """-> (argument, values broadcastable)"""
    n = int(np.prod(shape))
    v = [bounded(env, env.real(f'{name}{i}'), lo, hi) for i in range(n)]
    a = env.arr(v).reshape(shape) if shape else env.f(v[0])
    o = np.empty(n, object)
    o[:] = v
    return a, o.reshape(shape)


def horizon(env, jds, lats, lons, as_list=()):
    if env.symbolic:
        env.c.floors = True          # any day, as a symbolic integer
    jd, j = values(env, 'jd', jds, 2400000, 2500000)
    lat, p = values(env, 'lat', lats, -90, 90)
    lon, q = values(env, 'lon', lons, -180, 180)
    if 'lat' in as_list:
        lat = list(lat)
    if 'lon' in as_list:
        lon = list(lon)
    j, p, q = np.broadcast_arrays(j, p, q)
    ms = []
    for a, b, c in zip(j.ravel(), p.ravel(), q.ravel()):
        s = sidereal(env, a, c)
        b = b * (F(DEG) if env.symbolic else DEG)
        sl, cl, ss, cs = env.fn('sin', b), env.fn('cos', b), env.fn('sin', s), env.fn('cos', s)
        # North, East, zenith
        ms.append([[-sl * cs, -sl * ss, cl], [-ss, cs, 0], [cl * cs, cl * ss, sl]])
    return (Time(jd), lat, lon), ms, j.shape


def hor(env, name, jds, lats, lons, extra, as_list):
    import pysimulators as ps
    args, ms, shape = horizon(env, jds, lats, lons, as_list)
    v = vectors(env, extra + shape)
    x = env.arr(v).reshape(extra + shape + (3,))
    names = ['CartesianEquatorial2HorizontalOperator', 'CartesianHorizontal2EquatorialOperator']
    op = getattr(ps, names[name != 'E2H'])('NE', *args)
    back = getattr(ps, names[name == 'E2H'])('NE', *args)
    if name != 'E2H':
        ms = [[list(r) for r in zip(*m)] for m in ms]
    got = mag(op(x))
    env.true(got.shape == x.shape, 'shape', got.shape)
    n = len(ms)
    want, tran = [], []
    for k in range(len(v) // 3):
        want += apply(env, ms[k % n], v[3 * k:3 * k + 3])
        tran += apply(env, [list(r) for r in zip(*ms[k % n])], v[3 * k:3 * k + 3])
    env.eq(got, want, 'North, East, zenith')
    for label, o in (('transpose', op.T), ('inverse', op.I), ('other operator', back)):
        env.eq(mag(o(x)), tran, f'{label} of the conversion')
    y = env.vals(got)
    for k in range(0, len(v), 3):
        env.eq([y[k] * y[k] + y[k + 1] * y[k + 1] + y[k + 2] * y[k + 2]], [v[k] * v[k] + v[k + 1] * v[k + 1] + v[k + 2] * v[k + 2]], 'length')
    env.eq(mag(op.T(op(x))), v, 'there and back')
    env.raises(ValueError, lambda: getattr(ps, names[0])('SW', *args), 'other azimuth conventions are refused')


def sph(env, name, cin, cout, degrees, shape):
    import pysimulators as ps
    if env.symbolic:
        env.c.abstract = True
    n = int(np.prod(shape))
    k = (F(DEG) if env.symbolic else DEG) if degrees else 1
    zen, az = [], []
    for i in range(n):
        zen.append(env.real(f'z{i}'))
        az.append(env.real(f'a{i}'))
    args = ()
    if name in ('E2G', 'G2E'):
        m = [[F(e) if env.symbolic else e for e in r] for r in GALREAL()]
        m = m if name == 'E2G' else [list(r) for r in zip(*m)]
        ms = [m] * n
    else:
        args, ms, _ = horizon(env, (), (), ())
        args = ('NE',) + args
        ms = [ms[0] if name == 'E2H' else [list(r) for r in zip(*ms[0])]] * n
    cls = {'E2G': ps.SphericalEquatorial2GalacticOperator, 'G2E': ps.SphericalGalactic2EquatorialOperator,
           'E2H': ps.SphericalEquatorial2HorizontalOperator, 'H2E': ps.SphericalHorizontal2EquatorialOperator}[name]
    op = cls(*args, conventionin=cin, conventionout=cout, degrees=degrees)
    cin, cout = (c.replace(' ', '').lower() for c in (cin, cout))
    v = []
    for z, a in zip(zen, az):
        v += [z, a] if cin.replace(' ', '').endswith('azimuth') else [a, z]
    x = env.arr(v).reshape(shape + (2,))
    want = []
    pi = F(math.pi) if env.symbolic else math.pi
    for z, a, m in zip(zen, az, ms):
        z, a = z * k, a * k
        if 'elevation' in cin:
            sz, cz = env.fn('cos', z), env.fn('sin', z)
            if env.symbolic:          # same terms as those of the zenith angle
                sz, cz = env.fn('sin', pi / 2 - z), env.fn('cos', pi / 2 - z)
        else:
            sz, cz = env.fn('sin', z), env.fn('cos', z)
        u = apply(env, m, [sz * env.fn('cos', a), sz * env.fn('sin', a), cz])
        if env.symbolic:
            env.assume((u[2] >= -1) & (u[2] <= 1))
        else:
            env.assume(abs(u[2]) < 1 - 1e-9 and abs(u[0]) + abs(u[1]) > 1e-7)
        t, p = env.fn('acos', u[2]), env.fn('atan2', u[1], u[0])
        if 'elevation' in cout:
            t = pi / 2 - t
        p = env.ite(p < 0, p + 2 * pi, p)
        t, p = t / k, p / k
        want += [t, p] if cout.replace(' ', '').endswith('azimuth') else [p, t]
    got = mag(op(x))
    env.true(got.shape == x.shape, 'shape', got.shape)
    if env.symbolic:
        env.close(got, want, 'angles')
    else:
        # angles are defined up to a turn next to the origin of the azimuths
        turn = 2 * math.pi / k
        for g, w in zip(env.vals(got), env.vals(want)):
            env.true(min(abs(g - w), abs(abs(g - w) - turn)) < 1e-5 * turn, 'angles', (g, w))


def GALREAL():
    from pysimulators.operators import CartesianEquatorial2GalacticOperator as Op
    return np.asarray(Op().data).tolist()


def roll(env, shape, n, axis):
    from pysimulators import RollOperator
    size = int(np.prod(shape))
    v = [env.real(f'v{i}') for i in range(size)]
    x = env.arr(v).reshape(shape)
    kw = {} if axis is None else {'axis': axis}
    op = RollOperator(n, **kw)
    ns = (n,) if np.isscalar(n) else tuple(n)
    ax = (-1 if np.isscalar(n) else tuple(range(-len(ns), 0))) if axis is None else axis
    ax = (ax,) if np.isscalar(ax) else tuple(ax)
    if len(ns) == 1:
        ns = ns * len(ax)
    want = {}
    for i in np.ndindex(*shape):
        j = list(i)
        for k, a in zip(ns, ax):
            j[a] = (j[a] + k) % shape[a]
        want[tuple(j)] = v[np.ravel_multi_index(i, shape)]
    back = {}
    for i in np.ndindex(*shape):
        j = list(i)
        for k, a in zip(ns, ax):
            j[a] = (j[a] - k) % shape[a]
        back[tuple(j)] = v[np.ravel_multi_index(i, shape)]
    order = list(np.ndindex(*shape))
    y = mag(op(x))
    env.eq(y, [want[i] for i in order], 'rolled')
    env.eq(mag(op.T(x)), [back[i] for i in order], 'transpose')
    env.eq(mag(op.I(x)), [back[i] for i in order], 'inverse')
    env.eq(mag(op.T(op(x))), v, 'there and back')
    env.eq(mag((op.T * op)(x)), v, 'product of the transpose and the operator')
    env.eq(mag(x), v, 'input unchanged')
    z = x.copy()
    op(z, z)
    env.eq(mag(z), [want[i] for i in order], 'in place')


def positive(env, name, lo, hi):
    return bounded(env, env.real(name), lo, hi)


def blackbody(env, shape, kind, kind0, beta):
    from pysimulators import BlackBodyOperator
    import scipy.constants as sc
    c, h, k = (F(x) if env.symbolic else x for x in (sc.c, sc.h, sc.k))
    size = int(np.prod(shape))
    T = [positive(env, f'T{i}', 2, 300) for i in range(size)]
    w, w0 = positive(env, 'w', F(1, 10000), F(1, 100)), positive(env, 'w0', F(1, 10000), F(1, 100))
    if not env.symbolic:
        w, w0 = float(w), float(w0)
    kw = {}
    nu, nu0 = c / w, c / w0
    if kind == 'frequency':
        nu = w * 10 ** 14
        kw['frequency'] = env.f(nu)
    else:
        kw['wavelength'] = env.f(w)
    if kind0 == 'frequency':
        nu0 = w0 * 10 ** 14
        kw['frequency0'] = env.f(nu0)
    else:
        kw['wavelength0'] = env.f(w0)
    t = env.arr(T).reshape(shape) if shape else env.f(T[0])
    b = [0] * size
    if beta == 'array':
        b = [0, 1, -1, 2, 1, 0][:size]
        kw['beta'] = np.array(b, float).reshape(shape)
    elif beta is not None:
        b = [beta] * size
        kw['beta'] = beta
    op = BlackBodyOperator(t, **kw)
    v = [env.real(f'v{i}') for i in range(size)]
    x = env.arr(v).reshape(shape) if shape else env.f(v[0])
    got = mag(op(x))
    want = []
    for i in range(size):
        def planck(f):
            p = 1
            for _ in range(3 + b[i]):
                p = p * f
            return p / (env.fn('exp', h * f / (k * T[i])) - 1)
        want.append(v[i] * planck(nu) / planck(nu0))
    if env.symbolic:
        from engine import laurent
        from engine import explore as X
        for i, (g, r) in enumerate(zip(env.vals(got), want)):
            g, r = X.R(env.sym.raw(g)), X.R(env.sym.raw(r))
            if laurent.equal(g, r):
                r = g
            env.true(g == r, f'black body[{i}]')
    else:
        env.eq(got, want, 'black body')
    if not env.symbolic:
        kw = {a.replace('0', ''): b for a, b in kw.items() if '0' in a}
        kw.update({a + '0': b for a, b in kw.items()})
        env.eq(mag(BlackBodyOperator(t, **kw)(x)), v, 'reference frequency')


def powerlaw(env, shape, alpha, scalar):
    from pysimulators import PowerLawOperator
    from pyoperators import HomothetyOperator, BlockDiagonalOperator, I
    size = int(np.prod(shape))
    al = list(alpha)[:size] if shape else [alpha[0]]
    x, x0 = positive(env, 'x', F(1, 10), 10), positive(env, 'x0', F(1, 10), 10)
    s = bounded(env, env.real('s'), -10, 10) if scalar else 1
    a = np.array(al, float).reshape(shape) if shape else float(al[0])
    kw = {'scalar': env.f(s)} if scalar else {}
    op = PowerLawOperator(a, env.f(x), env.f(x0), **kw)
    n = size if shape else 2
    v = [bounded(env, env.real(f'v{i}'), -10, 10) for i in range(n)]
    y = env.arr(v).reshape(shape if shape else (2,))
    if not env.symbolic:
        x, x0 = float(x), float(x0)

    def law(p, k):
        r = k
        for _ in range(abs(p)):
            r = r * x / x0 if p > 0 else r * x0 / x
        return r
    want = [law(al[i] if shape else al[0], s) * v[i] for i in range(n)]
    env.eq(mag(op(y)), want, 'power law')
    env.eq(mag(op.T(y)), want, 'transpose')
    z = y.copy()
    op(z, z)
    env.eq(mag(z), want, 'in place')
    env.eq(mag((HomothetyOperator(3) * op)(y)), [3 * w for w in want], 'scaled power law')
    env.eq(mag((op * HomothetyOperator(3))(y)), [3 * w for w in want], 'power law of a scaled input')
    env.eq(mag((op + 2 * op)(y)), [3 * w for w in want], 'sum of power laws')
    if len(shape) == 1 and shape[0] > 1:
        b = BlockDiagonalOperator([2 * I, 5 * I], partitionin=(1, shape[0] - 1), axisin=0)
        sc = [2] + [5] * (shape[0] - 1)
        env.eq(mag((b * op)(y)), [k * w for k, w in zip(sc, want)], 'block diagonal operator applied to a power law')
        env.eq(mag((op * b)(y)), [k * w for k, w in zip(sc, want)], 'power law of a block diagonal operator')
        env.eq(mag((b + op)(y)), [k * u + w for k, u, w in zip(sc, v, want)], 'sum of a block diagonal operator and a power law')


def blocks(env, how, sizes, values_):
    """an operator partitioned by block_diagonal is the block diagonal operator of its parts"""
    from pyoperators import Operator, flags
    from pysimulators.operators import block_diagonal
    n = len(sizes) if sizes else len(values_)
    new = how.startswith('stack')
    last = how.endswith('last')
    axis = -1 if last else 0

    @block_diagonal('value', **({'new_axisin': axis} if new else {'axisin': axis}))
    @flags.linear
    @flags.square
    class Op(Operator):
        def __init__(self, value, other=3, **keywords):
            self.value = value
            self.other = other
            Operator.__init__(self, dtype=float, **keywords)

        def direct(self, input, output):
            output[...] = self.value * input * self.other
    k = [env.real(f'k{i}') for i in range(n)]
    shape = (2, n) if last else (n, 2)
    if not new:
        shape = (2, sum(sizes)) if last else (sum(sizes), 2)
    val = [env.f(x) for x in k] if values_ != 'scalar' else env.f(k[0])
    kw = {}
    if sizes and not new:
        kw['partitionin'] = sizes
    if new and sizes:
        kw['partitionin'] = (1,) * n
    if 'shape' in how:
        kw['shapein'] = shape
    op = Op(val, other=5, **kw)
    v = [env.real(f'v{i}') for i in range(int(np.prod(shape)))]
    x = env.arr(v).reshape(shape)
    if new:
        which = list(range(n))
    else:
        which = [i for i, s in enumerate(sizes) for _ in range(s)]
    want = []
    for i in np.ndindex(*shape):
        b = which[i[axis]]
        want.append((k[b] if values_ != 'scalar' else k[0]) * v[np.ravel_multi_index(i, shape)] * 5)
    got = op(x)
    env.true(got.shape == shape, 'shape', got.shape)
    env.eq(mag(got), want, 'blocks')
    env.true([o.other for o in op.operands] == [5] * n, 'argument of the blocks', [o.other for o in op.operands])
    if 'shape' in how:
        env.true(op.shapein == shape, 'input shape of the operator', op.shapein)


CONV = ('zenith,azimuth', 'azimuth,zenith', 'elevation,azimuth', 'azimuth,elevation')


def _sph(tier):
    out = []
    for i, name in enumerate(('E2G', 'G2E', 'E2H', 'H2E')):
        for a in range(4):
            for b in range(4):
                if tier == 'quick' and (a + b + i) % 4 not in (0, 3) and a != b:
                    continue
                out.append((name, CONV[a], CONV[b], (a + b + i) % 3 == 0, ((), (2,))[(a + i) % 2]))
    out.append(('E2G', 'Azimuth, Elevation', 'zenith, azimuth', True, (1, 1)))
    return out


HARNESSES = [
    Harness('gal', gal, lambda t: [(n, s, h, d) for n in ('E2G', 'G2E') for s, h, d in (
        ((), 'C', 'f8'), ((2,), 'C', 'f8'), ((2, 2), 'F', 'f8'), ((2,), 'strided', 'f8'), ((1, 2), 'C', 'f4'))],
        'up to 4 vectors, components between -10 and 10', opts=OPTS),
    Harness('hor', hor, lambda t: [(n,) + c for n in ('E2H', 'H2E') for c in (
        ((), (), (), (), ()), ((2,), (), (), (), ()), ((), (), (2,), (), ()), ((), (2,), (), (1,), ()), ((2, 1), (2,), (), (), ()),
        ((), (2,), (2,), (), ('lat', 'lon')))],
        'up to 4 frames at any time, latitude and longitude; any vectors', opts=OPTS),
    Harness('sph', sph, _sph, 'one or two directions given by any angles; unit vectors', opts=OPTS),
    Harness('roll', roll, lambda t: [((n,), k, ax) for n in (1, 2, 3) for k in (-4, -1, 0, 1, 2, 5) for ax in (None, 0)][::1 if t != 'quick' else 2] + [
        ((2, 3), k, ax) for k, ax in ((1, None), (2, 0), (-1, 1), ((1, 2), None), ((1, 2), (1, 0)), ((3, -1), (-1, -2)), (1, (0, 1)), ((1, 1), (1, 1)))] + [
        ((2, 2, 2), (1, 1), None), ((2, 1, 3), (1, 1, 2), (0, 1, 2)), ((2, 2, 2), (1,), 1)],
        'up to 8 elements, 3 axes, offsets larger than the size', opts=OPTS),
    Harness('blackbody', blackbody, lambda t: [(s, a, b, be) for s in ((), (2,)) for a, b in (
        ('frequency', 'frequency'), ('wavelength', 'wavelength'), ('frequency', 'wavelength'), ('wavelength', 'frequency'))
        for be in (None, 1, -1, 2)][::1 if t != 'quick' else 3] + [((2,), 'frequency', 'wavelength', 'array'), ((1, 2), 'wavelength', 'wavelength', 'array')],
        'up to 2 temperatures from 2 to 300 K, wavelengths from 0.1 to 10 mm', opts=OPTS),
    Harness('powerlaw', powerlaw, lambda t: [(s, al, sc) for s in ((), (2,), (3,), (2, 2)) for al in ((1, 2, -1, 0), (-2, 1, 0, 3), (0, -1, 2, 1))
                                             for sc in (False, True)], 'up to 4 slopes from -2 to 3', opts=OPTS),
    Harness('blocks', blocks, lambda t: [(h, s, 'list') for h in ('chunk', 'chunk-last', 'chunk-shape', 'chunk-shape-last') for s in ((1, 2), (2, 1, 1))] + [
        ('chunk', (1, 2), 'scalar')] + [(h, None, (0, 0, 0)) for h in ('stack', 'stack-last', 'stack-shape', 'stack-shape-last')] + [
        ('stack-shape', (1, 1), 'list')],
        'up to 3 blocks along the first or last dimension', opts=OPTS),
]
