"""Splitting, scattering, gathering and distributing cover every element exactly once."""
import numpy as np

from engine.runner import Harness
from checks import tablelib as L
from checks import mpilib as M
from checks.K02 import table

NAN = float('nan')


def blocks(env, sizes, n, label):
    env.true(sum(sizes) == n, f'{label}: number of elements', sizes)
    env.true(max(sizes) - min(sizes) <= 1, f'{label}: the sizes differ by more than one', sizes)


def split(env, shape, kind, what):
    t, rows, act = table(env, shape, None, kind, a=np.arange(int(np.prod(shape))).reshape(shape))
    if what == 'instrument':
        from pysimulators import Instrument
        t = Instrument(t)
    n = env.int('n', 1, len(rows) + 2 if len(rows) < 4 else 6)
    parts = t.split(n)
    env.true(len(parts) == n, 'number of groups', len(parts))
    sizes = [len(p) for p in parts]
    blocks(env, sizes, len(rows), 'split')
    if what == 'instrument':
        parts = [p.detector for p in parts]
        t = t.detector
    got = [int(i) for p in parts for i in p.index]
    env.true(got == rows, 'components of the groups', got)
    got = [int(i) for p in parts for i in p.a]
    env.true(got == rows, 'attributes of the groups', got)
    env.true([int(i) for i in t.index] == rows, 'the table is unchanged')


def scatter(env, shape, ndim, kind, size, what):
    act = shape[:ndim] if ndim else shape
    n = int(np.prod(act))
    m = int(np.prod(shape)) // n
    a = [env.real(f'a{i}') for i in range(n * m)]
    b = [env.real(f'b{i}') for i in range(2 * n * m)]
    sc = env.real('sc')
    v = np.zeros(n, [('p', 'i2'), ('q', float)])
    v['p'] = np.arange(n)
    v['q'] = env.arr(a[:n])
    t, rows, act = table(env, shape, ndim, kind, a=env.arr(a).reshape(shape), b=env.arr(b).reshape(shape + (2,)),
                         c=env.arr([sc])[0], d=None, i=np.arange(n, dtype=np.int8).reshape(act),
                         v=v.reshape(act), f=lambda t: t.index * 2)
    if what == 'instrument':
        from pysimulators import Instrument
        inst = Instrument(t)
    x = [env.real(f'x{i}') for i in range(n)]
    xa = env.arr(x).reshape(act)

    def process(rank, comm):
        if what == 'instrument':
            i = inst.scatter(comm)
            loc = i.detector
            env.true(i.comm is comm and len(i) == len(loc), 'scattered instrument')
        else:
            loc = t.scatter(comm)
        r = {'n': len(loc), 'index': loc.index.copy(), 'a': loc.a.copy(), 'comm': loc.comm, 'v': loc.v.copy()}
        try:
            loc.scatter(comm)
            r['twice'] = False
        except ValueError:
            r['twice'] = True
        px = loc.pack(xa)
        r['px'] = px.copy()
        r['gx'] = loc.gather(px)
        r['gb'] = loc.gather(loc.b)
        g = loc.gather()
        r['g'] = g
        r['u'] = loc.unpack(px, missing_value=None)
        r['removed'] = loc.all.removed
        r['all'] = loc.all.a
        if what == 'reselect':
            s = loc[::2]
            r['s'] = s.index.copy()
            r['sx'] = s.gather(s.pack(xa))
            r['sg'] = s.gather()
        return r
    try:
        res = M.run(size, process)
    except M.MPIError as e:
        env.fail('MPI error', e)
        return
    blocks(env, [r['n'] for r in res], len(rows), 'scatter')
    got = [int(i) for r in res for i in r['index']]
    env.true(got == rows, 'scattered components', got)
    wa = [a[i * m + j] for i in rows for j in range(m)]
    env.eq([q for r in res for q in r['a'].ravel()], wa, 'scattered attribute')
    env.true([int(q) for r in res for q in r['v']['p']] == rows, 'scattered structured attribute')
    env.eq([q for r in res for q in r['px']], [x[i] for i in rows], 'data packed by the processes')
    rem = [i not in rows for i in range(n)]
    for k, r in enumerate(res):
        env.true(r['twice'] if size > 1 else True, 'a scattered table is scattered again')
        env.true(r['comm'].size == size, 'communicator of the scattered table')
        env.eq(r['gx'], [x[i] for i in rows], 'gathered data')
        env.true(r['gb'].shape == (len(rows),) + shape[len(act):] + (2,), 'shape of the gathered attribute')
        env.eq(r['gb'], [b[i * 2 * m + j] for i in rows for j in range(2 * m)], 'gathered attribute with several values')
        g = r['g']
        env.true(type(g) is type(t) and g.shape == t.shape and g.ndim == t.ndim, 'gathered table')
        env.true(len(g) == len(rows) and [int(i) for i in g.index] == rows, 'components of the gathered table', g.index)
        env.eq(g.a, wa, 'attribute of the gathered table')
        env.eq(g.c, [sc], 'scalar attribute of the gathered table')
        env.true(g.d is None and g.i.dtype == np.int8 and [int(i) for i in g.i] == rows, 'integer attribute of the gathered table')
        env.true([int(i) for i in g.v['p']] == rows, 'structured attribute of the gathered table')
        env.eq(g.v['q'], [a[i] for i in rows], 'structured attribute of the gathered table')
        env.true([int(i) for i in g.f] == [2 * i for i in rows], 'computed attribute of the gathered table')
        env.true(g.comm.size == 1, 'the gathered table is still distributed')
        env.eq(g.unpack(g.pack(xa)), [x[i] if i in rows else NAN for i in range(n)], 'unpacking with the gathered table')
        env.eq(r['u'], [x[i] if i in rows else NAN for i in range(n)], 'unpacking of distributed data')
        env.true([bool(q) for q in r['removed'].ravel()] == rem, 'removed components of the distributed table')
        env.eq(r['all'], [a[i * m + j] if i in rows else NAN for i in range(n) for j in range(m)],
               'unpacked distributed attribute')
        if what == 'reselect':
            srows = [int(i) for q in res for i in q['s']]
            env.eq(r['sx'], [x[i] for i in srows], 'gathered selected data')
            env.true([int(i) for i in r['sg'].index] == srows, 'components of the gathered selection')
            env.eq(r['sg'].a, [a[i * m + j] for i in srows for j in range(m)], 'attribute of the gathered selection')
    env.true([int(i) for i in t.index] == rows and t.comm.size == 1, 'the original table is unchanged')


class _Comm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank


def distribute(env, ndet, masked, nobs, how):
    """Detectors and observations over processes."""
    import pysimulators.mpiutils as mu
    size = env.int('size', 1, 8)
    nthreads = env.int('nthreads', 1, 4)
    shape = (2, ndet // 2) if how == '2d' else (ndet,)
    mask = [env.bool(f'm{i}') for i in range(ndet)] if masked else [False] * ndet
    det = np.array(mask).reshape(shape)
    obs = [f'obs{i}' for i in range(nobs)]
    if how == 'array':
        obs = np.array(obs, object)
    seen = np.zeros((ndet, nobs), int)
    old = mu.omp_num_threads
    mu.omp_num_threads = lambda: nthreads
    try:
        for rank in range(size):
            if how == 'rank':
                d, o = mu.distribute_observation(det, obs, rank=rank, comm=_Comm(0, size))
            else:
                d, o = mu.distribute_observation(det, obs, comm=_Comm(rank, size))
            env.true(d.shape == det.shape and d.dtype == bool, 'detector mask')
            env.true(not np.any(det & ~d), 'a removed detector is assigned')
            for i in np.where(~d.ravel())[0]:
                for j in range(nobs):
                    seen[i, j] += any(obs[j] == k for k in o)
            env.true([k for k in obs if any(k == p for p in o)] == list(o), 'order of the observations')
    finally:
        mu.omp_num_threads = old
    env.true(np.array_equal(det.ravel(), mask), 'the detector mask is modified')
    want = np.where(np.array(mask)[:, None], 0, np.ones((ndet, nobs), int))
    env.true(np.array_equal(seen, want), 'detector and observation pairs assigned exactly once', seen.tolist())


def _split(tier):
    out = [((n,), k, 'table') for n in (1, 2, 3, 5) for k in ('full', 'ints' if n > 2 else 'bool')]
    out += [((4,), 'slice', 'table'), ((2, 2), 'ordersel', 'table'), ((4,), 'bool', 'instrument'), ((2, 3), 'bool', 'table'),
            ((4,), 'full', 'instrument')]
    if tier != 'quick':
        out += [((7,), 'full', 'table'), ((8,), 'full', 'table'), ((5,), 'slice', 'table'), ((5,), 'bool', 'table')]
    return out


def _scatter(tier):
    q = tier == 'quick'
    out = []
    for size in (1, 2, 3, 4):
        for shape, ndim in (((4,), None), ((2, 2), None), ((3,), None), ((3, 2), 1)):
            for kind in ('full', 'bool', 'ints', 'ordersel') + (() if q else ('order',)):
                if q and (size in (1, 4) and shape != (3,) or shape == (2, 2) and kind == 'ints'):
                    continue
                out.append((shape, ndim, kind, size, 'table'))
    for size in (2, 3):
        for kind in ('full', 'bool', 'ordersel'):
            out.append(((5,) if kind == 'full' else (3,), None, kind, size, 'reselect'))
            out.append(((3,), None, kind, size, 'instrument'))
    return out


def _distribute(tier):
    q = tier == 'quick'
    out = [(n, False, k, 'list') for n in ((1, 2, 5, 7) if q else (1, 2, 3, 4, 5, 6, 7, 9, 12)) for k in
           ((1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 6, 7))]
    out += [(4, True, k, h) for k, h in ((0, 'list'), (1, '2d'), (2, 'rank'), (3, 'array'))]
    out += [(6, False, 3, 'rank'), (6, False, 2, '2d')]
    return out


HARNESSES = [
    Harness('split', split, _split, 'tables of up to 6 components, up to 6 groups'),
    Harness('scatter', scatter, _scatter, 'tables of up to 5 components over up to 4 processes'),
    Harness('distribute', distribute, _distribute, 'up to 8 processes, 4 threads, 7 detectors (masks of 4), 5 observations'),
]
