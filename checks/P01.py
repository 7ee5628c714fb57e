"""Legacy pointing-matrix projection: direct, transpose and reductions agree with the dense matrix."""
import operator

import numpy as np

from engine.runner import Harness


def matrix(env, shapein, ndet, ns, npps, name='p', obj=False, lo=-1, hi=None, wellformed=True):
    """-> pointing matrix and its entries (sample, pixel, value); -1 ends a row."""
    from pysimulators.operators import PointingMatrix
    npix = int(np.prod(shapein))
    if obj and env.symbolic:
        dt = np.dtype([('index', np.int32), ('value', object)])
        buf = np.zeros((ndet, ns, npps), dt)
        m = np.ndarray.__new__(PointingMatrix, (ndet, ns, npps), dt)
        m.shape_input = shapein
    else:
        m = PointingMatrix.empty((ndet, ns, npps), shapein, verbose=False)
    entries = []
    rows = []
    for d in range(ndet):
        for s in range(ns):
            end = False
            row = []
            for k in range(npps):
                i = -1 if end and wellformed else env.int(f'{name}i{d}_{s}_{k}', lo, npix - 1 if hi is None else hi)
                v = env.real(f'{name}v{d}_{s}_{k}')
                m['index'][d, s, k] = i
                m['value'][d, s, k] = (env.oarr if obj else lambda u: env.arr(u, 'f4'))([v])[0]
                end = end or i == -1
                if not end:
                    entries.append((d * ns + s, i, v))
                    row.append((i, v))
            rows.append(row)
    m_rows = rows
    return m, entries, m_rows


def dense(entries, nsamp, npix):
    d = [[0] * npix for _ in range(nsamp)]
    for s, i, v in entries:
        d[s][i] = d[s][i] + v
    return d


def mv(d, x):
    return [sum((a * b for a, b in zip(r, x)), 0) for r in d]


def tr(d, n):
    return [[r[j] for r in d] for j in range(n)]


def snapshot(env, m):
    return env.vals(m['index']), env.vals(m['value'])


def unchanged(env, m, before):
    env.eq(m['index'], before[0], 'indices unchanged')
    env.eq(m['value'], before[1], 'weights unchanged', tol=1e-4)


def apply(env, shapein, ndet, ns, npps, how, nt):
    from pysimulators.operators import ProjectionInMemoryOperator
    env.threads(nt)
    m, e, rows = matrix(env, shapein, ndet, ns, npps)
    p = ProjectionInMemoryOperator(m)
    before = snapshot(env, m)
    npix, nsamp = int(np.prod(shapein)), ndet * ns
    d = dense(e, nsamp, npix)
    if how.startswith('direct'):
        x = [env.real(f'x{i}') for i in range(npix)]
        xa = env.arr(x).reshape(shapein)
        if how.endswith('order'):
            xa = np.array(xa, order='F', copy=True)
        if how == 'direct-reversed':
            xa = xa[..., ::-1].copy()[..., ::-1]
        if how == 'direct':
            got = p(xa)
        elif how == 'direct-outorder':
            got = np.full((ndet, ns), 7., order='F')
            p.direct(xa, got)
        elif how == 'direct-callorder':
            got = p(xa)
        else:
            got = np.full((ndet, ns, 2), 7.)[..., 0] if how == 'direct-strided' else np.full((ndet, ns), 7.)
            p.direct(xa, got)
        env.true(got.shape == (ndet, ns), 'shape', got.shape)
        env.eq(got, mv(d, x), 'projection', tol=1e-4)
        env.eq(xa, x, 'input unchanged')
    else:
        y = [env.real(f'y{i}') for i in range(nsamp)]
        ya = env.arr(y).reshape((ndet, ns))
        if how == 'transpose-strided':
            yb = np.zeros((ndet, ns, 2))
            yb[..., 0] = ya
            ya = yb[..., 0]
        if how.endswith('order'):
            ya = np.array(ya, order='F', copy=True)
        want = mv(tr(d, npix), y)
        if how in ('transpose', 'transpose-callorder'):
            got = p.T(ya)
        elif how == 'transpose-iadd':
            o = [env.real(f'o{i}') for i in range(npix)]
            got = env.arr(o).reshape(shapein)
            p.transpose(ya, got, operator.iadd)
            want = [a + b for a, b in zip(o, want)]
        else:
            got = np.full(shapein, 7.)
            p.transpose(ya, got)
        env.true(got.shape == shapein, 'shape', got.shape)
        env.eq(got, want, 'transpose', tol=1e-4)
        env.eq(ya, y, 'input unchanged')
    unchanged(env, m, before)


def backprojection(env, shapein, ndet, ns, npps, out, masked, nt):
    from pysimulators.operators import ProjectionInMemoryOperator
    env.threads(nt)
    m, e, rows = matrix(env, shapein, ndet, ns, npps)
    p = ProjectionInMemoryOperator(m)
    before = snapshot(env, m)
    npix, nsamp = int(np.prod(shapein)), ndet * ns
    d = dense(e, nsamp, npix)
    x = [env.real(f'x{i}') for i in range(nsamp)]
    xa = env.arr(x).reshape((ndet, ns))
    kw = {}
    keep = [1] * nsamp
    if masked:
        k = np.array([env.bool(f'm{i}') for i in range(nsamp)])
        keep = [0 if b else 1 for b in k]
        if masked == 'arg':
            kw['mask'] = k.reshape(ndet, ns)
        else:
            from pysimulators.datatypes import Tod
            xa = Tod(xa, mask=k.reshape(ndet, ns))
    a0, b0 = [0] * npix, [0] * npix
    if out:
        a0 = [env.real(f'a{i}') for i in range(npix)]
        b0 = [env.real(f'b{i}') for i in range(npix)]
        kw['out'] = env.arr(a0).reshape(shapein), env.arr(b0).reshape(shapein)
        if out == 'order':
            kw['out'] = tuple(np.array(o, order='F', copy=True) for o in kw['out'])
            xa = np.array(xa, order='F', copy=True)
        elif out == 'strided':
            big = [np.repeat(o, 2, axis=-1) for o in kw['out']]
            kw['out'] = tuple(o[..., ::2] for o in big)
            xa = np.repeat(xa, 2, axis=-1)[..., ::2]
    a, b = p.get_pTx_pT1(xa, **kw)
    if out:
        env.true(a is kw['out'][0] and b is kw['out'][1], 'output arguments returned')
    t = tr(d, npix)
    env.true(a.shape == shapein and b.shape == shapein, 'shapes', (a.shape, b.shape))
    env.eq(np.asarray(a), [u + v for u, v in zip(a0, mv(t, [r * s for r, s in zip(x, keep)]))], 'backprojection',
           tol=1e-4)
    env.eq(np.asarray(b), [u + v for u, v in zip(b0, mv(t, keep))], 'coverage', tol=1e-4)
    unchanged(env, m, before)


def normal(env, shapein, ndet, ns, npps, out, nt):
    from pysimulators.operators import ProjectionInMemoryOperator
    env.threads(nt)
    m, e, rows = matrix(env, shapein, ndet, ns, npps)
    p = ProjectionInMemoryOperator(m)
    before = snapshot(env, m)
    npix, nsamp = int(np.prod(shapein)), ndet * ns
    d = dense(e, nsamp, npix)
    want = [sum((d[s][i] * d[s][j] for s in range(nsamp)), 0) for i in range(npix) for j in range(npix)]
    if out:
        o = [env.real(f'o{i}') for i in range(npix ** 2)]
        oa = env.arr(o).reshape(npix, npix)
        got = p.get_pTp(out=oa)
        want = [a + b for a, b in zip(o, want)]
        env.eq(oa, want, 'normal matrix in the output', tol=1e-4)
    else:
        got = p.get_pTp()
    env.true(got.shape == (npix, npix), 'shape', got.shape)
    env.eq(got, want, 'normal matrix', tol=1e-4)
    unchanged(env, m, before)


def diagonal(env, shapein, ndet, ns):
    """One pixel per sample: the composition P.T P reduces to a diagonal."""
    from pysimulators.operators import ProjectionInMemoryOperator
    m, e, rows = matrix(env, shapein, ndet, ns, 1)
    p = ProjectionInMemoryOperator(m)
    before = snapshot(env, m)
    npix, nsamp = int(np.prod(shapein)), ndet * ns
    d = dense(e, nsamp, npix)
    q = p.T * p
    if hasattr(q, 'get_data'):
        got = np.broadcast_to(q.get_data(), shapein)
        env.eq(got, [sum((d[s][i] * d[s][i] for s in range(nsamp)), 0) for i in range(npix)], 'diagonal', tol=1e-4)
    else:
        x = [env.real(f'x{i}') for i in range(npix)]
        env.eq(q(env.arr(x).reshape(shapein)), mv(tr(d, npix), mv(d, x)), 'normal operator', tol=1e-4)
    if not env.symbolic:
        d = np.array(d, float)
        env.eq(q.todense(shapein=shapein), d.T.dot(d), 'normal operator', tol=1e-4)
    unchanged(env, m, before)


def weighted(env, shapein, ndet, ns, npps, broadcast, how):
    """Composition with a diagonal operator, masking of samples: read off the resulting weights."""
    from pyoperators import DiagonalOperator
    from pysimulators.operators import ProjectionInMemoryOperator
    m, e, rows = matrix(env, shapein, ndet, ns, npps, obj=True)
    p = ProjectionInMemoryOperator(m)
    before = snapshot(env, m)
    npix, nsamp = int(np.prod(shapein)), ndet * ns
    d = dense(e, nsamp, npix)
    if how == 'mask':
        k = np.array([env.bool(f'm{i}') for i in range(nsamp)]).reshape(ndet, ns)
        p.apply_mask(k)
        w = [0 if b else 1 for b in k.ravel()]
        q = p
    else:
        shp = {'disabled': (ndet, ns), 'leftward': (ns,), 'rightward': (ndet,), 'scalar': ()}[broadcast]
        n = int(np.prod(shp))
        dv = [env.real(f'd{i}') for i in range(n)]
        da = env.oarr(dv).reshape(shp)
        full = np.array(dv, object).reshape(shp)
        if broadcast == 'rightward':
            full = full[:, None]
        w = list(np.broadcast_to(full, (ndet, ns)).ravel())
        op = _Diagonal(da, broadcast) if env.symbolic else DiagonalOperator(da, broadcast=broadcast)
        q = p._rule_diagonal(op, p) if env.symbolic else op * p
        unchanged(env, m, before)
        if q is None:
            return
    x = [env.real(f'x{i}') for i in range(npix)]
    want = [a * b for a, b in zip(w, mv(d, x))]
    if env.symbolic:
        from pysimulators.operators import ProjectionInMemoryOperator as P
        env.true(isinstance(q, P), 'operator')
        env.eq(q.matrix['index'], before[0], 'pixels of the result')
        got = [0] * nsamp
        for s in range(nsamp):
            for k, (i, v) in enumerate(rows[s]):
                got[s] = got[s] + x[i] * env.vals(q.matrix['value'].reshape(nsamp, npps)[s])[k]
        env.eq(got, want, 'weighted projection')
    else:
        env.eq(q(env.arr(x).reshape(shapein)), want, 'weighted projection', tol=1e-4)
        if how != 'mask':
            env.eq(p(env.arr(x).reshape(shapein)), mv(d, x), 'original projection', tol=1e-4)


class _Diagonal:
    def __init__(self, data, broadcast):
        self.data, self.broadcast = data, broadcast

    def get_data(self):
        return self.data


def onfly(env, shapein, ns, npps, nops):
    """Operators sharing one pointing matrix slot, used in any order."""
    from pysimulators.operators import ProjectionOnFlyOperator
    npix = int(np.prod(shapein))
    ms = [matrix(env, shapein, 1, ns, npps, name=f'q{k}') for k in range(2)]
    ids = [object(), object()]
    place = {}
    ops = [ProjectionOnFlyOperator(place, i, lambda j: ms[ids.index(j)][0], shapein=shapein, shapeout=(1, ns))
           for i in ids]
    for t in range(nops):
        k = env.int(f'k{t}', 0, 1)
        d = dense(ms[k][1], ns, npix)
        if env.bool(f't{t}'):
            y = [env.real(f'y{t}_{i}') for i in range(ns)]
            env.eq(ops[k].T(env.arr(y).reshape(1, ns)), mv(tr(d, npix), y), f'transpose at step {t}', tol=1e-4)
        else:
            x = [env.real(f'x{t}_{i}') for i in range(npix)]
            env.eq(ops[k](env.arr(x).reshape(shapein)), mv(d, x), f'projection at step {t}', tol=1e-4)


def stress(shapein, ndet, ns, npps, *a):
    from pysimulators.operators import PointingMatrix, ProjectionInMemoryOperator
    rng = np.random.RandomState(0)
    for npps in (1, 3):
        for npix in (2, 5000):
            m = PointingMatrix.empty((4, 20000, npps), (npix,), verbose=False)
            m['index'] = rng.randint(0, npix, m.shape)
            m['value'] = rng.randint(-3, 4, m.shape)
            p = ProjectionInMemoryOperator(m)
            y = rng.randint(-3, 4, m.shape[:-1]).astype(float)
            k = rng.randint(0, 2, m.shape[:-1]).astype(bool)
            x = rng.randint(-3, 4, npix).astype(float)
            dense = np.zeros(npix)
            np.add.at(dense, m['index'], m['value'] * y[..., None])
            one = np.zeros(npix)
            np.add.at(one, m['index'], m['value'])
            dm, om = np.zeros(npix), np.zeros(npix)
            np.add.at(dm, m['index'], m['value'] * (y * ~k)[..., None])
            np.add.at(om, m['index'], m['value'] * ~k[..., None])
            ptp = np.zeros((2, 2))
            if npix == 2:
                for i in range(npps):
                    for j in range(npps):
                        np.add.at(ptp, (m['index'][..., i], m['index'][..., j]), m['value'][..., i] * m['value'][..., j])
            fw = np.sum(x[m['index']] * m['value'], axis=-1)
            for _ in range(10):
                if not np.array_equal(p.T(y), dense) or not np.array_equal(p(x), fw):
                    return 'projection differs with several threads'
                a, b = p.get_pTx_pT1(y)
                c, d = p.get_pTx_pT1(y, mask=k)
                if not (np.array_equal(a, dense) and np.array_equal(b, one) and np.array_equal(c, dm) and
                        np.array_equal(d, om)):
                    return 'backprojection differs with several threads'
                if npix == 2 and not np.array_equal(p.get_pTp(), ptp):
                    return 'normal matrix differs with several threads'
    return None


SH = [((2, 2), 1, 2, 2), ((3,), 2, 2, 1), ((2,), 1, 1, 3), ((1, 3), 2, 1, 2)]


def _apply(tier):
    out = []
    for s in SH + ([((2, 3), 1, 2, 2), ((2,), 1, 3, 2)] if tier != 'quick' else []):
        for how in ('direct', 'direct-strided', 'direct-out', 'transpose', 'transpose-iadd', 'transpose-strided'):
            for nt in (1, 2):
                if nt == 2 and 'strided' in how:
                    continue
                out.append(s + (how, nt))
    for s in (((2, 2), 2, 2, 1), ((2, 2), 2, 1, 2)):
        for how in ('direct-inorder', 'direct-outorder', 'direct-callorder', 'direct-reversed', 'transpose-inorder', 'transpose-callorder'):
            if how == 'direct-outorder' or s[-1] == 1:
                out.append(s + (how, 1))
    out += [((2, 2), 1, 2, 0, how, 1) for how in ('direct', 'transpose', 'transpose-iadd')]
    out += [((2,), 0, 2, 2, how, 1) for how in ('transpose', 'transpose-iadd')]
    return out


def _back(tier):
    out = []
    for s in (((2,), 1, 2, 2), ((3,), 2, 1, 1), ((1, 2), 1, 1, 3)) + ((((2, 2), 1, 2, 2),) if tier != 'quick' else ()):
        for o in (False, True):
            for masked in ('', 'arg', 'tod'):
                out.append(s + (o, masked, 2 if o else 1))
    for o in ('order', 'strided'):
        for masked in ('', 'arg'):
            out.append(((2, 2), 2, 2, 1, o, masked, 1) if not masked else ((1, 2), 1, 2, 1, o, masked, 1))
    out.append(((2,), 1, 2, 0, False, '', 1))
    return out


def _normal(tier):
    return [s + (o, 1 + o) for s in SH + [((2, 2), 1, 1, 3), ((2,), 1, 2, 0)] for o in (False, True)]


def _diag(tier):
    return [(s, a, b) for s in ((2,), (2, 2), (1, 3)) for a, b in ((1, 2), (2, 1), (1, 3))]


def _weighted(tier):
    out = []
    for s, a, b, n in (((2,), 2, 2, 1), ((3,), 1, 3, 1), ((2,), 2, 1, 2), ((2,), 1, 2, 2)) + (
            (((2,), 2, 2, 2),) if tier != 'quick' else ()):
        for br in ('disabled', 'leftward', 'rightward', 'scalar'):
            if n == 1 or br == 'disabled':
                out.append((s, a, b, n, br, 'diagonal'))
        out.append((s, a, b, n, '', 'mask'))
    return out


HARNESSES = [
    Harness('apply', apply, _apply, 'maps of at most 4 pixels, 4 samples, 3 pixels per sample, 1 or 2 threads',
            stress=stress),
    Harness('backprojection', backprojection, _back, 'at most 3 pixels, 2 samples, 3 pixels per sample',
            stress=stress),
    Harness('normal', normal, _normal, 'at most 4 pixels, 4 samples, 3 pixels per sample', stress=stress),
    Harness('diagonal', diagonal, _diag, 'at most 4 pixels, 3 samples of one pixel'),
    Harness('weighted', weighted, _weighted, 'at most 3 pixels, 4 samples of 1 or 2 pixels'),
    Harness('onfly', onfly, lambda tier: [((2,), 2, 1, 2), ((2,), 1, 2, 2), ((2,), 1, 1, 3)],
            'two operators, sequences of 2 or 3 applications'),
]
