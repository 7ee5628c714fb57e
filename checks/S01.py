"""Sparse matrix-vector products equal the dense product, for every storage format."""
import numpy as np
from engine.runner import Harness
from checks import sparselib as L


def matvec(env, kind, it, rt, vt, nrow, ncol, nmax, extra, nt, how):
    env.threads(nt)
    m, ref = L.matrix(env, kind, it, rt, nrow, ncol, nmax, lo=-1 if nmax > 1 else -2)
    rb, cb = m.block_shape
    nin, nout = ncol * cb * extra, nrow * rb * extra
    x = [env.real(f'x{i}') for i in range(nin)]
    xa = env.arr(x, vt)
    want = ref(env, x, extra)
    if how == 'mul':
        got = m * xa
    elif how == 'out':
        y = [env.real(f'y{i}') for i in range(nout)]
        # (the type of the output is not always that of the computation)
        ya = env.arr(y, 'float64' if nmax == 1 and ncol == 3 else L.vtype(rt, vt))
        got = m._matvec(xa, ya)
        want = [a + b for a, b in zip(y, want)]
        env.eq(ya, want, 'accumulated output', tol=1e-4)
    env.eq(got, want, 'product', tol=1e-4)
    env.eq(xa, x, 'input unchanged', tol=1e-4)


def _configs(tier):
    out = []
    for kind in L.KINDS:
        for it, rt, vt in L.DTYPES:
            for nt in ((1, 2) if tier == 'quick' else (1, 2, 3)):
                out.append((kind, it, rt, vt, 2, 2, 2, 1, nt, 'out' if nt == 2 else 'mul'))
                out.append((kind, it, rt, vt, 2, 3, 1, 1, nt, 'mul' if nt == 2 else 'out'))
                if kind in ('fsc', 'fsr'):
                    out.append((kind, it, rt, vt, 2, 2, 2, 2, nt, 'out'))
                    out.append((kind, it, rt, vt, 2, 3, 1, 2, nt, 'out'))
    return out


def generic(env, kind, it, nrow, ncol, nmax, extra, how):
    """Value or index types without compiled kernel: the Python implementation."""
    m, ref = L.matrix(env, kind, it, 'object', nrow, ncol, nmax, lo=0 if it[0] == 'u' else -1)
    rb, cb = m.block_shape
    if it == 'int64' and not env.symbolic:
        # extended precision has no compiled kernel
        d = m.data.astype([(n, np.longdouble) + ((v[0].shape,) if v[0].shape else ()) if n != 'index' else (n, it)
                           for n, v in m.data.dtype.fields.items()])
        m = type(m)(m.shape, data=d)
    x = [env.real(f'x{i}') for i in range(ncol * cb * extra)]
    xa = env.oarr(x)
    want = ref(env, x, extra)
    if how == 'out':
        y = [env.real(f'y{i}') for i in range(nrow * rb * extra)]
        ya = env.oarr(y).astype(np.result_type(m.dtype, xa.dtype))
        got = m._matvec(xa, ya)
        want = [a + b for a, b in zip(y, want)]
        env.eq(ya, want, 'accumulated output')
    else:
        got = m * xa
    env.true(got.shape == (nrow * rb * extra,), 'shape of the product', got.shape)
    env.eq(got, want, 'product')
    env.eq(xa, x, 'input unchanged')


def algebra(env, kind, how, nrow, ncol, nmax):
    """Product by a scalar, by a row vector, copy."""
    m, ref = L.matrix(env, kind, 'int64', 'object', nrow, ncol, nmax, lo=-1)
    rb, cb = m.block_shape
    x = [env.real(f'x{i}') for i in range(ncol * cb)]
    if how == 'row':
        z = [env.real(f'z{i}') for i in range(nrow * rb)]
        got = env.oarr(z) * m
        want = [0] * (ncol * cb)
        for r, c, blk in m._entries:
            for a in range(rb):
                for b in range(cb):
                    want[c * cb + b] = want[c * cb + b] + blk[a][b] * z[r * rb + a]
        env.eq(got, want, 'vector times matrix')
        return
    s = env.real('s')
    if how == 'copy':
        c = m.copy()
        c.data['index'][...] = -1
        env.eq(c * env.oarr(x), [0] * (nrow * rb), 'emptied copy')
    else:
        c = m * (s if not env.symbolic else _Scalar(s)) if how == 'right' else (s if not env.symbolic else _Scalar(s)) * m
        env.eq(c * env.oarr(x), [s * v if not isinstance(v, int) else 0 for v in ref(env, x)], 'scaled product')
    env.eq(m * env.oarr(x), ref(env, x), 'original matrix')


def _Scalar(s):
    a = np.empty((), object)
    a[()] = s
    return a


def _generic(tier):
    out = []
    for kind in L.KINDS:
        its = ('int64', 'int8', 'uint8') if kind in ('fsc', 'fsr') else ('int64', 'int16')
        for it in its:
            for how in ('mul', 'out'):
                out.append((kind, it, 2, 2, 2, 1, how))
                out.append((kind, it, 2, 3, 1, 1, how))
                if kind in ('fsc', 'fsr'):
                    out.append((kind, it, 2, 3, 1, 2, how))
    return out


def _algebra(tier):
    return [(kind, how, a, b, n) for kind in L.KINDS for how in ('row', 'copy', 'right', 'left')
            for a, b, n in ((2, 2, 1), (1, 2, 2))]


HARNESSES = [Harness('matvec', matvec, _configs, 'blocks 2x2 or 2x3, at most 2 entries per line, 1..3 threads',
                     stress=L.stress),
             Harness('generic', generic, _generic, 'blocks 2x2 or 2x3, at most 2 entries per line'),
             Harness('algebra', algebra, _algebra, 'blocks 2x2 or 1x2, at most 2 entries per line')]
