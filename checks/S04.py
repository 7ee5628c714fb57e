"""Restriction and corestriction of projections select columns and rows of the matrix."""
import numpy as np

from engine.runner import Harness
from checks import sparselib as L
from checks.S02 import dense, mul, tr
from checks.S03 import BLK, setup, state, unchanged


def memory(a, how):
    """The same array, in another memory layout."""
    if how == 0:
        return a
    if how == 1:
        return np.array(a, order='F', copy=True)
    b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
    s = tuple(slice(None, None, 2) for _ in a.shape)
    b[s] = a
    return b[s]


def selcols(d, mask, cb):
    keep = [j for j in range(len(d[0])) if mask[j // cb]]
    return [[r[j] for j in keep] for r in d]


def product(env, op, d, si, so, dt, label, extra=1):
    """op(x) and op.T(y) against the dense matrix d, with expected shapes."""
    if not d or not d[0]:
        return
    x = [env.real(f'x{i}') for i in range(len(d[0]) * extra)]
    y = op(env.arr(x, dt).reshape(si))
    env.true(y.shape == so, f'{label}: output shape', (y.shape, so))
    env.eq(y, mul(d, x, extra), label, tol=1e-4)
    z = [env.real(f'z{i}') for i in range(len(d) * extra)]
    w = op.T(env.arr(z, dt).reshape(so))
    env.true(w.shape == si, f'{label}: transposed output shape', (w.shape, si))
    env.eq(w, mul(tr(d), z, extra), f'{label}, transpose', tol=1e-4)


def meaning(env, kind, m):
    """Dense meaning of the stored fields of a row-storage matrix."""
    rb, cb = m.block_shape
    out = [[0] * m.shape[1] for _ in range(m.shape[0])]
    data = m.data.reshape(-1, m.data.shape[-1])
    for r in range(data.shape[0]):
        for e in data[r]:
            k = int(e['index'])
            if k < 0:
                continue
            env.true(k < m.shape[1] // cb, 'index within the restricted matrix', k)
            v = [env.val(e[f]) for f in data.dtype.names[1:]]
            blk = [[v[0], -v[1]], [v[1], v[0]]] if kind == 'fsr_rot2d' else [[v[0]]]
            for a in range(rb):
                for b in range(cb):
                    out[r * rb + a][k * cb + b] = out[r * rb + a][k * cb + b] + blk[a][b]
    return out


def restrict(env, kind, it, rt, nrow, ncol, nmax, mode, inplace, warm, twice):
    p, m, si, so = setup(env, kind, it, rt, nrow, ncol, nmax, mode)
    rb, cb = m.block_shape
    mshape = si if cb == 1 else si[:-1]
    ext, tail = (2, (2,)) if mode in ('bimp', 'bboth') else (1, ())
    if tail:
        mshape = si[:-1]
    mask = [env.bool(f'm{i}') for i in range(ncol)]
    ma = memory(np.array(mask).reshape(mshape), inplace + warm)
    d = dense(m, env, kind, nrow, ncol)
    before = state(env, m)
    dt = rt if rt in ('float32', 'float64') else 'float64'
    if warm:          # the associated operators have been built before
        p.T
        if kind == 'fsr' and mode != 'implicit':
            p.T * p
    q = p.restrict(ma, inplace=inplace)
    env.true(np.array_equal(ma.ravel(), mask), 'mask unchanged')
    n = sum(mask)
    env.true(q.matrix.shape == (nrow * rb, n * cb), 'matrix shape', q.matrix.shape)
    dq = selcols(d, mask, cb)
    qsi = (n,) + ((cb,) if cb > 1 else ()) + tail
    if mode == 'bboth':
        env.true(q.shapein == qsi, 'shapein', (q.shapein, qsi))
    if it in ('int8', 'int16'):
        # (no compiled product for these index types: the stored fields are compared)
        env.true(q.shapein in (None, qsi), 'shapein', q.shapein)
        env.eq(meaning(env, kind, q.matrix), dq, 'restricted', tol=1e-4)
        unchanged(env, m, before)
        return
    product(env, q, dq, qsi, so, dt, 'restricted', ext)
    if twice and n:
        mask2 = [env.bool(f'n{i}') for i in range(n)]
        q2 = q.restrict(np.array(mask2), inplace=inplace)
        n2 = sum(mask2)
        product(env, q2, selcols(dq, mask2, cb), (n2,) + ((cb,) if cb > 1 else ()) + tail, so,
                dt, 'restricted twice', ext)
    if not inplace:
        unchanged(env, m, before)
        product(env, p, d, si, so, dt, 'original', ext)


def corestrict(env, kind, it, rt, nrow, ncol, nmax, mode, inplace, warm):
    p, m, si, so = setup(env, kind, it, rt, nrow, ncol, nmax, mode)
    rb, cb = m.block_shape
    mask = [env.bool(f'm{i}') for i in range(nrow)]
    ext, tail = (2, (2,)) if mode in ('bimp', 'bboth') else (1, ())
    ma = memory(np.array(mask).reshape(so if rb == 1 and not tail else so[:-1]), inplace + warm)
    d = dense(m, env, kind, nrow, ncol)
    before = state(env, m)
    if warm:
        p.T
    q = p.corestrict(ma, inplace=inplace)
    n = sum(mask)
    env.true(q.matrix.shape == (n * rb, ncol * cb), 'matrix shape', q.matrix.shape)
    dq = [r for i, r in enumerate(d) if mask[i // rb]]
    product(env, q, dq, si, (n,) + ((rb,) if rb > 1 else ()) + tail, rt, 'corestricted', ext)
    if not inplace:
        unchanged(env, m, before)
        product(env, p, d, si, so, rt, 'original', ext)


def _restrict(tier):
    out = []
    types = [('int32', 'float32'), ('int64', 'float64'), ('int64', 'float32'), ('int32', 'float64')]
    for kind in ['fsr', 'fsr_rot2d', 'fsr_rot3d'] + BLK:
        k = 0
        for mode in ('implicit', 'explicit') + (('flat', 'bimp', 'bboth') if kind == 'fsr' else ()):
            for inplace in (False, True):
                for warm in (False, True):
                    k += 1
                    for t in types if tier != 'quick' else [types[k % 4], types[(k + 1) % 4]]:
                        out.append((kind,) + t + (2, 3 if mode != 'bboth' else 4, 1, mode, inplace, warm, k % 3 == 0))
                        out.append((kind,) + t + (1, 2, 2, mode, inplace, warm, False))
            if mode == 'explicit' and kind in ('fsr', 'fsr_rot3d', 'fsr_block22'):
                out.append((kind, 'int32', 'float64', 1, 4, 1, mode, True, False, False))
                out.append((kind, 'int32', 'float64', 1, 4, 1, mode, True, True, False))
        if kind in ('fsr', 'fsr_rot2d'):
            out.append((kind, 'int8', 'float64', 2, 2, 1, 'implicit', False, False, False))
            out.append((kind, 'int16', 'float64', 2, 2, 1, 'implicit', False, False, False))
    return out


def _corestrict(tier):
    out = []
    types = [('int32', 'float32'), ('int64', 'float64'), ('int64', 'float32'), ('int32', 'float64')]
    for kind in ['fsr', 'fsr_rot2d', 'fsr_rot3d']:
        k = 0
        for mode in ('implicit', 'explicit') + (('flat', 'bimp', 'bboth') if kind == 'fsr' else ()):
            for inplace in (False, True):
                for warm in (False, True):
                    k += 1
                    for t in types if tier != 'quick' else [types[k % 4]]:
                        out.append((kind,) + t + (2, 2, 1, mode, inplace, warm))
                        out.append((kind,) + t + (3, 2, 1, mode, inplace, warm))
                        out.append((kind,) + t + (2, 1 if mode != 'bboth' else 2, 2 if mode != 'bboth' else 1, mode, inplace, warm))
        out.append((kind, 'int32', 'float64', 4, 1, 1, 'explicit', True, False))
        out.append((kind, 'int32', 'float64', 4, 1, 1, 'explicit', True, True))
    return out


HARNESSES = [
    Harness('restrict', restrict, _restrict, '2x3 blocks with 1 entry per row, 1x2 with 2; every mask, in C, Fortran or strided order; two successive restrictions'),
    Harness('corestrict', corestrict, _corestrict, '2x2, 3x2 blocks with 1 entry per row, 2x1 with 2; every mask'),
]
