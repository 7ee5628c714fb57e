"""Sparse operators: direct and transpose equal the dense matrix and its transpose."""
import operator

import numpy as np

from engine.runner import Harness
from checks import sparselib as L


def dense(m, env, kind, nrow, ncol):
    """The reference dense matrix as nested lists of symbolic values."""
    rb, cb = m.block_shape
    d = [[0] * (ncol * cb) for _ in range(nrow * rb)]
    for r, c, blk in m._entries:
        for a in range(rb):
            for b in range(cb):
                d[r * rb + a][c * cb + b] = d[r * rb + a][c * cb + b] + blk[a][b]
    return d


def mul(d, x, extra=1):
    n, p = len(d), len(d[0])
    return [sum((d[i][j] * x[j * extra + e] for j in range(p)), 0) for i in range(n) for e in range(extra)]


def tr(d):
    return [list(r) for r in zip(*d)]


def shapes(kind, nrow, ncol, m, mode):
    """-> keywords, shapein, shapeout, extra"""
    rb, cb = m.block_shape
    if kind not in ('fsc', 'fsr'):
        si = (ncol, cb) if cb > 1 else (ncol,)
        so = (nrow, rb) if rb > 1 else (nrow,)
        if mode == 'explicit':
            if ncol % 2 == 0:
                si = (2, ncol // 2) + si[1:]
            if nrow % 2 == 0:
                so = (nrow // 2, 2) + so[1:]
            return dict(shapein=si, shapeout=so), si, so, 1
        return {}, si, so, 1
    if mode == 'flat':
        return {}, (ncol,), (nrow,), 1
    if mode == 'explicit':
        si = (ncol // 2, 2) if ncol % 2 == 0 else (ncol, 1)
        so = (2, nrow // 2) if nrow % 2 == 0 else (1, nrow)
        return dict(shapein=si, shapeout=so), si, so, 1
    if mode == 'implicit':            # broadcasting over a trailing dimension
        return {}, (ncol, 2), (nrow, 2), 2
    if mode in ('bimp', 'bboth'):     # several dimensions and a trailing one
        si = (ncol // 2, 2) if ncol % 2 == 0 else (ncol, 1)
        so = (2, nrow // 2) if nrow % 2 == 0 else (1, nrow)
        if mode == 'bimp':
            return dict(broadcastable_shapein=si, broadcastable_shapeout=so), si + (2,), so + (2,), 2
        if ncol % 2 or nrow % 2 == 0 and nrow > 2:
            raise ValueError
        return dict(shapein=si + (2,), shapeout=so + (2,)), si + (2,), so + (2,), 2
    si, so = (ncol, 2), (nrow, 2)     # explicit with broadcasting
    return dict(shapein=si, shapeout=so), si, so, 2


def adjoint(env, kind, it, rt, vt, nrow, ncol, nmax, mode):
    from pysimulators.sparse import SparseOperator
    m, ref = L.matrix(env, kind, it, rt, nrow, ncol, nmax, lo=-1)
    d = dense(m, env, kind, nrow, ncol)
    kw, si, so, extra = shapes(kind, nrow, ncol, m, mode)
    op = SparseOperator(m, **kw)
    t = op.T
    x = [env.real(f'x{i}') for i in range(int(np.prod(si)))]
    z = [env.real(f'z{i}') for i in range(int(np.prod(so)))]
    xa, za = env.arr(x, vt).reshape(si), env.arr(z, vt).reshape(so)
    y = op(xa)
    env.true(y.shape == so, 'output shape', y.shape)
    env.eq(y, mul(d, x, extra), 'direct', tol=1e-4)
    w = t(za)
    env.true(w.shape == si, 'transposed output shape', w.shape)
    env.eq(w, mul(tr(d), z, extra), 'transpose', tol=1e-4)
    # reduction into existing arrays
    o = [env.real(f'o{i}') for i in range(len(x))]
    oa = env.arr(o, t.dtype if t.dtype.itemsize > np.dtype(vt).itemsize else vt).reshape(si)
    t(za, oa, operation=operator.iadd)
    env.eq(oa, [a + b for a, b in zip(o, mul(tr(d), z, extra))], 'transposed reduction', tol=1e-4)
    # assignment into a dirty array
    oa = env.arr(z, oa.dtype).reshape(so)
    op(xa, oa)
    env.eq(oa, mul(d, x, extra), 'direct, output provided', tol=1e-4)
    env.eq(xa, x, 'input unchanged', tol=1e-4)
    env.eq(za, z, 'transposed input unchanged', tol=1e-4)
    env.eq(t.T(xa), mul(d, x, extra), 'transpose of the transpose', tol=1e-4)


def todense(env, kind, it, rt, nrow, ncol, nmax, mode):
    from pysimulators.sparse import SparseOperator
    m, ref = L.matrix(env, kind, it, rt, nrow, ncol, nmax, lo=-1)
    d = dense(m, env, kind, nrow, ncol)
    kw, si, so, extra = shapes(kind, nrow, ncol, m, mode)
    op = SparseOperator(m, **kw)
    want = [[d[i // extra][j // extra] if i % extra == j % extra else 0 for j in range(len(d[0]) * extra)]
            for i in range(len(d) * extra)]
    for inplace in (False, True):
        kw = dict(shapein=si) if mode in ('flat', 'implicit', 'bimp') and kind in ('fsc', 'fsr') else {}
        got = op.todense(inplace=inplace, **kw)
        env.true(got.shape == (len(want), len(want[0])), 'dense shape', got.shape)
        env.eq(got, want, 'dense matrix', tol=1e-4)
    got = op.T.todense(**(dict(shapein=so) if kw else {}))
    env.true(got.shape == (len(want[0]), len(want)), 'transposed dense shape', got.shape)
    env.eq(got, tr(want), 'transposed dense matrix', tol=1e-4)


def _configs(tier):
    out = []
    for kind in L.KINDS:
        modes = ('flat', 'explicit', 'implicit', 'both', 'bimp', 'bboth') if kind in ('fsc', 'fsr') else (
            'flat', 'explicit')
        for k, mode in enumerate(modes):
            sel = L.DTYPES if tier != 'quick' else [L.DTYPES[5], L.DTYPES[(k + len(kind)) % 5]]
            for it, rt, vt in sel:
                out.append((kind, it, rt, vt, 2, 2, 2, mode))
                out.append((kind, it, rt, vt, 3, 2, 1, mode))
                if tier != 'quick' and mode != 'bboth':
                    out.append((kind, it, rt, vt, 2, 3, 2, mode))
    return out


def _dconfigs(tier):
    out = []
    for kind in L.KINDS:
        modes = ('flat', 'explicit', 'implicit', 'both', 'bimp', 'bboth') if kind in ('fsc', 'fsr') else (
            'flat', 'explicit')
        for k, mode in enumerate(modes):
            out.append((kind, 'int64', 'float64', 2, 2, 2, mode))
            out.append((kind, 'int32', 'float32', 2, 3 if mode != 'bboth' else 4, 1, mode))
    return out


HARNESSES = [
    Harness('adjoint', adjoint, _configs, 'blocks 2x2, 3x2 (2x3), at most 2 entries per line'),
    Harness('todense', todense, _dconfigs, 'blocks 2x2, 2x3, at most 2 entries per line'),
]
