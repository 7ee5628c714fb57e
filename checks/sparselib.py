"""Symbolic sparse matrices of every storage format, with their dense meaning."""
import numpy as np

ROT = {'fsc_rot2d': 2, 'fsr_rot2d': 2, 'fsc_rot3d': 3, 'fsr_rot3d': 3}
BLOCKS = [(1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3)]
KINDS = ['fsc', 'fsr', 'fsc_rot2d', 'fsr_rot2d', 'fsc_rot3d', 'fsr_rot3d'] + \
    [f'{k}_block{a}{b}' for k in ('fsc', 'fsr') for a, b in BLOCKS]
DTYPES = [('int32', 'float32', 'float32'), ('int32', 'float32', 'float64'), ('int32', 'float64', 'float64'),
          ('int64', 'float32', 'float32'), ('int64', 'float32', 'float64'), ('int64', 'float64', 'float64')]


def classes():
    import pysimulators.sparse as s
    return {'fsc': s.FSCMatrix, 'fsr': s.FSRMatrix, 'fsc_rot2d': s.FSCRotation2dMatrix,
            'fsr_rot2d': s.FSRRotation2dMatrix, 'fsc_rot3d': s.FSCRotation3dMatrix,
            'fsr_rot3d': s.FSRRotation3dMatrix, 'fsc_block': s.FSCBlockMatrix, 'fsr_block': s.FSRBlockMatrix}


def nfield(kind):
    """Number of reals per entry."""
    if kind.endswith('rot2d'):
        return 2
    if kind.endswith('rot3d'):
        return 3
    a, b = block_shape(kind)
    return a * b


def block_shape(kind):
    if kind in ROT:
        return (ROT[kind],) * 2
    if 'block' in kind:
        return int(kind[-2]), int(kind[-1])
    return (1, 1)


def vtype(rt, vt):
    return vt


def matrix(env, kind, it, rt, nrow, ncol, nmax, lo=-2, name='m', real=None):
    """-> the matrix object (nrow x ncol blocks) and its reference product.

    The indices are symbolic in [lo, n-1] (negative: no entry), the values symbolic reals.
    """
    real = real or env.real
    mkarr = (lambda v, rt: env.oarr(v)) if rt == 'object' else env.arr
    rt = rt if env.symbolic or rt != 'object' else 'float64'
    base = kind[:9] if 'block' in kind else kind
    rb, cb = block_shape(kind)
    col = kind.startswith('fsc')
    nline = ncol if col else nrow
    nother = nrow if col else ncol
    if 'block' in kind:
        vals = [('value', rt, (cb, rb) if col else (rb, cb))]
    elif kind.endswith('rot2d'):
        vals = [('r11', rt), ('r21', rt)]
    elif kind.endswith('rot3d'):
        vals = [('r11', rt), ('r22', rt), ('r32', rt)]
    else:
        vals = [('value', rt)]
    data = np.zeros((nline, nmax), dtype=[('index', it)] + vals)
    entries = []
    for i in range(nline):
        for j in range(nmax):
            k = env.int(f'{name}i{i}_{j}', lo, nother - 1)
            data['index'][i, j] = k
            if 'block' in kind:
                v = [[real(f'{name}v{i}_{j}_{a}{b}') for b in range(cb)] for a in range(rb)]
                st = [[v[a][b] for a in range(rb)] for b in range(cb)] if col else v
                data['value'][i, j] = mkarr(st, rt)
                blk = v
            elif kind.endswith('rot2d'):
                c, s = real(f'{name}c{i}_{j}'), real(f'{name}s{i}_{j}')
                data['r11'][i, j], data['r21'][i, j] = mkarr([c, s], rt)
                blk = [[c, -s], [s, c]]
            elif kind.endswith('rot3d'):
                a, c, s = real(f'{name}a{i}_{j}'), real(f'{name}c{i}_{j}'), real(f'{name}s{i}_{j}')
                data['r11'][i, j], data['r22'][i, j], data['r32'][i, j] = mkarr([a, c, s], rt)
                blk = [[a, 0, 0], [0, c, -s], [0, s, c]]
            else:
                v = real(f'{name}v{i}_{j}')
                data['value'][i, j] = mkarr([v], rt)[0]
                blk = [[v]]
            if col and kind in ROT:
                blk = [list(r) for r in zip(*blk)]     # stored transposed
            if k >= 0:
                entries.append((k, i, blk) if col else (i, k, blk))
    m = classes()[base]((nrow * rb, ncol * cb), data=data)

    def ref(env, x, extra=1):
        out = [0] * (nrow * rb * extra)
        for r, c, blk in entries:
            for a in range(rb):
                for b in range(cb):
                    for e in range(extra):
                        p = (r * rb + a) * extra + e
                        out[p] = out[p] + blk[a][b] * x[(c * cb + b) * extra + e]
        return out
    m._entries = entries
    return m, ref


def stress(kind, it, rt, vt, *a):
    """Concurrent run on the real build against one thread: a difference shows the race."""
    import os
    import subprocess
    import sys
    rng = np.random.RandomState(0)
    rb, cb = block_shape(kind)
    base = kind[:9] if 'block' in kind else kind
    col = kind.startswith('fsc')
    n, nmax = 60000, 3
    if 'block' in kind:
        vals = [('value', rt, (cb, rb) if col else (rb, cb))]
    elif kind.endswith('rot2d'):
        vals = [('r11', rt), ('r21', rt)]
    elif kind.endswith('rot3d'):
        vals = [('r11', rt), ('r22', rt), ('r32', rt)]
    else:
        vals = [('value', rt)]
    data = np.zeros((n, nmax), dtype=[('index', it)] + vals)
    for extra in (1, 2) if kind in ('fsc', 'fsr') else (1,):
        for nm in (nmax, 1):
            for nother in (2, n):
                d = data[:, :nm].copy()
                d['index'] = rng.randint(0, nother, d.shape)
                for f in d.dtype.names[1:]:
                    d[f] = rng.randint(-3, 4, d[f].shape)
                shape = (nother * rb, n * cb) if col else (n * rb, nother * cb)
                m = classes()[base](shape, data=d)
                x = rng.randint(-3, 4, shape[1] * extra).astype(vt)
                # exact small integers: the sums do not depend on the order
                want = exact(m, kind, d, x, shape, extra)
                for _ in range(12):
                    got = m._matvec(x)
                    if not np.array_equal(got, want):
                        return f'{int(np.sum(got != want))} elements differ with several threads'
    return None


def exact(m, kind, d, x, shape, extra):
    rb, cb = block_shape(kind)
    col = kind.startswith('fsc')
    n, nm = d.shape
    if 'block' in kind:
        blk = d['value'].astype(float)
        if col:
            blk = blk.swapaxes(-1, -2)
    elif kind.endswith('rot2d'):
        c, s = d['r11'].astype(float), d['r21'].astype(float)
        blk = np.array([[c, -s], [s, c]]).transpose(2, 3, 0, 1)
    elif kind.endswith('rot3d'):
        a, c, s = (d[k].astype(float) for k in ('r11', 'r22', 'r32'))
        z = 0 * a
        blk = np.array([[a, z, z], [z, c, -s], [z, s, c]]).transpose(2, 3, 0, 1)
    else:
        blk = d['value'].astype(float)[..., None, None]
    if col and kind in ROT:
        blk = blk.swapaxes(-1, -2)
    out = np.zeros((shape[0] // rb, rb, extra))
    xx = x.astype(float).reshape(shape[1] // cb, cb, extra)
    lines = np.arange(n)
    for j in range(nm):
        if col:
            np.add.at(out, d['index'][:, j], np.einsum('nab,nbe->nae', blk[:, j], xx))
        else:
            out += np.einsum('nab,nbe->nae', blk[:, j], xx[d['index'][:, j]])
    return out.ravel()
