"""Reductions of the projection operator: coverage, backprojection, kernel, normal matrix."""
import operator

import numpy as np

from engine.runner import Harness
from checks import sparselib as L
from checks.S02 import dense, mul, tr

KINDS = ['fsr', 'fsr_rot2d', 'fsr_rot3d']


def setup(env, kind, it, rt, nrow, ncol, nmax, mode, lo=-1, real=None):
    from pysimulators.operators import ProjectionOperator
    m, ref = L.matrix(env, kind, it, rt, nrow, ncol, nmax, lo=lo, real=real)
    rb, cb = m.block_shape
    si = (ncol, cb) if cb > 1 else (ncol,)
    so = (nrow, rb) if rb > 1 else (nrow,)
    kw = {}
    if mode in ('bimp', 'bboth'):
        from checks.S02 import shapes
        kw, si, so, extra = shapes(kind, nrow, ncol, m, mode)
        return ProjectionOperator(m, **kw), m, si, so
    if mode == 'explicit':
        if ncol % 2 == 0:
            si = (2, ncol // 2) + si[1:]
        if nrow % 2 == 0:
            so = (nrow // 2, 2) + so[1:]
    if mode != 'implicit' and (kind == 'fsr' or mode == 'explicit'):
        kw = dict(shapein=si, shapeout=so)
    return ProjectionOperator(m, **kw), m, si, so


def intensity(m, nrow, ncol):
    """(sample, pixel, weight) of the first component."""
    return [(r, c, sum((blk[a][0] for a in range(1, len(blk))), blk[0][0])) for r, c, blk in m._entries]


def rep(v, shape):
    """Values per pixel or sample, repeated over the broadcast trailing dimension."""
    n = int(np.prod(shape)) // len(v)
    return [x for x in v for _ in range(n)]


def state(env, m):
    return [env.vals(m.data[f]) for f in m.data.dtype.names]


def unchanged(env, m, before):
    for a, f in zip(before, m.data.dtype.names):
        env.eq(m.data[f], a, f'operator field {f} unchanged', tol=1e-4)


def coverage(env, kind, it, rt, nrow, ncol, nmax, mode, iadd):
    p, m, si, so = setup(env, kind, it, rt, nrow, ncol, nmax, mode)
    before = state(env, m)
    cov = [0] * ncol
    for r, c, w in intensity(m, nrow, ncol):
        cov[c] = cov[c] + w
    shape = si if m.block_shape[1] == 1 else si[:-1]
    cov = rep(cov, shape)
    if iadd:
        o = [env.real(f'o{i}') for i in range(len(cov))]
        oa = (env.arr(o, rt) if kind == 'fsr' else env.oarr(o)).reshape(shape)
        got = p.pT1(out=oa, operation=operator.iadd)
        cov = [a + b for a, b in zip(o, cov)]
        env.eq(oa, cov, 'coverage added to the output', tol=1e-4)
    else:
        got = p.pT1()
    env.true(got.shape == shape, 'coverage shape', got.shape)
    env.eq(got, cov, 'coverage', tol=1e-4)
    unchanged(env, m, before)


def coverage2d(env, nrow, ncol, nmax, mode, iadd):
    """Rotation 2d: the norm of the complex weight is accumulated (numpy only)."""
    p, m, si, so = setup(env, 'fsr_rot2d', 'int64', 'object' if env.symbolic else 'float64', nrow, ncol, nmax, mode)
    cov = [0] * ncol
    for r, c, blk in m._entries:
        cov[c] = cov[c] + env.sqrt(blk[0][0] * blk[0][0] + blk[1][0] * blk[1][0])
    o = [env.real(f'o{i}') for i in range(ncol)]
    oa = env.oarr(o)
    if mode == 'explicit':
        oa = oa.reshape(si[:-1])
    if iadd:
        got = p.pT1(out=oa, operation=operator.iadd)
        cov = [a + b for a, b in zip(o, cov)]
    else:
        got = p.pT1(out=oa)
    env.eq(got, cov, 'coverage')
    env.eq(oa, cov, 'coverage in the output')


def backprojection(env, kind, it, rt, vt, nrow, ncol, nmax, mode, iadd):
    p, m, si, so = setup(env, kind, it, rt, nrow, ncol, nmax, mode)
    before = state(env, m)
    rb, bs = m.block_shape
    x = [env.real(f'x{i}') for i in range(int(np.prod(so)))]
    xa = env.arr(x, vt).reshape(so)
    d = dense(m, env, kind, nrow, ncol)
    want = mul(tr(d), x, len(x) // (nrow * rb))[::bs]
    cov = [0] * ncol
    for r, c, w in intensity(m, nrow, ncol):
        cov[c] = cov[c] + w
    shape = si if m.block_shape[1] == 1 else si[:-1]
    cov = rep(cov, shape)
    if iadd:
        o = [env.real(f'o{i}') for i in range(len(cov))]
        q = [env.real(f'q{i}') for i in range(len(cov))]
        dt = max(np.dtype(rt), np.dtype(vt))
        if kind != 'fsr' and env.symbolic:
            return
        out = env.arr(o, dt).reshape(shape), env.arr(q, dt).reshape(shape)
        a, b = p.pTx_pT1(xa, out=out, operation=operator.iadd)
        want = [u + v for u, v in zip(o, want)]
        cov = [u + v for u, v in zip(q, cov)]
    else:
        a, b = p.pTx_pT1(xa)
    env.true(a.shape == shape and b.shape == shape, 'shapes', (a.shape, b.shape))
    env.eq(a, want, 'backprojection', tol=1e-4)
    env.eq(b, cov, 'coverage', tol=1e-4)
    env.eq(xa, x, 'input unchanged', tol=1e-4)
    unchanged(env, m, before)


def normal(env, kind, it, rt, nrow, ncol, mode):
    """P^T P with one pixel per sample, as an operator, equals the dense product."""
    p, m, si, so = setup(env, kind, it, rt, nrow, ncol, 1, mode)
    before = state(env, m)
    bs = m.block_shape[1]
    x = [env.real(f'x{i}') for i in range(int(np.prod(si)))]
    extra = len(x) // (ncol * bs)
    d = dense(m, env, kind, nrow, ncol)
    op = p.T * p
    from pyoperators import DiagonalOperator
    if not env.symbolic:
        y = op(env.arr(x, 'float64').reshape(si))
        env.eq(y, mul(tr(d), mul(d, x, extra), extra), 'normal matrix', tol=1e-4)
        dd = np.array(d, float)
        env.eq(op.todense(shapein=si), np.kron(dd.T.dot(dd), np.eye(extra)), 'normal matrix', tol=1e-4)
        return
    if isinstance(op, DiagonalOperator):
        diag = np.broadcast_to(op.get_data(), si)
        dd = [[sum((d[k][i] * d[k][j] for k in range(len(d))), 0) for j in range(len(d[0]))] for i in range(len(d[0]))]
        env.eq(diag, rep([dd[i][i] for i in range(len(dd))], si), 'diagonal of the normal matrix', tol=1e-4)
        off = [dd[i][j] for i in range(len(dd)) for j in range(len(dd)) if i != j]
        env.eq(off, [0] * len(off), 'normal matrix is diagonal', tol=1e-4)
    else:
        y = op(env.arr(x, 'float64').reshape(si))
        env.eq(y, mul(tr(d), mul(d, x, extra), extra), 'normal matrix', tol=1e-4)
    unchanged(env, m, before)


def kernel(env, kind, it, rt, nrow, ncol, nmax, mode, opn):
    tiny = {'float32': 2.0 ** -149, 'float64': 2.0 ** -1074, 'float16': 2.0 ** -24}[rt]

    def real(name):
        # zero, a value whose low bits are null, a value whose high bits are null
        return env.choose(name, (0.0, 1.0, tiny) if nrow * nmax * L.nfield(kind) < 4 else (0.0, 1.0) if opn is None else (0.0, tiny))
    p, m, si, so = setup(env, kind, it, rt, nrow, ncol, nmax, mode, real=real, lo=0 if it[0] == 'u' else -1)
    shape = si if m.block_shape[1] == 1 else si[:-1]
    hit = [False] * ncol
    for r, c, blk in m._entries:
        hit[c] = hit[c] or any(v != 0 for row in blk for v in row)
    want = rep([not h for h in hit], shape)
    if opn is None:
        got = p.canonical_basis_in_kernel()
        env.true(got.shape == shape, 'shape', got.shape)
    else:
        o = [env.bool(f'o{i}') for i in range(len(want))]
        oa = np.array(o).reshape(shape)
        if opn == 'iand':      # an output that is not contiguous
            big = np.ones(shape[:-1] + (2 * shape[-1],), bool)
            big[..., ::2] = oa
            oa = big[..., ::2]
        got = p.canonical_basis_in_kernel(out=oa, operation=getattr(operator, opn))
        want = [(a and b) if opn == 'iand' else (a or b) if opn == 'ior' else a != b for a, b in zip(o, want)]
        env.true(got is oa, 'output returned')
    env.true(got.dtype == bool, 'type')
    env.true(got.view(np.int8).max(initial=0) <= 1, 'valid booleans')
    for i, (g, w) in enumerate(zip(got.ravel(), want)):
        env.true(bool(g) == w, f'kernel[{i}]', g)


def kernel_generic(env, kind, nrow, ncol, nmax, mode):
    """Types without compiled implementation: any real values."""
    p, m, si, so = setup(env, kind, 'uint32', 'object', nrow, ncol, nmax, mode, lo=0)
    shape = si if m.block_shape[1] == 1 else si[:-1]
    got = p.canonical_basis_in_kernel()
    env.true(got.shape == shape and got.dtype == bool, 'shape and type', got.shape)
    hit = [False] * ncol
    for r, c, blk in m._entries:
        for v in (x for row in blk for x in row):
            if not hit[c] and not isinstance(v, int) and v != 0:
                hit[c] = True
    for i, (g, w) in enumerate(zip(got.ravel(), rep([not h for h in hit], shape))):
        env.true(bool(g) == w, f'kernel[{i}]', g)


def negative_zero(env, kind, rt):
    """A stored negative zero is a zero entry."""
    p, m, si, so = setup(env, kind, 'int64', rt, 1, 2, 1, 'implicit', real=lambda name: -0.0)
    got = p.canonical_basis_in_kernel()
    for g in got.ravel():
        env.true(bool(g), 'negative zero is in the kernel')


RI = (('int32', 'float32'), ('int32', 'float64'), ('int64', 'float32'), ('int64', 'float64'))
BLK = ['fsr_block12', 'fsr_block21', 'fsr_block22', 'fsr_block31', 'fsr_block13', 'fsr_block33']


def _cov(tier):
    out = []
    for kind in ['fsr', 'fsr_rot3d'] + BLK:
        for mode in ('implicit', 'explicit') + (('flat', 'bboth') if kind == 'fsr' else ()):
            for k, (it, rt) in enumerate(RI):
                for iadd in (False, True):
                    out.append((kind, it, rt, 2, 2, 2, mode, iadd))
                    out.append((kind, it, rt, 2 if mode == 'bboth' else 3, 4, 1, mode, iadd))
    return out


def _cov2d(tier):
    return [(n, c, m, mode, iadd) for n, c, m in ((2, 2, 1), (2, 3, 1), (1, 3, 2), (1, 4, 2))
            for mode in ('implicit', 'explicit') for iadd in (False, True)]


def _back(tier):
    out = []
    for kind in ['fsr', 'fsr_rot3d'] + BLK:
        for mode in ('implicit', 'explicit') + (('flat', 'bboth') if kind == 'fsr' else ()):
            for it, rt, vt in [c for c in L.DTYPES] if tier != 'quick' else [L.DTYPES[5], L.DTYPES[1]]:
                for iadd in (False, True):
                    if iadd and kind != 'fsr':
                        continue
                    out.append((kind, it, rt, vt, 2, 2, 2, mode, iadd))
                    out.append((kind, it, rt, vt, 2, 4, 1, mode, iadd))
    return out


def _normal(tier):
    out = []
    for kind in KINDS + BLK:
        for mode in ('implicit', 'explicit', 'flat') + (('bboth',) if kind == 'fsr' else ()):
            for it, rt in RI:
                if mode == 'bboth':
                    out.append((kind, it, rt, 2, 2, mode))
                    out.append((kind, it, rt, 2, 4, mode))
                    continue
                out.append((kind, it, rt, 2, 3, mode))
                out.append((kind, it, rt, 3, 2, mode))
    return out


def _kernel(tier):
    out = []
    quick = [('int32', 'float32'), ('int64', 'float64'), ('int8', 'float64'), ('int16', 'float32'),
             ('uint8', 'float32')]
    for kind in KINDS + BLK[:3]:
        for it in ('int32', 'int64', 'int8', 'int16', 'uint8'):
            for rt in ('float32', 'float64'):
                if tier == 'quick' and (it, rt) not in quick:
                    continue
                for opn in (None, 'iand', 'ior', 'ixor'):
                    if opn is None:
                        out.append((kind, it, rt, 1, 2, 2, 'implicit', opn))
                    if kind == 'fsr' and opn in (None, 'iand'):
                        out.append((kind, it, rt, 1, 2, 1, 'bboth', opn))
                    out.append((kind, it, rt, 2 if opn is None else 1, 3, 1, 'explicit', opn))
    return out


HARNESSES = [
    Harness('coverage', coverage, _cov, '2x2 blocks with 2 entries per row, 3x4 blocks with 1'),
    Harness('coverage2d', coverage2d, _cov2d, 'at most 2 entries per row, 2x3, 1x4'),
    Harness('backprojection', backprojection, _back, '2x2 blocks with 2 entries per row, 2x4 with 1'),
    Harness('normal', normal, _normal, '2x3 and 3x2 blocks'),
    Harness('kernel', kernel, _kernel, '1x2 blocks with 2 entries, 2x3 with 1; values zero, low or high word only'),
    Harness('kernel_generic', kernel_generic, [(k, a, b, n, mode) for k in KINDS + BLK for a, b, n in ((1, 2, 2), (2, 3, 1))
                                               for mode in ('implicit', 'explicit') if L.nfield(k) * n < 7],
            '1x2 blocks with 2 entries, 2x3 with 1; any real values'),
    Harness('negative_zero', negative_zero, [('fsr', 'float64'), ('fsr', 'float32')], 'one entry'),
]
