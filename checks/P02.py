"""Legacy pointing-matrix mask, packing, validity and intersection queries."""
import numpy as np

from engine.runner import Harness
from checks.P01 import matrix, snapshot, unchanged


def flat(x):
    return [bool(v) for v in np.asarray(x).ravel()]


def mask(env, shapein, ndet, ns, npps, out, nt):
    """get_mask: True for the pixels that no non-zero entry touches."""
    from pysimulators.operators import ProjectionInMemoryOperator
    env.threads(nt)
    m, e, rows = matrix(env, shapein, ndet, ns, npps)
    p = ProjectionInMemoryOperator(m)
    npix = int(np.prod(shapein))
    before = snapshot(env, m)
    seen = [False] * npix
    for s, i, v in e:
        if bool(v != 0):
            seen[i] = True
    if out:
        o = [env.bool(f'o{i}') for i in range(npix)]
        oa = np.array(o).reshape(shapein)
        got = (p if out == 'op' else m).get_mask(out=oa)
        want = [a and not b for a, b in zip(o, seen)]
        env.true(flat(oa) == want, 'mask in the output', (flat(oa), want))
    else:
        got = p.get_mask()
        want = [not b for b in seen]
    env.true(got.dtype == bool and got.shape == shapein, 'type and shape', (got.dtype, got.shape))
    env.true(flat(got) == want, 'mask of the unobserved pixels', (flat(got), want))
    unchanged(env, m, before)


def pack(env, shapein, ndet, ns, npps, nt):
    env.threads(nt)
    m, e, rows = matrix(env, shapein, ndet, ns, npps)
    npix = int(np.prod(shapein))
    k = [env.bool(f'm{i}') for i in range(npix)]
    rank = np.cumsum([not b for b in k]) - 1
    want = []
    for row in rows:
        w = [(int(rank[i]), v) for i, v in row if not k[i] and bool(v != 0)]
        want.append(w + [(-1, 0)] * (npps - len(w)))
    m.pack(np.array(k).reshape(shapein))
    got_i = m['index'].reshape(-1, npps)
    got_v = m['value'].reshape(-1, npps)
    nleft = npix - sum(k)
    env.true(tuple(m.shape_input) == (nleft,), 'input shape after packing', m.shape_input)
    for s, w in enumerate(want):
        nlive = sum(i >= 0 for i, v in w)
        env.true([int(i) for i in got_i[s]] [:nlive] == [i for i, v in w][:nlive], 'packed pixels', (s, got_i[s], w))
        env.true(nlive == npps or int(got_i[s][nlive]) == -1, 'end of the packed row', (s, got_i[s], w))
        env.eq(got_v[s][:nlive], [v for i, v in w][:nlive], 'packed weights', tol=1e-4)
    env.true(m.isvalid(), 'packed matrix is valid')
    # same projection
    from pysimulators.operators import ProjectionInMemoryOperator
    if nleft == 0:
        return
    x = [env.real(f'x{i}') for i in range(nleft)]
    full = [0] * npix
    for i in range(npix):
        if not k[i]:
            full[i] = x[rank[i]]
    y = ProjectionInMemoryOperator(m)(env.arr(x))
    env.eq(y, [sum((v * full[i] for i, v in row), 0) for row in rows], 'projection of the packed map', tol=1e-4)


def isvalid(env, shapein, ndet, ns, npps, wide):
    npix = int(np.prod(shapein))
    m, e, rows = matrix(env, shapein, ndet, ns, npps, lo=-2, hi=npix, wellformed=False)
    if wide:
        j = env.int('pos', 0, ndet * ns * npps - 1)
        m['index'].reshape(-1)[j] = env.choose('extreme', (-2 ** 31, 2 ** 31 - 1, -1, 0, npix, -npix, 2 ** 16))
    want = all(-1 <= int(i) < npix for i in m['index'].ravel())
    before = snapshot(env, m)
    got = m.isvalid()
    env.true(isinstance(got, bool) and got == want, 'validity', (got, want))
    unchanged(env, m, before)


def intersects(env, shapein, ndet, ns, npps, axis, nt):
    from pysimulators.operators import ProjectionInMemoryOperator
    import pysimulators.operators as mod
    env.threads(nt)
    npix = int(np.prod(shapein))
    m, e, rows = matrix(env, shapein, ndet, ns, npps)
    p = ProjectionInMemoryOperator(m)
    pix = env.int('pixel', 0, npix - 1)
    coords = tuple(int(c) + 1 for c in np.unravel_index(pix, shapein)[::-1])
    hit = np.array([any(i == pix for i, v in row) for row in rows]).reshape(ndet, ns)
    if axis == 'f':
        got = p.intersects(coords, f=mod.flib.pointingmatrix.intersects_openmp2)
        axis = None
    else:
        got = p.intersects(coords, axis=axis)
    if axis is None:
        env.true(isinstance(got, bool) and got == bool(hit.any()), 'intersects', (got, hit))
    else:
        want = hit.any(axis=0 if axis in (0, -3) else 1)
        env.true(got.dtype == bool and got.shape == want.shape and flat(got) == flat(want),
                 'intersecting elements', (got, want))


def special(env, what, shapein, ndet, ns, npps):
    """Factory functions and empty matrices."""
    from pysimulators.operators import PointingMatrix
    npix = int(np.prod(shapein))
    m = getattr(PointingMatrix, what)((ndet, ns, npps), shapein, verbose=False)
    env.true(m.isvalid() or what == 'empty' and m.size, 'validity')
    if what != 'empty':
        env.true((m['index'] == -1).all() and (m['value'] == (what == 'ones')).all(), 'contents')
    if what != 'empty' or not m.size:
        env.true(m.get_mask().all(), 'nothing is observed')
    k = np.array([env.bool(f'm{i}') for i in range(npix)]).reshape(shapein)
    if m.size and what != 'empty':
        m.pack(k)
        env.true((m['index'] == -1).all(), 'packed')
        env.true(tuple(m.shape_input) == (int((~k).sum()),), 'shape after packing', m.shape_input)


SH = [((2,), 1, 2, 2), ((2, 2), 2, 1, 1), ((3,), 1, 1, 3), ((1, 3), 1, 3, 1)]


def _mask(tier):
    return [s + (o, nt) for s in SH for o, nt in ((None, 1), ('op', 1), ('matrix', 2))]


def _pack(tier):
    return [s + (nt,) for s in (((2,), 1, 1, 3), ((3,), 1, 1, 2), ((2, 2), 1, 1, 1), ((2,), 2, 1, 1), ((1, 2), 1, 1, 2)) +
            ((((2,), 1, 2, 2), ((3,), 1, 1, 3)) if tier != 'quick' else ()) for nt in (1, 2)]


def _valid(tier):
    return [((2,), 1, 2, 2, False), ((1, 2), 2, 1, 1, True), ((3,), 1, 1, 2, True), ((2, 1), 3, 1, 1, False)]


def _inter(tier):
    return [s + (ax, nt) for s in (((2,), 2, 2, 1), ((2, 2), 1, 2, 1), ((1, 3), 2, 1, 1), ((2, 3), 1, 1, 2),
                                   ((3, 2), 1, 1, 1), ((2,), 2, 1, 2), ((2, 1, 2), 1, 1, 1), ((2, 3, 2), 1, 1, 1))
            for ax in (None, 0, -3, 1, -2, 'f') for nt in (1, 2) if ax not in (-3, -2) or nt == 1]


HARNESSES = [
    Harness('mask', mask, _mask, 'at most 4 pixels, 3 samples, 3 pixels per sample, 1 or 2 threads'),
    Harness('pack', pack, _pack, 'at most 4 pixels, 2 samples, 3 pixels per sample, 1 or 2 threads'),
    Harness('isvalid', isvalid, _valid, 'at most 3 pixels, 4 entries, indices one out of the bounds or extreme'),
    Harness('intersects', intersects, _inter, 'at most 12 pixels, 2 detectors, 2 samples, 2 pixels per sample'),
    Harness('special', special, lambda tier: [(w, (2, 2), 1, 2, n) for w in ('empty', 'ones', 'zeros') for n in (0, 2)],
            '4 pixels, 2 samples'),
]
