"""Acquisitions: selections, blocks and histories of operator evaluations."""
import operator
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness
from checks.N01 import Randn

OPTS = {'ufunc': True}


def mag(x):
    return np.asarray(x).view(np.ndarray)


class Model:
    """an acquisition whose rows are gain[detector] * level[sample] * sum of weight[pixel] * x[pixel]"""

    def __init__(self, env, ndet, nsamp, npix, block=None, max_nbytes=None, nbytes=100):
        from pyoperators import Operator, flags
        from pysimulators import Acquisition, Instrument, PackedTable, Sampling, Scene
        self.env = env
        self.gain = [env.real(f'g{i}') for i in range(ndet)]
        self.sigma = [env.real(f's{i}') for i in range(ndet)]
        self.level = [env.real(f'l{i}') for i in range(nsamp)]
        self.weight = [env.real(f'w{i}') for i in range(npix)]
        for s in self.sigma:
            env.assume((s >= F(1, 10)) & (s <= 10) if env.symbolic else 0.1 <= s <= 10)
        weight = env.arr(self.weight)

        @flags.real
        @flags.linear
        class Op(Operator):
            def __init__(self, g, l, w):
                self.g, self.l, self.w = g, l, w
                Operator.__init__(self, shapein=w.shape, shapeout=(len(g), len(l)), dtype=float)

            def direct(self, x, out):
                out[...] = self.g[:, None] * self.l * np.sum(self.w * x)

            @property
            def nbytes(self):
                return nbytes * len(self.g) * len(self.l)

        class Ins(Instrument):
            def get_operator(self, sampling, scene):
                return Op(self.detector.gain, sampling.level, weight[scene.index])

            def get_noise(self, sampling, out=None, operation=operator.iadd):
                return Instrument.get_noise(self, sampling, sigma=self.detector.sigma, out=out, operation=operation)

            def get_invntt_operator(self, sampling):
                return Instrument.get_invntt_operator(self, sampling, sigma=self.detector.sigma)
        ins = Ins('instrument', PackedTable(ndet, gain=env.arr(self.gain), sigma=env.arr(self.sigma)))
        kw = {}
        if block is not None:
            kw['block'] = block
        if max_nbytes is not None:
            kw['max_nbytes'] = max_nbytes
        self.acq = Acquisition(ins, Sampling(nsamp, level=env.arr(self.level)), Scene(npix), **kw)
        self.rows = tuple(list(range(n)) for n in (ndet, nsamp, npix))

    def operator(self, acq, rows, label):
        env = self.env
        d, t, p = rows
        env.true((len(acq.instrument), len(acq.sampling), len(acq.scene)) == (len(d), len(t), len(p)), f'{label}: sizes',
                 (len(acq.instrument), len(acq.sampling), len(acq.scene)))
        op = acq.get_operator()
        env.true(op.shapein == (len(p),) and op.shapeout == (len(d), len(t)), f'{label}: shape of the operator', (op.shapein, op.shapeout))
        env.true(acq.get_operator() is op, f'{label}: the operator is computed once')
        x = [env.real(f'x{i}') for i in range(len(p))]
        s = 0
        for k, v in zip(p, x):
            s = s + self.weight[k] * v
        want = [self.gain[i] * self.level[j] * s for i in d for j in t]
        env.eq(mag(op(env.arr(x))), want, f'{label}: operator')
        env.eq(mag(acq.get_observation(env.arr(x), noiseless=True)), want, f'{label}: observation')
        return x, want

    def others(self, acq, rows, label, x, signal):
        env = self.env
        d, t, p = rows
        n = len(d) * len(t)
        g = [env.real(f'n{i}') for i in range(n)]
        noise = {}
        k = 0
        env.true(not t or all(len(range(len(t))[b]) for b in acq.block), f'{label}: empty block', acq.block)
        for b in acq.block:
            s = range(len(t))[b]
            for i in range(len(d)):
                for j in s:
                    noise[i, j] = self.sigma[d[i]] * g[k]
                    k += 1
        env.true(sorted(noise) == [(i, j) for i in range(len(d)) for j in range(len(t))], f'{label}: blocks', acq.block)
        want = [noise[i, j] for i in range(len(d)) for j in range(len(t))]
        with Randn(env, g):
            env.eq(mag(acq.get_noise()), want, f'{label}: noise')
        o = [env.real(f'o{i}') for i in range(n)]
        out = env.arr(o).reshape((len(d), len(t)))
        with Randn(env, g):
            got = acq.get_noise(out, operation=operator.iadd)
        env.true(got is out, f'{label}: output of the noise')
        env.eq(mag(out), [a + b for a, b in zip(o, want)], f'{label}: noise added to the output')
        with Randn(env, g):
            env.eq(mag(acq.get_observation(env.arr(x))), [a + b for a, b in zip(signal, want)], f'{label}: observation with noise')
        out = env.arr(o).reshape((len(d), len(t)))
        with Randn(env, g):
            acq.get_observation(env.arr(x), out=out, operation=operator.iadd)
        env.eq(mag(out), [a + b + c for a, b, c in zip(o, signal, want)], f'{label}: observation added to the output')
        inv = acq.get_invntt_operator()
        env.true(inv.shapein == (len(d), len(t)), f'{label}: shape of the inverse noise', inv.shapein)
        want = [o[i * len(t) + j] / (self.sigma[d[i]] * self.sigma[d[i]]) for i in range(len(d)) for j in range(len(t))]
        env.eq(mag(inv(env.arr(o).reshape((len(d), len(t))))), want, f'{label}: inverse noise')


def select(env, how, n, name):
    """-> (argument, selected rows)"""
    if how == ':':
        return slice(None), list(range(n))
    if how == '...':
        return Ellipsis, list(range(n))
    if how == 'int':
        i = int(env.int(name, 0, n - 1))
        return i, [i]
    if how == 'slice':
        a, b = int(env.int(name + 'a', 0, n - 1)), int(env.int(name + 'b', 1, n))
        env.assume(a < b)
        return slice(a, b), list(range(a, b))
    if how == 'step':
        a = int(env.int(name, 0, n - 1))
        return slice(a, None, 2), list(range(a, n, 2))
    if how == 'mask':
        m = [bool(env.bool(f'{name}{i}')) for i in range(n)]
        env.assume(any(m))
        return np.array(m), [i for i in range(n) if m[i]]
    a, b = int(env.int(name + 'a', 0, n - 1)), int(env.int(name + 'b', 0, n - 1))
    if how == 'more':
        return [a] + list(range(n)) + [b], [a] + list(range(n)) + [b]
    return [a, b], [a, b]


def restrict(env, acq, rows, hows, name):
    """-> acquisition, rows"""
    sel = [select(env, h, len(r), f'{name}{k}') for k, (h, r) in enumerate(zip(hows, rows))]
    arg = tuple(s[0] for s in sel)
    if len(hows) == 1:
        arg = arg[0]
    elif hows[0] == '...' and len(hows) == 2:
        sel = [(None, list(range(len(r)))) for r in rows[:2]] + [select(env, hows[1], len(rows[2]), f'{name}2')]
        arg = Ellipsis, sel[2][0]
    sel += [(None, list(range(len(r)))) for r in rows[len(sel):]]
    return acq[arg], tuple([r[i] for i in s] for r, (_, s) in zip(rows, sel))


def history(env, sizes, block, first, hows, again, hows2):
    block = None if block is None else [slice(a, b) for a, b in zip((0,) + block, block + (sizes[1],))]
    m = Model(env, *sizes, block=block)
    a = m.acq
    if first:
        m.operator(a, m.rows, 'original')
        op = a.get_operator()
    b, rows = restrict(env, a, m.rows, hows, 'i')
    env.true(b is not a, 'restriction gives another acquisition')
    if again == 'before':
        m.operator(b, rows, 'restriction')
    if hows2:
        b, rows = restrict(env, b, rows, hows2, 'j')
    x, w = m.operator(b, rows, 'restriction')
    if again == 'others':
        m.others(b, rows, 'restriction', x, w)
    x, w = m.operator(a, m.rows, 'original afterwards')
    if again == 'others':
        m.others(a, m.rows, 'original afterwards', x, w)


def blocks(env, sizes, max_nbytes, nbytes):
    """the blocks are a partition of the samplings and their operators fit in the given memory, if they can"""
    m = Model(env, *sizes, max_nbytes=max_nbytes, nbytes=nbytes)
    a = m.acq
    stop = 0
    for b in a.block:
        env.true(b.start == stop and b.stop >= b.start, 'contiguous blocks', a.block)
        stop = b.stop
    env.true(stop == sizes[1], 'blocks up to the last sample', a.block)
    env.true(a.get_operator_nbytes() == nbytes * sizes[0] * sizes[1], 'number of bytes of the operator', a.get_operator_nbytes())
    most = max(b.stop - b.start for b in a.block)
    if nbytes * sizes[0] <= max_nbytes:
        env.true((most - 1) * nbytes * sizes[0] < max_nbytes, 'memory of a block', (a.block, max_nbytes))
    env.true(len(a.block) == 1 or nbytes * sizes[0] * sizes[1] > max_nbytes, 'a single block if it fits', a.block)
    x, w = m.operator(a, m.rows, 'acquisition in blocks')
    m.others(a, m.rows, 'acquisition in blocks', x, w)


def packs(env, shape):
    """pack and unpack are those of the detectors"""
    from pysimulators import Acquisition, Instrument, PackedTable, Sampling, Scene
    n = int(np.prod(shape))
    rem = [bool(env.bool(f'r{i}')) for i in range(n)]
    env.assume(not all(rem))
    t = PackedTable(shape, selection=~np.array(rem).reshape(shape))
    a = Acquisition(Instrument('i', t), Sampling(2), Scene(2))
    v = [env.real(f'v{i}') for i in range(n)]
    x = env.arr(v).reshape(shape)
    kept = [w for w, r in zip(v, rem) if not r]
    env.eq(mag(a.pack(x)), kept, 'pack')
    out = np.zeros(len(kept))
    env.true(a.pack(x, out=out) is out, 'output of pack')
    env.eq(out, kept, 'pack into an output')
    p = env.arr(kept)
    u = env.vals(mag(a.unpack(p)).ravel())
    for i in range(n):
        env.eq([u[i]], [float('nan') if rem[i] else v[i]], 'unpack')
    miss = env.real('m')
    out = np.zeros(shape)
    got = a.unpack(p, out=out, missing_value=env.f(miss))
    env.true(got is out, 'output of unpack')
    env.eq(out, [miss if r else w for w, r in zip(v, rem)], 'unpack into an output')


def refused(env, _):
    from pysimulators import Acquisition, Instrument, PackedTable, Sampling, Scene
    ins, sam, sce = Instrument('i', PackedTable(2)), Sampling(2), Scene(2)
    env.raises(TypeError, lambda: Acquisition(sam, sam, sce), 'not an instrument')
    env.raises(TypeError, lambda: Acquisition(ins, ins, sce), 'not a sampling')
    env.raises(TypeError, lambda: Acquisition(ins, sam, ins), 'not a scene')
    env.raises(TypeError, lambda: Acquisition(ins, sam, sce, block=3), 'not a list of blocks')
    env.raises(ValueError, lambda: Acquisition(ins, sam, sce)[0, 0, 0, 0], 'too many selections')


def _history(tier):
    out = []
    hows = (('int',), ('slice',), ('mask',), ('list',), (':', 'slice'), (':', 'mask'), ('...', 'slice'), ('...', 'list'), ('slice', 'int'),
            ('mask', ':', 'slice'), ('int', 'int', 'int'), (':', 'step', 'list'), ('list', '...', 'mask'), ('slice', 'slice', ':'))
    for k, h in enumerate(hows):
        for first in (True, False):
            for again, h2 in (('others', None), ('before', (('slice',), (':', 'int'), ('...', 'slice'))[k % 3])):
                if tier == 'quick' and (k + first) % 2 and again == 'before':
                    continue
                out.append(((2, 3, 2), None if k % 3 else ((2,), (1, 2))[k % 2], first, h, again, h2))
    for k, h in enumerate(('more', 'slice', 'step', 'mask')):
        out.append(((1, 3, 1), ((1, 2), None, (1,), (2,))[k], bool(k % 2), (':', h), 'others', None))
        out.append(((1, 3, 1), (None, (1, 2), (2,), (1,))[k], bool(k % 2), (':', h), 'others', (':', 'slice')))
    out.append(((2, 2, 2), None, True, (':',), 'others', (':', ':', ':')))
    out.append(((2, 2, 2), (1,), True, ('...',), 'others', None))
    if tier != 'quick':
        for k, h in enumerate(hows):
            out.append(((3, 4, 3), (1, 3), True, h, 'others', hows[k - 3]))
    return out


HARNESSES = [
    Harness('history', history, _history, 'up to 2 detectors, 3 samples and pixels, any selection of each; operators evaluated before or not; up to 2 selections', opts=OPTS),
    Harness('blocks', blocks, lambda t: [(s, m, n) for s in ((1, 4, 1), (2, 3, 1), (2, 5, 2)) for m in (1, 200, 300, 450, 600, 10000) for n in (100, 70)],
            'up to 2 detectors and 5 samples', opts=OPTS),
    Harness('packs', packs, [((3,),), ((2, 2),), ((1,),)], 'up to 4 detectors, any of them removed', opts=OPTS),
    Harness('refused', refused, [(0,)], '', opts=OPTS),
]
