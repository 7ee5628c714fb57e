"""Reference semantics of selections, and packed tables with symbolic attributes."""
import numpy as np


def slice_rows(env, n, s):
    """Positions selected by the slice `s` of range(n), as Python defines them.

    start, stop and step may be symbolic: the comparisons fork.
    """
    step = 1 if s.step is None else s.step
    if step > 0:
        start = 0 if s.start is None else s.start
        stop = n if s.stop is None else s.stop
        lo, hi = 0, n
    else:
        start = n - 1 if s.start is None else s.start
        stop = -1 if s.stop is None else s.stop
        lo, hi = -1, n - 1
    if s.start is not None:
        if start < 0:
            start = start + n
        if start < lo:
            start = lo
        if start > hi:
            start = hi
    if s.stop is not None:
        if stop < 0:
            stop = stop + n
        if stop < lo:
            stop = lo
        if stop > hi:
            stop = hi
    out = []
    k = start
    while (k < stop) if step > 0 else (k > stop):
        out.append(int(k))
        k = k + step
        if len(out) > n:
            raise AssertionError
    return out


def make_slice(env, name, n, forms=None):
    """A slice with symbolic bounds (possibly absent, possibly out of range)."""
    f = env.choose(name + 'f', forms or ('none', 'start', 'stop', 'both'))
    m = n + 2
    start = env.symint(name + 'a', -m, m) if f in ('start', 'both') else None
    stop = env.symint(name + 'o', -m, m) if f in ('stop', 'both') else None
    if env.bool(name + 'd'):
        step = None
    else:
        step = env.symint(name + 's', -3, 3)
        env.assume(step != 0)
    return slice(start, stop, step)


# selections made first, before a symbolic one
FIXED = {
    's+2': lambda n: slice(None, None, 2),
    's-1': lambda n: slice(None, None, -1),
    's-2': lambda n: slice(-1, None, -2),
    's1:': lambda n: slice(1, None),
    's:-1': lambda n: slice(None, -1),
    's3:0': lambda n: slice(3, 0, -1),
    's0': lambda n: slice(1, 1),
    'm': lambda n: np.arange(n) % 3 != 1,
    'i': lambda n: [n - 1, 0, 1][:n],
    'i-': lambda n: [-1, -2][:n],
    'ii': lambda n: [0, 0, n - 1],
}


def selection(env, kind, name, n):
    """-> (selection given to the table, reference: function of the number of rows)"""
    if kind in ('slice', 'tslice'):
        s = make_slice(env, name, n)
        return ((s,) if kind == 'tslice' else s), (lambda: slice_rows(env, n, s))
    if kind in FIXED:
        f = FIXED[kind]
        sel = f(n)
        return sel, (lambda: [int(i) for i in np.arange(n)[sel]])
    if kind == 'int':
        i = env.int(name, -n - 1, n)
        return i, (lambda: [range(n)[i]])
    if kind in ('ints', 'arr', 'tints'):
        k = env.int(name + 'k', 0, 2 if n < 4 else 2)
        v = [env.int(f'{name}{j}', -n - 1, n) for j in range(k)]
        sel = v if kind == 'ints' else tuple(v) if kind == 'tints' and v else np.array(v, int)
        return sel, (lambda: [range(n)[i] for i in v])
    if kind in ('bool', 'blist'):
        v = [env.bool(f'{name}{j}') for j in range(n)]
        sel = np.array(v, bool) if kind == 'bool' or not v else v
        return sel, (lambda: [i for i in range(n) if v[i]])
    if kind == 'none':
        return env.choose(name, (None, Ellipsis, ())), (lambda: list(range(n)))
    raise ValueError(kind)


def chosen(env, kind, act):
    """-> (keywords selecting components of a table of shape `act`, the components in table order)"""
    n = int(np.prod(act))
    kw = {}
    if kind == 'full':
        rows = list(range(n))
    elif kind == 'bool':
        v = [env.bool(f'm{i}') for i in range(n)]
        kw['selection'] = np.array(v).reshape(act)
        rows = [i for i in range(n) if v[i]]
    elif kind == 'slice':
        sel, ref = selection(env, 'slice', 's', n)
        kw['selection'] = sel
        rows = ref()
    elif kind == 'ints':
        k = env.int('k', 0, 3)
        rows = [env.int(f'i{j}', 0, n - 1) for j in range(k)]
        env.assume(len(set(rows)) == k)
        kw['selection'] = list(rows)
    elif kind in ('order', 'ordersel'):
        o = [env.symint(f'o{i}', -2, n + 1) for i in range(n)]
        kw['ordering'] = np.array(o, dtype=object if env.symbolic else int).reshape(act)
        v = [True] * n
        if kind == 'ordersel':
            v = [i % 3 != 1 for i in range(n)]
            kw['selection'] = np.array(v).reshape(act)
        rows = [i for i in range(n) if o[i] >= 0 and v[i]]
        for i in range(1, len(rows)):          # insertion sort on the symbolic ordering
            j = i
            while j > 0 and o[rows[j]] < o[rows[j - 1]]:
                rows[j - 1], rows[j] = rows[j], rows[j - 1]
                j -= 1
    else:
        raise ValueError(kind)
    return kw, rows


class Table:
    """A table and its attributes, known by component."""

    def __init__(self, env, kind, n, shape=None):
        from pysimulators.packedtables import PackedTable
        shape = shape or (n,)
        self.n = n
        self.a = [env.real(f'a{i}') for i in range(n)]
        self.b = [env.real(f'b{i}') for i in range(2 * n)]
        a = env.arr(self.a).reshape(shape)
        b = env.arr(self.b).reshape(shape + (2,))
        kw = {}
        if kind == 'full':
            rows = list(range(n))
        elif kind == 'slice':
            kw['selection'] = slice(1, None)
            rows = list(range(n))[1:]
        elif kind == 'step':
            kw['selection'] = slice(None, None, -2)
            rows = list(range(n))[::-2]
        elif kind == 'ints':
            rows = [n - 1] + list(range(n - 1))
            kw['selection'] = rows
        elif kind == 'order':
            o = [(2 * i + 1) % (n + 1) - 1 for i in range(n)]
            o[0] = -1
            rows = sorted((i for i in range(n) if o[i] >= 0), key=lambda i: o[i])
            kw['ordering'] = np.array(o).reshape(shape)
        else:
            raise ValueError(kind)
        self.rows = rows
        self.scalar = env.real('c')
        self.t = PackedTable(shape, a=a, b=b, c=env.arr(self.scalar), d=lambda t: 2 * t.index, e=None, **kw)

    def check(self, env, t, rows, label):
        """The table t holds exactly the components `rows`, in this order."""
        env.true(len(t) == len(rows), f'{label}: length', len(t))
        index = t.index
        env.true(isinstance(index, np.ndarray) and index.ndim == 1 and index.dtype.kind == 'i', f'{label}: index type')
        env.true([int(i) for i in index] == list(rows), f'{label}: index', [int(i) for i in index])
        env.true(t.a.shape == (len(rows),) and t.b.shape == (len(rows), 2), f'{label}: attribute shapes')
        env.eq(t.a, [self.a[i] for i in rows], f'{label}: attribute')
        env.eq(t.b, [self.b[2 * i + j] for i in rows for j in (0, 1)], f'{label}: attribute with several values')
        env.eq(t.c, [self.scalar], f'{label}: scalar attribute')
        env.true(t.d.shape == (len(rows),) and [int(v) for v in t.d] == [2 * i for i in rows], f'{label}: computed attribute')
        env.true(t.e is None, f'{label}: undefined attribute')
