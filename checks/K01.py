"""Selections of a packed table follow the indexing rules of its rows."""
import numpy as np

from engine.runner import Harness
from checks import tablelib as L


def same_error(f, ref):
    """(result, reference result); the exceptions must agree."""
    try:
        r, re = ref(), None
    except IndexError:
        r, re = None, IndexError
    return r, re


def chain(env, kind, n, sels):
    """Successive selections."""
    T = L.Table(env, kind, n)
    T.check(env, T.t, T.rows, 'table')
    cur, rows = T.t, T.rows
    for k, kd in enumerate(sels):
        sel, ref = L.selection(env, kd, f's{k}_', len(rows))
        prev, prows = cur, rows
        try:
            cur = cur[sel]
            err = None
        except IndexError as e:
            err = e
        try:
            pos = ref()
        except IndexError:
            env.true(err is not None, f'out of range selection {k} accepted')
            T.check(env, prev, prows, 'table before the failed selection')
            return
        env.true(err is None, f'selection {k} failed', err)
        rows = [rows[i] for i in pos]
        T.check(env, cur, rows, f'selection {k}')
        T.check(env, prev, prows, f'table before the selection {k}')
    T.check(env, T.t, T.rows, 'original table')
    # the selected table can be packed
    x = [env.real(f'x{i}') for i in range(n)]
    env.eq(cur.pack(env.arr(x)), [x[i] for i in rows], 'packing with the selected table')


def iterate(env, kind, n, how):
    """Data modified in a selected table."""
    T = L.Table(env, kind, n)
    sel, ref = L.selection(env, how, 's', len(T.rows))
    env.assume(True)
    try:
        pos = ref()
    except IndexError:
        return
    t = T.t[sel]
    v = [env.real(f'v{i}') for i in range(len(pos))]
    t.a = env.arr(v)
    env.eq(t.a, v, 'value set')
    if t is not T.t:
        T.check(env, T.t, T.rows, 'original table after an attribute of the selection is set')
    for bad in (len(pos) + 1, len(pos) + 2):
        env.raises(ValueError, lambda: setattr(t, 'a', np.zeros(bad)), 'attribute with a wrong size')
    for name in ('index', 'shape', 'ndim', 'comm', 'all'):
        env.raises(AttributeError, lambda: setattr(t, name, 0), f'{name} is not writeable')


def multi(env, shape, kind):
    """Tables with several dimensions are indexed by component."""
    n = int(np.prod(shape))
    T = L.Table(env, kind, n, shape)
    T.check(env, T.t, T.rows, 'table')
    sel, ref = L.selection(env, 'slice', 's', len(T.rows))
    t = T.t[sel]
    rows = [T.rows[i] for i in ref()]
    T.check(env, t, rows, 'selection')
    T.check(env, t[::-1], rows[::-1], 'reversed')
    m = [i % 2 == 0 for i in range(len(rows))]
    T.check(env, t[np.array(m, bool)], [r for r, k in zip(rows, m) if k], 'boolean selection')


def construct(env, shape, kind, ordered, values):
    """Selection and ordering given at the construction."""
    from pysimulators.packedtables import PackedTable
    n = int(np.prod(shape))
    full = np.arange(n).reshape(shape)
    oo = None
    if ordered:
        oo = [env.symint(f'o{i}', -values, values) for i in range(n)]
        oarr = np.array(oo, dtype=object if env.symbolic else int).reshape(shape)
    flat = kind in ('slice', 'ints', 'arr', 'int', 'none')
    if kind in L.FIXED and kind != 'm':
        flat = True
    if kind in ('slice', 'ints', 'arr', 'int', 'none', 'tslice1') or flat:
        sel, ref = L.selection(env, 'tslice' if kind == 'tslice1' else kind, 's', n)
    elif kind == 'bool':
        v = [env.bool(f'm{i}') for i in range(n)]
        sel, ref = np.array(v).reshape(shape), lambda: [i for i in range(n) if v[i]]
    elif kind.startswith('tuple'):
        # one symbolic slice per tuple
        k = int(kind[5]) if len(kind) > 5 and kind[5].isdigit() else 0
        fix = {'+': slice(None), '-': slice(None, None, -1), 'l': slice(-1, None), 'd': slice(None, None, -2)}
        ss = [fix[kind[6]] if len(kind) > 6 else None] * 2
        ss[k] = L.make_slice(env, 's', shape[k])
        if len(kind) <= 6:
            ss = ss[:1]
        sel = tuple(ss) + ((Ellipsis,) if kind == 'tuplee' else ())

        def ref():
            pos = [L.slice_rows(env, s, q) for s, q in zip(shape, ss)]
            pos += [list(range(s)) for s in shape[len(pos):]]
            return [int(i) for i in full[np.ix_(*pos)].ravel()] if all(pos) else []
    v0 = sel.copy().ravel() if isinstance(sel, np.ndarray) else None
    a = [env.real(f'a{i}') for i in range(n)]
    aa = env.arr(a).reshape(shape)
    try:
        t = PackedTable(shape, selection=sel, ordering=oarr if ordered else None, a=aa)
        err = None
    except IndexError as e:
        err = e
    try:
        rows = ref()
    except IndexError:
        env.true(err is not None, 'out of range selection accepted')
        return
    env.true(err is None, 'selection failed', err)
    if ordered:
        for i, v in enumerate(oarr.ravel()):
            env.true(v == oo[i], 'the ordering array is modified')
    if isinstance(sel, np.ndarray) and sel.dtype == bool:
        env.true(np.array_equal(sel.ravel(), v0), 'the selection array is modified')
    index = [int(i) for i in t.index]
    env.true(len(t) == len(index), 'length', (len(t), len(index)))
    env.eq(t.a, [a[i] for i in index], 'attribute')
    if not ordered:
        if not flat and not (len(shape) == 1 and kind != 'bool'):
            rows = sorted(set(rows))
        env.true(index == rows, 'index', (index, rows))
        return
    env.true(len(set(index)) == len(index), 'components listed once', index)
    for i in range(n):
        inside = i in rows
        kept = oo[i] >= 0
        if i in index:
            env.true(inside, 'a component that is not selected is kept', i)
            env.true(kept, f'component {i} with a negative ordering is kept')
        elif inside:
            env.true(oo[i] < 0, f'component {i} is missing')
    for i, j in zip(index[:-1], index[1:]):
        ok = oo[i] < oo[j] if i > j else oo[i] <= oo[j]
        env.true(ok, f'components {i} and {j} are ordered')


def _chain(tier):
    q = tier == 'quick'
    out = []
    one = ['int', 'ints', 'arr', 'bool', 'blist', 'none', 'tints']
    for kind in ('full', 'slice', 'step', 'ints', 'order'):
        for k in (0, 1, 2, 3, 4, 5) if kind == 'full' else (4,) if q else (3, 4, 5):
            for s in one:
                if k == 5 and s in ('arr', 'tints', 'blist') or k == 0 and kind != 'full':
                    continue
                out.append((kind, k, (s,)))
            if k in (0, 1, 3, 4) or not q:
                out.append((kind, k, ('slice',)))
        if kind in ('full', 'ints'):
            out.append((kind, 3, ('tslice',)))
    for f in L.FIXED:
        for kind in ('full', 'order') if q else ('full', 'slice', 'step', 'ints', 'order'):
            if not q or kind == 'full' or f in ('s-1', 's+2'):
                out.append((kind, 4, (f, 'slice')))
            for s in ('int', 'ints', 'bool', 'tslice'):
                if s in ('tslice', 'ints') and q and (f not in ('s-1', 'i') or kind == 'order'):
                    continue
                out.append((kind, 4, (f, s)))
    for f, g in (('s-1', 's1:'), ('s+2', 's-1'), ('m', 's-1'), ('i', 's-2'), ('s-2', 'm'), ('s:-1', 'i')):
        out.append(('full', 5, (f, g, 'bool')))
        if not q or f == 's-1':
            out += [('full', 5, (f, g, 'slice'))]
        if not q:
            out += [('full', 5, (f, g, s)) for s in ('int', 'ints')]
    out += [('full', 2, ('ints', 'ints')), ('full', 3, ('bool', 'bool')), ('full', 3, ('ints', 'bool'))]
    if not q:
        out += [('full', 2, ('bool', 'slice')), ('full', 2, ('slice', 'slice')), ('order', 3, ('slice', 'bool'))]
    return out


def _construct(tier):
    q = tier == 'quick'
    out = []
    for shape in ((3,), (4,), (2, 2), (2, 3), (3, 2)):
        for kind in ('slice', 'ints', 'arr', 'int', 'none', 'bool'):
            if kind == 'slice' and q and shape not in ((4,), (2, 3)) or kind == 'arr' and q and shape != (2, 2):
                continue
            out.append((shape, kind, False, 0))
    out.append(((3,), 'tslice1', False, 0))
    for shape in ((2, 3), (3, 2)):
        for kind in ('tuple', 'tuplee', 'tuple0+', 'tuple0-', 'tuple1+', 'tuple1-', 'tuple0l', 'tuple1l', 'tuple0d', 'tuple1d'):
            if q and (shape == (3, 2)) != (kind in ('tuple', 'tuple0-', 'tuple0l')):
                continue
            out.append((shape, kind, False, 0))
    for shape in ((3,), (1, 3), (3, 1)):
        for kind in ('none', 'int', 'bool', 's-1', 'i', 's:-1'):
            if kind in ('int', 'bool') and q and shape != (3,):
                continue
            out.append((shape, kind, True, 10))
    out.append(((1, 2), 'tuple1+', True, 10))
    for kind in ('none', 'i', 's3:0') + (() if q else ('bool', 'int', 'm')):
        out.append(((2, 2), kind, True, 10))
    return out


HARNESSES = [
    Harness('chain', chain, _chain, 'up to 5 components, 1 to 3 successive selections; slice bounds in [-n-2, n+2], '
            'steps in [-3, 3], at most 2 listed indices in [-n-1, n]'),
    Harness('iterate', iterate, [(k, 3, h) for k in ('full', 'slice', 'ints', 'order') for h in ('s1:', 'i', 's-2', 'bool', 'int')],
            '3 components'),
    Harness('multi', multi, [(s, k) for s, k in (((2, 2), 'full'), ((3, 1), 'slice'), ((2, 2), 'step'), ((2, 2), 'order'))],
            '2x2 and 3x1 tables'),
    Harness('construct', construct, _construct, 'up to 6 components; any ordering values in [-10, 10] for up to 4 components'),
]
