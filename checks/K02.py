"""Packing and unpacking are inverse of each other on the selected components."""
import numpy as np

from engine.runner import Harness
from checks import tablelib as L

NAN = float('nan')


def table(env, shape, ndim, kind, **attrs):
    """-> (table, selected components in table order)."""
    from pysimulators.packedtables import PackedTable
    act = shape[:ndim] if ndim else shape
    kw, rows = L.chosen(env, kind, act)
    if ndim is not None:
        kw['ndim'] = ndim
    t = PackedTable(shape, **kw, **attrs)
    env.true([int(i) for i in t.index] == rows, 'selected components', [int(i) for i in t.index])
    return t, rows, act


def layout(env, name, n, trail, dtype, how, lead):
    """Symbolic data with the leading shape `lead`, in the memory layout `how`."""
    m = int(np.prod(trail))
    tot = n * m
    shape = lead + trail
    if dtype == 'i8':
        v = [10 + 3 * i for i in range(tot)]
    elif dtype in ('b1', 'S3', 'V'):
        v = [(i * 7) % 3 == 1 for i in range(tot)]
        if dtype == 'S3':
            v = [b'a%d' % i for i in range(tot)]
        elif dtype == 'V':
            v = [(i, env.real(f'{name}{i}')) for i in range(tot)]
    else:
        v = [env.real(f'{name}{i}') for i in range(tot)]
    if dtype == 'V':
        a = np.zeros(tot, [('x', 'i4'), ('y', float)])
        a['x'] = [p for p, _ in v]
        a['y'] = env.arr([q for _, q in v])
    elif dtype in ('f8', 'f4'):
        a = env.arr(v, dtype)
    else:
        a = np.array(v, dtype)
    a = a.reshape(shape)
    if how == 'fortran':
        a = np.array(a, order='F', copy=True)
    elif how == 'strided':
        b = np.zeros(tuple(2 * s for s in shape), a.dtype)
        s = tuple(slice(1, None, 2) for _ in shape)
        b[s] = a
        a = b[s]
    elif how == 'reversed':
        a = a[::-1].copy()[::-1]
    return a, v, m


def same(env, got, want, dtype, label):
    got = got.ravel()
    env.true(len(got) == len(want), f'{label}: size', (len(got), len(want)))
    if dtype == 'V':
        env.true([int(g) for g in got['x']] == [p for p, _ in want], f'{label}: integers')
        env.eq(got['y'], [q for _, q in want], f'{label}: values')
    elif dtype == 'S3':
        env.true([bytes(g) for g in got] == list(want), f'{label}: strings', got)
    elif dtype in ('i8', 'b1'):
        env.true([int(g) for g in got] == [int(w) for w in want], f'{label}: values', got)
    else:
        env.eq(got, want, f'{label}: values', tol=1e-5)


MISSING = {'i8': -1, 'b1': False, 'S3': b'', 'f8': NAN, 'f4': NAN, 'V': (-1, NAN)}
OTHER = {'i8': 7, 'b1': True, 'S3': b'zz', 'V': (5, 1.5)}


def roundtrip(env, shape, ndim, kind, trail, dtype, how, out, copy):
    t, rows, act = table(env, shape, ndim, kind)
    n = int(np.prod(act))
    rest = tuple(shape[len(act):]) + trail
    x, xv, m = layout(env, 'x', n, rest, dtype, how, act)
    wantp = [xv[i * m + j] for i in rows for j in range(m)]

    def dest(s):
        if out is None:
            return None
        o = np.zeros(s, x.dtype)
        if out == 'strided':
            o = np.zeros(tuple(2 * k for k in s), x.dtype)[tuple(slice(None, None, 2) for _ in s)]
        elif out == 'fortran':
            o = np.zeros(s, x.dtype, order='F')
        return o
    po = dest((len(rows),) + rest)
    p = t.pack(x, out=po, copy=copy)
    env.true(po is None or p is po, 'output argument of pack returned')
    env.true(p.shape == (len(rows),) + rest and p.dtype == x.dtype, 'packed shape and type', (p.shape, p.dtype))
    same(env, p, wantp, dtype, 'packed')
    same(env, x, xv, dtype, 'array given to pack')
    if copy and p.size:
        env.true(not np.may_share_memory(p, x), 'the packed copy shares memory with the input')
    # unpacking
    y, yv, _ = layout(env, 'y', len(rows), rest, dtype, how, (len(rows),))
    for mv in (None, 'other'):
        if mv is None:
            w, val = MISSING[dtype], None
        else:
            w = val = OTHER[dtype] if dtype in OTHER else env.real('mv')
            if dtype == 'V':
                w, val = OTHER['V'], np.array(OTHER['V'], x.dtype)
            elif dtype in ('f8', 'f4'):
                val = env.arr([w], dtype)[0]
        uo = dest(act + rest)
        u = t.unpack(y, out=uo, missing_value=val, copy=copy)
        env.true(uo is None or u is uo, 'output argument of unpack returned')
        env.true(u.shape == act + rest and u.dtype == x.dtype, 'unpacked shape and type', (u.shape, u.dtype))
        wantu = [w] * (n * m)
        for k, i in enumerate(rows):
            wantu[i * m:(i + 1) * m] = yv[k * m:(k + 1) * m]
        same(env, u, wantu, dtype, 'unpacked' + ('' if mv is None else ' with a missing value'))
        same(env, y, yv, dtype, 'array given to unpack')
        if copy and u.size and y.size:
            env.true(not np.may_share_memory(u, y), 'the unpacked copy shares memory with the input')
        same(env, t.pack(u), yv, dtype, 'packing of the unpacked')
    v = t.unpack(t.pack(x), missing_value=val)
    wantv = [w] * (n * m)
    for i in rows:
        wantv[i * m:(i + 1) * m] = xv[i * m:(i + 1) * m]
    same(env, v, wantv, dtype, 'unpacking of the packed')
    # the selections of the table pack and unpack accordingly
    if len(rows) > 1:
        s = t[::-2]
        q = s.pack(x)
        same(env, q, [xv[i * m + j] for i in rows[::-2] for j in range(m)], dtype, 'packed with a selection')
        wantv = [w] * (n * m)
        for i in rows[::-2]:
            wantv[i * m:(i + 1) * m] = xv[i * m:(i + 1) * m]
        same(env, s.unpack(q, missing_value=val), wantv, dtype, 'unpacked with a selection')


def attributes(env, shape, ndim, kind):
    """The unpacked view of the attributes of a table."""
    act = shape[:ndim] if ndim else shape
    n = int(np.prod(act))
    rest = tuple(shape[len(act):])
    m = int(np.prod(rest))
    a = [env.real(f'a{i}') for i in range(n * m)]
    b = [env.real(f'b{i}') for i in range(2 * n * m)]
    aa, ba = env.arr(a).reshape(shape), env.arr(b).reshape(shape + (2,))
    sc = env.real('sc')
    t, rows, act = table(env, shape, ndim, kind, a=aa, b=ba, c=env.arr([sc])[0], d=None,
                         e=lambda t: t.a, f=lambda t, k: k * np.arange(len(t)))

    def unp(v, m):
        out = [NAN] * (n * m)
        for k, i in enumerate(rows):
            out[i * m:(i + 1) * m] = v[k * m:(k + 1) * m]
        return out
    pa = [a[i * m + j] for i in rows for j in range(m)]
    pb = [b[i * 2 * m + j] for i in rows for j in range(2 * m)]
    env.eq(t.a, pa, 'attribute')
    env.eq(t.b, pb, 'attribute with several values')
    al = t.all
    env.true(al.a.shape == shape and al.b.shape == shape + (2,), 'shape of the unpacked attribute', al.a.shape)
    env.eq(al.a, unp(pa, m), 'unpacked attribute')
    env.eq(al.b, unp(pb, 2 * m), 'unpacked attribute with several values')
    env.eq(al.e, unp(pa, m), 'unpacked computed attribute')
    if rows:
        env.eq(al.c, unp([sc] * len(rows), 1), 'unpacked scalar attribute')
    env.true(al.d is None, 'unpacked undefined attribute')
    rem = [True] * n
    for i in rows:
        rem[i] = False
    env.true(al.removed.shape == act and [bool(v) for v in al.removed.ravel()] == rem, 'removed components', al.removed)
    want = [-1] * n
    for i in rows:
        want[i] = i
    env.true([int(v) for v in al.index.ravel()] == want, 'unpacked index')
    for v in (al.a, al.removed):
        env.raises(ValueError, lambda: v.__setitem__(Ellipsis, 0), 'the unpacked attribute can be modified in place')
    env.eq(aa, a, 'array given for the attribute')
    env.true(not np.may_share_memory(aa, t.a) if t.a.size else True, 'the attribute shares memory with the caller')
    # setting the unpacked attribute
    z = [env.real(f'z{i}') for i in range(n * m)]
    za = env.arr(z).reshape(shape)
    t.all.a = za
    env.eq(t.a, [z[i * m + j] for i in rows for j in range(m)], 'attribute set through its unpacked form')
    env.eq(t.all.a, unp([z[i * m + j] for i in rows for j in range(m)], m), 'unpacked attribute once set')
    env.eq(t.b, pb, 'the other attribute')
    env.raises(AttributeError, lambda: setattr(t.all, 'zz', za), 'unknown unpacked attribute set')
    env.raises(AttributeError, lambda: t.all.zz, 'unknown unpacked attribute')
    env.raises(ValueError, lambda: t.pack(np.zeros((n + 1,))), 'array with an invalid shape packed')
    env.raises(ValueError, lambda: t.unpack(np.zeros(len(rows) + 2)), 'array with an invalid size unpacked')


def duplicates(env, n, k):
    """Components listed several times: the last value is unpacked, nothing is left undefined."""
    from pysimulators.packedtables import PackedTable
    rows = [env.int(f'i{j}', 0, n - 1) for j in range(k)]
    t = PackedTable(n, selection=list(rows))
    x = [env.real(f'x{i}') for i in range(n)]
    p = t.pack(env.arr(x))
    env.eq(p, [x[i] for i in rows], 'packed')
    env.eq(t.unpack(p), [x[i] if i in rows else NAN for i in range(n)], 'unpacked')
    env.true([bool(v) for v in t.all.removed] == [i not in rows for i in range(n)], 'removed components')


def _roundtrip(tier):
    q = tier == 'quick'
    out = []
    kinds = ('full', 'bool', 'slice', 'ints', 'order', 'ordersel')
    shapes = [((3,), None), ((2, 2), None), ((2, 2), 1)]
    for shape, ndim in shapes:
        for kind in kinds:
            if kind == 'order' and shape == (2, 2) and ndim is None and q:
                continue
            if kind in ('slice',) and q and shape == (2, 2) and ndim is None:
                pass
            out.append((shape, ndim, kind, (), 'f8', 'c', None, False))
            out.append((shape, ndim, kind, (2,), 'f8', 'strided', None, False))
            if q and (kind in ('slice', 'order') or ndim == 1):
                continue
            out.append((shape, ndim, kind, (), 'f8', 'fortran', 'c', False))
            out.append((shape, ndim, kind, (2,), 'f4', 'reversed', 'strided', False))
            out.append((shape, ndim, kind, (), 'f8', 'c', None, True))
            out.append((shape, ndim, kind, (2,), 'f8', 'fortran', 'fortran', True))
    for dtype in ('i8', 'b1', 'S3', 'V'):
        for kind in ('full', 'bool', 'ints'):
            out.append(((3,), None, kind, (), dtype, 'c', None, False))
            out.append(((3,), None, kind, (2,), dtype, 'strided', 'c', False))
    for shape, ndim in (((4,), None), ((2, 3), None), ((3, 1, 2), 2)):
        for kind in ('full', 'bool', 'ints', 'ordersel') + (() if q else ('slice',)):
            if shape == (2, 3) and kind in ('ordersel',) and q:
                continue
            out.append((shape, ndim, kind, () if shape == (2, 3) else (2,), 'f8', 'strided' if shape == (4,) else 'c', None, False))
    return out


def _attributes(tier):
    out = []
    for shape, ndim in (((3,), None), ((2, 2), None), ((2, 2), 1), ((3, 1, 2), 2)):
        for kind in ('full', 'bool', 'slice', 'ints', 'ordersel') + (('order',) if shape == (3,) or tier != 'quick' else ()):
            if kind == 'slice' and ndim == 2 and tier == 'quick':
                continue
            out.append((shape, ndim, kind))
    return out


HARNESSES = [
    Harness('roundtrip', roundtrip, _roundtrip, 'tables of up to 6 components, 1 to 3 dimensions, up to 2 trailing values; '
            'selections by any mask, slice, list of distinct indices or ordering'),
    Harness('attributes', attributes, _attributes, 'tables of up to 4 components'),
    Harness('duplicates', duplicates, [(2, 2), (3, 3), (3, 2)], 'up to 3 components, listed up to 3 times'),
]
