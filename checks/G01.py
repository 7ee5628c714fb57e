"""Projection matrices by integration over the pixels: exact areas of the intersections of the polygons and the pixels."""
from fractions import Fraction as F

import numpy as np

from engine.runner import Harness


def clip(poly, axis, bound, keep_above):
    """Sutherland-Hodgman: the part of a convex polygon on one side of a horizontal or vertical line"""
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i - 1], poly[i]
        a = bool(p[axis] >= bound) if keep_above else bool(p[axis] <= bound)
        b = bool(q[axis] >= bound) if keep_above else bool(q[axis] <= bound)
        if a != b:
            t = (bound - p[axis]) / (q[axis] - p[axis])
            r = [None, None]
            r[axis] = bound
            r[1 - axis] = p[1 - axis] + t * (q[1 - axis] - p[1 - axis])
            out.append(tuple(r))
        if b:
            out.append(q)
    return out


def area(poly):
    s = 0
    for i in range(len(poly)):
        (a, b), (c, d) = poly[i - 1], poly[i]
        s = s + a * d - b * c
    return s / 2


def intersection(poly, ix, iy):
    h = F(1, 2)
    for axis, bound, above in ((0, ix - h, True), (0, ix + h, False), (1, iy - h, True), (1, iy + h, False)):
        poly = clip(poly, axis, bound, above)
        if not poly:
            return 0
    return area(poly)


def polygons(env, shape, templates, lo, hi, ncolmax, rt, it, box):
    """templates: vertices whose coordinates are numbers or names of variables between lo and hi"""
    from pysimulators import SceneGrid
    ny, nx = shape
    names = {}

    def coordinate(c):
        if not isinstance(c, str):
            return F(c) if env.symbolic else float(c)
        if c not in names:
            names[c] = x = env.real(c)
            env.assume((x >= F(lo)) & (x <= F(hi)) if env.symbolic else float(F(lo)) <= x <= float(F(hi)))
        return names[c]

    verts = [[(coordinate(a), coordinate(b)) for a, b in t] for t in templates]
    if box:
        for v in verts:
            env.assume(v[0][0] < v[2][0])
            env.assume(v[0][1] < v[2][1])
    scene = SceneGrid(shape)
    flat = [c for v in verts for p in v for c in p]
    a = env.arr(flat, rt).reshape((len(verts), len(verts[0]), 2))
    op = scene.get_integration_operator(a, ncolmax=ncolmax, dtype=np.dtype(rt), dtype_index=np.dtype(it))
    m = op.matrix
    outside = False
    rows = []
    for v in verts:
        x, y = [p[0] for p in v], [p[1] for p in v]
        h = F(1, 2)
        outside = any(bool(c < -h) for c in x + y) or any(bool(c > nx - h) for c in x) or any(bool(c > ny - h) for c in y) or outside
        row = {}
        for iy in range(ny):
            for ix in range(nx):
                if box:
                    w = []
                    for lo_, hi_, k in ((v[0][0], v[2][0], ix), (v[0][1], v[2][1], iy)):
                        left = lo_ if bool(lo_ > k - h) else k - h
                        right = hi_ if bool(hi_ < k + h) else k + h
                        w.append(right - left if bool(right > left) else 0)
                    s = w[0] * w[1]
                else:
                    s = intersection(v, ix, iy)
                    if bool(s < 0):
                        s = -s
                if isinstance(s, int) and s == 0 or not bool(s != 0):
                    continue
                row[iy * nx + ix] = s
        rows.append(row)
    env.true(m.shape == (len(verts), nx * ny) and m.data.dtype['index'] == it and m.data.dtype['value'] == rt, 'shape and types', m.shape)
    most = max(len(r) for r in rows)
    env.true(m.ncolmax == max(most, ncolmax), 'number of columns', (m.ncolmax, most, ncolmax))
    env.true(bool(op.outside) == outside if hasattr(op, 'outside') else True, 'polygon outside the map')
    index, value = m.data.index, m.data.value
    for i, row in enumerate(rows):
        got = {}
        end = False
        for k in range(m.ncolmax):
            j = int(index[i, k])
            if j == -1:
                end = True
                env.eq([env.vals(value[i, k:k + 1])[0]], [0], 'weight of an unused element')
                continue
            env.true(not end and 0 <= j < nx * ny and j not in got, 'indices', env.vals(index[i]))
            got[j] = env.vals(value[i, k:k + 1])[0]
        env.true(sorted(got) == sorted(row), 'intersected pixels', (sorted(got), sorted(row)))
        env.eq([got[j] for j in sorted(row)], [row[j] for j in sorted(row)], 'areas', tol=1e-4)


def _polygons(tier):
    t = lambda *v: tuple(tuple(p) for p in v)
    box = t(('a', 'b'), ('c', 'b'), ('c', 'd'), ('a', 'd'))
    xbox = t((0, 'b'), ('c', 'b'), ('c', 'd'), (0, 'd'))
    out = []
    for it, rt in (('int32', 'float64'), ('int64', 'float32')):
        out += [((1, 1), (box,), -1, 1, 0, rt, it, True), ((1, 2), (xbox,), -1, 2, 0, rt, it, True),
                ((2, 1), (t(('a', 0), ('c', 0), ('c', 'd'), ('a', 'd')),), -1, 2, 1, rt, it, True)]
    # several polygons, larger scenes: one direction free
    row = t(('a', F(-1, 4)), ('c', F(-1, 4)), ('c', F(5, 4)), ('a', F(5, 4)))
    col = t((F(3, 4), 'b'), (F(9, 4), 'b'), (F(9, 4), 'd'), (F(3, 4), 'd'))
    fixed = t((0, 0), (F(1, 2), 0), (F(1, 2), F(1, 2)), (0, F(1, 2)))
    for k, (it, rt) in enumerate((('int32', 'float64'), ('int64', 'float32'), ('int64', 'float64'))):
        out += [((2, 3), (row,), -1, 3, (0, 2, 6)[k], rt, it, True), ((3, 2), (col,), -1, 3, (0, 7, 4)[k], rt, it, True),
                ((2, 2), (fixed, row), -1, 2, k, rt, it, True), ((2, 2), (row, fixed), -1, 2, 2 * k, rt, it, True)]
    # triangles with a free coordinate
    tri = [t((0, 0), (1, 0), (F(5, 8), 'y')), t((F(1, 2), 0), ('x', F(1, 2)), (F(1, 2), F(1, 2))), t((F(-1, 4), 0), (F(1, 4), 0), (F(1, 8), 'y')),
           t((F(-1, 2), F(-1, 2)), (F(1, 2), 'y'), (F(-1, 2), F(1, 2))), t((F(-1, 4), F(-3, 8)), (0, 'y'), (F(3, 8), F(1, 4))),
           t((F(-1, 4), F(-1, 4)), (F(1, 4), F(-1, 4)), (F(1, 4), F(1, 4)), (F(-1, 4), 'y'))]
    for k, v in enumerate(tri):
        out.append(((1, 1), (v if k % 2 else v[::-1],), -1, 1, k % 2, ('float64', 'float32')[k % 2], ('int32', 'int64')[k // 2 % 2], False))
    wide = [t((F(-1, 4), 0), (F(5, 4), 0), (F(1, 4), 'y')), t((F(-1, 4), F(-1, 4)), (F(5, 4), 'y'), (F(1, 4), F(3, 4))), t((0, F(5, 4)), (F(3, 4), 'y'), (F(3, 4), F(1, 4)))]
    for k, v in enumerate(wide):
        for l, (shape, hi) in enumerate((((1, 2), 1), ((2, 1), 2), ((2, 2), 2))):
            out.append((shape, (v if (k + l) % 2 else v[::-1],), F(-1, 4) if l == 2 else -1, hi, (0, 1, 4)[(k + l) % 3], ('float64', 'float32')[k % 2],
                        ('int32', 'int64')[l % 2], False))
    out.append(((1, 2), (fixed[:3], wide[0]), -1, 1, 1, 'float64', 'int64', False))
    if tier != 'quick':
        out.append(((2, 2), (xbox,), -1, 2, 0, 'float64', 'int32', True))
        out.append(((1, 3), (xbox,), -1, 3, 0, 'float64', 'int32', True))
    return out


def refused(env, _):
    from pysimulators import SceneGrid
    p = np.array([[[0, 0], [1, 0], [1, 1.]]])
    s = SceneGrid((2, 2))
    env.raises(TypeError, lambda: s.get_integration_operator(p, dtype=np.complex128), 'type of the values')
    env.raises(TypeError, lambda: s.get_integration_operator(p, dtype_index=np.int8), 'type of the indices')
    env.raises(NotImplementedError, lambda: s[:2].get_integration_operator(p), 'removed pixels')


HARNESSES = [
    Harness('polygons', polygons, _polygons, 'rectangles of any corners over up to 2 pixels; rectangles with a free direction over up to 6 pixels, two of them; triangles with a free coordinate over one pixel'),
    Harness('refused', refused, [(0,)], ''),
]
