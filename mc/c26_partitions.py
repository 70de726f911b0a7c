"""C26: partitions of the circle and the sphere."""
import math

import numpy as np

from core import Check, Stage
from variants import stages as generic
from lib import expect, expect_error, reset
from ellipy.gras.geom.geom import circle_part, sphere_part
from ellipy.gras.geom.tri.tri import icosahedron, sphere_tri, sphere_tri_ext

EPS = np.finfo(float).eps
ARCS = [None, (0., math.pi), (-math.pi / 2, math.pi / 2), (1., 2.), (0.3, -2.5), (-7., 9.), (2 * math.pi, 0.), (0., 1e-3), (5., 5.)]


def unit_rows(m, what, tol=4e-15):
    d = np.max(np.abs(np.sqrt(np.sum(m * m, 1)) - 1.)) if len(m) else 0.
    expect(np.all(np.isfinite(m)) and d <= tol, '{}: not unit vectors (deviation {})', what, d)


def circle_cases(tier):
    for n in range(1, 401 if tier == 'quick' else 2001):
        yield [n]


def run_circle(case, rec):
    n = case[0]
    for arc in ARCS:
        what = 'circle_part({}, arc {})'.format(n, arc)
        a, b = arc or (0., 2 * math.pi)
        want = [[math.cos(a + (b - a) * k / n), math.sin(a + (b - a) * k / n)] for k in range(n)]
        rng = None if arc is None else np.array(arc)
        for k in (n, np.int32(n), np.int64(n)):
            m = circle_part(k) if arc is None else circle_part(k, angle_range_vec=rng)
            expect(isinstance(m, np.ndarray) and m.shape == (n, 2), '{}: shape {}', what, getattr(m, 'shape', None))
            unit_rows(m, what)
            expect(np.max(np.abs(m - np.array(want))) <= 1e-14 * (1 + max(abs(a), abs(b))), '{}: {} instead of {}', what, m, want)
            for x in ((True, rng), (False, rng)):
                r = circle_part(k, *x)
                if x[0]:
                    expect(isinstance(r, tuple) and len(r) == 2 and all(isinstance(y, np.ndarray) and y.size == n for y in r), '{}: separate coordinates {!r}', what, r)
                    r = np.column_stack([np.ravel(y) for y in r])
                expect(np.array_equal(np.asarray(r), m), '{}: separate {}: {} instead of {}', what, x[0], r, m)
        if rng is not None:
            expect(tuple(rng) == tuple(arc), '{}: arc changed', what)
        rec.outcome((arc is None, n > 2))


# -- sphere -----------------------------------------------------------------------------------
def keys(m):
    return np.round(np.asarray(m) * 2. ** 30).astype(np.int64)


def same_set(a, b, what, tol=1e-12):
    """Equality of two sets of points up to tol, by nearest neighbours."""
    from scipy.spatial import cKDTree
    expect(len(a) == len(b), '{}: {} points instead of {}', what, len(a), len(b))
    d, i = cKDTree(b).query(a)
    expect(np.max(d) <= tol and len(set(i.tolist())) == len(b), '{}: points differ by {}', what, np.max(d))


def mesh(v, f, what):
    """Closed consistently oriented surface around the origin; returns set of undirected edges."""
    n = len(v)
    expect(np.issubdtype(np.asarray(f).dtype, np.integer) and f.min() >= 0 and f.max() < n and len(set(f.ravel().tolist())) == n, '{}: bad indices of faces', what)
    de = {}
    for t in f.tolist():
        expect(len(set(t)) == 3, '{}: degenerate face {}', what, t)
        for i in range(3):
            e = (t[i], t[(i + 1) % 3])
            expect(e not in de, '{}: directed edge {} belongs to two faces', what, e)
            de[e] = 1
    for a, b in de:
        expect((b, a) in de, '{}: edge {} has one face only', what, (a, b))
    expect(n - len(de) // 2 + len(f) == 2, '{}: not a sphere', what)
    p, q, r = v[f[:, 0]], v[f[:, 1]], v[f[:, 2]]
    num = np.sum(p * np.cross(q, r), 1)
    expect(np.all(num > 0) or np.all(num < 0), '{}: orientation of faces is not the same', what)
    den = 1 + np.sum(p * q, 1) + np.sum(q * r, 1) + np.sum(p * r, 1)
    ang = 2 * np.sum(np.arctan2(np.abs(num), den))
    expect(abs(ang - 4 * math.pi) <= 1e-9, '{}: the surface covers the solid angle {}', what, ang)
    return {(a, b) for a, b in de if a < b}


def depth_cases(tier):
    return [[d] for d in range(0, 5 if tier == 'quick' else 7)]


def run_depth(case, rec):
    d = case[0]
    v, f = sphere_tri(d)
    what = 'sphere_tri({})'.format(d)
    for k in (float(d), np.int32(d), np.float64(d)):
        w, g = sphere_tri(k)
        expect(np.array_equal(v, w) and np.array_equal(f, g), '{}: differs for {!r}', what, k)
    expect(v.shape == (10 * 4 ** d + 2, 3) and f.shape == (20 * 4 ** d, 3), '{}: shapes {} {}', what, v.shape, f.shape)
    unit_rows(v, what)
    from scipy.spatial import cKDTree
    dist = cKDTree(v).query(v, k=2)[0][:, 1]
    expect(np.min(dist) > 0.5 / 2 ** d, '{}: vertices at distance {}', what, np.min(dist))
    mesh(v, f, what)
    if d == 0:
        w, g = icosahedron()
        expect(np.array_equal(v, w) and np.array_equal(f, g), 'sphere_tri(0) is not the icosahedron')
        el = {round(float(np.linalg.norm(v[t[i]] - v[t[i - 1]])), 12) for t in f.tolist() for i in range(3)}
        expect(len(el) == 1, 'icosahedron: edges of lengths {}', el)
        same_set(v, -v, 'icosahedron and its opposite')
    else:
        w, g = sphere_tri(d - 1)
        e = sorted(mesh(w, g, 'sphere_tri({})'.format(d - 1)))
        mid = np.array([w[a] + w[b] for a, b in e])
        mid = mid / np.sqrt(np.sum(mid * mid, 1))[:, None]
        same_set(v, np.vstack([w, mid]), what + ' against vertices and midpoints of depth {}'.format(d - 1))
        # the faces subdivide those of the previous depth
        from scipy.spatial import cKDTree as K
        tr = K(v)
        iw = tr.query(w)[1]
        im = dict(zip(e, tr.query(mid)[1]))

        def m(a, b):
            return int(im[(min(a, b), max(a, b))])
        want = set()
        for a, b, c in g.tolist():
            for t in ((iw[a], m(a, b), m(a, c)), (iw[b], m(a, b), m(b, c)), (iw[c], m(a, c), m(b, c)), (m(a, b), m(b, c), m(a, c))):
                want.add(tuple(sorted(int(x) for x in t)))
        expect({tuple(sorted(t)) for t in f.tolist()} == want, '{}: faces do not subdivide those of depth {}', what, d - 1)
    rec.outcome(d)


def ext_cases(tier):
    ns = list(range(1, 61)) + [100, 161, 162, 163, 200, 500, 641, 642, 643]
    if tier != 'quick':
        ns += list(range(61, 400)) + [2561, 2562, 2563, 10242]
    return [[n] for n in ns]


def run_ext(case, rec):
    n = case[0]
    for k in (n, float(n), np.int32(n), np.int64(n), np.float64(n)):
        what = 'sphere_tri_ext(2, {!r})'.format(k)
        base = circle_part(n)
        want = np.where(base == 0, EPS, base)
        v = sphere_tri_ext(2, k)
        expect(isinstance(v, np.ndarray) and v.shape == (n, 2), '{}: {!r}', what, v)
        v2, f2 = sphere_tri_ext(2, k, True)
        for w in (v, v2):
            expect(np.max(np.abs(w - want)) <= 1e-15 and not np.any(w == 0), '{}: {} instead of {}', what, w, want)
        expect([list(map(int, t)) for t in np.asarray(f2).tolist()] == [[i, (i + 1) % n] for i in range(n)], '{}: edges {}', what, f2)
        what = 'sphere_tri_ext(3, {!r})'.format(k)
        d = 1
        while 10 * 4 ** d + 2 < n:
            d += 1
        b, g = sphere_tri(d)
        want = np.where(b == 0, EPS, b)
        for flag in ((), (True,), (False,)):
            v3, f3 = sphere_tri_ext(3, k, *flag)
            expect(v3.shape == b.shape, '{}: {} points, expected {}', what, len(v3), len(b))
            expect(np.max(np.abs(v3 - want)) <= 1e-15 and np.array_equal(f3, g) and not np.any(v3 == 0), '{}: not the partition of depth {}', what, d)
    rec.outcome((d, n > 2))


def dirs_cases(tier):
    ns = list(range(1, 90)) + [160, 200, 320, 321, 322]
    if tier != 'quick':
        ns += list(range(90, 325)) + [400, 700, 1000, 1281, 1282]
    return [[n] for n in sorted(set(ns))]


def run_dirs(case, rec):
    n = case[0]
    m = sphere_part(n)
    what = 'sphere_part({})'.format(n)
    expect(isinstance(m, np.ndarray) and m.shape == (n, 3), '{}: shape {}', what, getattr(m, 'shape', None))
    unit_rows(m, what)
    if n > 1:
        g = np.abs(m @ m.T) - 2 * np.eye(n)
        expect(np.max(g) < 1 - 1e-4 / n, '{}: two directions are equal or opposite (product {})', what, np.max(g))
    expect(np.array_equal(m, sphere_part(n)), '{}: not reproducible', what)
    d = 1
    while 5 * 4 ** d + 1 < n:
        d += 1
    from scipy.spatial import cKDTree
    dist = cKDTree(sphere_tri(d)[0]).query(m)[0]
    expect(np.max(dist) <= 1e-12, '{}: a direction is at distance {} from the vertices of the partition of depth {}', what, np.max(dist), d)
    rec.outcome(n > 20)


BAD = [0, -1, -5, 1.5, 0.5, -0.5, 2.0000001, float('nan'), -float('inf'), float('inf')]


def bad_cases(tier):
    return [[i] for i in range(len(BAD))]


def run_bad(case, rec):
    x = BAD[case[0]]
    for k in (x, np.float64(x)):
        for dim in (2, 3):
            for fl in (False, True):
                if x != float('inf'):
                    expect_error(lambda: sphere_tri_ext(dim, k, fl), 'wrong_input', 'sphere_tri_ext({}, {!r})'.format(dim, k))
        if x < 0 or x != x or x != int(x) if abs(x) != float('inf') else x < 0:
            expect_error(lambda: sphere_tri(k), 'wrong_input', 'sphere_tri({!r})'.format(k))
        if x <= 0:
            expect_error(lambda: sphere_part(k), 'wrongInput:n_points', 'sphere_part({!r})'.format(k))
        elif x != float('inf'):
            try:
                r = sphere_part(k)
            except (ValueError, TypeError, IndexError):
                r = None
            expect(r is None, 'sphere_part({!r}) is accepted: {}', k, r)
    for k in (np.array([1, 2]), 'a', None, [3]):
        expect_error(lambda: sphere_tri(k), 'wrong_input', 'sphere_tri({!r})'.format(k))
        expect_error(lambda: sphere_tri_ext(3, k), 'wrong_input', 'sphere_tri_ext(3, {!r})'.format(k))
    rec.outcome(str(x))


CHECK = Check('C26', 'exploration',
              'all numbers of points 1..60 (thorough 1..400) x a menu of arcs, numbers of directions and grid sizes around every change of depth, depths 0..4 (thorough 0..6), all forms of the '
              'number; each grid against its defining equations and, as a mesh, edge by edge; non-trivial: at least 3 points / depth at least 1',
              generic('C26') +
              [Stage('circle', circle_cases, run_circle, nontrivial=lambda c: c[0] > 2, setup=reset),
               Stage('icosahedron refinements', depth_cases, run_depth, nontrivial=lambda c: c[0] > 0, setup=reset),
               Stage('grids by number of points', ext_cases, run_ext, nontrivial=lambda c: c[0] > 2, setup=reset),
               Stage('directions on the sphere', dirs_cases, run_dirs, nontrivial=lambda c: c[0] > 2, setup=reset),
               Stage('wrong numbers', bad_cases, run_bad, setup=reset)])
