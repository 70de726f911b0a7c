"""C12: membership of points in unions and intersections of ellipsoids."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import ARRAY_KINDS, FORM_KINDS, Ellipsoid, Properties, arr, ell, expect, expect_error, form, hyp, obj_array, reset, wrap

# ellipsoids as images c + B z, |z| <= 1 (B: list of columns, linearly independent)
B1 = [([0], [[1]]), ([2], [[-3]]), ([-1], [[Fr(1, 2)]]), ([1], [])]
B2 = [([0, 0], [[1, 0], [0, 1]]), ([1, -1], [[2, 1], [0, 1]]), ([2, 0], [[1, 2], [3, -1]]), ([0, 1], [[1, 1]]), ([-1, 0], [[0, 2]]), ([1, 1], []),
      ([-1, 2], [[Fr(1, 2), 0], [1, 3]])]
B3 = [([0, 0, 0], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), ([1, 0, -1], [[2, 1, 0], [0, 1, 1], [0, 0, 2]]), ([0, 1, 0], [[1, 1, 0], [0, 1, -1]]),
      ([0, 0, 1], [[1, -1, 2]]), ([1, 1, 1], []), ([-1, 0, 0], [[1, 0, 1], [1, 0, -1], [0, 3, 0]])]
MENU = {1: B1, 2: B2, 3: B3}


def shape_of(n, b):
    q = [[Fr(0)] * n for _ in range(n)]
    for v in b:
        q = ora.madd(q, ora.outer(v, v))
    return q


def member(c, b, x):
    """Exact: does x belong to c + B ball?"""
    d = [Fr(p) - Fr(q) for p, q in zip(x, c)]
    if not b:
        return not any(d)
    g = [[ora.dot(u, v) for v in b] for u in b]
    z = ora.solve(g, [ora.dot(u, d) for u in b])
    y = [sum((zi * Fr(v[i]) for zi, v in zip(z, b)), Fr(0)) for i in range(len(c))]
    return y == d and sum(t * t for t in z) <= 1


def build(n, i, **kw):
    c, b = MENU[n][i]
    return ell(shape_of(n, b), c, **kw)


def points(n, tier):
    """Integer and half-integer grid, and points of every ellipsoid: center, boundary, just inside and outside."""
    pts = ora.vecs(n, (0, 1, -1, 2, -3) if n < 3 else (0, 1, -1, 2))
    if n < 3:
        pts += [[Fr(x, 2) for x in v] for v in ora.vecs(n, (1, -1, 3))]
    for c, b in MENU[n]:
        k = len(b)
        zs = [[0] * k]
        for i in range(k):
            for s in (1, -1, Fr(9, 10), Fr(-11, 10)):
                z = [0] * k
                z[i] = s
                zs.append(z)
        if k >= 2:
            for u, v in ((Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(4, 5), Fr(-13, 20)), (Fr(-3, 5), Fr(-3, 4))):
                zs.append([u, v] + [0] * (k - 2))
                zs.append([v] + [0] * (k - 2) + [u])
        if k == 3:
            zs += [[Fr(1, 3), Fr(2, 3), Fr(-2, 3)], [Fr(2, 7), Fr(3, 7), Fr(6, 7)], [Fr(2, 3), Fr(2, 3), Fr(2, 3)]]
        for z in zs:
            pts.append([Fr(ci) + sum((zi * Fr(v[j]) for zi, v in zip(z, b)), Fr(0)) for j, ci in enumerate(c)])
    return [list(p) for p in dict.fromkeys(tuple(Fr(x) for x in p) for p in pts)]


_cache = {}


def table(n):
    """points and exact verdicts of every menu ellipsoid at every point."""
    if n not in _cache:
        p = points(n, 'quick')
        _cache[n] = (p, arr(ora.T(p)), [[member(c, b, x) for x in p] for c, b in MENU[n]])
    return _cache[n]


def verdicts(a, pts, mode, m, what):
    r = Ellipsoid.is_internal(a, pts, mode)
    r = np.asarray(r)
    expect(r.dtype == bool and r.size == m, '{}: {} verdicts of type {} for {} points', what, r.size, r.dtype, m)
    return np.ravel(r).tolist()


def check(a, idx, n, mode, what, sel=None):
    p, pm, tab = table(n)
    sel = range(len(p)) if sel is None else sel
    op = any if mode == 'u' else all
    want = [op(tab[i][j] for i in idx) for j in sel]
    got = verdicts(a, pm[:, list(sel)], mode, len(want), what)
    for j, g, w in zip(sel, got, want):
        expect(g == w, '{}, mode {}: point {} is {}', what, mode, [float(t) for t in p[j]], 'inside' if g else 'outside')


def set_cases(tier):
    for n in (1, 2, 3):
        k = len(MENU[n])
        for r in (1, 2, 3) if n < 3 or tier != 'quick' else (1, 2):
            for idx in itertools.product(range(k), repeat=r) if r < 3 else itertools.combinations(range(k), r):
                for mode in 'ui':
                    yield [n, list(idx), mode]


def run_set(case, rec):
    n, idx, mode = case
    p = table(n)[0]
    sel = list(range(sum(idx) % len(idx), len(p), len(idx)))
    a = obj_array([build(n, i) for i in idx], (len(idx),))
    check(a, idx, n, mode, 'ellipsoids {}'.format([MENU[n][i] for i in idx]), sel)
    rec.outcome((n, len(idx), mode))


def shape_cases(tier):
    for shp in ([1], [1, 1], [2, 1], [1, 2], [3, 1], [1, 3], [2, 2], [4], [1, 2, 2], [2, 3], [2, 1, 2]):
        for n in (1, 2, 3):
            for mode in 'ui':
                for off in range(3):
                    yield [shp, n, mode, off]
    for kind in ARRAY_KINDS:
        for n in (1, 2, 3):
            for mode in 'ui':
                yield [kind, n, mode, 1]


def run_shape(case, rec):
    shp, n, mode, off = case
    p = table(n)[0]
    m = len(p)
    if isinstance(shp, str):
        idx = [off]
        a = wrap(build(n, off), shp)
    else:
        idx = [(off + 2 * i) % len(MENU[n]) if mode == 'u' else [0, 1][(off + i) % 2] for i in range(int(np.prod(shp)))]
        a = obj_array([build(n, i) for i in idx], tuple(shp))
    what = 'container {}'.format(shp)
    check(a, idx, n, mode, what, list(range(off, m, 4)))
    for j in range(off, m, 11):                  # one point, and the same point several times
        check(a, idx, n, mode, what, [j])
        check(a, idx, n, mode, what, [j, (j + 1) % m, j])
    ints = [j for j in range(m) if all(t.denominator == 1 for t in p[j])]
    for k in FORM_KINDS:
        if k != 'complex0':
            pm = form(ora.T([p[j] for j in ints]), k)
            tab = table(n)[2]
            op = any if mode == 'u' else all
            before = pm.copy()
            expect(verdicts(a, pm, mode, len(ints), what) == [op(tab[i][j] for i in idx) for j in ints], '{}: points given as {}', what, k)
            expect(np.array_equal(pm, before), '{}: points were changed', what)
    rec.outcome((str(shp), n))


def tol_cases(tier):
    for n in (1, 2, 3):
        for i in range(len(MENU[n])):
            if len(MENU[n][i][1]) == n:
                for tol in (1e-2, 1e-5, 1e-7):
                    for f in (0.5, 2, -2):
                        for mode in 'ui':
                            yield [n, i, tol, f, mode]


def run_tol(case, rec):
    """Boundary points within the absolute tolerance of the ellipsoid itself."""
    n, i, tol, f, mode = case
    c, b = MENU[n][i]
    e = build(n, i, abs_tol=tol)
    far = ell(ora.eye(n), [100] * n, abs_tol=1.)
    big = ell(ora.mscal(10000, ora.eye(n)), [0] * n, abs_tol=1e-9)
    Properties.set_abs_tol(1e-4)
    x = []
    for z in [[(1 if j == k else 0) for j in range(n)] for k in range(n)] + ([[-.6, .8] + [0] * (n - 2)] if n > 1 else []):
        x.append([float(c[r]) + (1 + f * tol) * sum(z[j] * float(b[j][r]) for j in range(n)) for r in range(n)])
    pm = arr(x).T.copy()
    a = [e, far] if mode == 'u' else [big, e]
    got = verdicts(a, pm, mode, len(x), 'tolerance')
    expect(got == [f < 1] * len(x), 'points at {} tolerances from the boundary of {}: {}', f, MENU[n][i], got)
    rec.outcome(f)


def bad_cases(tier):
    for i in range(12):
        yield i


def run_bad(i, rec):
    e1, e2, e3 = build(1, 0), build(2, 0), build(3, 0)
    p2 = arr([[1, 0], [0, 2]])
    if i == 0:
        expect_error(lambda: Ellipsoid.is_internal([e2], np.array([['a', 'b'], ['c', 'd']]), 'u'), 'wrongInput', 'text points')
    elif i == 1:
        expect_error(lambda: Ellipsoid.is_internal([e3], p2, 'u'), 'wrongSizes', 'points of other dimension')
        expect_error(lambda: Ellipsoid.is_internal([e1], p2, 'i'), 'wrongSizes', 'points of other dimension')
    elif i in (2, 3):
        m = 'ui'[i - 2]
        expect_error(lambda: Ellipsoid.is_internal([e2, e3], p2, m), 'wrongSizes', 'ellipsoids of different dimensions')
        expect_error(lambda: Ellipsoid.is_internal([e3, e2], p2, m), 'wrongSizes', 'ellipsoids of different dimensions')
    elif i in (4, 5):
        m = 'ui'[i - 4]
        expect_error(lambda: Ellipsoid.is_internal([e2, Ellipsoid()], p2, m), 'emptyEllipsoid', 'an empty ellipsoid')
        expect_error(lambda: Ellipsoid.is_internal([Ellipsoid()], p2, m), 'emptyEllipsoid', 'an empty ellipsoid')
    elif i in (6, 7):
        expect_error(lambda: Ellipsoid.is_internal(np.empty((0,) if i == 6 else (0, 2), dtype=object), p2, 'u'), 'emptyArray', 'an empty array')
    elif i == 8:
        for m in ('', 'x', 'ui', 'U', 'union'):
            expect_error(lambda: Ellipsoid.is_internal([e2], p2, m), 'wrongInput', 'mode {!r}'.format(m))
    elif i == 9:
        expect_error(lambda: Ellipsoid.is_internal([hyp([1, 2], 1)], p2, 'u'), 'wrongInput', 'a hyperplane')
        expect_error(lambda: Ellipsoid.is_internal(5, p2, 'u'), 'wrongInput', 'a number')
    elif i == 10:
        for m in 'ui':
            verdicts([e2], np.zeros((2, 0)), m, 0, 'no points')
    else:
        for m in 'ui':
            expect_error(lambda: Ellipsoid.is_internal([e2], np.zeros((3, 0)), m), 'wrongSizes', 'no points of other dimension')
    rec.outcome(i)


def scale_cases(tier):
    for n in (1, 2, 3):
        for i in range(len(MENU[n])):
            for s in (-20, -8, 8, 20):
                yield [n, i, s]


def run_scale(case, rec):
    """Verdicts do not depend on the scale (as long as the ellipsoid is not degenerate at that scale)."""
    n, i, s = case
    c, b = MENU[n][i]
    k = Fr(2) ** s
    if len(b) < n:
        rec.outcome('skipped')
        return
    e = ell(ora.mscal(k * k, shape_of(n, b)), ora.scal(k, c), abs_tol=1e-14 if s < 0 else 1e-6)
    p, pm, tab = table(n)
    for mode in 'ui':
        got = verdicts([e], pm * float(k), mode, len(p), 'scaled')
        for x, g, w in zip(p, got, tab[i]):
            expect(g == w, 'ellipsoid {} scaled by 2^{}: point {} is {}', MENU[n][i], s, [float(t) for t in x], 'inside' if g else 'outside')
    rec.outcome(s)


def uneven_cases(tier):
    for n in (2, 3):
        for i in range(len(MENU[n])):
            for d in (1e-9, -1e-8):
                yield [n, i, d]


def run_uneven(case, rec):
    """Shape matrices that are symmetric only up to the tolerance: every clear verdict is the same."""
    n, i, d = case
    c, b = MENU[n][i]
    q = arr(shape_of(n, b)) * 1.
    q[0, n - 1] += d
    e = Ellipsoid(arr(c) * 1., q)
    p, pm, tab = table(n)
    sel = [j for j in range(len(p)) if member(c, b, p[j]) == member(c, b, [Fr(ci) + (x - Fr(ci)) * (Fr(101, 100) if tab[i][j] else Fr(99, 100)) for x, ci in zip(p[j], c)])]
    for mode in 'ui':
        got = verdicts([e], pm[:, sel], mode, len(sel), 'uneven')
        for j, g in zip(sel, got):
            expect(g == tab[i][j], 'ellipsoid {} with an asymmetry of {}: point {} is {}', MENU[n][i], d, [float(t) for t in p[j]], 'inside' if g else 'outside')
    rec.outcome((len(b) < n, d > 0))


CHECK = Check('C12', 'exploration',
              'all arrays of one, two and three ellipsoids from menus including degenerate ones x a grid of points with exact boundary points x both modes; '
              'all containers; distances from the boundary around the tolerance; non-trivial: several ellipsoids or dimension above one',
              generic('C12') +
              [Stage('sets', set_cases, run_set, nontrivial=lambda c: c[0] > 1 or len(c[1]) > 1, setup=reset),
               Stage('containers', shape_cases, run_shape, setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('scales', scale_cases, run_scale, nontrivial=lambda c: len(MENU[c[0]][c[1]][1]) == c[0], setup=reset),
               Stage('uneven', uneven_cases, run_uneven, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
