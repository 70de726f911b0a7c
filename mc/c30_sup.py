"""C30: boundaries and geometric differences from support functions."""
import itertools
import math
from fractions import Fraction

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import expect, expect_error, reset
from ellipy.gras.geom.sup.sup import sup_2_boundary_2, sup_2_boundary_3, sup_geom_diff_2d, sup_geom_diff_3d
from ellipy.gras.geom.tri.tri import sphere_tri

D16 = [(1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1), (-2, 1), (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1), (1, -2), (1, -1), (2, -1)]
D8 = D16[::2]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def around(ds):
    """Directions in cyclic order positively span the plane: every turn is less than a half."""
    return all(cross(ds[i - 1], ds[i]) > 0 for i in range(len(ds)))


def fam2(tier):
    for k in (3, 4, 5):
        for ds in itertools.combinations(D8, k):
            if around(ds):
                yield ds
    n = 0
    for k in (3, 4, 5, 6, 8):
        for ds in itertools.combinations(D16, k):
            n += 1
            if n % {3: 3, 4: 17, 5: 61, 6: 101, 8: 301}[k] == 0 and around(ds):
                yield ds
    yield D16
    yield D8


# -- boundaries -------------------------------------------------------------------------------
def bnd_cases(tier):
    for i, ds in enumerate(fam2(tier)):
        yield [list(map(list, ds)), i]


def run_bnd(case, rec):
    ds, i = case
    k = len(ds)
    vals = itertools.product((-1, 0, 1, 3), repeat=k) if k <= 3 else [[((j * j * (s + 1) + j * s + s) % 7) - 2 for j in range(k)] for s in range(14)]
    for r in range(k if k < 6 else 2):
        cyc = ds[r:] + ds[:r]
        for s, v in enumerate(vals if r == 0 else [[1] * k, list(range(k))]):
            for f in ((1., 1.), (2. ** -20, 1.), (1., 2. ** 20))[:1 + 2 * (s % 3 == 0)]:
                dm = np.array(cyc, dtype=float) * f[0]
                sv = np.array(v, dtype=float) * f[1]
                kd, kv = dm.copy(), sv.copy()
                x = sup_2_boundary_2(dm, sv)
                what = 'boundary for directions {} and values {}'.format(cyc, list(v))
                expect(x.shape == (k, 2), '{}: shape {}', what, x.shape)
                expect(np.array_equal(dm, kd) and np.array_equal(sv, kv), '{}: arguments changed', what)
                for j in range(k):
                    a, b = cyc[j], cyc[(j + 1) % k]
                    p, q = v[j], v[(j + 1) % k]
                    det = cross(a, b)
                    want = [Fraction(p * b[1] - q * a[1], det), Fraction(a[0] * q - b[0] * p, det)]
                    for c in range(2):
                        w = float(want[c]) * f[1] / f[0]
                        expect(abs(x[j, c] - w) <= 1e-10 * (1 + 4 * max(map(abs, v))) * f[1] / f[0], '{}: point {} is {} instead of {}', what, j, x[j].tolist(), want)
        for g in (np.asfortranarray(np.array(cyc, dtype=float)), np.array(cyc)):
            y = sup_2_boundary_2(g, np.arange(k))
            expect(np.max(np.abs(y - sup_2_boundary_2(np.array(cyc, dtype=float), np.arange(k) * 1.))) <= 1e-9, 'boundary for directions {} in another form', cyc)
    rec.outcome(k)


def fine_cases(tier):
    for n in (100, 256, 320, 629, 1000, 3000) + ((10000, 40000) if tier != 'quick' else ()):
        for kind in ('ellipse', 'box', 'point'):
            for start in (0, 1.3):
                yield ['even', n, kind, start]
    for k in range(1, 7 if tier == 'quick' else 8):
        for kind in ('ellipse', 'box', 'point'):
            yield ['near', k, kind, 0.7]


def run_fine(case, rec):
    """Fine partitions and neighbouring directions close together: every point lies on both supporting lines."""
    how, n, kind, start = case
    if how == 'even':
        t = start + 2 * np.pi * np.arange(n) / n
    else:
        t = start + np.array([0, 10. ** -n, 1, 1 + 10. ** -n, 2.5, 4, 4 + 10. ** -n, 5])
    d = np.column_stack([np.cos(t), np.sin(t)])
    if kind == 'ellipse':
        v = np.sqrt(4 * d[:, 0] ** 2 + d[:, 1] ** 2) + d[:, 0]
    elif kind == 'box':
        v = np.abs(d[:, 0]) + 3 * np.abs(d[:, 1])
    else:
        v = d @ np.array([2., -1.])
    x = sup_2_boundary_2(d, v)
    what = 'boundary for {} directions ({}) of a {}'.format(len(d), case, kind)
    expect(x.shape == d.shape, '{}: shape {}', what, x.shape)
    e = d[(np.arange(len(d)) + 1) % len(d)]
    w = np.roll(v, -1)
    det = d[:, 0] * e[:, 1] - d[:, 1] * e[:, 0]
    want = np.column_stack([(v * e[:, 1] - w * d[:, 1]) / det, (d[:, 0] * w - e[:, 0] * v) / det])
    err = np.max(np.abs(x - want), 1) * np.abs(det)
    j = int(np.argmax(err))
    expect(err[j] <= 1e-13 * 8, '{}: point {} is {} instead of {}', what, j, x[j].tolist(), want[j].tolist())
    rec.outcome((how, kind))


D3 = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1), (-1, -1, -1)]


def det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def cramer3(a, b, c, p, q, r):
    """Numerators and denominator of the point with products p, q, r with a, b, c."""
    d = det3(a, b, c)
    if d == 0:
        return None
    x = det3((p, a[1], a[2]), (q, b[1], b[2]), (r, c[1], c[2]))
    y = det3((a[0], p, a[2]), (b[0], q, b[2]), (c[0], r, c[2]))
    z = det3((a[0], a[1], p), (b[0], b[1], q), (c[0], c[1], r))
    return ((x, y, z), d) if d > 0 else ((-x, -y, -z), -d)


def bnd3_cases(tier):
    t = [f for f in itertools.combinations(range(len(D3)), 3) if det3(*[D3[j] for j in f])]
    for i in range(0, len(t), 6 if tier == 'quick' else 2):
        yield [list(map(list, t[i:i + 12])), i]


def run_bnd3(case, rec):
    fs, i = case
    dm = np.array(D3, dtype=float)
    for s in range(8):
        v = [((j * j * (s + 1) + j * (s + i) + s) % 9) - 2 for j in range(len(D3))]
        for fa in (fs, [[t[1], t[2], t[0]] for t in fs][::-1], fs[:1]):
            for m, sc in ((dm, 1.), (np.asfortranarray(dm), 1.), (dm * 2. ** -20, 2. ** 20), (dm * 2. ** 20, 2. ** -20)):
                fm, sv = np.array(fa), np.array(v, dtype=float)
                x = sup_2_boundary_3(m, sv, fm)
                what = 'boundary in space for faces {} and values {}'.format(fa, v)
                expect(x.shape == (len(fa), 3) and np.array_equal(fm, np.array(fa)) and np.array_equal(sv, v), '{}: shape {} or changed arguments', what, x.shape)
                for j, t in enumerate(fa):
                    num, den = cramer3(*[D3[c] for c in t], *[v[c] for c in t])
                    for c in range(3):
                        w = num[c] / den * sc
                        expect(abs(x[j, c] - w) <= 1e-10 * 30 * sc, '{}: point {} is {} instead of {} / {}', what, j, x[j].tolist(), num, den)
    rec.outcome(len(fs))


def ball_cases(tier):
    return [[d] for d in range(0, 2 if tier == 'quick' else 4)]


def run_ball(case, rec):
    """Ellipsoid on the sphere grid and circle: every point has the given products with its three (two) directions."""
    v, f = sphere_tri(case[0])
    for q in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[4, 1, 0], [1, 9, 2], [0, 2, 3]]):
        q = np.array(q, dtype=float)
        s = np.sqrt(np.sum((v @ q) * v, 1)) + v @ np.array([1., -2., 3.])
        x = sup_2_boundary_3(v, s, f)
        for j in range(len(f)):
            expect(np.max(np.abs(v[f[j]] @ x[j] - s[f[j]])) <= 1e-9, 'boundary of an ellipsoid on sphere_tri({}): face {}', case[0], j)
    rec.outcome(case[0])


# -- differences ------------------------------------------------------------------------------
def support2(ds, d):
    """Exact support function of {x: <x, l_i> <= d_i} in the directions l_i, with all d_i > 0."""
    best = [None] * len(ds)
    for i, j in itertools.combinations(range(len(ds)), 2):
        det = cross(ds[i], ds[j])
        if det == 0:
            continue
        x, y = d[i] * ds[j][1] - d[j] * ds[i][1], ds[i][0] * d[j] - ds[j][0] * d[i]
        if det < 0:
            x, y, det = -x, -y, -det
        pr = [x * a + y * b for a, b in ds]
        if all(p <= t * det for p, t in zip(pr, d)):
            for k, p in enumerate(pr):
                z = Fraction(p, det)
                if best[k] is None or z > best[k]:
                    best[k] = z
    return best


def support3(ds, d):
    best = [None] * len(ds)
    for i, j, k in itertools.combinations(range(len(ds)), 3):
        c = cramer3(ds[i], ds[j], ds[k], d[i], d[j], d[k])
        if c is None:
            continue
        (x, y, z), det = c
        pr = [x * a + y * b + z * e for a, b, e in ds]
        if all(p <= t * det for p, t in zip(pr, d)):
            for m, p in enumerate(pr):
                w = Fraction(p, det)
                if best[m] is None or w > best[m]:
                    best[m] = w
    return best


def shapes(v):
    v = np.array(v, dtype=float)
    return [v, v.reshape(-1, 1), v.reshape(1, -1)]


def check_diff(f, ds, d, want, n, what):
    """d and want: integers and exact results."""
    k = len(ds)
    lm = np.array(ora.T([list(x) for x in ds]), dtype=float)
    rho2 = [((n + 3 * j) % 4) - 1 for j in range(k)]
    rho1 = [a + b for a, b in zip(d, rho2)]
    s1, s2 = shapes(rho1)[n % 3], shapes(rho2)[(n // 3) % 3]
    l_in = [lm, np.asfortranarray(lm), lm.astype(int)][n % 3]
    keep = s1.copy(), s2.copy(), l_in.copy()
    w = np.array([float(x) for x in want])
    got = f(s1, s2, l_in)
    expect(all(np.array_equal(a, b) for a, b in zip((s1, s2, l_in), keep)), '{}: arguments changed', what)
    expect(isinstance(got, np.ndarray) and got.shape == (k,), '{}: {!r}', what, got)
    tol = 1e-10 * max(d) * 10
    expect(np.all(np.abs(got - w) <= tol), '{}: {} instead of {}', what, got.tolist(), [str(x) for x in want])
    expect(np.all(got <= np.array(d) + tol), '{}: exceeds the difference of the values', what)
    again = f(got, np.zeros(k), lm)
    expect(np.all(np.abs(again - got) <= tol), '{}: {} is not kept: {}', what, got.tolist(), again.tolist())
    if n % 4 == 0:
        for a, b in ((2. ** 30, 1.), (2. ** -30, 1.), (1., 2. ** 20), (1., 2. ** -20)):
            g = f(np.array(d) * a, np.zeros(k), lm * b)
            expect(np.all(np.abs(g - w * a) <= tol * a), '{}: scaled by {} and {}: {} instead of {}', what, a, b, g.tolist(), (w * a).tolist())


def diff2_cases(tier):
    for i, ds in enumerate(fam2(tier)):
        yield [list(map(list, ds)), i, int(tier == 'quick')]


def run_diff2(case, rec):
    ds, i, quick = case
    k = len(ds)
    al = (1, 2, 5)
    if k <= 4:
        vals = list(itertools.product(al, repeat=k))
    else:
        vals = [[al[(j * j * (s + 1) + j * s + s // 2 + i) % 3] for j in range(k)] for s in range(24)]
        vals += [[7 if j == s else 1 for j in range(k)] for s in range(k)] + [[1 if j == s else 9 for j in range(k)] for s in range(k)]
    if quick:
        vals = vals[i % 3::3] if k <= 4 else vals[i % 2::2]
    for s, d in enumerate(vals):
        # the order of directions does not matter
        p = [(j * q + s) % k for q in [next(z for z in range(1 + s % 4, 40) if math.gcd(z, k) == 1)] for j in range(k)]
        es, e = [ds[j] for j in p], [d[j] for j in p]
        want = support2(es, e)
        check_diff(sup_geom_diff_2d, es, e, want, s + i, 'difference for directions {} and values {}'.format(es, e))
        rec.outcome((k, sum(a != b for a, b in zip(want, e))))
    # repeated and proportional directions
    for m in (1, 2):
        es, e = ds + [[m * x for x in ds[i % k]]], [2] * k + [3]
        check_diff(sup_geom_diff_2d, es, e, support2(es, e), i, 'difference for repeated directions {} and values {}'.format(es, e))


def fam3(tier):
    yield list(range(6))
    yield list(range(6, 14))
    yield list(range(14))
    yield [0, 2, 4, 13]
    yield [6, 11, 12, 10]
    n = 0
    for k in (5, 6, 7, 8):
        for t in itertools.combinations(range(14), k):
            n += 1
            if n % ({5: 11, 6: 17, 7: 23, 8: 29} if tier == 'quick' else {5: 1, 6: 2, 7: 3, 8: 3})[k] == 0:
                yield list(t)


def bounded3(ds):
    """The directions positively span the space."""
    for a, b in itertools.combinations(ds, 2):
        n = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        if any(n):
            s = [sum(x * y for x, y in zip(n, c)) for c in ds]
            if all(x <= 0 for x in s) or all(x >= 0 for x in s):
                return False
    return any(det3(*t) for t in itertools.combinations(ds, 3))


def diff3_cases(tier):
    for i, t in enumerate(fam3(tier)):
        if bounded3([D3[j] for j in t]):
            yield [t, i]


def run_diff3(case, rec):
    t, i = case
    ds = [D3[j] for j in t]
    k = len(ds)
    vals = [[(1, 2, 5)[(j * j * (s + 1) + j * s + s // 2 + i) % 3] for j in range(k)] for s in range(16)]
    vals += [[1] * k] + [[7 if j == s else 1 for j in range(k)] for s in range(k)] + [[1 if j == s else 9 for j in range(k)] for s in range(k)]
    for s, d in enumerate(vals):
        want = support3(ds, d)
        check_diff(sup_geom_diff_3d, ds, d, want, s + i, 'difference for directions {} and values {}'.format(ds, d))
        rec.outcome((k, sum(a != b for a, b in zip(want, d))))


def bad_cases(tier):
    return [[dim, i] for dim in (2, 3) for i in range(12)]


def run_bad(case, rec):
    dim, i = case
    f, ds = (sup_geom_diff_2d, D8) if dim == 2 else (sup_geom_diff_3d, D3)
    lm = np.array(ds, dtype=float).T
    k = lm.shape[1]
    one, two = np.ones(k), 2 * np.ones(k)
    other = np.array(D3 if dim == 2 else D8, dtype=float).T
    o = other.shape[1]
    if i < 8:
        for x in (0., -1., -1e-9):
            r = two.copy()
            r[i % k] = 1. + x
            for a, b in zip(shapes(r), shapes(one)):
                expect_error(lambda: f(a, b, lm), 'wrongInput:rho_diff_vec', 'difference {} in direction {}'.format(x, i))
    elif i == 8:
        expect_error(lambda: f(2 * np.ones(o), np.ones(o), other), 'wrongInput:l_mat', 'wrong dimension')
        expect_error(lambda: f(np.ones(2) * 2, np.ones(2), np.array([[1., -1.]])), 'wrongInput:l_mat', 'dimension 1')
    elif i == 9:
        for a, b in ((two[1:], one), (two, one[1:]), (two[1:], one[1:]), (np.append(two, 1.), np.append(one, 0.5))):
            expect_error(lambda: f(a, b, lm), 'wrongInput:rho', 'lengths {} {}'.format(len(a), len(b)))
    elif i == 10:
        for a, b in ((np.ones((k, k)), one), (two, np.ones((2, k)) / 2)):
            expect_error(lambda: f(a, b, lm), 'wrongInput:rho', 'matrices of values')
    else:
        for m in (lm[0], lm.reshape(lm.shape + (1,))):
            expect_error(lambda: f(two, one, m), 'wrongInput:l_mat', 'not a matrix of directions')
    rec.outcome((dim, i))


CHECK = Check('C30', 'exploration',
              'plane: all families of 3..5 directions out of 8 around the origin and selected ones of 3..16 out of 16 x all or many vectors of values, rotations and orders; space: families out of 14 '
              'directions; polygons and polytopes enumerated exactly by vertices; non-trivial: at least 4 directions',
              generic('C30') +
              [Stage('boundary in the plane', bnd_cases, run_bnd, nontrivial=lambda c: len(c[0]) > 3, setup=reset),
               Stage('fine partitions', fine_cases, run_fine, setup=reset),
               Stage('boundary in space', bnd3_cases, run_bnd3, setup=reset),
               Stage('boundary of ellipsoids', ball_cases, run_ball, setup=reset),
               Stage('difference in the plane', diff2_cases, run_diff2, nontrivial=lambda c: len(c[0]) > 3, setup=reset),
               Stage('difference in space', diff3_cases, run_diff3, setup=reset),
               Stage('wrong input', bad_cases, run_bad, setup=reset)])
