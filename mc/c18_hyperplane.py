"""C18: hyperplanes: membership, parallelism, dimension."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import ARRAY_KINDS, FORM_KINDS, Hyperplane, Properties, arr, ell, expect, expect_error, fail, form, hyp, obj_array, reset, shp_of, snap, wrap

INF = float('inf')


def holds(v, s, x, tol=1e-6):
    """Exact membership; x may have infinite entries."""
    t = Fr(0)
    for a, b in zip(v, x):
        if abs(b) == INF:
            if a != 0:
                return False
        else:
            t += Fr(a) * Fr(b)
    return abs(t - Fr(s)) < tol


def bools(r, shp, what):
    r = np.asarray(r)
    expect(r.dtype == bool, '{}: {!r}', what, r)
    expect(r.shape == tuple(shp), '{}: verdicts of shape {} instead of {}', what, r.shape, tuple(shp))
    return r.ravel().tolist()


def hyps(n, tier):
    if n == 1:
        vs = [[1], [-2], [0], [3]]
    elif n == 2:
        vs = ora.vecs(2, (0, 1, -1, 2))
    elif n == 3:
        vs = ora.vecs(3, (0, 1, -2))
    else:
        vs = [[1, 0, 0, 0], [0, 0, 0, -1], [1, 1, -1, 2], [0, 2, 0, -1]]
    return [(v, s) for v in vs for s in (0, 1, -3)]


def pts(n, tier):
    if n == 1:
        return [[x] for x in (0, 1, -1, 3, -3, 2, Fr(1, 2), INF, -INF)]
    if n == 2:
        return ora.vecs(2, (0, 1, -1, 3, -3, INF)) + [[-INF, INF], [0, -INF], [Fr(1, 2), Fr(-1, 2)], [100, -99]]
    if n == 3:
        return ora.vecs(3, (0, 1, -1, INF)) + [[3, 0, 0], [0, 0, -3], [2, -1, 3], [-INF, 1, INF]] + (ora.vecs(3, (0, 2, -3)) if tier != 'quick' else [])
    return ora.vecs(4, (0, 1, INF))[::3] + [[1, 1, 1, 1], [3, -1, 2, 0], [0, 0, 0, 3], [-3, 0, 0, 0], [0, 1, -INF, 2]]


def mem_cases(tier):
    for n in (1, 2, 3, 4):
        for v, s in hyps(n, tier):
            yield [n, v, s, tier]


def run_mem(case, rec):
    n, v, s, tier = case
    p = pts(n, tier)
    m = len(p)
    if n == 1 and v == [0] and s == 0:
        rec.outcome('empty')
        return
    for sc in (1, Fr(1, 2 ** 10), 2 ** 10):
        vv, ss = ora.scal(sc, v), s * Fr(sc)
        h = hyp(vv, ss)
        before = snap(h)
        what = 'hyperplane {} {}'.format(ora.fl(vv), float(ss))
        pm = arr(ora.T(p))
        want = [holds(vv, ss, x) for x in p]
        got = bools(Hyperplane.contains([h], pm), (m,), what)
        for x, g, w in zip(p, got, want):
            expect(g == w, '{} contains {}: {}', what, ora.fl(x), g)
        for j in range(m):
            got = bools(Hyperplane.contains([h], pm[:, j:j + 1]), (1,), what)
            expect(got == [want[j]], '{} contains {}: {}', what, ora.fl(p[j]), got)
        for j in range(0, m, 5):
            got = bools(Hyperplane.contains(h, pm[:, j].copy()), (), what)
            expect(got == [want[j]], '{} contains {}: {}', what, ora.fl(p[j]), got)
        expect(np.array_equal(pm, arr(ora.T(p))) and snap(h) == before, '{}: the arguments changed', what)
        rec.outcome((n, any(want), all(want)))


def small_cases(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for v in itertools.product((0, 1e-7, -1e-7, 1e-20, 1., -0.5), repeat=n):
            if any(abs(a) > 0.1 for a in v):
                yield list(v)


def run_small(v, rec):
    """Infinite coordinates against components of the normal that are small but not zero."""
    n = len(v)
    p = ora.vecs(n, (0, 1, INF, -INF))
    for tol in (1e-6, 1e-3, 1e-9):
        h = hyp(v, 1., abs_tol=tol)
        pm = arr(ora.T(p))
        keep = pm.copy()
        got = bools(Hyperplane.contains([h], pm), (len(p),), 'normal {}'.format(v))
        expect(np.array_equal(pm, keep), 'normal {}: the points were changed', v)
        for x, g in zip(p, got):
            d = abs(abs(sum(a * b for a, b in zip(v, x) if abs(b) != INF) - 1.) - tol)
            if d > 1e-12:
                expect(g == holds(v, 1, x, tol), 'hyperplane {} 1 (tolerance {}) contains {}: {}', v, tol, x, g)
        one = pm[:, -1:].copy()
        Hyperplane.contains([h, hyp(v, 2.)], one)
        expect(np.array_equal(one, pm[:, -1:]), 'normal {}: the point was changed', v)
    rec.outcome(n)


def tol_cases(tier):
    for n in (1, 2, 3):
        for tol in (1e-8, 1e-6, 1e-3):
            for f in (0.3, -0.3, 0.9, -0.9, 1.1, -1.1, 3, -3):
                for k in range(4):
                    yield [n, tol, f, k]


def run_tol(case, rec):
    n, tol, f, k = case
    v = [[1, 0, 0], [1, -1, 2], [0, 0, 1], [-2, 1, 0]][k][:n]
    if not any(v):
        v[-1] = 1
    s = [0, 1, -2, 3][k]
    x = [float(a) * s / ora.dot(v, v) for a in v]
    j = next(i for i in range(n) if v[i])
    x[j] += f * tol / v[j]
    h = hyp(v, s, abs_tol=tol)
    for conf in (1e-9, 1e-1):
        Properties.set_abs_tol(conf)
        got = bools(Hyperplane.contains([h], arr(x).reshape(-1, 1)), (1,), 'tolerance')
        expect(got == [abs(f) < 1], 'hyperplane {} {} with tolerance {}: point at {} tolerances is {}', v, s, tol, f, got)
        other = hyp(v, s, abs_tol=tol * 100)
        got = bools(Hyperplane.contains([h, other], arr([x, x]).T.copy()), (2,), 'tolerance')
        expect(got == [abs(f) < 1, True], 'hyperplanes with tolerances {} and {}: point at {} tolerances: {}', tol, tol * 100, f, got)
    rec.outcome(abs(f) < 1)


HS = [([1, 2], 3), ([0, 1], 1), ([-1, 1], 0), ([2, -1], 5), ([1, 0], 1)]
XS = [[1, 1], [3, 0], [0, 0], [2, -1], [1, 5], [-1, 1], [INF, 1]]
XSH = [(1,), (2,), (3,), (4,), (6,), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 1), (1, 3)]
HSH = [(1,), (1, 1), (2,), (1, 2), (2, 1), (3,), (3, 1), (1, 3), (4,), (2, 2), (2, 3), (6,), (1, 1, 1)]


def pair_cases(tier):
    for hs in HSH:
        for xs in [()] + XSH:
            for off in range(3 if tier == 'quick' else 5):
                yield [list(hs), list(xs), off]
    for k in ARRAY_KINDS:
        for xs in [()] + XSH:
            yield [k, list(xs), 2]


def run_pair(case, rec):
    hs, xs, off = case
    if isinstance(hs, str):
        hl = [HS[off]]
        a, hs = wrap(hyp(*hl[0]), hs), shp_of(hs)
    else:
        hl = [HS[(off + i) % 5] for i in range(int(np.prod(hs)))]
        a = obj_array([hyp(*h) for h in hl], tuple(hs))
    nx = int(np.prod(xs))
    xl = [XS[(2 * off + i) % 7] for i in range(nx)]
    x = np.ascontiguousarray(arr(xl).T.reshape([2] + list(xs)))
    what = 'hyperplanes of shape {} with points of shape {}'.format(tuple(hs), x.shape)
    before = x.copy()
    if nx == 1:
        want, shp = [holds(v, s, xl[0]) for v, s in hl], tuple(hs)
    elif len(hl) == 1:
        want, shp = [holds(*hl[0], p) for p in xl], tuple(xs)
    elif nx == len(hl):
        want, shp = [holds(v, s, p) for (v, s), p in zip(hl, xl)], tuple(xs)
    else:
        expect_error(lambda: Hyperplane.contains(a, x), 'wrongSizes', what)
        rec.outcome('rejected')
        return
    got = bools(Hyperplane.contains(a, x), shp, what)
    expect(got == want, '{} {} {}: {} instead of {}', what, hl, xl, got, want)
    expect(np.array_equal(x, before), '{}: the points changed', what)
    if len(tuple(xs)) == 1 and nx > 0:
        for k in FORM_KINDS:
            if k == 'complex0' or (k == 'int' and not bool(np.all(np.isfinite(x)))):
                continue
            got = bools(Hyperplane.contains(a, form(x, k) if k != 'int' else x.astype(int)), shp, what)
            expect(got == want, '{}, points as {}: {} instead of {}', what, k, got, want)
    rec.outcome((len(hl), nx))


# -- parallelism ---------------------------------------------------------------------------
def unit(v):
    n2 = sum(Fr(x) ** 2 for x in v)
    return n2


def parallel(u, v):
    """Exact: are u, v collinear (both non-zero)?"""
    return len(u) == len(v) and all(Fr(u[i]) * Fr(v[j]) == Fr(u[j]) * Fr(v[i]) for i in range(len(u)) for j in range(i))


def normals():
    r = [[1], [-3]]
    r += ora.dirs(2, (0, 1, -1, 2))
    r += ora.dirs(3, (0, 1, -1))
    r += [[2, 2, 0], [0, -5, 0], [3, -3, 3], [1, 1, 1.001953125], [1, 0, 0.0009765625]]
    r += [[1, 0, 0, 0], [0, 0, 0, 2], [1, 1, 1, 1], [-2, -2, -2, -2], [1, 1, 1, -1], [0, 0, 0, -1]]
    return r


def par_cases(tier):
    for i in range(len(normals())):
        yield i


def run_par(i, rec):
    ns = normals()
    u = ns[i]
    a = hyp(u, 3)
    bs = [hyp(v, (-1) ** j * j) for j, v in enumerate(ns)]
    want = [parallel(u, v) for v in ns]
    m = len(ns)
    for j in range(m):
        for x, y in ((a, bs[j]), (bs[j], a)):
            got = bools(Hyperplane.is_parallel(x, y), (), 'parallelism')
            expect(got == [want[j]], 'normals {} and {}: parallel is {}', u, ns[j], got)
    got = bools(Hyperplane.is_parallel(a, bs), (m,), 'one with many')
    expect(got == want, 'normal {} with all: wrong at {}', u, [k for k in range(m) if got[k] != want[k]])
    got = bools(Hyperplane.is_parallel(obj_array(bs, (m, 1)), [a]), (m, 1), 'many with one')
    expect(got == want, 'all with normal {}: wrong at {}', u, [k for k in range(m) if got[k] != want[k]])
    for s in (2 ** -20, 2 ** 20, -2 ** 10):
        got = bools(Hyperplane.is_parallel([a], [hyp(ora.scal(s, u), 1)]), (1,), 'scaled')
        expect(got == [True], 'normal {} is not parallel to itself times {}', u, s)
    expect(np.array_equal(a.parameters()[0], np.array(u, dtype=float)), 'the hyperplane changed')
    rec.outcome(len(u))


def partol_cases(tier):
    for n in (2, 3, 4):
        for pos in range(1, n):
            for tol in (1e-8, 1e-6, 1e-3):
                for f in (0.3, 0.9, 1.1, 3):
                    for sgn in (1, -1):
                        for flip in (1, -1):
                            yield [n, pos, tol, f, sgn, flip]


def run_partol(case, rec):
    """Unit normals differing by f tolerances in one coordinate; the tolerance of the first hyperplane counts."""
    n, pos, tol, f, sgn, flip = case
    u, v = [0.] * n, [0.] * n
    u[0] = 1.
    v[0] = math.sqrt(1 - (f * tol) ** 2)
    v[pos] = sgn * f * tol
    v = ora.scal(flip * 4., v)
    a, b = hyp(u, 1, abs_tol=tol), hyp(v, 2, abs_tol=tol / 100)
    c = hyp(v, 2, abs_tol=min(.5, tol * 100))
    for conf in (1e-9, 1e-1):
        Properties.set_abs_tol(conf)
        expect(bools(Hyperplane.is_parallel([a], [b]), (1,), '') == [f < 1], 'normals {} and {} with tolerance {}', u, v, tol)
        expect(bools(Hyperplane.is_parallel([b], [a]), (1,), '') == [False], 'normals {} and {} with tolerance {}', v, u, tol / 100)
        expect(bools(Hyperplane.is_parallel([c, b], [a, a]), (2,), '') == [True, False], 'tolerances of the first hyperplanes')
        expect(bools(Hyperplane.is_parallel([c, b], a), (2,), '') == [True, False], 'tolerances of the first hyperplanes')
        expect(bools(Hyperplane.is_parallel(a, [c, b]), (2,), '') == [f < 1] * 2, 'tolerance of the first hyperplane')
    rec.outcome(f < 1)


def parr_cases(tier):
    for s1 in HSH:
        for s2 in HSH:
            for off in range(2):
                yield [list(s1), list(s2), off]


PN = [[1, 2], [-2, -4], [2, 1], [3, 6], [1, -2], [0, 1, 0], [0, -3, 0]]


def run_parr(case, rec):
    s1, s2, off = case
    k1, k2 = int(np.prod(s1)), int(np.prod(s2))
    u = [PN[(off + i) % 7] for i in range(k1)]
    v = [PN[(off + 1 + 2 * i) % 7] for i in range(k2)]
    a, b = obj_array([hyp(x, 1) for x in u], tuple(s1)), obj_array([hyp(x, 2) for x in v], tuple(s2))
    what = 'parallelism of arrays of shapes {} and {}'.format(s1, s2)
    if k1 == 1 or k2 == 1 or s1 == s2:
        shp = s1 if k2 == 1 and k1 != 1 or s1 == s2 else s2 if k2 != 1 else s1
        r = Hyperplane.is_parallel(a, b)
        if k1 == k2 == 1:
            shp = np.shape(r)
        got = bools(r, shp, what)
        m = max(k1, k2)
        want = [parallel(u[i if k1 > 1 else 0], v[i if k2 > 1 else 0]) for i in range(m)]
        expect(got == want, '{}: {} instead of {}', what, got, want)
        rec.outcome((k1 == 1, k2 == 1))
    else:
        expect_error(lambda: Hyperplane.is_parallel(a, b), 'wrongSizes', what)
        rec.outcome('rejected')


# -- dimension -----------------------------------------------------------------------------
def dim_cases(tier):
    for tol in (1e-6, 1e-3):
        for v in (0, 1, -2, 0.3, -0.3, 3):
            for s in (0, 5, 0.3, -0.3, 3):
                yield [tol, v, s]
    for i in range(len(HSH)):
        yield i


def run_dim(case, rec):
    if isinstance(case, list):
        tol, v, s = case
        vv = v if abs(v) in (1, 2) else v * tol
        ss = s if s == 5 else s * tol
        h = hyp([vv], ss, abs_tol=tol)
        want = 0 if abs(vv) <= tol and abs(ss) <= tol else 1
        Properties.set_abs_tol(1e-1)
        for k in ARRAY_KINDS:
            d = Hyperplane.dimension(wrap(h, k))
            expect(np.shape(d) == shp_of(k) and int(np.ravel(d)[0]) == want, 'dimension of the hyperplane {} {} (tolerance {}): {!r}', vv, ss, tol, d)
            e = Hyperplane.is_empty(wrap(h, k))
            expect(np.shape(e) == shp_of(k) and bool(np.ravel(e)[0]) == (want == 0), 'emptiness of the hyperplane {} {}: {!r}', vv, ss, e)
        rec.outcome(want)
        return
    shp = HSH[case]
    m = int(np.prod(shp))
    pool = [[0], [1], [0, 0], [1, 2], [0, 0, 0], [1, 0, 0], [0, 0, 0, 1e-9], [1, 2, 3, 4, 5]]
    for o in range(8):
        for st in (1, 3):
            vs = [pool[(o + st * i) % 8] for i in range(m)]
            d = Hyperplane.dimension(obj_array([hyp(v, 0) for v in vs], shp))
            expect(np.shape(d) == shp and np.ravel(d).tolist() == [0 if v == [0] else len(v) for v in vs], 'dimensions of {}: {!r}', vs, d)
    rec.outcome(m)


def bad_cases(tier):
    for i in range(8):
        yield i


def run_bad(i, rec):
    h2, h3 = hyp([1, 2], 1), hyp([1, 2, 3], 1)
    nan = float('nan')
    if i == 0:
        for x in ([[1], [2], [3]], [[1]], [[1, 2], [1, 2], [1, 2]], [[1, 2]]):
            expect_error(lambda: Hyperplane.contains([h2], arr(x)), 'wrongSizes', 'points of other dimension')
    elif i == 1:
        for a in ([h2, h3], [h3, h2], [h2, h2, h3]):
            expect_error(lambda: Hyperplane.contains(a, arr([[1], [2]])), 'wrongSizes', 'hyperplanes of different dimensions')
            expect_error(lambda: Hyperplane.contains(a, arr([[1], [2], [3]])), 'wrongSizes', 'hyperplanes of different dimensions')
    elif i == 2:
        for x in ([[nan], [1]], [[1, 1], [2, nan]], [[nan, INF], [INF, 0]]):
            expect_error(lambda: Hyperplane.contains([h2], np.array(x)), 'wrongInput', 'undefined coordinates')
    elif i == 3:
        expect_error(lambda: Hyperplane.contains([h2], np.array([['a'], ['b']])), 'wrongInput', 'text coordinates')
    elif i == 4:
        for bad in (ell([[1]]), 5, [h2, 'x'], [h2, ell(ora.eye(2))]):
            expect_error(lambda: Hyperplane.contains(bad, arr([[1], [2]])), 'wrongInput', 'not hyperplanes')
    elif i == 5:
        for bad in (ell([[1]]), 5, [h2, 'x'], [h2, ell(ora.eye(2))]):
            expect_error(lambda: Hyperplane.is_parallel(bad, h2), 'wrongInput', 'not hyperplanes')
            expect_error(lambda: Hyperplane.is_parallel(h2, bad), 'wrongInput', 'not hyperplanes')
    elif i == 6:
        for bad in (ell([[1]]), 5, [h2, 'x'], [h2, ell(ora.eye(2))]):
            expect_error(lambda: Hyperplane.dimension(bad), 'wrongInput', 'not hyperplanes')
    else:
        expect_error(lambda: Hyperplane.contains([h2, h2], arr([[1, 1, 1], [2, 2, 2]])), 'wrongSizes', 'two hyperplanes, three points')
        expect_error(lambda: Hyperplane.contains([h2, h2], arr([[1] * 4, [2] * 4])), 'wrongSizes', 'two hyperplanes, four points')
    rec.outcome(i)


CHECK = Check('C18', 'exploration',
              'all hyperplanes over small alphabets at three scales x grid points including infinities, all pairings of array shapes, all pairs of normals, '
              'distances around the tolerances; non-trivial: dimension above one or several objects',
              generic('C18') +
              [Stage('membership', mem_cases, run_mem, nontrivial=lambda c: c[0] > 1, setup=reset),
               Stage('small normals', small_cases, run_small, setup=reset),
               Stage('tolerance', tol_cases, run_tol, setup=reset),
               Stage('pairing', pair_cases, run_pair, setup=reset),
               Stage('parallel', par_cases, run_par, setup=reset),
               Stage('parallel_tolerance', partol_cases, run_partol, setup=reset),
               Stage('parallel_arrays', parr_cases, run_parr, setup=reset),
               Stage('dimension', dim_cases, run_dim, setup=reset),
               Stage('rejected', bad_cases, run_bad, setup=reset)])
