"""Shared exploration of external and internal approximations of geometric sums (C15, C16)."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

import ora
from core import Check, Stage
from variants import stages as generic
from lib import ARRAY_KINDS, FORM_KINDS, Ellipsoid, Properties, arr, ell, expect, expect_error, form, hyp, obj_array, reset, snap, wrap

MENU = {
    1: [([3], [[4]]), ([-1], [[1]]), ([0], [[Fr(1, 4)]]), ([2], [[0]])],
    2: [([1, -2], [[2, 1], [1, 3]]), ([0, 0], [[1, 0], [0, 1]]), ([3, 1], [[9, 0], [0, 1]]), ([0, 5], [[5, -3], [-3, 2]]),
        ([-1, 0], [[1, -1], [-1, 1]]), ([1, 1], [[0, 0], [0, 4]]), ([7, 7], [[0, 0], [0, 0]]), ([0, 1], [[2, 1], [1, 3]]), ([0, 0], [[4, 0], [0, 4]])],
    3: [([1, -2, 0], [[2, 1, 0], [1, 3, -1], [0, -1, 4]]), ([0, 0, 0], ora.eye(3)), ([0, 1, 5], ora.diag([1, 4, 9])), ([2, 0, 0], [[1, 1, 0], [1, 1, 0], [0, 0, 2]]),
        ([-1, -1, -1], ora.diag([0, 0, 4])), ([0, 0, 1], [[5, 2, 1], [2, 1, 0], [1, 0, 6]])],
    4: [([1, 0, 0, -3], [[2, 1, 0, 1], [1, 3, -1, 0], [0, -1, 4, 1], [1, 0, 1, 5]]), ([0, 1, 0, 0], ora.diag([1, 4, 9, 16])), ([0, 0, 0, 0], ora.eye(4)),
        ([1, 1, 1, 1], ora.diag([1, 1, 0, 0]))]}


def rank_def(q):
    return ora.rank(q) < len(q)


def reg(q, tol):
    """Shape matrix with eigenvalues below the tolerance raised to it."""
    w, v = ora.jacobi(q)
    if min(w) > tol:
        return arr(q)
    v = np.array(ora.fl(v), dtype=float)
    d = np.maximum(np.array(w, dtype=float), tol)
    a, b = v @ np.diag(d) @ v.T, v.T @ np.diag(d) @ v
    return a if float(np.max(np.abs(v @ np.diag(w) @ v.T - arr(q)))) < 1e-6 * (1 + max(w)) else b


def support(items, d, tols=None):
    """Sum of the support functions at the directions (rows of d)."""
    s = np.zeros(len(d))
    for i, (c, q) in enumerate(items):
        qa = arr(q) if tols is None else reg(q, tols[i])
        s += d @ arr(c) + np.sqrt(np.maximum(np.sum((d @ qa) * d, axis=1), 0))
    return s


_grid = {}


def grid(n):
    if n not in _grid:
        if n == 1:
            g = [[1.], [-1.]]
        elif n == 2:
            g = [[math.cos(2 * math.pi * k / 64), math.sin(2 * math.pi * k / 64)] for k in range(64)]
        else:
            g = ora.fl(ora.vecs(n, (-2, -1, 0, 1, 2))) if n == 3 else ora.fl(ora.vecs(n, (-1, 0, 1)))
            g = [x for x in g if any(x)]
        g = np.array(g, dtype=float)
        _grid[n] = g / np.sqrt(np.sum(g ** 2, axis=1, keepdims=True))
    return _grid[n]


def directions(n):
    ds = ora.dirs(n, (0, 1, -1)) if n < 4 else [d for d in ora.dirs(4, (0, 1, -1)) if sum(map(abs, d)) in (1, 4) or d[0] > 0 > d[3]]
    ds = ds + [[3, -7, 11, 2][:n]]
    return [d for d in ds] + [ora.scal(Fr(1, 1024), ds[0]), ora.scal(1024, ds[-1])]


def verify(ext, res, items, tols, ds, what):
    """res: array of approximations, one per direction (rows of ds)."""
    res = np.ravel(np.asarray(res, dtype=object))
    expect(len(res) == len(ds), '{}: {} approximations for {} directions', what, len(res), len(ds))
    n = len(items[0][0])
    cen = np.sum([arr(c) for c, _ in items], axis=0)
    scale = 1 + math.sqrt(max(float(np.max(np.abs(arr(q)))) for _, q in items)) * len(items)
    for i, e in enumerate(res):
        expect(isinstance(e, Ellipsoid), '{}: {!r} in the result', what, type(e))
        c, q = e.parameters()
        c, q = np.ravel(c), np.asarray(q)
        expect(c.shape == (n,) and q.shape == (n, n), '{}: dimension of the result', what)
        expect(bool(np.all(np.abs(c - cen) <= 1e-12 * (1 + np.abs(cen)))), '{}: center {} instead of {}', what, c.tolist(), cen.tolist())
        d = ds[i] / math.sqrt(float(ds[i] @ ds[i]))
        near = [d]
        for j in range(n):
            for s in (0.02, -0.02, 0.3, -0.3):
                x = d.copy()
                x[j] += s
                near.append(x)
        g = np.vstack((np.array(near), grid(n)))
        tol = 1e-7 * scale + 1e-12 * math.sqrt(float(np.max(np.abs(q))))
        got = g @ c + np.sqrt(np.maximum(np.sum((g @ q) * g, axis=1), 0))
        low, high = support(items, g), support(items, g, tols)
        expect(low[0] - tol <= got[0] <= high[0] + tol, '{}: support value {} in the direction {}, the sum has {}', what, float(got[0]), ds[i].tolist(), float(low[0]))
        bad = (got < low - tol) if ext else (got > high + tol)
        k = int(np.argmax(low - got)) if ext else int(np.argmax(got - high))
        expect(not bool(np.any(bad)), '{}: the approximation in the direction {} has support value {} in the direction {}, the sum has {}', what,
               ds[i].tolist(), float(got[k]), g[k].tolist(), float(low[k]))


# elongated, with various axes
LONG = {2: [[[100, 70], [70, 50]], [[100, -70], [-70, 50]], [[100, 0], [0, Fr(1, 100)]], [[Fr(1, 100), 0], [0, 100]], [[50, 70], [70, 100]], [[1, Fr(99, 100)], [Fr(99, 100), 1]],
            [[1, -Fr(99, 100)], [-Fr(99, 100), 1]], [[1, 0], [0, 1]]],
        3: [[[100, 70, 0], [70, 50, 0], [0, 0, 1]], [[100, -70, 0], [-70, 50, 0], [0, 0, 1]], [[1, 0, 0], [0, 100, -70], [0, -70, 50]], ora.diag([100, 1, Fr(1, 100)]),
            ora.diag([Fr(1, 100), 100, 1]), [[50, 0, 70], [0, 1, 0], [70, 0, 100]]]}


def make(ext):
    op = Ellipsoid.minksum_ea if ext else Ellipsoid.minksum_ia

    def pairs(tier):
        for n in (1, 2, 3, 4):
            k = len(MENU[n])
            for r in (2, 3, 4):
                if r == 2:
                    it = itertools.product(range(k), repeat=2)
                elif r == 3:
                    it = itertools.product(range(k), repeat=3) if n < 3 and tier != 'quick' else itertools.combinations_with_replacement(range(k), 3)
                else:
                    it = [[(o + s * i) % k for i in range(4)] for o in range(k) for s in (0, 1, 2, 3)] if tier == 'quick' else \
                        itertools.combinations_with_replacement(range(k), 4)
                for j, idx in enumerate(it):
                    if tier != 'quick' or r == 2 or n < 3 or j % 2 == 0:
                        yield [n, list(idx)]

    def run_pairs(case, rec):
        n, idx = case
        items = [MENU[n][i] for i in idx]
        es = [ell(q, c) for c, q in items]
        before = [snap(e) for e in es]
        all_d = directions(n)
        if len(idx) > 2:
            all_d = all_d[sum(idx) % 3::3]
        ds = arr(all_d)
        dm = ds.T.copy()
        what = 'sum of {}'.format([(ora.fl(c), ora.fl(q)) for c, q in items])
        r = op(obj_array(es, (len(es),)), dm)
        tols = [1e-6] * len(items)
        verify(ext, r, items, tols, ds, what)
        expect([snap(e) for e in es] == before, '{}: the arguments changed', what)
        expect(np.array_equal(dm, ds.T), '{}: the directions changed', what)
        rec.outcome((n, len(idx), sum(rank_def(q) for _, q in items)))

    def tols_cases(tier):
        for n in (2, 3):
            for ta, tb in itertools.product((1e-8, 1e-6, 1e-4), repeat=2):
                for i in range(len(MENU[n])):
                    for j in range(len(MENU[n])):
                        if (rank_def(MENU[n][i][1]) or rank_def(MENU[n][j][1])) and (tier != 'quick' or (i + j) % 2 == 0):
                            yield [n, ta, tb, i, j]

    def run_tols(case, rec):
        """Each degenerate summand is regularized by its own tolerance."""
        n, ta, tb, i, j = case
        items = [MENU[n][i], MENU[n][j]]
        a = [ell(items[0][1], items[0][0], abs_tol=ta), ell(items[1][1], items[1][0], abs_tol=tb)]
        Properties.set_abs_tol(1e-2)
        ds = arr(directions(n)[::4])
        r = op(a, ds.T.copy())
        verify(ext, r, items, [ta, tb], ds, 'sum of {} with tolerances {}'.format(items, (ta, tb)))
        rec.outcome((ta, tb))

    def shape_cases(tier):
        for n in (1, 2, 3):
            for shp in ([1], [1, 1], [2], [1, 2], [2, 1], [3, 1], [2, 2], [1, 2, 2], [2, 3]):
                for k in (1, 2, 5):
                    yield [n, shp, k]
            for kind in ARRAY_KINDS:
                for k in (1, 2, 5):
                    yield [n, kind, k]

    def run_shapes(case, rec):
        n, shp, k = case
        m = 1 if isinstance(shp, str) else int(np.prod(shp))
        items = [MENU[n][i % 2] for i in range(m)]
        es = [ell(q, c) for c, q in items]
        a = wrap(es[0], shp) if isinstance(shp, str) else obj_array(es, tuple(shp))
        ds = arr((directions(n) * 3)[1:1 + k])
        what = 'container {} with {} directions'.format(shp, k)
        for kind in FORM_KINDS:
            if kind == 'complex0':
                continue
            dm = form(ds.T, kind)
            before = dm.copy()
            r = op(a, dm)
            expect(np.array_equal(dm, before), '{}: the directions changed', what)
            flat_r = np.ravel(np.asarray(r, dtype=object))
            if m == 1:
                expect(len(flat_r) == k, '{}: {} results', what, len(flat_r))
                for x in flat_r:
                    expect(isinstance(x, Ellipsoid) and snap(x)[:4] == snap(es[0])[:4], '{}: not the ellipsoid itself', what)
            else:
                verify(ext, r, items, [1e-6] * m, ds, what + ' ' + kind)
        if m > 1:
            verify(ext, op(list(es), ds[0].copy()), items, [1e-6] * m, ds[:1], what + ', one vector')
            one = np.ravel(op(a, ds.T[:, :1].copy()))[0]
            many = np.ravel(op(a, ds.T.copy()))[0]
            expect(bool(np.all(np.abs(np.asarray(one.parameters()[1]) - np.asarray(many.parameters()[1])) < 1e-9)), '{}: results depend on the other directions', what)
        rec.outcome((str(shp), k))

    def bad_cases(tier):
        for i in range(8):
            yield i

    def run_bad(i, rec):
        e2, e3 = ell([[1, 0], [0, 4]]), ell(ora.eye(3))
        d2 = arr([[1, 0], [1, 2]])
        if i == 0:
            expect_error(lambda: op(np.empty((0,), dtype=object), d2), 'emptyArray', 'an empty array')
            expect_error(lambda: op(np.empty((0, 2), dtype=object), d2), 'emptyArray', 'an empty array')
        elif i == 1:
            for a in ([e2, Ellipsoid()], [Ellipsoid(), e2], [Ellipsoid()], [Ellipsoid(), Ellipsoid()]):
                expect_error(lambda: op(a, d2), 'emptyEllipsoid', 'an empty ellipsoid')
        elif i == 2:
            for a in ([e2, e3], [e3, e2], [e2, e2, e3]):
                expect_error(lambda: op(a, d2), 'wrongSizes', 'ellipsoids of different dimensions')
        elif i == 3:
            for a in ([e3], [e3, e3], [ell([[1]])], [ell([[1]]), ell([[2]])]):
                expect_error(lambda: op(a, d2), 'wrongSizes', 'directions of other dimension')
        elif i == 4:
            expect_error(lambda: op([hyp([1, 2], 1), hyp([1, 2], 1)], d2), 'wrongInput', 'hyperplanes')
            expect_error(lambda: op(5, d2), 'wrongInput', 'a number')
        elif i == 5:
            expect_error(lambda: op([e2, 1], d2), 'wrongInput', 'a number among ellipsoids')
        elif i == 6:
            expect_error(lambda: op([e2, e2], arr([1, 2, 3])), 'wrongSizes', 'direction of other dimension')
        else:
            expect_error(lambda: op([e2], arr([1, 2, 3])), 'wrongSizes', 'direction of other dimension')
        rec.outcome(i)

    def uneven_cases(tier):
        for n in (2, 3, 4):
            for i in range(len(MENU[n])):
                for j in range(len(MENU[n])):
                    yield [n, i, j]

    def run_uneven(case, rec):
        """Shape matrices that are symmetric only up to rounding."""
        n, i, j = case
        items = [MENU[n][i], MENU[n][j]]
        es = []
        for k, (c, q) in enumerate(items):
            a = np.array(ora.fl(q), dtype=float)
            a[0, n - 1] += (1e-12, -1e-11)[k]
            es.append(Ellipsoid(arr(c) * 1., a))
        ds = arr(directions(n)[1::5])
        verify(ext, op(es, ds.T.copy()), items, [1e-6] * 2, ds, 'sum of {} with rounding errors'.format(items))
        rec.outcome(sum(rank_def(q) for _, q in items))

    def close_cases(tier):
        for n in (2, 3, 4):
            for k in range(1, 11):
                for j in range(n):
                    yield [n, k, j]

    def run_close(case, rec):
        """Summands that are almost equal, or almost proportional, map a direction to almost parallel vectors."""
        n, k, j = case
        eps = Fr(1, 10 ** k)
        base = ora.eye(n)
        for q in (base, MENU[n][0][1]):
            near = [list(r) for r in q]
            near[j][j] = near[j][j] + eps
            skew = [list(r) for r in q]
            skew[0][n - 1] = skew[n - 1][0] = skew[0][n - 1] + eps
            for other in (near, skew, ora.mscal(9, near), ora.madd(q, ora.mscal(eps, q))):
                for items in ([([0] * n, q), ([1] * n, other)], [([0] * n, q), ([1] * n, q), ([0] * n, other)], [([2] * n, other), ([0] * n, q)]):
                    ds = arr([[1] * n, [1] + [0] * (n - 1), [3, -7, 11, 2][:n], [1, -1, 1, -1][:n]])
                    verify(ext, op([ell(m, c) for c, m in items], ds.T.copy()), items, [1e-6] * len(items), ds, 'sum of {}'.format([ora.fl(m) for _, m in items]))
        rec.outcome(k)

    def long_cases(tier):
        for n in (2, 3):
            m = len(LONG[n])
            for i in range(m):
                for j in range(m):
                    yield [n, [i, j]]
                    if tier != 'quick' or (i + j) % 2 == 0:
                        yield [n, [i, j, (i + 2 * j + 1) % m]]

    def run_long(case, rec):
        n, idx = case
        items = [([(k + 1) * (-1) ** k] * n, LONG[n][i]) for k, i in enumerate(idx)]
        ds = arr(ora.dirs(2, (-3, -2, -1, 0, 1, 2, 3)) if n == 2 else ora.dirs(3, (0, 1, -1)) + [[3, -1, 2], [1, 5, -5], [-4, 3, 1]])
        verify(ext, op([ell(q, c) for c, q in items], ds.T.copy()), items, [1e-6] * len(items), ds, 'sum of {}'.format([ora.fl(q) for _, q in items]))
        rec.outcome((n, len(idx)))

    name = 'external' if ext else 'internal'
    return Check('C15' if ext else 'C16', 'exploration',
                 'all pairs, menus of triples and quadruples of ellipsoids including degenerate ones x all directions over {{-1,0,1}} and scaled ones, every {} '
                 'approximation compared with the sum of support functions on a grid of directions; tolerances; containers; non-trivial: dimension above one'.format(name),
                 generic('C15' if ext else 'C16') +
                 [Stage('sums', pairs, run_pairs, nontrivial=lambda c: c[0] > 1, setup=reset),
                  Stage('tolerances', tols_cases, run_tols, setup=reset),
                  Stage('elongated', long_cases, run_long, setup=reset),
                  Stage('containers', shape_cases, run_shapes, setup=reset),
                  Stage('uneven', uneven_cases, run_uneven, setup=reset),
                  Stage('almost equal', close_cases, run_close, setup=reset),
                  Stage('rejected', bad_cases, run_bad, setup=reset)])
